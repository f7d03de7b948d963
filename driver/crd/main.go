// Command crd runs the schema parser, the flattener and the description limiter on generated input.
// usage: crd CASES OBS. A case has a mode: "types" (Go source), "flat" (schemas with references), "trunc".
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"

	"sigs.k8s.io/controller-tools/pkg/crd"
	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

type Case struct {
	ID    string            `json:"id"`
	Mode  string            `json:"mode"`
	Files map[string]string `json:"files"`
	Opts  struct {
		IgnoreUnexported bool `json:"ignoreUnexported"`
		Dangerous        bool `json:"dangerous"`
		EmbeddedMeta     bool `json:"embeddedMeta"`
		Known            bool `json:"known"`
	} `json:"opts"`
	// Orders lists orders of asking for flattened types (pkg.Type); each runs on a new parser
	Orders [][]string `json:"orders"`
	// Raw gives the schemas of mode "flat", by pkg.Type
	Raw map[string]json.RawMessage `json:"raw"`
	// Extra asks for Schemata of types of imported packages too
	Schema json.RawMessage `json:"schema"`
	Max    int             `json:"max"`
	// Asks is what mode "asks" asks for, in order
	Asks []AskFor `json:"asks"`
	// Only limits mode "types" to these types
	Only []string `json:"only"`
}
type AskFor struct {
	Op, Pkg, Name, Group string
	Described            bool
}
type Ref struct {
	Pkg  string `json:"pkg"`
	Name string `json:"name"`
}
type CRD struct {
	Group     string   `json:"group"`
	Kind      string   `json:"kind"`
	Versions  []string `json:"versions"`
	Storage   []string `json:"storage"`
	Described bool     `json:"described"`
}

// Has is what a parser has
type Has struct {
	Types   []Ref      `json:"types"`
	Lookup  []Ref      `json:"lookup"`
	GVs     [][]string `json:"gvs"`
	Schemas []Ref      `json:"schemas"`
	Flats   []Ref      `json:"flats"`
	CRDs    []CRD      `json:"crds"`
	Errs    int        `json:"errs"`
	Odd     []string   `json:"odd"`
}
type Ask struct {
	Type  string          `json:"type"`
	Flat  json.RawMessage `json:"flat"`
	Errs  []string        `json:"errs"`
	Panic string          `json:"panic"`
	// Kept tells that everything handed out or stored before is as it was
	Kept string `json:"kept"`
}
type Obs struct {
	// In is the given schema as the library prints it
	In      json.RawMessage            `json:"in,omitempty"`
	ID      string                     `json:"id"`
	Raw     map[string]json.RawMessage `json:"raw"`
	RawErrs map[string][]string        `json:"rawErrs"`
	Panics  map[string]string          `json:"panics"`
	Runs    [][]Ask                    `json:"runs"`
	Errs    []string                   `json:"errs"`
	Out     json.RawMessage            `json:"out"`
	Outs    []json.RawMessage          `json:"outs"`
	Has     []Has                      `json:"has,omitempty"`
}

func js(v interface{}) json.RawMessage {
	b, err := json.Marshal(v)
	vc.Must(err)
	return b
}

func errsOf(pkgs []*loader.Package) []string {
	res := []string{}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			if e.Kind == packages.TypeError {
				continue
			}
			res = append(res, filepath.Base(e.Pos)+": "+e.Msg)
		}
	}
	return res
}

func main() {
	cases := vc.ReadCases[Case]()
	out := vc.NewOut()
	dir, err := os.MkdirTemp("", "crd")
	vc.Must(err)
	defer os.RemoveAll(dir)
	dir, err = filepath.EvalSymlinks(dir)
	vc.Must(err)
	vc.Module(dir)
	var paths []string
	flat := false
	for i, c := range cases {
		switch c.Mode {
		case "types", "asks":
			for n, text := range c.Files {
				c.Files[n] = strings.ReplaceAll(text, "@MOD@", fmt.Sprintf("m.test/c%d", i))
			}
			vc.WriteFiles(filepath.Join(dir, fmt.Sprintf("c%d", i)), c.Files)
			paths = append(paths, fmt.Sprintf("./c%d/...", i))
		case "flat":
			flat = true
		}
	}
	if flat {
		vc.WriteFiles(dir, map[string]string{
			"flat/a/a.go": "package a\nimport (\n_ \"m.test/flat/b\"\n_ \"m.test/flat/~me/v~0/c\"\n)\n",
			"flat/b/b.go": "package b\nimport _ \"m.test/flat/~me/v~0/c\"\n", "flat/~me/v~0/c/c.go": "package c\n"})
		paths = append(paths, "./flat/...")
	}
	byCase := map[int][]*loader.Package{}
	flatPkgs := map[string]*loader.Package{}
	if len(paths) > 0 {
		roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: dir}, paths...)
		vc.Must(err)
		for _, r := range roots {
			if n, ok := strings.CutPrefix(r.PkgPath, "m.test/flat/"); ok {
				flatPkgs[n[len(n)-1:]] = r // a, b and c, the last one with a path that needs escapes
				continue
			}
			var n int
			_, err := fmt.Sscanf(strings.TrimPrefix(r.PkgPath, "m.test/c"), "%d", &n)
			vc.Must(err)
			byCase[n] = append(byCase[n], r)
		}
	}
	for i, c := range cases {
		switch c.Mode {
		case "types":
			out.Put(doTypes(i, c, byCase[i]))
		case "asks":
			out.Put(doAsks(i, c, byCase[i]))
		case "flat":
			out.Put(doFlat(c, flatPkgs))
		case "trunc":
			out.Put(doTrunc(c))
		}
	}
	out.Close()
}

func newParser(c Case) *crd.Parser {
	reg := &markers.Registry{}
	vc.Must(crdmarkers.Register(reg))
	p := &crd.Parser{
		Collector:              &markers.Collector{Registry: reg},
		Checker:                &loader.TypeChecker{NodeFilters: []loader.NodeFilter{crd.Generator{}.CheckFilter()}},
		IgnoreUnexportedFields: c.Opts.IgnoreUnexported, AllowDangerousTypes: c.Opts.Dangerous,
		GenerateEmbeddedObjectMeta: c.Opts.EmbeddedMeta,
	}
	crd.AddKnownTypes(p)
	return p
}

func clearErrs(pkgs []*loader.Package) {
	for _, p := range pkgs {
		p.Errors = nil
	}
}

func snapshot(p *crd.Parser) map[crd.TypeIdent]string {
	m := map[crd.TypeIdent]string{}
	for id, s := range p.Schemata {
		m[id] = string(js(s))
	}
	return m
}

func doTypes(i int, c Case, roots []*loader.Package) Obs {
	o := Obs{ID: c.ID, Raw: map[string]json.RawMessage{}, RawErrs: map[string][]string{}, Panics: map[string]string{}}
	prefix := fmt.Sprintf("m.test/c%d", i)
	rel := func(p *loader.Package) string { return strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, prefix), "/") }
	p := newParser(c)
	for _, r := range roots {
		p.NeedPackage(r)
	}
	o.Errs = errsOf(roots)
	clearErrs(roots)
	var ids []crd.TypeIdent
	for id := range p.Types {
		ids = append(ids, id)
	}
	key := func(id crd.TypeIdent) string { return rel(id.Package) + "." + id.Name }
	sort.Slice(ids, func(a, b int) bool { return key(ids[a]) < key(ids[b]) })
	for _, id := range ids {
		isRoot := false
		for _, r := range roots {
			isRoot = isRoot || r == id.Package
		}
		if !isRoot || (len(c.Only) > 0 && !slices.Contains(c.Only, key(id))) {
			continue
		}
		// a parser of its own for each type, so that its errors are its own
		pp := newParser(c)
		if pn := vc.Safely(func() { pp.NeedSchemaFor(id) }); pn != "" {
			o.Panics[key(id)] = pn
			clearErrs(roots)
			continue
		}
		o.Raw[key(id)] = js(pp.Schemata[id])
		o.RawErrs[key(id)] = errsOf(roots)
		clearErrs(roots)
	}
	for _, ord := range c.Orders {
		o.Runs = append(o.Runs, doOrder(c, ord, roots, func(n string) crd.TypeIdent {
			k := strings.LastIndex(n, ".")
			for _, r := range roots {
				if rel(r) == n[:k] {
					return crd.TypeIdent{Package: r, Name: n[k+1:]}
				}
			}
			vc.Must(fmt.Errorf("no type %s", n))
			return crd.TypeIdent{}
		}, nil))
	}
	return o
}

func doOrder(c Case, ord []string, pkgs []*loader.Package, find func(string) crd.TypeIdent, prep func(p *crd.Parser)) []Ask {
	p := newParser(c)
	if prep != nil {
		prep(p)
	}
	for _, r := range pkgs {
		p.NeedPackage(r)
	}
	clearErrs(pkgs)
	res := []Ask{}
	handed := map[crd.TypeIdent]apiext.JSONSchemaProps{}
	handedJS := map[crd.TypeIdent]string{}
	for _, n := range ord {
		id := find(n)
		a := Ask{Type: n}
		before := snapshot(p)
		a.Panic = vc.Safely(func() {
			p.NeedFlattenedSchemaFor(id)
			a.Flat = js(p.FlattenedSchemata[id])
		})
		if a.Flat == nil {
			a.Flat = json.RawMessage("{}")
		}
		for id2, s := range before {
			if now := string(js(p.Schemata[id2])); now != s {
				a.Kept += fmt.Sprintf("schema of %s changed from %s to %s; ", id2.Name, s, now)
			}
		}
		for id2, s := range handed {
			if string(js(s)) != handedJS[id2] || string(js(p.FlattenedSchemata[id2])) != handedJS[id2] {
				a.Kept += fmt.Sprintf("flattened schema of %s changed; ", id2.Name)
			}
		}
		handed[id] = p.FlattenedSchemata[id]
		handedJS[id] = string(js(handed[id]))
		a.Errs = errsOf(pkgs)
		clearErrs(pkgs)
		res = append(res, a)
	}
	return res
}

// refTo is a reference as the cases write it: @PKG.TYPE
var refTo = regexp.MustCompile(`"@[abc]\.\w+"`)

func doFlat(c Case, pkgs map[string]*loader.Package) Obs {
	o := Obs{ID: c.ID}
	all := []*loader.Package{pkgs["a"], pkgs["b"], pkgs["c"]}
	ident := func(n string) crd.TypeIdent { return crd.TypeIdent{Package: pkgs[n[:1]], Name: n[2:]} }
	for _, ord := range c.Orders {
		o.Runs = append(o.Runs, doOrder(c, ord, all, ident, func(p *crd.Parser) {
			for n, raw := range c.Raw {
				raw = refTo.ReplaceAllFunc(raw, func(m []byte) []byte {
					pkg, name, _ := strings.Cut(string(m[2:len(m)-1]), ".")
					if pkg == n[:1] {
						return js(crd.TypeRefLink("", name))
					}
					return js(crd.TypeRefLink(pkgs[pkg].PkgPath, name))
				})
				var s apiext.JSONSchemaProps
				vc.Must(json.Unmarshal(raw, &s))
				p.Schemata[ident(n)] = s
			}
		}))
	}
	return o
}

func doTrunc(c Case) Obs {
	o := Obs{ID: c.ID}
	var s apiext.JSONSchemaProps
	vc.Must(json.Unmarshal(c.Schema, &s))
	o.In = js(s)
	if pn := vc.Safely(func() { crd.TruncateDescription(&s, c.Max) }); pn != "" {
		o.Panics = map[string]string{"": pn}
	}
	o.Out = js(s)
	return o
}

// asking runs what is asked for on the parser and tells what the parser has afterwards
func doAsks(i int, c Case, roots []*loader.Package) Obs {
	o := Obs{ID: c.ID, Panics: map[string]string{}, Has: []Has{}}
	pkgs := map[string]*loader.Package{}
	names := map[*loader.Package]string{}
	for _, r := range roots {
		n := r.PkgPath[strings.LastIndex(r.PkgPath, "/")+1:]
		pkgs[n], names[r] = r, n
	}
	ref := func(id crd.TypeIdent) Ref { return Ref{names[id.Package], id.Name} }
	p := newParser(c)
	// what a parser says that is asked for one thing only
	type alone struct{ raw, flat, bare string }
	fresh := map[crd.TypeIdent]alone{}
	zero := 0
	freshOf := func(id crd.TypeIdent) alone {
		if a, ok := fresh[id]; ok {
			return a
		}
		var a alone
		q := newParser(c)
		q.NeedSchemaFor(id)
		a.raw = string(js(q.Schemata[id]))
		q = newParser(c)
		q.NeedFlattenedSchemaFor(id)
		f := q.FlattenedSchemata[id]
		a.flat = string(js(f))
		f = *f.DeepCopy()
		crd.TruncateDescription(&f, zero)
		a.bare = string(js(f))
		clearErrs(roots)
		fresh[id] = a
		return a
	}
	crds := map[string]string{}
	for _, a := range c.Asks {
		id := crd.TypeIdent{Package: pkgs[a.Pkg], Name: a.Name}
		clearErrs(roots)
		if pn := vc.Safely(func() {
			switch a.Op {
			case "package":
				if a.Described {
					p.AddPackage(pkgs[a.Pkg])
				} else {
					p.NeedPackage(pkgs[a.Pkg])
				}
			case "schema":
				p.NeedSchemaFor(id)
			case "flat":
				p.NeedFlattenedSchemaFor(id)
			case "crd":
				max := &zero
				if a.Described {
					max = nil
				}
				p.NeedCRDFor(schema.GroupKind{Group: a.Group, Kind: a.Name}, max)
			}
		}); pn != "" {
			o.Panics[a.Op+" "+a.Pkg+a.Group+"."+a.Name] = pn
			break
		}
		h := Has{Errs: len(errsOf(roots)), Types: []Ref{}, Lookup: []Ref{}, GVs: [][]string{}, Schemas: []Ref{}, Flats: []Ref{}, CRDs: []CRD{}, Odd: []string{}}
		for id := range p.Types {
			h.Types = append(h.Types, ref(id))
		}
		for _, r := range roots {
			for _, n := range []string{"K", "L", "T", "U", "V"} {
				if p.LookupType(r, n) != nil {
					h.Lookup = append(h.Lookup, Ref{names[r], n})
				}
			}
		}
		for pkg, gv := range p.GroupVersions {
			h.GVs = append(h.GVs, []string{names[pkg], gv.Group, gv.Version})
		}
		for id, s := range p.Schemata {
			h.Schemas = append(h.Schemas, ref(id))
			if string(js(s)) != freshOf(id).raw {
				h.Odd = append(h.Odd, "schema of "+names[id.Package]+"."+id.Name)
			}
		}
		for id, s := range p.FlattenedSchemata {
			h.Flats = append(h.Flats, ref(id))
			if string(js(s)) != freshOf(id).flat {
				h.Odd = append(h.Odd, "flattened schema of "+names[id.Package]+"."+id.Name)
			}
		}
		for gk, d := range p.CustomResourceDefinitions {
			x := CRD{Group: gk.Group, Kind: gk.Kind, Versions: []string{}, Storage: []string{}}
			key := gk.String()
			if was, ok := crds[key]; ok && was != string(js(d)) {
				h.Odd = append(h.Odd, "changed "+key)
			}
			crds[key] = string(js(d))
			for _, v := range d.Spec.Versions {
				x.Versions = append(x.Versions, v.Name)
				if v.Storage {
					x.Storage = append(x.Storage, v.Name)
				}
				got, found := string(js(v.Schema.OpenAPIV3Schema)), false
				for pkg, gv := range p.GroupVersions {
					if gv.Group == gk.Group && gv.Version == v.Name {
						f := freshOf(crd.TypeIdent{Package: pkg, Name: gk.Kind})
						found = found || got == f.flat || got == f.bare
						x.Described = x.Described || got == f.flat
					}
				}
				if !found {
					h.Odd = append(h.Odd, "schema in the CRD "+key+" "+v.Name)
				}
			}
			h.CRDs = append(h.CRDs, x)
		}
		sort.Strings(h.Odd)
		o.Has = append(o.Has, h)
	}
	clearErrs(roots)
	return o
}

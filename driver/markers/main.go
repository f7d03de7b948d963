// Command markers parses markers: texts against definitions ("parse"), or whole packages ("collect").
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

type Type struct {
	K   string `json:"k"`
	Of  []Type `json:"of"`
	Ptr bool   `json:"ptr"`
}
type Arg struct {
	Name string `json:"name"`
	Type Type   `json:"type"`
	Opt  bool   `json:"opt"`
}
type Def struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Strict bool   `json:"strict"`
	Args   []Arg  `json:"args"`
	Target int    `json:"target"`
}
type Case struct {
	ID    string            `json:"id"`
	Defs  []Def             `json:"defs"`
	Text  string            `json:"text"`
	Files map[string]string `json:"files"`
	Reps  int               `json:"reps"`
}
type Val struct {
	Def  string   `json:"def"`
	Vals []string `json:"vals"`
}
type Node struct {
	Name string `json:"name"` // "" the package, T a type, T.F a field
	Doc  string `json:"doc"`
	Vals []Val  `json:"vals"`
}
type Rep struct {
	Nodes  []Node   `json:"nodes"`
	Errs   []string `json:"errs"`
	Err    bool     `json:"err"`
	PkgErr bool     `json:"pkgerr"`
	Panic  string   `json:"panic"`
}
type Obs struct {
	ID    string   `json:"id"`
	Def   string   `json:"def"`
	Err   string   `json:"err"`
	Vals  []string `json:"vals"`
	Panic string   `json:"panic"`
	Reps  []Rep    `json:"reps"`
}

func goType(t Type) reflect.Type {
	var r reflect.Type
	switch t.K {
	case "int":
		r = reflect.TypeOf(int(0))
	case "i32":
		r = reflect.TypeOf(int32(0))
	case "num":
		r = reflect.TypeOf(float64(0))
	case "str":
		r = reflect.TypeOf("")
	case "bool":
		r = reflect.TypeOf(false)
	case "any":
		r = reflect.TypeOf((*interface{})(nil)).Elem()
	case "slice":
		r = reflect.SliceOf(goType(t.Of[0]))
	case "map":
		r = reflect.MapOf(reflect.TypeOf(""), goType(t.Of[0]))
	case "raw":
		r = reflect.TypeOf(markers.RawArguments(nil))
	}
	if t.Ptr {
		r = reflect.PointerTo(r)
	}
	return r
}

type anyMarker struct{ Value interface{} }

func makeDef(d Def) *markers.Definition {
	var def *markers.Definition
	var err error
	switch {
	case d.Kind == "anon" && d.Args[0].Type.K == "any":
		def, err = markers.MakeAnyTypeDefinition(d.Name, markers.TargetType(d.Target), anyMarker{})
	case d.Kind == "anon":
		def, err = markers.MakeDefinition(d.Name, markers.TargetType(d.Target), reflect.Zero(goType(d.Args[0].Type)).Interface())
	default:
		fields := []reflect.StructField{}
		for i, a := range d.Args {
			tag := a.Name
			if a.Opt {
				tag += ",optional"
			}
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: goType(a.Type), Tag: reflect.StructTag(fmt.Sprintf("marker:%q", tag))})
		}
		def, err = markers.MakeDefinition(d.Name, markers.TargetType(d.Target), reflect.Zero(reflect.StructOf(fields)).Interface())
	}
	vc.Must(err)
	def.Strict = d.Strict
	return def
}

func cstr(s string) string { return fmt.Sprintf("s%d:%s", len(s), s) }

// canon renders a value as the specification does.
func canon(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return canon(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + canon(v.Elem())
	case reflect.Int, reflect.Int32, reflect.Int64:
		return "i" + strconv.FormatInt(v.Int(), 10)
	case reflect.Float64:
		return "n" + strconv.FormatFloat(v.Float(), 'f', -1, 64)
	case reflect.String:
		return cstr(v.String())
	case reflect.Bool:
		if v.Bool() {
			return "bT"
		}
		return "bF"
	case reflect.Slice:
		if v.Type() == reflect.TypeOf(markers.RawArguments(nil)) {
			return cstr(string(v.Bytes()))
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, canon(v.Index(i)))
		}
		return "[" + strings.Join(p, "|") + "]"
	case reflect.Map:
		keys := []string{}
		for _, k := range v.MapKeys() {
			keys = append(keys, k.String())
		}
		sort.Strings(keys)
		for i, k := range keys {
			keys[i] = cstr(k) + "=" + canon(v.MapIndex(reflect.ValueOf(k)))
		}
		return "{" + strings.Join(keys, "|") + "}"
	}
	return "?" + v.Kind().String()
}

func valuesOf(def Def, v interface{}) []string {
	res := []string{}
	rv := reflect.ValueOf(v)
	switch {
	case def.Kind == "anon" && def.Args[0].Type.K == "any":
		res = append(res, canon(rv.Field(0)))
	case def.Kind == "anon":
		res = append(res, canon(rv))
	default:
		for i := range def.Args {
			res = append(res, canon(rv.Field(i)))
		}
	}
	return res
}

func main() {
	cases := vc.ReadCases[Case]()
	out := vc.NewOut()
	defer out.Close()
	dir, err := os.MkdirTemp("", "markers")
	vc.Must(err)
	defer os.RemoveAll(dir)
	dir, err = filepath.EvalSymlinks(dir)
	vc.Must(err)
	vc.Module(dir)
	max := 0
	obs := make([]Obs, len(cases))
	for i, c := range cases {
		obs[i].ID = c.ID
		if c.Reps > max {
			max = c.Reps
		}
		if c.Reps > 0 {
			vc.WriteFiles(filepath.Join(dir, fmt.Sprintf("c%d", i)), c.Files)
		} else {
			parse(c, &obs[i])
		}
	}
	for rep := 0; rep < max; rep++ {
		var paths []string
		for i, c := range cases {
			if rep < c.Reps {
				paths = append(paths, fmt.Sprintf("./c%d/...", i))
			}
		}
		roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: dir}, paths...)
		vc.Must(err)
		byCase := map[int][]*loader.Package{}
		for _, r := range roots {
			var n int
			_, err := fmt.Sscanf(strings.TrimPrefix(r.PkgPath, "m.test/c"), "%d", &n)
			vc.Must(err)
			byCase[n] = append(byCase[n], r)
		}
		for i, c := range cases {
			if rep < c.Reps {
				obs[i].Reps = append(obs[i].Reps, collect(dir, i, c, byCase[i])...)
			}
		}
	}
	for _, o := range obs {
		out.Put(o)
	}
}

func parse(c Case, o *Obs) {
	reg := &markers.Registry{}
	for _, d := range c.Defs {
		vc.Must(reg.Register(makeDef(d)))
	}
	o.Vals = []string{}
	o.Panic = vc.Safely(func() {
		def := reg.Lookup("+"+c.Text, markers.TargetType(c.Defs[0].Target))
		if def == nil {
			return
		}
		o.Def = def.Name
		v, err := def.Parse("+" + c.Text)
		if err != nil {
			o.Err = "!" + err.Error()
			return
		}
		for _, d := range c.Defs {
			if d.Name == def.Name {
				o.Vals = valuesOf(d, v)
			}
		}
	})
}

func collect(dir string, i int, c Case, roots []*loader.Package) []Rep {
	col := &markers.Collector{Registry: &markers.Registry{}}
	byName := map[string]Def{}
	for _, d := range c.Defs {
		vc.Must(col.Register(makeDef(d)))
		byName[fmt.Sprintf("%d/%s", d.Target, d.Name)] = d
	}
	var res []Rep
	for _, root := range roots {
		r := Rep{Nodes: []Node{}, Errs: []string{}}
		r.Panic = vc.Safely(func() {
			vals := func(target int, mv markers.MarkerValues) []Val {
				vs := []Val{}
				names := []string{}
				for n := range mv {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					for _, v := range mv[n] {
						d, known := byName[fmt.Sprintf("%d/%s", target, n)]
						if !known {
							vs = append(vs, Val{Def: n, Vals: []string{"?"}})
							continue
						}
						vs = append(vs, Val{Def: n, Vals: valuesOf(d, v)})
					}
				}
				return vs
			}
			pm, perr := markers.PackageMarkers(col, root)
			if perr != nil {
				r.PkgErr = true
				root.AddError(perr)
			} else {
				r.Nodes = append(r.Nodes, Node{Vals: vals(0, pm)})
			}
			err := markers.EachType(col, root, func(t *markers.TypeInfo) {
				r.Nodes = append(r.Nodes, Node{Name: t.Name, Doc: t.Doc, Vals: vals(1, t.Markers)})
				for fi, f := range t.Fields {
					n := f.Name
					if n == "" {
						n = fmt.Sprintf("#%d", fi)
					}
					r.Nodes = append(r.Nodes, Node{Name: t.Name + "." + n, Doc: f.Doc, Vals: vals(2, f.Markers)})
				}
			})
			r.Err = err != nil
			for _, e := range root.Errors {
				r.Errs = append(r.Errs, strings.ReplaceAll(fmt.Sprintf("%d|%s|%s", e.Kind, e.Pos, e.Msg), filepath.Join(dir, fmt.Sprintf("c%d", i))+"/", ""))
			}
		})
		res = append(res, r)
	}
	return res
}

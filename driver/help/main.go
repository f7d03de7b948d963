// Command help registers markers and their help, and records what the help listing says about them, what is found
// under their names and what their parsers accept.
// usage: help CASES OBS, a case: {id, ops} or {id, gens} or {id, options: true}
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/genall/help"
	"sigs.k8s.io/controller-tools/pkg/genall/help/pretty"
	"github.com/fatih/color"
	"sigs.k8s.io/controller-tools/pkg/markers"
	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

// Tree is a type of an argument: one of the kinds, with the type of items and values.
type Tree struct {
	K string `json:"k"`
	E []Tree `json:"e"`
}
type Field struct {
	Name string   `json:"name"`
	Type Tree     `json:"type"`
	Tag  []string `json:"tag"`
}
type Text struct {
	Summary string `json:"summary"`
	Details string `json:"details"`
}
type Help struct {
	Text
	Category   string          `json:"category"`
	Deprecated []string        `json:"deprecated"`
	Fields     map[string]Text `json:"fields"`
}
type Def struct {
	Name   string  `json:"name"`
	Target string  `json:"target"`
	Struct bool    `json:"struct"`
	Fields []Field `json:"fields"`
	Type   Tree    `json:"type"`
	Opt    bool    `json:"opt"` // the value of a plain definition may be left out
}
type Op struct {
	Op   string `json:"op"` // def: a new definition, reg: registers the definition again, help: gives the definition help
	Def  *Def   `json:"def"`
	I    int    `json:"i"`
	Help *Help  `json:"help"`
}
type Case struct {
	ID      string   `json:"id"`
	Ops     []Op     `json:"ops"`
	Gens    []string `json:"gens"`
	Options bool     `json:"options"`
	Probes  []Probe  `json:"probes"`
}
type Probe struct {
	I    int    `json:"i"` // definition
	Text string `json:"text"`
}
type Obs struct {
	ID     string          `json:"id"`
	OK     []bool          `json:"ok"`     // of the definitions: could they be made
	Docs   json.RawMessage `json:"docs"`   // the listing
	Print  [][3]string     `json:"print"`  // of its groups: the summary, the details with and without the arguments' own
	Same   bool            `json:"same"`   // the listing is the same every time
	Found  [][3]any        `json:"found"`  // target, name, definition found
	Accept []bool          `json:"accept"` // of the probes
	Defs   []Def           `json:"defs"`   // the definitions of real generators
	Helps  [][]*Help       `json:"helps"`  // and the help their types have
	Help   [][]*Help       `json:"help"`   // and the help registered for them
	Custom []bool          `json:"custom"` // and whether they have parsers of their own
	Panic  string          `json:"panic"`
}

var targets = map[string]markers.TargetType{"package": markers.DescribesPackage, "type": markers.DescribesType, "field": markers.DescribesField}
var anyType = reflect.TypeOf((*interface{})(nil)).Elem()

type namedString string
type namedInt int

func (t Tree) typ() reflect.Type {
	switch t.K {
	case "int":
		return reflect.TypeOf(int(0))
	case "int32":
		return reflect.TypeOf(int32(0))
	case "namedint":
		return reflect.TypeOf(namedInt(0))
	case "int64":
		return reflect.TypeOf(int64(0))
	case "float64":
		return reflect.TypeOf(float64(0))
	case "string":
		return reflect.TypeOf("")
	case "namedstring":
		return reflect.TypeOf(namedString(""))
	case "bool":
		return reflect.TypeOf(false)
	case "any":
		return anyType
	case "raw":
		return reflect.TypeOf(markers.RawArguments(nil))
	case "struct":
		return reflect.TypeOf(struct{ A string }{})
	case "intmap":
		return reflect.TypeOf(map[int]string(nil))
	case "slice":
		return reflect.SliceOf(t.E[0].typ())
	case "map":
		return reflect.MapOf(reflect.TypeOf(""), t.E[0].typ())
	case "ptr":
		return reflect.PointerTo(t.E[0].typ())
	}
	panic(t.K)
}
func tree(t reflect.Type) Tree {
	switch {
	case t == reflect.TypeOf(markers.RawArguments(nil)):
		return Tree{K: "raw", E: []Tree{}}
	case t == anyType:
		return Tree{K: "any", E: []Tree{}}
	}
	switch t.Kind() {
	case reflect.Slice:
		return Tree{"slice", []Tree{tree(t.Elem())}}
	case reflect.Map:
		return Tree{"map", []Tree{tree(t.Elem())}}
	case reflect.Pointer:
		return Tree{"ptr", []Tree{tree(t.Elem())}}
	}
	return Tree{t.Kind().String(), []Tree{}}
}
func (d Def) typ() reflect.Type {
	if !d.Struct {
		return d.Type.typ()
	}
	var fs []reflect.StructField
	for _, f := range d.Fields {
		sf := reflect.StructField{Name: f.Name, Type: f.Type.typ()}
		if f.Name[0] >= 'a' {
			sf.PkgPath = "x"
		}
		if len(f.Tag) > 0 {
			sf.Tag = reflect.StructTag(fmt.Sprintf("marker:%q json:\"other,optional\"", f.Tag[0]))
		}
		fs = append(fs, sf)
	}
	return reflect.StructOf(fs)
}
func describe(d *markers.Definition) Def {
	res := Def{Name: d.Name, Target: d.Target.String(), Fields: []Field{}, Type: Tree{"none", []Tree{}}}
	if n, ok := d.FieldNames[""]; ok && n != "" {
		f, _ := d.Output.FieldByName(n)
		res.Type, res.Opt = tree(f.Type), d.Fields[""].Optional
		return res
	}
	if d.Output.Kind() != reflect.Struct {
		res.Type, res.Opt = tree(d.Output), d.Fields[""].Optional
		return res
	}
	res.Struct = true
	for i := 0; i < d.Output.NumField(); i++ {
		f := d.Output.Field(i)
		x := Field{Name: f.Name, Type: tree(f.Type), Tag: []string{}}
		if t, ok := f.Tag.Lookup("marker"); ok {
			x.Tag = []string{t}
		}
		res.Fields = append(res.Fields, x)
	}
	return res
}
func toHelp(h *Help) *markers.DefinitionHelp {
	r := &markers.DefinitionHelp{Category: h.Category, DetailedHelp: markers.DetailedHelp(h.Text), FieldHelp: map[string]markers.DetailedHelp{}}
	if len(h.Deprecated) > 0 {
		r.DeprecatedInFavorOf = &h.Deprecated[0]
	}
	for n, t := range h.Fields {
		r.FieldHelp[n] = markers.DetailedHelp(t)
	}
	return r
}
func fromHelp(h *markers.DefinitionHelp) []*Help {
	if h == nil {
		return []*Help{}
	}
	r := &Help{Text: Text(h.DetailedHelp), Category: h.Category, Deprecated: []string{}, Fields: map[string]Text{}}
	if h.DeprecatedInFavorOf != nil {
		r.Deprecated = []string{*h.DeprecatedInFavorOf}
	}
	for n, t := range h.FieldHelp {
		r.Fields[n] = Text(t)
	}
	return []*Help{r}
}

type hasHelp interface {
	Help() *markers.DefinitionHelp
}
type hasParser interface {
	ParseMarker(name string, anonymousName string, restFields string) error
}

func run(c Case) (o Obs) {
	o = Obs{ID: c.ID, OK: []bool{}, Found: [][3]any{}, Accept: []bool{}, Defs: []Def{}, Helps: [][]*Help{}, Help: [][]*Help{}, Custom: []bool{}, Docs: json.RawMessage("[]"), Print: [][3]string{}}
	defer func() {
		if r := recover(); r != nil {
			o.Panic = fmt.Sprint(r) + string(debug.Stack())
		}
	}()
	reg := &markers.Registry{}
	var defs []*markers.Definition
	for _, op := range c.Ops {
		switch op.Op {
		case "def":
			var d *markers.Definition
			var err error
			if op.Def.Struct || op.Def.Type.K != "any" {
				d, err = markers.MakeDefinition(op.Def.Name, targets[op.Def.Target], reflect.New(op.Def.typ()).Elem().Interface())
			} else {
				d, err = markers.MakeAnyTypeDefinition(op.Def.Name, targets[op.Def.Target], anyHolder{})
			}
			o.OK = append(o.OK, err == nil)
			defs = append(defs, d)
			if err == nil {
				vc.Must(reg.Register(d))
			}
		case "reg":
			if o.OK[op.I] {
				vc.Must(reg.Register(defs[op.I]))
			}
		case "help":
			if o.OK[op.I] {
				reg.AddHelp(defs[op.I], toHelp(op.Help))
			}
		}
	}
	var sorter help.SortGroup = help.SortByCategory
	for _, g := range c.Gens {
		gen, err := vc.GeneratorFor(g)
		vc.Must(err)
		vc.Must(gen.RegisterMarkers(reg))
	}
	if c.Options {
		sorter = help.SortByOption
		rules := map[string]genall.OutputRule{"dir": genall.OutputToDirectory(""), "none": genall.OutputToNothing, "stdout": genall.OutputToStdout, "artifacts": genall.OutputArtifacts{}}
		add := func(name string, x interface{}) {
			d := markers.Must(markers.MakeDefinition(name, markers.DescribesPackage, x))
			vc.Must(reg.Register(d))
			if h, ok := x.(hasHelp); ok {
				reg.AddHelp(d, h.Help())
			}
		}
		for n, g := range vc.AllGenerators {
			add(n, g)
			for r, rule := range rules {
				add("output:"+n+":"+r, rule)
			}
		}
		for r, rule := range rules {
			add("output:"+r, rule)
		}
		vc.Must(genall.RegisterOptionsMarkers(reg))
	}
	if len(c.Ops) == 0 {
		all := reg.AllDefinitions()
		sort.Slice(all, func(i, j int) bool {
			return all[i].Name+" "+all[i].Target.String() < all[j].Name+" "+all[j].Target.String()
		})
		for _, d := range all {
			defs = append(defs, d)
			o.OK = append(o.OK, true)
			o.Defs = append(o.Defs, describe(d))
			th := []*Help{}
			if h, ok := reflect.New(d.Output).Elem().Interface().(hasHelp); ok {
				th = fromHelp(h.Help())
			}
			o.Helps = append(o.Helps, th)
			o.Help = append(o.Help, fromHelp(reg.HelpFor(d)))
			_, custom := reflect.New(d.Output).Interface().(hasParser)
			o.Custom = append(o.Custom, custom)
		}
	}
	o.Same = true
	for i := 0; i < 6; i++ {
		b, err := json.Marshal(help.ByCategory(reg, sorter))
		vc.Must(err)
		if i > 0 && string(b) != string(o.Docs) {
			o.Same = false
		}
		o.Docs = b
	}
	for _, g := range help.ByCategory(reg, sorter) {
		var texts [3]string
		for i, span := range []pretty.Span{pretty.MarkersSummary(g.Category, g.Markers), pretty.MarkersDetails(true, g.Category, g.Markers), pretty.MarkersDetails(false, g.Category, g.Markers)} {
			var b bytes.Buffer
			vc.Must(span.WriteTo(&b))
			texts[i] = b.String()
		}
		o.Print = append(o.Print, texts)
	}
	names := map[string]bool{}
	for _, d := range defs {
		if d != nil {
			names[d.Name] = true
		}
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		for _, t := range []string{"package", "type", "field"} {
			found := reg.Lookup("+"+n, targets[t])
			idx := 0
			for i, d := range defs {
				if d != nil && d == found {
					idx = i + 1
				}
			}
			o.Found = append(o.Found, [3]any{t, n, idx})
		}
	}
	for _, p := range c.Probes {
		_, err := defs[p.I].Parse(p.Text)
		o.Accept = append(o.Accept, err == nil)
	}
	return o
}

type anyHolder struct{ Value interface{} }

func main() {
	color.NoColor = true
	cases := vc.ReadCases[Case]()
	out := vc.NewOut()
	for _, c := range cases {
		out.Put(run(c))
	}
	out.Close()
}

// Command scaffold scaffolds types, with the library and with the command, and records what the source says.
// usage: scaffold EXE CASES OBS, a case: {id, cli, kind, resource, namespaced, help, clients}
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"reflect"
	"strings"

	"github.com/gobuffalo/flect"

	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
	"sigs.k8s.io/controller-tools/pkg/typescaffold"
)

type Case struct {
	ID         string   `json:"id"`
	CLI        bool     `json:"cli"`
	Flags      []string `json:"flags"`
	Kind       string   `json:"kind"`
	Resource   string   `json:"resource"`
	Namespaced bool     `json:"namespaced"`
	Help       []string `json:"help"`
	Clients    bool     `json:"clients"`
}
type Type struct {
	Name    string      `json:"name"`
	Fields  [][3]string `json:"fields"` // name, type, JSON tag
	Markers []string    `json:"markers"`
	Doc     string      `json:"doc"`
	Body    []string    `json:"body"`
}
type Obs struct {
	ID        string `json:"id"`
	Err       string `json:"err"`
	Panic     string `json:"panic"`
	Text      string `json:"text"`
	Pascal    string `json:"pascal"` // what the library that knows words makes of the kind
	Plural    string `json:"plural"`
	Wrote     bool   `json:"wrote"` // any declaration came out
	Parse     string `json:"parse"`
	Check     string `json:"check"`
	Formatted bool   `json:"formatted"`
	Types     []Type `json:"types"`
	Others    int    `json:"others"`
}

const head = "package v1\n\nimport (\n\tmetav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n)\n\n"

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if path != "k8s.io/apimachinery/pkg/apis/meta/v1" {
		return nil, fmt.Errorf("no package %s", path)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "m.go", "package v1\ntype TypeMeta struct{}\ntype ObjectMeta struct{}\ntype ListMeta struct{}\n", 0)
	vc.Must(err)
	return (&types.Config{}).Check(path, fset, []*ast.File{f}, nil)
}

func lines(g *ast.CommentGroup) []string {
	var res []string
	for _, c := range g.List {
		res = append(res, strings.TrimPrefix(strings.TrimPrefix(c.Text, "//"), " "))
	}
	return res
}
func run(exe string, c Case) (o Obs) {
	o = Obs{ID: c.ID, Types: []Type{}, Pascal: flect.Pascalize(c.Kind), Plural: flect.Pluralize(strings.ToLower(c.Kind))}
	if c.CLI {
		cmd := exec.Command(exe, c.Flags...)
		var out, errOut bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errOut
		if err := cmd.Run(); err != nil {
			o.Err = err.Error() + " " + errOut.String()
			if strings.Contains(errOut.String(), "goroutine ") {
				o.Panic = errOut.String()
			}
		}
		o.Text = out.String()
	} else {
		o.Panic = vc.Safely(func() {
			opts := typescaffold.ScaffoldOptions{Resource: typescaffold.Resource{Namespaced: c.Namespaced, Kind: c.Kind, Resource: c.Resource}, AdditionalHelp: strings.Join(c.Help, "\n"), GenerateClients: c.Clients}
			if err := opts.Validate(); err != nil {
				o.Err = err.Error()
				return
			}
			var out bytes.Buffer
			vc.Must(opts.Scaffold(&out))
			o.Text = out.String()
		})
	}
	o.Wrote = strings.Contains(o.Text, "struct {")
	if o.Err != "" {
		return o
	}
	src := []byte(head + o.Text)
	fmtd, err := format.Source(src)
	o.Formatted = err == nil && bytes.Equal(fmtd, src)
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "t.go", src, parser.ParseComments)
	if err != nil {
		o.Parse = err.Error()
		return o
	}
	if _, err := (&types.Config{Importer: imp{}}).Check("m.test/v1", fset, []*ast.File{file}, nil); err != nil {
		o.Check = err.Error()
	}
	last := file.Decls[0].End()
	for _, d := range file.Decls[1:] {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.TYPE || len(g.Specs) != 1 {
			o.Others++
			continue
		}
		ts := g.Specs[0].(*ast.TypeSpec)
		st, ok := ts.Type.(*ast.StructType)
		if !ok || ts.Assign.IsValid() || ts.TypeParams != nil {
			o.Others++
			continue
		}
		t := Type{Name: ts.Name.Name, Fields: [][3]string{}, Markers: []string{}, Body: []string{}}
		for _, f := range st.Fields.List {
			tag := ""
			if f.Tag != nil {
				tag = reflect.StructTag(strings.Trim(f.Tag.Value, "`")).Get("json")
			}
			if len(f.Names) == 0 {
				t.Fields = append(t.Fields, [3]string{"", types.ExprString(f.Type), tag})
			}
			for _, n := range f.Names {
				t.Fields = append(t.Fields, [3]string{n.Name, types.ExprString(f.Type), tag})
			}
		}
		for _, cg := range file.Comments {
			for _, l := range lines(cg) {
				switch {
				case cg.Pos() > last && cg.End() < g.Pos():
					if strings.HasPrefix(l, "+") {
						t.Markers = append(t.Markers, l)
					} else {
						t.Doc += l + "\n"
					}
				case cg.Pos() > g.Pos() && cg.End() < g.End():
					t.Body = append(t.Body, l)
				}
			}
		}
		last = g.End()
		o.Types = append(o.Types, t)
	}
	return o
}

func main() {
	exe := os.Args[1]
	cases := vc.ReadCases[Case]()
	out := vc.NewOut()
	for _, c := range cases {
		out.Put(run(exe, c))
	}
	out.Close()
}

// Command options turns option strings into runtimes, like the command does, and records what they mean.
// usage: options CASES OBS, a case: {id, options}
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/markers"
	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

type Case struct {
	ID      string   `json:"id"`
	Options []string `json:"options"`
}
type Obs struct {
	ID     string          `json:"id"`
	Err    string          `json:"err"`
	RegErr string          `json:"regerr"`
	Panic  string          `json:"panic"`
	Gens   [][]interface{} `json:"gens"`
	Rules  [][]interface{} `json:"rules"`
	Roots  []string        `json:"roots"`
}

var rules = map[string]genall.OutputRule{"dir": genall.OutputToDirectory(""), "none": genall.OutputToNothing, "stdout": genall.OutputToStdout, "artifacts": genall.OutputArtifacts{}}

func registry() *markers.Registry {
	reg := &markers.Registry{}
	add := func(name string, x interface{}) {
		vc.Must(reg.Register(markers.Must(markers.MakeDefinition(name, markers.DescribesPackage, x))))
	}
	for n, g := range vc.AllGenerators {
		add(n, g)
		for r, rule := range rules {
			add("output:"+n+":"+r, rule)
		}
	}
	for r, rule := range rules {
		add("output:"+r, rule)
	}
	vc.Must(genall.RegisterOptionsMarkers(reg))
	return reg
}

func desc(x interface{}) []interface{} {
	b, err := json.Marshal(x)
	vc.Must(err)
	return []interface{}{fmt.Sprintf("%T", x), json.RawMessage(b)}
}

func main() {
	cases := vc.ReadCases[Case]()
	out := vc.NewOut()
	dir, err := os.MkdirTemp("", "opt")
	vc.Must(err)
	defer os.RemoveAll(dir)
	dir, err = filepath.EvalSymlinks(dir)
	vc.Must(err)
	vc.WriteFiles(dir, map[string]string{"go.mod": "module m.test\ngo 1.24\n", "r.go": "package r\n", "p0/a.go": "package p0\n", "p1/a.go": "package p1\n", "p2/a.go": "package p2\n", "p2/q/a.go": "package q\n"})
	reg := registry()
	for _, c := range cases {
		o := Obs{ID: c.ID, Gens: [][]interface{}{}, Rules: [][]interface{}{}, Roots: []string{}}
		o.Panic = vc.Safely(func() {
			if _, err := genall.RegistryFromOptions(reg, append([]string{}, c.Options...)); err != nil {
				o.RegErr = err.Error()
			}
			rt, err := genall.FromOptionsWithConfig(&packages.Config{Dir: dir}, reg, append([]string{}, c.Options...))
			if err != nil {
				o.Err = err.Error()
				return
			}
			for _, g := range rt.Generators {
				o.Gens = append(o.Gens, desc(*g))
				o.Rules = append(o.Rules, desc(rt.OutputRules.ForGenerator(g)))
			}
			for _, r := range rt.Roots {
				o.Roots = append(o.Roots, strings.TrimPrefix(r.PkgPath, "m.test"))
			}
			sort.Strings(o.Roots)
		})
		out.Put(o)
	}
	out.Close()
}

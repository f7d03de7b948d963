// Command roots loads root paths of scratch directory trees and records the packages it gets.
// usage: roots CASES OBS, a case: {id, files, cwd, viadir, paths}; @ROOT@ stands for the tree's directory
package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/loader"
	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

type Case struct {
	ID    string            `json:"id"`
	Files map[string]string `json:"files"`
	Cwd   string            `json:"cwd"`
	// ViaDir gives the working directory as the configuration's directory instead of changing to it
	ViaDir bool     `json:"viadir"`
	Paths  []string `json:"paths"`
}
type Root struct {
	Dir   string   `json:"dir"`
	ID    string   `json:"id"`
	Path  string   `json:"path"`
	Files []string `json:"files"`
	Errs  []string `json:"errs"`
}
type Obs struct {
	ID    string `json:"id"`
	Err   string `json:"err"`
	Panic string `json:"panic"`
	Roots []Root `json:"roots"`
	// Foreign has imports, from a package to one that is a root but not that root's object
	Foreign []string `json:"foreign"`
	// Unlike has packages whose imports do not lead to the directory that the source means
	Imports [][2]string `json:"imports"`
}

func main() {
	cases := vc.ReadCases[Case]()
	out := vc.NewOut()
	base, err := os.MkdirTemp("", "roots")
	vc.Must(err)
	defer os.RemoveAll(base)
	base, err = filepath.EvalSymlinks(base)
	vc.Must(err)
	for _, c := range cases {
		dir := filepath.Join(base, "t")
		vc.WriteFiles(dir, c.Files)
		vc.Must(os.MkdirAll(filepath.Join(dir, c.Cwd), 0o755))
		cfg := &packages.Config{}
		vc.Must(os.Chdir(base))
		if c.ViaDir {
			cfg.Dir = filepath.Join(dir, c.Cwd)
		} else {
			vc.Must(os.Chdir(filepath.Join(dir, c.Cwd)))
			os.Setenv("PWD", filepath.Join(dir, c.Cwd))
		}
		var paths []string
		for _, p := range c.Paths {
			paths = append(paths, strings.ReplaceAll(p, "@ROOT@", dir))
		}
		o := Obs{ID: c.ID, Roots: []Root{}, Foreign: []string{}, Imports: [][2]string{}}
		o.Panic = vc.Safely(func() {
			roots, err := loader.LoadRootsWithConfig(cfg, paths...)
			if err != nil {
				o.Err = strings.ReplaceAll(err.Error(), dir, "@ROOT@")
			}
			observe(dir, roots, &o)
		})
		os.Setenv("PWD", base)
		out.Put(o)
		vc.Must(os.Chdir(base))
		vc.Must(os.RemoveAll(dir))
	}
	out.Close()
}

func dirOf(base string, p *loader.Package) string {
	if len(p.GoFiles) == 0 {
		return "?" + p.ID
	}
	d, err := filepath.Rel(base, filepath.Dir(p.GoFiles[0]))
	vc.Must(err)
	return d
}
func observe(base string, roots []*loader.Package, o *Obs) {
	isRoot := map[string]*loader.Package{}
	for _, r := range roots {
		d := dirOf(base, r)
		isRoot[d] = r
		x := Root{Dir: d, ID: r.ID, Path: r.PkgPath, Files: []string{}, Errs: append([]string{}, vc.Errs([]*loader.Package{r}, false)...)}
		for _, f := range r.GoFiles {
			x.Files = append(x.Files, filepath.Base(f))
		}
		sort.Strings(x.Files)
		o.Roots = append(o.Roots, x)
	}
	seen := map[*loader.Package]bool{}
	var visit func(p *loader.Package)
	visit = func(p *loader.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			d := dirOf(base, q)
			o.Imports = append(o.Imports, [2]string{dirOf(base, p), d})
			if r := isRoot[d]; r != nil && r != q && r.ID != "command-line-arguments" {
				o.Foreign = append(o.Foreign, dirOf(base, p)+" -> "+d)
			}
			visit(q)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	sort.Strings(o.Foreign)
}

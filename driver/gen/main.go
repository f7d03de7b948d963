// Command gen runs generators on packages given as text and records what they write.
// usage: gen CASES OBS, a case: {id, files, roots?, gens:[option strings], reps, shuffle}
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

type Case struct {
	ID    string            `json:"id"`
	Files map[string]string `json:"files"`
	Gens  []string          `json:"gens"`
	Reps  int               `json:"reps"`
	Seed  int64             `json:"seed"`
	// Order permutes the roots: "keep" or "shuffle"
	Order string `json:"order"`
	// FS keeps file arguments (headers, manifests) relative to the case directory
	Subst bool `json:"subst"`
	Types bool `json:"types"`
}
type GenRes struct {
	Gen    string            `json:"gen"`
	Files  map[string]string `json:"files"`
	Opens  map[string]int    `json:"opens"`
	Err    string            `json:"err"`
	RegErr string            `json:"regerr"`
	Panic  string            `json:"panic"`
}
type Rep struct {
	Gens  []GenRes `json:"gens"`
	Errs  []string `json:"errs"`
	Roots []string `json:"roots"`
}
type Obs struct {
	ID   string `json:"id"`
	Reps []Rep  `json:"reps"`
}

func main() {
	cases := vc.ReadCases[Case]()
	out := vc.NewOut()
	dir, err := os.MkdirTemp("", "gen")
	vc.Must(err)
	defer os.RemoveAll(dir)
	dir, err = filepath.EvalSymlinks(dir)
	vc.Must(err)
	vc.Module(dir)
	if os.Args[1] == "-fake" {
		vc.FakeAPI(dir)
	}
	max := 1
	for i, c := range cases {
		for n, t := range c.Files {
			c.Files[n] = strings.ReplaceAll(t, "@MOD@", fmt.Sprintf("m.test/c%d", i))
		}
		vc.WriteFiles(filepath.Join(dir, fmt.Sprintf("c%d", i)), c.Files)
		if c.Reps > max {
			max = c.Reps
		}
	}
	obs := make([]Obs, len(cases))
	for rep := 0; rep < max; rep++ {
		// load all the cases that still want a run, at once
		var paths []string
		for i, c := range cases {
			if rep < c.Reps || rep == 0 {
				paths = append(paths, fmt.Sprintf("./c%d/...", i))
			}
		}
		roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: dir}, paths...)
		vc.Must(err)
		byCase := map[int][]*loader.Package{}
		for _, r := range roots {
			p := strings.TrimPrefix(r.PkgPath, "m.test/c")
			var n int
			_, err := fmt.Sscanf(p, "%d", &n)
			vc.Must(err)
			byCase[n] = append(byCase[n], r)
		}
		for i, c := range cases {
			if !(rep < c.Reps || rep == 0) {
				continue
			}
			obs[i].ID = c.ID
			obs[i].Reps = append(obs[i].Reps, run(dir, i, c, byCase[i], rep))
		}
	}
	for _, o := range obs {
		out.Put(o)
	}
	out.Close()
}

func run(dir string, i int, c Case, roots []*loader.Package, rep int) Rep {
	if c.Order == "shuffle" && rep > 0 {
		r := rand.New(rand.NewSource(c.Seed + int64(rep)))
		r.Shuffle(len(roots), func(a, b int) { roots[a], roots[b] = roots[b], roots[a] })
	}
	res := Rep{Gens: []GenRes{}}
	for _, r := range roots {
		res.Roots = append(res.Roots, r.PkgPath)
	}
	var gens genall.Generators
	var idx []int
	for _, g := range c.Gens {
		if c.Subst {
			g = strings.ReplaceAll(g, "@DIR@", filepath.Join(dir, fmt.Sprintf("c%d", i)))
		}
		gen, err := vc.GeneratorFor(g)
		gr := GenRes{Gen: strings.SplitN(g, ":", 2)[0], Files: map[string]string{}, Opens: map[string]int{}}
		if err != nil {
			gr.RegErr = err.Error()
		} else {
			gens = append(gens, &gen)
			idx = append(idx, len(res.Gens))
		}
		res.Gens = append(res.Gens, gr)
	}
	col := &markers.Collector{Registry: &markers.Registry{}}
	if err := gens.RegisterMarkers(col.Registry); err != nil {
		vc.Must(err)
	}
	checker := &loader.TypeChecker{NodeFilters: gens.CheckFilters()}
	for k, g := range gens {
		gr := &res.Gens[idx[k]]
		mem := &vc.MemOut{}
		ctx := genall.GenerationContext{Collector: col, Roots: roots, Checker: checker, OutputRule: mem, InputRule: genall.InputFromFileSystem}
		if _, ok := (*g).(genall.NeedsTypeChecking); !ok {
			ctx.Checker = nil
		}
		gr.Panic = vc.Safely(func() {
			if err := (*g).Generate(&ctx); err != nil {
				gr.Err = err.Error()
				if gr.Err == "" {
					gr.Err = "(empty error)"
				}
			}
		})
		for n, t := range mem.Files {
			pre := fmt.Sprintf("m.test/c%d", i)
			gr.Files[strings.Replace(n, pre, ".", 1)] = t
			gr.Opens[strings.Replace(n, pre, ".", 1)] = mem.Opens[n]
		}
	}
	res.Errs = vc.Errs(roots, c.Types)
	for k, e := range res.Errs {
		res.Errs[k] = strings.ReplaceAll(e, fmt.Sprintf("m.test/c%d", i), ".")
		res.Errs[k] = strings.ReplaceAll(res.Errs[k], filepath.Join(dir, fmt.Sprintf("c%d", i)), ".")
	}
	return res
}

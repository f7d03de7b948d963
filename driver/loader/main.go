// Command loader type-checks packages from several goroutines and records what happens.
// usage: loader CASES OBS, a case: {id, n, files, filter, mode, calls, needs, sched}; package k<i> has number i
package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/loader"
	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

type Event struct {
	K string `json:"k"`
	P int    `json:"p"`
}
type Case struct {
	ID     string            `json:"id"`
	N      int               `json:"n"`
	Files  map[string]string `json:"files"`
	Filter string            `json:"filter"`
	// Mode: "race" observes the end only, "events" records events, "gate" also forces the schedule
	Mode  string  `json:"mode"`
	Calls [][]int `json:"calls"`
	Needs [][]int `json:"needs"`
	Sched []Event `json:"sched"`
}
type Returned struct {
	P    int   `json:"p"`
	Done []int `json:"done"`
}
type Obs struct {
	ID         string     `json:"id"`
	Events     []Event    `json:"events"`
	Returned   []Returned `json:"returned"`
	Complete   []int      `json:"complete"`
	Unresolved []string   `json:"unresolved"`
	Errors     []string   `json:"errors"`
	Hang       bool       `json:"hang"`
	Followed   bool       `json:"followed"`
}

// recorder keeps events and lets them happen in the order of a schedule, as long as that is followed.
type recorder struct {
	mu    sync.Mutex
	cond  *sync.Cond
	evs   []Event
	sched []Event
	next  int
	free  bool
	seen  map[Event]bool
}

func (r *recorder) event(e Event) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if e.K == "c" {
		if r.seen[e] {
			return
		}
		r.seen[e] = true
	}
	deadline := time.Now().Add(400 * time.Millisecond)
	t := time.AfterFunc(410*time.Millisecond, func() { r.cond.Broadcast() })
	for !r.free && r.next < len(r.sched) && r.sched[r.next] != e {
		if time.Now().After(deadline) {
			r.free = true
			break
		}
		r.cond.Wait()
	}
	t.Stop()
	if r.next < len(r.sched) && r.sched[r.next] == e {
		r.next++
	} else {
		r.free = true
	}
	r.evs = append(r.evs, e)
	r.cond.Broadcast()
}

type sizes struct {
	types.Sizes
	f func()
}

// zzMark is a type whose size every package wants to know.
func isMark(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "zzMark"
}

func (s sizes) Sizeof(t types.Type) int64 {
	if isMark(t) {
		s.f()
	}
	return s.Sizes.Sizeof(t) }

func main() {
	cases := vc.ReadCases[Case]()
	out := vc.NewOut()
	dir, err := os.MkdirTemp("", "ldr")
	vc.Must(err)
	defer os.RemoveAll(dir)
	dir, err = filepath.EvalSymlinks(dir)
	vc.Must(err)
	vc.Must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module m.test\n\ngo 1.21\n"), 0o644))
	for i, c := range cases {
		for n, t := range c.Files {
			c.Files[n] = strings.ReplaceAll(t, "@MOD@", fmt.Sprintf("m.test/c%d", i))
		}
		vc.WriteFiles(filepath.Join(dir, fmt.Sprintf("c%d", i)), c.Files)
	}
	roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: dir, Fset: fset}, "./...")
	vc.Must(err)
	byCase := make([]map[int]*loader.Package, len(cases))
	for _, r := range roots {
		var i, k int
		if _, err := fmt.Sscanf(r.PkgPath, "m.test/c%d/k%d", &i, &k); err != nil {
			vc.Must(fmt.Errorf("package %s: %w", r.PkgPath, err))
		}
		if byCase[i] == nil {
			byCase[i] = map[int]*loader.Package{}
		}
		byCase[i][k] = r
	}
	for i, c := range cases {
		out.Put(run(c, byCase[i]))
	}
	out.Close()
}

func filters(name string) []loader.NodeFilter {
	switch name {
	case "crd":
		return []loader.NodeFilter{crd.Generator{}.CheckFilter()}
	case "two":
		return []loader.NodeFilter{crd.Generator{}.CheckFilter(), deepcopy.Generator{}.CheckFilter()}
	}
	return nil
}

func run(c Case, pkgs map[int]*loader.Package) Obs {
	o := Obs{ID: c.ID}
	fs := filters(c.Filter)
	r := &recorder{sched: c.Sched, free: c.Mode != "gate", seen: map[Event]bool{}}
	r.cond = sync.NewCond(&r.mu)
	if c.Mode != "race" {
		if fs == nil {
			fs = []loader.NodeFilter{func(ast.Node) bool { return true }}
		}
		inner := fs[0]
		fs[0] = func(n ast.Node) bool {
			if n != nil {
				for k, p := range pkgs {
					if len(p.CompiledGoFiles) > 0 && filepath.Dir(filename(p, n)) == filepath.Dir(p.CompiledGoFiles[0]) {
						r.event(Event{"c", k})
					}
				}
			}
			return inner(n)
		}
		for k, p := range pkgs {
			var last *types.Info
			p.TypesSizes = sizes{p.TypesSizes, func() {
				if last != nil && last == p.TypesInfo {
					return // of the same check
				}
				last = p.TypesInfo
				r.event(Event{"t", k})
			}}
		}
	}
	checker := &loader.TypeChecker{NodeFilters: fs}
	var wg sync.WaitGroup
	ret := make([][]Returned, len(c.Calls))
	start := make(chan struct{})
	for g, seq := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, k := range seq {
				checker.Check(pkgs[k])
				got := Returned{P: k, Done: []int{}}
				for _, q := range c.Needs[k-1] {
					if complete(pkgs[q]) {
						got.Done = append(got.Done, q)
					}
				}
				ret[g] = append(ret[g], got)
			}
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		o.Hang = true
		return o
	}
	o.Events, o.Followed = append([]Event{}, r.evs...), !r.free
	o.Complete, o.Unresolved, o.Errors, o.Returned = []int{}, []string{}, []string{}, []Returned{}
	for _, g := range ret {
		o.Returned = append(o.Returned, g...)
	}
	for k := 1; k <= c.N; k++ {
		p := pkgs[k]
		if !complete(p) {
			continue
		}
		o.Complete = append(o.Complete, k)
		for _, name := range p.Types.Scope().Names() {
			var j int
			if n, _ := fmt.Sscanf(name, "Ref%d_", &j); n == 1 {
				if why := unresolved(p, pkgs[j], p.Types.Scope().Lookup(name).Type()); why != "" {
					o.Unresolved = append(o.Unresolved, fmt.Sprintf("k%d.%s: %s", k, name, why))
				}
			}
		}
	}
	sort.Strings(o.Unresolved)
	var all []*loader.Package
	for _, p := range pkgs {
		all = append(all, p)
	}
	o.Errors = append(o.Errors, vc.Errs(all, false)...)
	return o
}
var fset = token.NewFileSet()

func filename(_ *loader.Package, n ast.Node) string {
	return fset.Position(n.Pos()).Filename
}
func complete(p *loader.Package) bool {
	return p.TypesInfo != nil && p.Types != nil && p.Types.Complete() && p.Types.Scope().Lookup("T"+strings.TrimPrefix(p.Name, "k")) != nil
}

// unresolved tells what is wrong about a type that refers to something of another package.
func unresolved(p, q *loader.Package, t types.Type) string {
	found := false
	var walk func(t types.Type, depth int) string
	walk = func(t types.Type, depth int) string {
		switch t := t.(type) {
		case *types.Basic:
			if t.Kind() == types.Invalid {
				return "invalid"
			}
		case *types.Named:
			if t.Obj().Pkg() == q.Types {
				found = true
				if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Invalid {
					return "invalid underneath"
				}
				return ""
			}
			if t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == q.PkgPath {
				return "another copy of the package"
			}
			if t.Obj().Pkg() == p.Types {
				if depth > 0 {
					return ""
				}
				if b, ok := t.Underlying().(*types.Struct); ok && b.NumFields() == 1 && b.Field(0).Name() == "V" {
					found = true // type X q.T has the structure of T
				}
				return walk(t.Underlying(), depth+1)
			}
		case *types.Alias:
			return walk(types.Unalias(t), depth)
		case *types.Pointer:
			return walk(t.Elem(), depth)
		case *types.Slice:
			return walk(t.Elem(), depth)
		case *types.Array:
			return walk(t.Elem(), depth)
		case *types.Map:
			if w := walk(t.Key(), depth); w != "" {
				return w
			}
			return walk(t.Elem(), depth)
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				if w := walk(t.Field(i).Type(), depth); w != "" {
					return w
				}
			}
		case *types.Signature:
			for i := 0; i < t.Params().Len(); i++ {
				if w := walk(t.Params().At(i).Type(), depth); w != "" {
					return w
				}
			}
		case *types.Interface:
			for i := 0; i < t.NumMethods(); i++ {
				if w := walk(t.Method(i).Type(), depth); w != "" {
					return w
				}
			}
		}
		return ""
	}
	if w := walk(t, 0); w != "" {
		return w
	}
	if !found {
		return "does not lead to the package"
	}
	return ""
}

// Package vcommon has what the drivers share: reading cases, writing observations,
// scratch modules and generators built the way the command builds them.
package vcommon

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/applyconfiguration"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
)

func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err)
		os.Exit(3)
	}
}

// ReadCases decodes the ndjson file named by the second last argument.
func ReadCases[T any]() []T {
	f, err := os.Open(os.Args[len(os.Args)-2])
	Must(err)
	defer f.Close()
	var res []T
	r := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := r.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			var c T
			Must(json.Unmarshal(line, &c))
			res = append(res, c)
		}
		if err == io.EOF {
			return res
		}
		Must(err)
	}
}

// Out writes observations to the last argument.
type Out struct {
	f *os.File
	w *bufio.Writer
}

func NewOut() *Out {
	f, err := os.Create(os.Args[len(os.Args)-1])
	Must(err)
	return &Out{f, bufio.NewWriterSize(f, 1<<20)}
}
func (o *Out) Put(v interface{}) {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	Must(e.Encode(v))
	_, err := o.w.Write(b.Bytes())
	Must(err)
}
func (o *Out) Close() { Must(o.w.Flush()); Must(o.f.Close()) }

// Module makes a scratch module m.test with the requirements of the repository.
func Module(dir string) {
	repo := os.Getenv("VERIF_REPO")
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	Must(err)
	mod = regexp.MustCompile(`(?m)^module .*$`).ReplaceAll(mod, []byte("module m.test"))
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	Must(err)
	Must(os.MkdirAll(dir, 0o755))
	Must(os.WriteFile(filepath.Join(dir, "go.mod"), mod, 0o644))
	Must(os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644))
}

// FakeAPI replaces k8s.io/apimachinery of a scratch module by the few packages given here: loading them is much
// faster than loading the real ones.
func FakeAPI(dir string) {
	WriteFiles(filepath.Join(dir, "fakeapi"), map[string]string{
		"go.mod": "module k8s.io/apimachinery\n\ngo 1.21\n",
		"pkg/apis/meta/v1/t.go": "package v1\n\ntype TypeMeta struct {\n\tKind string `json:\"kind,omitempty\"`\n\tAPIVersion string `json:\"apiVersion,omitempty\"`\n}\n" +
			"type ObjectMeta struct {\n\tName string `json:\"name,omitempty\"`\n\tLabels map[string]string `json:\"labels,omitempty\"`\n}\n" +
			"func (in *ObjectMeta) DeepCopyInto(out *ObjectMeta) { *out = *in; if in.Labels != nil { out.Labels = map[string]string{}; for k, v := range in.Labels { out.Labels[k] = v } } }\n" +
			"type ListMeta struct {\n\tContinue string `json:\"continue,omitempty\"`\n}\nfunc (in *ListMeta) DeepCopyInto(out *ListMeta) { *out = *in }\n" +
			"type Time struct { sec int64 }\nfunc (in *Time) DeepCopyInto(out *Time) { *out = *in }\n",
		"pkg/runtime/o.go": "package runtime\n\ntype Object interface { DeepCopyObject() Object }\n",
	})
	f, err := os.OpenFile(filepath.Join(dir, "go.mod"), os.O_APPEND|os.O_WRONLY, 0o644)
	Must(err)
	_, err = f.WriteString("\nreplace k8s.io/apimachinery => ./fakeapi\n")
	Must(err)
	Must(f.Close())
}

func WriteFiles(dir string, files map[string]string) {
	for n, c := range files {
		p := filepath.Join(dir, n)
		Must(os.MkdirAll(filepath.Dir(p), 0o755))
		Must(os.WriteFile(p, []byte(c), 0o644))
	}
}

var AllGenerators = map[string]genall.Generator{
	"crd": crd.Generator{}, "rbac": rbac.Generator{}, "object": deepcopy.Generator{}, "webhook": webhook.Generator{},
	"schemapatch": schemapatcher.Generator{}, "applyconfiguration": applyconfiguration.Generator{},
}

// GeneratorFor parses an option string such as rbac:roleName=x.
func GeneratorFor(opt string) (genall.Generator, error) {
	name := strings.SplitN(opt, ":", 2)[0]
	g, ok := AllGenerators[name]
	if !ok {
		return nil, fmt.Errorf("no generator %q", name)
	}
	def, err := markers.MakeDefinition(name, markers.DescribesPackage, g)
	if err != nil {
		return nil, err
	}
	v, err := def.Parse("+" + opt)
	if err != nil {
		return nil, err
	}
	return v.(genall.Generator), nil
}

// MemOut collects what a generator writes. Package files are named by package path.
type MemOut struct {
	Files map[string]string
	Opens map[string]int
}
type memFile struct {
	bytes.Buffer
	m    *MemOut
	name string
}

func (f *memFile) Close() error { f.m.Files[f.name] = f.String(); return nil }
func (m *MemOut) Open(pkg *loader.Package, path string) (io.WriteCloser, error) {
	name := path
	if pkg != nil {
		name = pkg.PkgPath + "//" + path
	}
	if m.Files == nil {
		m.Files = map[string]string{}
		m.Opens = map[string]int{}
	}
	m.Opens[name]++
	return &memFile{m: m, name: name}, nil
}

// Errs lists the errors of packages apart from type errors.
func Errs(pkgs []*loader.Package, types bool) []string {
	var res []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			if e.Kind == packages.TypeError && !types {
				continue
			}
			res = append(res, fmt.Sprintf("%s: %s: %s", p.PkgPath, e.Pos, e.Msg))
		}
	}
	sort.Strings(res)
	return res
}

// Safely turns a panic of the code under test into an observation.
func Safely(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

// Command repro runs a command (the first argument) again and again in one scratch module whose
// sources change between runs, and records which files every run wrote.
// usage: repro EXE LIBEXE CASES OBS, a case: {id, steps: [{files, args, env, clean, cwd}]}; @ROOT@ in args stands for the module's directory
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

type Step struct {
	Files map[string]string `json:"files"`
	Args  []string          `json:"args"`
	Env   []string          `json:"env"`
	Clean bool              `json:"clean"`
	Cwd   string            `json:"cwd"`
	// Lib runs the second program instead
	Lib bool `json:"lib"`
}
type Case struct {
	ID    string `json:"id"`
	Steps []Step `json:"steps"`
}
type Ran struct {
	Wrote map[string]string `json:"wrote"`
	Kept  map[string]string `json:"kept"`
	Exit  int               `json:"exit"`
	Err   string            `json:"err"`
}
type Obs struct {
	ID    string            `json:"id"`
	Steps []Ran             `json:"steps"`
	Texts map[string]string `json:"texts"`
}

var past = time.Unix(1000000000, 0)

// walk calls f for every file that is no source and does not belong to the module's frame.
func walk(root string, src map[string]string, f func(rel, p string)) {
	vc.Must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if _, is := src[rel]; is || d.IsDir() || rel == "go.mod" || rel == "go.sum" || strings.HasPrefix(rel, "fakeapi/") {
			return nil
		}
		f(rel, p)
		return nil
	}))
}

func main() {
	exe := os.Args[1]
	cases := vc.ReadCases[Case]()
	out := vc.NewOut()
	base, err := os.MkdirTemp("", "repro")
	vc.Must(err)
	defer os.RemoveAll(base)
	base, err = filepath.EvalSymlinks(base)
	vc.Must(err)
	for _, c := range cases {
		dir := filepath.Join(base, "m")
		vc.Module(dir)
		vc.FakeAPI(dir)
		src := map[string]string{}
		o := Obs{ID: c.ID, Texts: map[string]string{}}
		for _, s := range c.Steps {
			if s.Files != nil {
				for f := range src {
					vc.Must(os.Remove(filepath.Join(dir, f)))
				}
				src = s.Files
				vc.WriteFiles(dir, src)
			}
			walk(dir, src, func(rel, p string) {
				if s.Clean {
					vc.Must(os.Remove(p))
				} else {
					vc.Must(os.Chtimes(p, past, past))
				}
			})
			var args []string
			for _, a := range s.Args {
				args = append(args, strings.ReplaceAll(a, "@ROOT@", dir))
			}
			run := exe
			if s.Lib {
				run = os.Args[2]
			}
			cmd := exec.Command(run, args...)
			cmd.Dir = filepath.Join(dir, s.Cwd)
			vc.Must(os.MkdirAll(cmd.Dir, 0o755))
			cmd.Env = append(append(os.Environ(), "PWD="+cmd.Dir), s.Env...)
			var so bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &so
			vc.Must(cmd.Start())
			t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
			cmd.Wait()
			t.Stop()
			r := Ran{Wrote: map[string]string{}, Kept: map[string]string{}, Exit: cmd.ProcessState.ExitCode()}
			if r.Exit != 0 {
				r.Err = strings.ReplaceAll(so.String(), dir, "@ROOT@")
				if len(r.Err) > 3000 {
					r.Err = r.Err[:3000]
				}
			}
			walk(dir, src, func(rel, p string) {
				b, err := os.ReadFile(p)
				vc.Must(err)
				st, err := os.Stat(p)
				vc.Must(err)
				h := sha256.Sum256(b)
				id := hex.EncodeToString(h[:6])
				o.Texts[id] = string(b)
				if st.ModTime().Equal(past) {
					r.Kept[rel] = id
				} else {
					r.Wrote[rel] = id
				}
			})
			o.Steps = append(o.Steps, r)
		}
		out.Put(o)
		vc.Must(os.RemoveAll(dir))
	}
	out.Close()
}

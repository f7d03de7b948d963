// Command cli runs a command (the first argument) in scratch modules and records what it does there.
// usage: cli EXE CASES OBS, a case: {id, files, dirs, links, args, stdout, cwd}; @ROOT@ in args stands for the module's directory
package main

import (
	"bytes"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

type Case struct {
	ID     string            `json:"id"`
	Files  map[string]string `json:"files"`
	Dirs   []string          `json:"dirs"`
	Links  map[string]string `json:"links"`
	Args   []string          `json:"args"`
	Stdout string            `json:"stdout"`
	Cwd    string            `json:"cwd"`
}
type Obs struct {
	ID     string            `json:"id"`
	Before map[string]string `json:"before"`
	After  map[string]string `json:"after"`
	Out    string            `json:"out"`
	Err    string            `json:"err"`
	Exit   int               `json:"exit"`
}

func snapshot(root string) map[string]string {
	res := map[string]string{}
	vc.Must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case d.IsDir():
		case d.Type().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			res[rel] = string(b)
		default:
			t, _ := os.Readlink(p)
			res[rel] = "<" + d.Type().String() + " " + t + ">"
		}
		return nil
	}))
	return res
}

func main() {
	exe := os.Args[1]
	cases := vc.ReadCases[Case]()
	out := vc.NewOut()
	base, err := os.MkdirTemp("", "cli")
	vc.Must(err)
	defer os.RemoveAll(base)
	base, err = filepath.EvalSymlinks(base)
	vc.Must(err)
	for _, c := range cases {
		dir := filepath.Join(base, "m")
		vc.Module(dir)
		vc.FakeAPI(dir)
		for _, d := range c.Dirs {
			vc.Must(os.MkdirAll(filepath.Join(dir, d), 0o755))
		}
		vc.WriteFiles(dir, c.Files)
		for l, t := range c.Links {
			vc.Must(os.MkdirAll(filepath.Dir(filepath.Join(dir, l)), 0o755))
			vc.Must(os.Symlink(t, filepath.Join(dir, l)))
		}
		o := Obs{ID: c.ID, Before: snapshot(dir)}
		var args []string
		for _, a := range c.Args {
			args = append(args, strings.ReplaceAll(a, "@ROOT@", dir))
		}
		cmd := exec.Command(exe, args...)
		cmd.Dir = filepath.Join(dir, c.Cwd)
		cmd.Env = append(os.Environ(), "PWD="+cmd.Dir)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if c.Stdout != "" {
			f, err := os.OpenFile(c.Stdout, os.O_WRONLY, 0)
			vc.Must(err)
			cmd.Stdout = f
		}
		vc.Must(cmd.Start())
		t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
		cmd.Wait()
		t.Stop()
		o.Exit = cmd.ProcessState.ExitCode()
		o.Out, o.Err = strings.ReplaceAll(so.String(), dir, "@ROOT@"), strings.ReplaceAll(se.String(), dir, "@ROOT@")
		o.After = snapshot(dir)
		for p, t := range o.Before {
			if (p == "go.mod" || p == "go.sum" || strings.HasPrefix(p, "fakeapi/")) && o.After[p] == t {
				delete(o.Before, p)
				delete(o.After, p)
			}
		}
		out.Put(o)
		vc.Must(os.RemoveAll(dir))
	}
	out.Close()
}

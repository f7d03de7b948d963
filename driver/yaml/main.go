// Command yaml applies edits to YAML trees and records the trees around every edit.
// usage: yaml CASES OBS, a case: {id, text, ops:[{op, path, val}]}
package main

import (
	"bytes"
	"encoding/json"
	"io"
	"strings"

	"gopkg.in/yaml.v3"

	yamlop "sigs.k8s.io/controller-tools/pkg/schemapatcher/internal/yaml"
	vc "sigs.k8s.io/controller-tools/pkg/schemapatcher/zzverif/vcommon"
)

type Op struct {
	Op   string   `json:"op"`
	Path []string `json:"path"`
	Val  string   `json:"val"`
}
type Case struct {
	ID   string   `json:"id"`
	Text string   `json:"text"`
	Ops  []Op     `json:"ops"`
	JSON []string `json:"json"`
	Docs bool     `json:"docs"`
}
type Tree struct {
	K string  `json:"k"`
	V string  `json:"v"`
	T string  `json:"t"`
	C string  `json:"c"`
	S int     `json:"s"`
	E []*Tree `json:"e"`
}
type Step struct {
	Op     string   `json:"op"`
	Path   []string `json:"path"`
	Val    *Tree    `json:"val"`
	Before *Tree    `json:"before"`
	After  *Tree    `json:"after"`
	Reread *Tree    `json:"reread"`
	Got    *Tree    `json:"got"`
	Found  bool     `json:"found"`
	Err    string   `json:"err"`
	Panic  string   `json:"panic"`
	Text   string   `json:"text"`
}
type Conv struct {
	JSON  string `json:"json"`
	Back  string `json:"back"`
	Again string `json:"again"`
	Err   string `json:"err"`
	Plain bool   `json:"plain"`
}
type Obs struct {
	ID    string `json:"id"`
	Bad   string `json:"bad"`
	Steps []Step `json:"steps"`
	Convs []Conv `json:"convs"`
	// Docs are the trees of all documents in the text
	Docs []*Tree `json:"docs"`
}

func dump(n *yaml.Node) *Tree {
	if n == nil {
		return &Tree{K: "none", E: []*Tree{}}
	}
	c := n.HeadComment + "|" + n.LineComment + "|" + n.FootComment
	if c == "||" {
		c = ""
	}
	t := &Tree{V: n.Value, T: n.ShortTag(), C: c, S: int(n.Style), E: []*Tree{}}
	switch n.Kind {
	case yaml.DocumentNode:
		t.K, t.T = "doc", ""
	case yaml.MappingNode:
		t.K = "map"
	case yaml.SequenceNode:
		t.K = "seq"
	case yaml.ScalarNode:
		t.K = "s"
	case yaml.AliasNode:
		t.K, t.T = "alias", ""
	default:
		t.K = "none"
	}
	for _, e := range n.Content {
		t.E = append(t.E, dump(e))
	}
	return t
}
func reread(n *yaml.Node) (*Tree, string) {
	var b bytes.Buffer
	enc := yaml.NewEncoder(&b)
	enc.SetIndent(2)
	if err := enc.Encode(n); err != nil {
		return &Tree{K: "unwritable", E: []*Tree{}}, err.Error()
	}
	var m yaml.Node
	if err := yaml.Unmarshal(b.Bytes(), &m); err != nil {
		return &Tree{K: "unreadable", E: []*Tree{}}, b.String()
	}
	return dump(&m), b.String()
}

func main() {
	out := vc.NewOut()
	for _, c := range vc.ReadCases[Case]() {
		o := Obs{ID: c.ID, Steps: []Step{}, Convs: []Conv{}, Docs: []*Tree{}}
		if c.Docs {
			dec := yaml.NewDecoder(strings.NewReader(c.Text))
			for {
				var n yaml.Node
				err := dec.Decode(&n)
				if err == io.EOF {
					break
				}
				if err != nil {
					o.Bad = err.Error()
					break
				}
				o.Docs = append(o.Docs, dump(&n))
			}
			out.Put(o)
			continue
		}
		var root yaml.Node
		if err := yaml.Unmarshal([]byte(c.Text), &root); err != nil {
			o.Bad = err.Error()
			out.Put(o)
			continue
		}
		for _, op := range c.Ops {
			s := Step{Op: op.Op, Path: op.Path, Before: dump(&root)}
			var val yaml.Node
			vc.Must(yaml.Unmarshal([]byte(op.Val), &val))
			s.Val, s.Got = dump(nil), dump(nil)
			s.Panic = vc.Safely(func() {
				var err error
				switch op.Op {
				case "get":
					var n *yaml.Node
					n, s.Found, err = yamlop.GetNode(&root, op.Path...)
					if s.Found {
						s.Got = dump(n)
					}
				case "set":
					s.Val = dump(val.Content[0])
					err = yamlop.SetNode(&root, *val.Content[0], op.Path...)
				case "del":
					err = yamlop.DeleteNode(&root, op.Path...)
				}
				if err != nil {
					s.Err = "error: " + err.Error()
				}
			})
			s.After = dump(&root)
			s.Reread, s.Text = reread(&root)
			o.Steps = append(o.Steps, s)
		}
		for _, j := range c.JSON {
			var v, w, x interface{}
			vc.Must(json.Unmarshal([]byte(j), &v))
			cv := Conv{}
			b, err := json.Marshal(v)
			vc.Must(err)
			cv.JSON = string(b)
			n, err := yamlop.ToYAML(v)
			if err != nil {
				cv.Err = err.Error()
				o.Convs = append(o.Convs, cv)
				continue
			}
			cv.Back = decode(n, &w)
			yamlop.SetStyle(n, 0)
			cv.Plain = plain(n)
			_, text := reread(n)
			var m yaml.Node
			if err := yaml.Unmarshal([]byte(text), &m); err != nil {
				cv.Again = "unreadable"
			} else {
				cv.Again = decode(&m, &x)
			}
			o.Convs = append(o.Convs, cv)
		}
		out.Put(o)
	}
	out.Close()
}
func plain(n *yaml.Node) bool {
	for _, e := range n.Content {
		if !plain(e) {
			return false
		}
	}
	return n.Style == 0
}
func decode(n *yaml.Node, v *interface{}) string {
	if err := n.Decode(v); err != nil {
		return "undecodable: " + err.Error()
	}
	b, err := json.Marshal(*v)
	if err != nil {
		return "no JSON: " + err.Error()
	}
	return string(b)
}

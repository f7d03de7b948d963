// Command serial makes random values of the types of generated packages, encodes them, alters the
// encodings, and tells what the packages read back and what the API server's own validation and pruning
// say. It is built within a module that the check makes (reg.go there lists the packages).
// usage: serial CASES OBS
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"time"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions"
	apiextv1 "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	apiextv1beta1 "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1beta1"
	structural "k8s.io/apiextensions-apiserver/pkg/apiserver/schema"
	"k8s.io/apiextensions-apiserver/pkg/apiserver/schema/pruning"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/util/intstr"
	kjson "k8s.io/apimachinery/pkg/util/json"
	"k8s.io/kube-openapi/pkg/validation/strfmt"
	"k8s.io/kube-openapi/pkg/validation/validate"
)

type Case struct {
	ID      string          `json:"id"`
	Seed    int64           `json:"seed"`
	Schema  json.RawMessage `json:"schema"`
	Values  int             `json:"values"`
	Mutants int             `json:"mutants"`
}
type Doc struct {
	// Kind: emit (what Go wrote), kept (Go read the addition), lost (Go does not know the addition), wrong (Go cannot read it)
	Kind string          `json:"kind"`
	V    json.RawMessage `json:"v"`
	What string          `json:"what"`
	Acc  bool            `json:"acc"`
	Kept bool            `json:"kept"`
	Why  string          `json:"why"`
}
type Obs struct {
	ID   string `json:"id"`
	Err  string `json:"err"`
	Docs []Doc  `json:"docs"`
}

var r *rand.Rand

func pick[T any](x ...T) T { return x[r.Intn(len(x))] }

func text() string {
	return pick("", "a", "zz", "Hello, w\u00f6rld", "\u4e16", "x y", "true", "5", "null", "<&>", "a\nb", "2020-01-01", "q\"\\")
}

func anyJSON(depth int) any {
	switch k := r.Intn(6); {
	case k == 0 && depth > 0:
		m := map[string]any{}
		for i := r.Intn(3); i >= 0; i-- {
			m[pick("a", "b", "zzz")] = anyJSON(depth - 1)
		}
		return m
	case k == 1 && depth > 0:
		return []any{anyJSON(depth - 1), anyJSON(depth - 1)}
	case k == 2:
		return int64(r.Intn(100))
	case k == 3:
		return r.Intn(2) == 0
	case k == 4:
		return 1.5
	}
	return text()
}
func object() map[string]any {
	return map[string]any{pick("a", "b"): anyJSON(2), "k": anyJSON(1)}
}
func raw(x any) []byte {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return b
}

// fill makes v a random value. omit: the field may be left out; null: it may be null.
func fill(v reflect.Value, depth int, omit, null bool) {
	if omit && r.Intn(3) == 0 {
		return
	}
	var known any
	if v.CanInterface() { // not an embedded struct that is not exported
		known = v.Addr().Interface()
	}
	switch x := known.(type) {
	case *metav1.Time:
		*x = metav1.NewTime(time.Unix(int64(r.Int31()), 0).UTC())
		return
	case *metav1.MicroTime:
		*x = metav1.NewMicroTime(time.Unix(int64(r.Int31()), int64(r.Intn(1e9))).UTC())
		return
	case *metav1.Duration:
		x.Duration = time.Duration(r.Int63n(1e14) - 5e13)
		return
	case *resource.Quantity:
		*x = resource.MustParse(pick("0", "1", "-3", "1500m", "5Gi", "12e6", "0.5", "100u", "2n", "1E", "3.25Ki", "+7", "1e-3", "128974848", ".5", "9P"))
		if r.Intn(3) == 0 {
			*x = *resource.NewQuantity(r.Int63()-r.Int63(), pick(resource.DecimalSI, resource.BinarySI, resource.DecimalExponent))
		}
		if r.Intn(2) == 0 {
			_ = x.String()
		}
		return
	case *intstr.IntOrString:
		*x = pick(intstr.FromString(text()), intstr.FromInt32(r.Int31()-r.Int31()), intstr.FromString("10%"))
		return
	case *runtime.RawExtension:
		x.Raw = raw(object())
		return
	case *apiextv1.JSON:
		x.Raw = raw(anyJSON(2))
		return
	case *apiextv1beta1.JSON:
		x.Raw = raw(anyJSON(2))
		return
	case *unstructured.Unstructured:
		x.Object = object()
		x.SetKind("Foo")
		x.SetAPIVersion("g/v1")
		return
	case *metav1.ObjectMeta:
		*x = metav1.ObjectMeta{}
		if r.Intn(2) == 0 {
			x.Name, x.Labels = text(), map[string]string{"a": text()}
		}
		if r.Intn(2) == 0 {
			x.Namespace, x.Annotations = text(), map[string]string{"b": text(), "c": ""}
		}
		if r.Intn(2) == 0 {
			x.Finalizers = []string{text()}
		}
		return
	case *metav1.Condition:
		*x = metav1.Condition{Type: pick("Ready", "a.b/C"), Status: pick(metav1.ConditionTrue, metav1.ConditionFalse, metav1.ConditionUnknown), ObservedGeneration: r.Int63(), Reason: pick("Because", "A1"), Message: text()}
		x.LastTransitionTime = metav1.NewTime(time.Unix(int64(r.Int31()), 0).UTC())
		return
	}
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := r.Int63() >> (64 - t.Bits())
		v.SetInt(pick(0, 1, n, -n, int64(r.Intn(100))))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(pick(0, 1, uint64(r.Int63())&(1<<(t.Bits()-1)-1)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(pick(0, 1, -2, 1.5, float64(float32(r.NormFloat64())), 1e10, -1e-7, 1e25))
	case reflect.String:
		v.SetString(text())
	case reflect.Interface:
		v.Set(reflect.ValueOf(object()))
	case reflect.Pointer:
		if null && r.Intn(3) == 0 {
			return
		}
		v.Set(reflect.New(t.Elem()))
		fill(v.Elem(), depth, false, false)
	case reflect.Slice:
		if null && r.Intn(3) == 0 {
			return
		}
		n := r.Intn(3)
		if depth <= 0 {
			n = 0
		}
		if t.Elem().Kind() == reflect.Uint8 {
			n++ // the API server does not take "" for bytes
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := range n {
			fill(v.Index(i), depth-1, false, false)
		}
	case reflect.Array:
		for i := range v.Len() {
			fill(v.Index(i), depth-1, false, false)
		}
	case reflect.Map:
		if null && r.Intn(3) == 0 {
			return
		}
		v.Set(reflect.MakeMap(t))
		if depth <= 0 {
			return
		}
		for i := r.Intn(3); i > 0; i-- {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			fill(k, 1, false, false)
			fill(e, depth-1, false, false)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := range t.NumField() {
			f := t.Field(i)
			if !f.IsExported() && !f.Anonymous || f.Tag.Get("json") == "-" {
				continue
			}
			omit := false
			for _, o := range strings.Split(f.Tag.Get("json"), ",")[1:] {
				omit = omit || o == "omitzero" || o == "omitempty" && f.Type.Kind() != reflect.Struct && f.Type.Kind() != reflect.Array
			}
			if depth <= 0 && omit {
				continue
			}
			fill(v.Field(i), depth-1, omit, f.Tag.Get("verif") == "null")
		}
	default:
		panic("what is a " + t.String())
	}
}

// strip removes what is not judged: metadata and type of the root, and empty times in metadata.
func strip(doc map[string]any) {
	delete(doc, "metadata")
	delete(doc, "apiVersion")
	delete(doc, "kind")
	noTimes(doc)
}
func noTimes(x any) {
	switch x := x.(type) {
	case map[string]any:
		if c, ok := x["creationTimestamp"]; ok && c == nil {
			delete(x, "creationTimestamp")
		}
		for _, e := range x {
			noTimes(e)
		}
	case []any:
		for _, e := range x {
			noTimes(e)
		}
	}
}

type slot struct {
	v    any
	set  func(any)
	path string
}

func slots(x any, path string, set func(any), out *[]slot) {
	*out = append(*out, slot{x, set, path})
	switch x := x.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			slots(x[k], path+"."+k, func(n any) { x[k] = n }, out)
		}
	case []any:
		for i := range x {
			slots(x[i], fmt.Sprint(path, "[", i, "]"), func(n any) { x[i] = n }, out)
		}
	}
}
func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
func kindOf(x any) string {
	switch x.(type) {
	case string:
		return "s"
	case bool:
		return "b"
	case int64, float64:
		return "n"
	case []any:
		return "a"
	case map[string]any:
		return "o"
	}
	return "0"
}
func clone(x any) any {
	var y any
	if err := kjson.Unmarshal(raw(x), &y); err != nil {
		panic(err)
	}
	return y
}

type server struct {
	s *structural.Structural
	v *validate.SchemaValidator
}

func (s *server) judge(d *Doc, x any) {
	d.V = raw(x)
	x = clone(x)
	err := s.v.Validate(x).AsError()
	d.Acc = err == nil
	if err != nil {
		d.Why = err.Error()
	}
	y := clone(x)
	unknown := pruning.PruneWithOptions(y, s.s, false, structural.UnknownFieldPathOptions{TrackUnknownFieldPaths: true})
	d.Kept = reflect.DeepEqual(x, y)
	if !d.Kept {
		d.Why += " unknown: " + fmt.Sprint(unknown)
	}
}

func run(c *Case, o *Obs) error {
	r = rand.New(rand.NewSource(c.Seed))
	var v1 apiextv1.JSONSchemaProps
	if err := json.Unmarshal(c.Schema, &v1); err != nil {
		return err
	}
	var in apiext.JSONSchemaProps
	if err := apiextv1.Convert_v1_JSONSchemaProps_To_apiextensions_JSONSchemaProps(&v1, &in, nil); err != nil {
		return err
	}
	s, err := structural.NewStructural(&in)
	if err != nil {
		return fmt.Errorf("not structural: %w", err)
	}
	srv := &server{s, validate.NewSchemaValidator(s.ToKubeOpenAPI(), nil, "", strfmt.Default)}
	typ := Registry[c.ID]
	for range c.Values {
		v := reflect.New(typ)
		fill(v.Elem(), 6, false, false)
		b, err := json.Marshal(v.Interface())
		if err != nil {
			return fmt.Errorf("not encoded: %w", err)
		}
		var doc map[string]any
		if err := kjson.Unmarshal(b, &doc); err != nil {
			return err
		}
		strip(doc)
		d := Doc{Kind: "emit"}
		srv.judge(&d, doc)
		o.Docs = append(o.Docs, d)
		for range c.Mutants {
			m := clone(doc)
			var all []slot
			slots(m, "", nil, &all)
			at := all[r.Intn(len(all))]
			d := Doc{What: at.path}
			add := false
			if obj, ok := at.v.(map[string]any); ok && r.Intn(2) == 0 {
				obj["zzz"] = pick[any](int64(5), "5", true)
				d.What += " +zzz"
				add = true
			} else if at.set == nil {
				continue
			} else {
				n := pick[any](true, int64(3), "zz", []any{}, map[string]any{}, []any{int64(1)}, []any{"x"}, map[string]any{"zzz": int64(1)}, 1.5)
				if kindOf(n) == kindOf(at.v) && !(kindOf(n) == "n" && n == 1.5) {
					continue
				}
				if kindOf(n) == "s" && kindOf(at.v) == "0" {
					continue // its text may not be what is expected
				}
				if kindOf(n) == "a" && (kindOf(at.v) == "s" || kindOf(at.v) == "0") {
					continue // the API server takes any list where a string with a format is expected
				}
				at.set(n)
				d.What += " = " + string(raw(n))
			}
			dec := json.NewDecoder(bytes.NewReader(raw(m)))
			dec.DisallowUnknownFields()
			err := dec.Decode(reflect.New(typ).Interface())
			var te *json.UnmarshalTypeError
			switch {
			case err == nil && add:
				d.Kind = "kept"
			case err == nil:
				continue
			case strings.Contains(err.Error(), "Object 'Kind' is missing"):
				continue
			case strings.Contains(err.Error(), "unknown field"):
				if !add {
					continue
				}
				d.Kind = "lost"
			case add && !errors.As(err, &te):
				continue // the text of the added string
			default:
				d.Kind = "wrong"
				d.What += ": " + err.Error()
			}
			srv.judge(&d, m)
			o.Docs = append(o.Docs, d)
		}
	}
	return nil
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	dec, enc := json.NewDecoder(in), json.NewEncoder(out)
	for dec.More() {
		var c Case
		if err := dec.Decode(&c); err != nil {
			panic(err)
		}
		o := Obs{ID: c.ID, Docs: []Doc{}}
		if err := run(&c, &o); err != nil {
			o.Err = err.Error()
		}
		if err := enc.Encode(o); err != nil {
			panic(err)
		}
	}
	if err := out.Close(); err != nil {
		panic(err)
	}
}

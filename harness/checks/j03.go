package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/gen"
	"verif/harness/h"
)

// visit is one expected call of a walk callback.
type visit struct {
	path   string
	parent string
	raw    interface{} // the content of the field
	bad    bool        // a malformed field
}

var walkNames = []string{"type", "items", "properties", "required", "$ref2", "a\"b", "back\\slash", "tab\there", "emoji😀", "a.b", "[0]", "*", "a[*]", "$", "é", "\u2028", "</script>", "very long name with many words in it"}

// visits lists what a walk has to visit: one visit per field, of which each is the child of another or of the root.
func visits(props gen.Obj, items interface{}, path string, out []visit) []visit {
	for _, m := range props {
		out = fieldVisits(m.Val, path+"."+m.Key, path, out)
	}
	if items != nil {
		out = fieldVisits(items, path+"[*]", path, out)
	}
	return out
}

func member(v interface{}, key string) interface{} {
	if o, ok := v.(gen.Obj); ok {
		for _, m := range o {
			if m.Key == key {
				return m.Val
			}
		}
	}
	return nil
}

func fieldVisits(f interface{}, path, parent string, out []visit) []visit {
	typ := member(f, "type")
	if l, ok := typ.([]interface{}); ok {
		for _, t := range l {
			if t != "null" {
				typ = t
			}
		}
	}
	_, isObj := f.(gen.Obj)
	v := visit{path: path, parent: parent, raw: f, bad: !isObj}
	switch typ {
	case "object":
		props, ok := member(f, "properties").(gen.Obj)
		v.bad = v.bad || !ok
		out = append(out, v)
		return visits(props, nil, path, out)
	case "array":
		items := member(f, "items")
		v.bad = v.bad || items == nil
		out = append(out, v)
		if items == nil {
			return out
		}
		return visits(nil, items, path, out)
	}
	return append(out, v)
}

// walkField draws a field as an ordered object. Scalars can have properties and items, which no walk may follow.
func walkField(r *rand.Rand, depth int) gen.Obj {
	typ := gen.Pick(r, []string{"string", "number", "integer", "boolean"})
	if depth > 0 {
		typ = gen.Pick(r, []string{"string", "number", "integer", "boolean", "object", "object", "array"})
	}
	var o gen.Obj
	add := func(k string, v interface{}) { o = append(o, gen.Member{Key: k, Val: v}) }
	switch r.Intn(5) {
	case 0:
		add("type", []interface{}{typ, "null"})
	case 1:
		add("type", []interface{}{"null", typ})
	case 2:
		add("type", []interface{}{typ})
	default:
		add("type", typ)
	}
	if gen.Chance(r, 30) {
		add("description", gen.StringVal(r))
	}
	if gen.Chance(r, 10) {
		add("fromRef", "some/file.json#/x")
	}
	if typ == "string" && gen.Chance(r, 20) {
		add("format", "date-time")
	}
	if gen.Chance(r, 10) {
		add("default", gen.Obj{{Key: "properties", Val: gen.Obj{{Key: "fake", Val: gen.Obj{{Key: "type", Val: "string"}}}}}})
	}
	if gen.Chance(r, 10) {
		add("definitions", gen.Obj{{Key: "fake", Val: gen.Obj{{Key: "type", Val: "string"}}}})
	}
	if gen.Chance(r, 8) {
		add("transform", gen.Obj{{Key: "it", Val: gen.Obj{{Key: "from", Val: []interface{}{}}}}})
	}
	switch typ {
	case "object":
		add("properties", walkProps(r, depth-1, 4))
		if gen.Chance(r, 20) {
			add("items", walkField(r, 0))
		}
		if gen.Chance(r, 30) {
			add("required", []interface{}{"a"})
		}
		if gen.Chance(r, 10) {
			add("allOf", []interface{}{gen.Obj{{Key: "type", Val: "object"}, {Key: "properties", Val: walkProps(r, 0, 2)}}})
		}
	case "array":
		add("items", walkField(r, depth-1))
		if gen.Chance(r, 20) {
			add("properties", walkProps(r, 0, 2))
		}
	default:
		if gen.Chance(r, 10) {
			add("properties", walkProps(r, 0, 2))
		}
		if gen.Chance(r, 10) {
			add("items", walkField(r, 0))
		}
	}
	return o
}

func walkProps(r *rand.Rand, depth, max int) gen.Obj {
	o := gen.Obj{}
	seen := map[string]bool{}
	for _, name := range gen.NameSet(r, r.Intn(max+1), 25) {
		if gen.Chance(r, 12) {
			name = gen.Pick(r, walkNames)
		}
		if !seen[name] {
			seen[name] = true
			o = append(o, gen.Member{Key: name, Val: walkField(r, depth)})
		}
	}
	return o
}

// noSpoil makes the field malformed, at most one of them.
func spoilField(r *rand.Rand, o gen.Obj) (gen.Obj, bool) {
	props, _ := member(o, "properties").(gen.Obj)
	for i, m := range o {
		switch {
		case m.Key == "properties" && len(props) > 0 && (o[0].Val == "object"):
			k := r.Intn(len(props))
			f, ok := props[k].Val.(gen.Obj)
			if !ok {
				return o, false
			}
			if gen.Chance(r, 50) {
				if g, ok := spoilField(r, f); ok {
					props[k].Val = g
					return o, true
				}
			}
			switch f[0].Val {
			case "object":
				props[k].Val = without(f, "properties")
			case "array":
				props[k].Val = without(f, "items")
			default:
				props[k].Val = gen.Pick(r, []interface{}{5.0, "text", true, []interface{}{}})
			}
			return o, true
		case m.Key == "items" && o[0].Val == "array":
			f, ok := m.Val.(gen.Obj)
			if !ok {
				return o, false
			}
			if g, ok := spoilField(r, f); ok {
				o[i].Val = g
				return o, true
			}
		}
	}
	return o, false
}

func without(o gen.Obj, key string) gen.Obj {
	var out gen.Obj
	for _, m := range o {
		if m.Key != key {
			out = append(out, m)
		}
	}
	return out
}

type walkCall struct {
	path string
	raw  string               // WalkRaw
	inst *jsonschema.Instance // Walk
}

var errStop = errors.New("the callback says stop")

// doWalk runs one walk, its callback fails at call number stop.
func doWalk(s *jsonschema.Schema, rawWalk bool, stop int) (calls []walkCall, err error) {
	if rawWalk {
		err = jsonschema.WalkRaw(s, func(path string, value json.RawMessage) error {
			calls = append(calls, walkCall{path: path, raw: string(value)})
			if len(calls) == stop {
				return errStop
			}
			return nil
		})
		return
	}
	err = jsonschema.Walk(s, func(path string, i jsonschema.Instance) error {
		calls = append(calls, walkCall{path: path, inst: &i})
		if len(calls) == stop {
			return errStop
		}
		return nil
	})
	return
}

// sameInstance compares the instance of a walk with the content of the field.
func sameInstance(i *jsonschema.Instance, f interface{}) string {
	raw := gen.RenderCompact(f)
	var types []string
	switch t := member(f, "type").(type) {
	case string:
		types = []string{t}
	case []interface{}:
		for _, x := range t {
			types = append(types, x.(string))
		}
	}
	if !reflect.DeepEqual(i.Type, types) {
		return fmt.Sprintf("type %q of %s", i.Type, raw)
	}
	text := func(key string) string { s, _ := member(f, key).(string); return s }
	if i.Description != text("description") || i.Format != text("format") || i.FromRef != text("fromRef") {
		return fmt.Sprintf("description %q, format %q or fromRef %q of %s", i.Description, i.Format, i.FromRef, raw)
	}
	var req []string
	if l, ok := member(f, "required").([]interface{}); ok {
		for _, x := range l {
			req = append(req, x.(string))
		}
	}
	if !reflect.DeepEqual(i.Required, req) {
		return fmt.Sprintf("required %q of %s", i.Required, raw)
	}
	props, _ := member(f, "properties").(gen.Obj)
	if len(props) != len(i.Properties) {
		return fmt.Sprintf("%d properties of %s", len(i.Properties), raw)
	}
	for _, p := range props {
		if !sameJSON(i.Properties[p.Key], gen.RenderCompact(p.Val)) {
			return fmt.Sprintf("property %q of %s is %s", p.Key, raw, i.Properties[p.Key])
		}
	}
	if items := member(f, "items"); items != nil && !sameJSON(i.Items, gen.RenderCompact(items)) || items == nil && i.Items != nil {
		return fmt.Sprintf("items %s of %s", i.Items, raw)
	}
	return ""
}

func sameJSON(a, b []byte) bool {
	x, err := canonical(a)
	y, err2 := canonical(b)
	return err == nil && err2 == nil && x == y
}

func init() {
	register(&h.Check{
		ID:    "J03",
		Rule:  "random schemas with nested objects and arrays, all type notations, odd and escaped names, and properties or items where no walk may follow them, loaded from a file or built from their raw content; each is walked by Walk and WalkRaw, to the end, stopped by the callback at a random call, and with one malformed field. Non-trivial: at least two levels of fields",
		Quick: 24000, Thorough: 400000, Shards: 6,
		Need: []string{"complete_walks", "callbacks", "walks_stopped_by_the_callback", "walks_stopped_by_a_malformed_field", "fields_below_arrays"},
		Run:  runWalk,
	})
}

func runWalk(c *h.Case) {
	r := c.R
	var root gen.Obj
	var items interface{}
	props := walkProps(r, 1+r.Intn(4), 6)
	switch {
	case gen.Chance(r, 2): // wide
		props = walkProps(r, 1, 90)
	case gen.Chance(r, 2): // deep
		f := walkField(r, 1)
		for i := 5 + r.Intn(gen.Pick(r, []int{25, 25, 150})); i > 0; i-- {
			if gen.Chance(r, 50) {
				f = gen.Obj{{Key: "type", Val: "array"}, {Key: "items", Val: f}}
			} else {
				f = gen.Obj{{Key: "type", Val: "object"}, {Key: "properties", Val: append(walkProps(r, 0, 1), gen.Member{Key: fmt.Sprint("level", i), Val: f})}}
			}
		}
		props = gen.Obj{{Key: "deep", Val: f}}
	}
	rootType := interface{}("object")
	if gen.Chance(r, 20) {
		items = walkField(r, r.Intn(4))
		if gen.Chance(r, 70) {
			props, rootType = nil, "array"
		}
	}
	root = append(root, gen.Member{Key: "type", Val: rootType})
	malformed := gen.Chance(r, 25)
	if props != nil {
		root = append(root, gen.Member{Key: "properties", Val: props})
	}
	if items != nil {
		root = append(root, gen.Member{Key: "items", Val: items})
	}
	if malformed {
		root, malformed = spoilField(r, root)
		props, _ = member(root, "properties").(gen.Obj)
		items = member(root, "items")
	}
	text := gen.Render(root, gen.Layout{R: r, Shuffle: true, Space: r.Intn(3)})
	if malformed || gen.Chance(r, 30) {
		// built from the content, which the loader might refuse
		var s jsonschema.Schema
		if err := json.Unmarshal(text, &s.Instance); err != nil {
			c.Count("malformed_beyond_use")
			return
		}
		checkWalks(c, &s, props, items, malformed, text)
		return
	}
	s, p, err := loadSchema(c, text)
	defer os.RemoveAll(filepath.Dir(p))
	if err != nil {
		// the validation library refuses some of the things no walk may follow
		c.Count("refused_by_the_loader")
		return
	}
	checkWalks(c, s, props, items, false, text)
}

func checkWalks(c *h.Case, s *jsonschema.Schema, props gen.Obj, items interface{}, malformed bool, text []byte) {
	r := c.R
	want := visits(props, items, "$", nil)
	byPath := map[string][]visit{}
	deep := false
	for _, v := range want {
		byPath[v.path] = append(byPath[v.path], v)
		deep = deep || v.parent != "$"
		if strings.Contains(v.parent, "[*]") {
			c.Count("fields_below_arrays")
		}
	}
	c.Eval(deep, text)
	for _, rawWalk := range []bool{false, true} {
		name := map[bool]string{false: "Walk", true: "WalkRaw"}[rawWalk]
		for round := 0; round < 2; round++ {
			stop := 0
			if round == 1 {
				if len(want) == 0 {
					continue
				}
				stop = 1 + r.Intn(len(want))
			}
			var calls []walkCall
			var err error
			detail := func() interface{} {
				var paths []string
				for _, k := range calls {
					paths = append(paths, k.path)
				}
				return map[string]interface{}{"schema": str(text), "walk": name, "stop_at": stop, "calls": paths, "error": errText(err)}
			}
			if !c.Guard(name, detail, func() { calls, err = doWalk(s, rawWalk, stop) }) {
				return
			}
			c.Add("callbacks", int64(len(calls)))
			left := map[string]int{}
			for p, v := range byPath {
				left[p] = len(v)
			}
			seen := map[string]bool{"$": true}
			badSeen := -1
			for i, k := range calls {
				vs := byPath[k.path]
				if left[k.path] == 0 {
					c.Fail(fmt.Sprintf("%s calls back for %q more often than there are such fields", name, k.path), detail())
					return
				}
				left[k.path]--
				seen[k.path] = true
				parent, same, why := false, false, ""
				for _, v := range vs {
					parent = parent || seen[v.parent]
					if rawWalk {
						if f, ok := v.raw.(string); ok && k.raw == f {
							same = true // jsonparser gives text without its quotes
						} else if sameJSON([]byte(k.raw), gen.RenderCompact(v.raw)) {
							same = true
						}
						why = k.raw
					} else if why = sameInstance(k.inst, v.raw); why == "" {
						same = true
					}
					if v.bad && same {
						badSeen = i
					}
				}
				if !parent {
					c.Fail(fmt.Sprintf("%s calls back for %q before its parent", name, k.path), detail())
					return
				}
				if !same {
					c.Fail(fmt.Sprintf("%s calls back for %q with other content: %s", name, k.path, why), detail())
					return
				}
			}
			stopped := stop > 0 && len(calls) >= stop
			switch {
			case stopped:
				if len(calls) > stop {
					c.Fail(fmt.Sprintf("%s goes on after the callback failed", name), detail())
				} else if err == nil || !strings.Contains(err.Error(), errStop.Error()) {
					c.Fail(fmt.Sprintf("%s returns %v where the callback failed", name, err), detail())
				}
				c.Count("walks_stopped_by_the_callback")
			case malformed:
				if err == nil {
					c.Fail(fmt.Sprintf("%s returns no error for a malformed field", name), detail())
				} else if badSeen >= 0 && badSeen != len(calls)-1 {
					c.Fail(fmt.Sprintf("%s goes on after a malformed field", name), detail())
				}
				c.Count("walks_stopped_by_a_malformed_field")
			default:
				if err != nil {
					c.Fail(fmt.Sprintf("%s fails: %v", name, err), detail())
					return
				}
				if len(calls) != len(want) {
					c.Fail(fmt.Sprintf("%s makes %d calls, there are %d fields", name, len(calls), len(want)), detail())
				}
				c.Count("complete_walks")
			}
		}
	}
	if c.WantSample() {
		var paths []string
		for _, v := range want {
			paths = append(paths, v.path)
		}
		c.Sample(map[string]interface{}{"schema": json.RawMessage(text), "visited": paths})
	}
}

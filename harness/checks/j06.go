package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/gen"
	"verif/harness/h"
	"verif/harness/model"
)

// tightenRefs adds constraints around the values of documents, following references.
func tightenRefs(r *rand.Rand, n *gen.Node, vals []interface{}, pct int, seen map[*gen.Node]bool) {
	for n.Ref != "" {
		n = n.Target
	}
	if seen[n] {
		return
	}
	seen[n] = true
	// the node itself only, tightenNode would not follow references below
	one := *n
	one.Props, one.Items, one.Required, one.MinItems, one.MaxItems, one.MinLen, one.MaxLen, one.Min, one.Max, one.ExMin = nil, nil, nil, nil, nil, nil, nil, nil, nil, false
	for _, p := range n.Props {
		one.Props = append(one.Props, gen.Prop{Name: p.Name, Node: &gen.Node{}})
	}
	tightenOwn(r, &one, vals, pct)
	n.Required, n.Closed, n.MinItems, n.MaxItems = one.Required, one.Closed, one.MinItems, one.MaxItems
	n.MinLen, n.MaxLen, n.Enum, n.Pattern, n.Min, n.Max, n.ExMin = one.MinLen, one.MaxLen, one.Enum, one.Pattern, one.Min, one.Max, one.ExMin
	tightenMore(r, n, vals, pct/2)
	for _, l := range [][]*gen.Node{n.AllOf, n.AnyOf, n.OneOf} {
		for _, p := range l {
			tightenRefs(r, p, vals, pct, seen)
		}
	}
	for _, p := range n.Props {
		var sub []interface{}
		for _, v := range vals {
			if m, ok := v.(map[string]interface{}); ok {
				if x, ok := m[p.Name]; ok {
					sub = append(sub, x)
				}
			}
		}
		tightenRefs(r, p.Node, sub, pct, seen)
	}
	if n.Items != nil {
		var sub []interface{}
		for _, v := range vals {
			if a, ok := v.([]interface{}); ok {
				sub = append(sub, a...)
			}
		}
		tightenRefs(r, n.Items, sub, pct, seen)
	}
}

// composeNear adds compositions of subschemas around the values to fields.
func composeNear(r *rand.Rand, n *gen.Node, vals []interface{}) {
	eachNode(n, nil, func(n *gen.Node, _ []string) {
		if n.Ref != "" || len(n.AnyOf)+len(n.OneOf)+len(n.AllOf) > 0 || !gen.Chance(r, 12) {
			return
		}
		part := func() *gen.Node {
			p := &gen.Node{Type: n.Type}
			if gen.Chance(r, 20) {
				p.Type = gen.Pick(r, []string{"string", "number", "boolean", "object", "array"})
			}
			f, k := float64(r.Intn(30)-10), r.Intn(6)
			switch p.Type {
			case "string":
				switch r.Intn(3) {
				case 0:
					p.MinLen = &k
				case 1:
					p.MaxLen = &k
				case 2:
					p.Pattern = gen.Pick(r, []string{"^[a-z]", "[0-9]", "^.{0,5}$", "^$|[a-zA-Z]"})
				}
			case "number", "integer":
				if gen.Chance(r, 50) {
					p.Min = &f
				} else {
					p.Max = &f
				}
				if gen.Chance(r, 20) {
					p.Multiple = 2
				}
			case "object":
				p.Free = true
				for _, q := range n.Props {
					if gen.Chance(r, 50) {
						p.Required = append(p.Required, q.Name)
					}
				}
			case "array":
				if gen.Chance(r, 50) {
					p.MinItems = &k
				} else {
					p.MaxItems = &k
				}
			}
			return p
		}
		var l []*gen.Node
		for k := 1 + r.Intn(3); k > 0; k-- {
			l = append(l, part())
		}
		switch r.Intn(3) {
		case 0:
			n.AnyOf = l
		case 1:
			n.OneOf = l
		case 2:
			n.AllOf = l[:1]
		}
	})
}

// spoilDocument makes a text which is no JSON document.
func spoilDocument(r *rand.Rand, raw []byte) []byte {
	for i := 0; i < 20; i++ {
		out := append([]byte{}, raw...)
		switch k := r.Intn(len(out) + 1); r.Intn(6) {
		case 0:
			out = out[:k]
		case 1:
			out = append(out, gen.Pick(r, []string{"}", "]", " x", "{}", ",", "\x00", "//", "null", "\""})...)
		case 2:
			if k < len(out) {
				out[k] = byte(r.Intn(256))
			}
		case 3:
			out = append(out[:k:k], append([]byte(gen.Pick(r, []string{",", "\"", "{", "]", "0", "\\", "tru"})), out[k:]...)...)
		case 4:
			if k < len(out) {
				out = append(out[:k], out[k+1:]...)
			}
		case 5:
			out = append([]byte(gen.Pick(r, []string{"\ufeff", "x", "{}", "'", "//a\n", "[1]"})), out...)
		}
		if !json.Valid(out) {
			return out
		}
	}
	return []byte("{")
}

func init() {
	register(&h.Check{
		ID:          "J06",
		Rule:        "schemas over several files and loopback URLs with references as in J01, constrained around sample documents (required, closed objects, item counts, lengths, enums, patterns, bounds, multipleOf) and with allOf, anyOf and oneOf in fields; documents near the schema, mutated and malformed ones are validated by the loaded schema and by a validator made directly, both of which have to agree with an independent evaluator of JSON Schema. Non-trivial: the schema has a reference or composition; distinct by schema and document",
		Assumptions: []string{"format date-time is taken as the validation library does: a date or a time alone is accepted too", "additionalProperties false is not combined with compositions, for which the validation library has rules of its own"},
		Quick:       8000, Thorough: 150000,
		Need: []string{"accepted", "rejected", "malformed_rejected", "file", "url", "own_definition", "compositions"},
		Setup: func(w *h.Worker) error {
			w.Data = newDocServer()
			return nil
		},
		Run: runVerdicts,
	})
}

// longestArray is the count of items of the longest array in a value.
func longestArray(v interface{}) int {
	longest := 0
	switch t := v.(type) {
	case []interface{}:
		longest = len(t)
		for _, x := range t {
			longest = max(longest, longestArray(x))
		}
	case map[string]interface{}:
		for _, x := range t {
			longest = max(longest, longestArray(x))
		}
	}
	return longest
}

func runVerdicts(c *h.Case) {
	r := c.R
	srv := c.Data.(*docServer)
	g := &refGen{r: r, uses: map[string]int{}, src: gen.Source(r)}
	dir := filepath.Join(c.Dir, fmt.Sprintf("v%d", c.Idx)+oddDir(r))
	defer os.RemoveAll(dir)
	prefix := fmt.Sprintf("/v%d/", c.Idx)
	g.serveAt(srv, prefix)
	for i, n := 0, r.Intn(5); i < n; i++ {
		path := gen.Pick(r, []string{"", "sub/", "sub/deeper/", "other/"}) + fmt.Sprintf("d%d.json", i)
		g.document(path, gen.Chance(r, 30), false)
	}
	main := g.document(gen.Pick(r, []string{"", "sub/"})+"main.json", false, true)
	root := main.root.ref

	var docs []interface{}
	for i := 0; i < 8; i++ {
		docs = append(docs, rootNear(r, main.root.inl, gen.Pick(r, []int{0, 0, 5, 15})))
	}
	// composed schemas are drawn after the references, which lead to the same nodes
	seen := map[*gen.Node]bool{}
	for _, d := range g.docs {
		composeNear(r, d.root.ref, docs)
	}
	tightenRefs(r, root, docs[:4], gen.Pick(r, []int{0, 15, 30}), seen)
	for i := 0; i < 6; i++ {
		docs = append(docs, mutate(r, gen.Copy(gen.Pick(r, docs)), 1+i))
	}
	docs = append(docs, gen.Value(r, 2, gen.Idents))
	compositions, unique := 0, false
	for n := range seen {
		unique = unique || n.More != nil && n.More.Unique
		compositions += len(n.AllOf) + len(n.AnyOf) + len(n.OneOf)
	}
	if compositions > 0 {
		// the validation library lets a closed object have the properties of the other parts of a composition
		for n := range seen {
			n.Closed = false
		}
	}
	files := g.write(dir, srv, prefix)
	defer g.unserve(srv, prefix)
	total := 0
	for k, n := range g.uses {
		total += n
		c.Add(k, int64(n))
	}
	detail := func(extra interface{}) func() interface{} {
		return func() interface{} {
			return map[string]interface{}{"files": files, "main": main.path, "call": extra}
		}
	}
	path := filepath.Join(dir, main.path)
	var s *jsonschema.Schema
	var err error
	if !c.Guard("load", detail(nil), func() { s, err = jsonschema.SchemaFromFile(path, "") }) {
		return
	}
	if err != nil {
		c.Fail("valid schema does not load: "+err.Error(), detail(nil)())
		return
	}
	v, err := jsonschema.NewValidator(path)
	if err != nil {
		c.Fail("no validator for a valid schema: "+err.Error(), detail(nil)())
		return
	}
	if compositions > 0 {
		c.Count("compositions")
	}
	ask := func(raw []byte, want bool, kind string) bool {
		before := append([]byte{}, raw...)
		var a, b bool
		var ea, eb error
		d := detail(map[string]interface{}{"document": string(raw), "want": want})
		if !c.Guard("validate", d, func() { a, ea = s.Validate(raw); b, eb = v.Validate(raw) }) {
			return false
		}
		switch {
		case !bytes.Equal(before, raw):
			c.Fail("validation changes the document", d())
		case a != (ea == nil) || b != (eb == nil):
			c.Fail(fmt.Sprintf("verdict %v comes with error %v, %v with %v", a, ea, b, eb), d())
		case a != b:
			c.Fail(fmt.Sprintf("schema says %v, validator of the same file %v", a, b), d())
		case a != want:
			c.Fail(fmt.Sprintf("%s document gets %v (%v), want %v", kind, a, ea, want), d())
		default:
			return true
		}
		return false
	}
	for i, doc := range docs {
		// as it is decoded, so that numbers are what the text says
		raw := gen.Render(doc, gen.Layout{R: r, Shuffle: true, Space: r.Intn(3)})
		val, err := decode(raw)
		if err != nil {
			continue
		}
		if unique && longestArray(val) > 40 {
			continue // the validation library has an error for each pair of equal items, which takes it minutes
		}
		want := model.Valid(root, val)
		c.Eval(total > 0 || compositions > 0, fmt.Sprint(files), raw)
		if !ask(raw, want, "JSON") {
			return
		}
		if want {
			c.Count("accepted")
		} else {
			c.Count("rejected")
		}
		if i%4 == 0 {
			bad := spoilDocument(r, raw)
			if !ask(bad, false, "malformed") {
				return
			}
			c.Count("malformed_rejected")
		}
		if want && total > 2 && c.WantSample() {
			c.Sample(detail(string(raw))())
		}
	}
}

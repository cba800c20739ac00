package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/gen"
	"verif/harness/h"
	"verif/harness/model"
)

// jsonCase is a schema with documents.
type jsonCase struct {
	root  *gen.Node
	ident string
	docs  []interface{}
}

// outcome compares the output of the transform of one document with that of the model.
func (jc *jsonCase) check(c *h.Case, tr *transform.Transformer, doc interface{}, raw []byte) (interface{}, bool) {
	want, wantErr := model.JSON(jc.root, jc.ident, doc)
	detail := func() interface{} {
		return map[string]interface{}{"schema": json.RawMessage(gen.RenderCompact(jc.root.JSON())), "ident": jc.ident, "document": json.RawMessage(raw)}
	}
	var out []byte
	var err error
	if !c.Guard("transform", detail, func() { out, err = tr.TransformNoValidation(raw) }) {
		return nil, false
	}
	if wantErr == nil && model.Output(want) == nil {
		c.Count("unencodable")
		return nil, false
	}
	fail := func(what string) {
		c.Fail(what, map[string]interface{}{"input": detail(), "want": json.RawMessage(model.Output(want)), "want_error": wantErr != nil, "got": string(out), "got_error": errText(err)})
	}
	if (err != nil) != (wantErr != nil) {
		fail(fmt.Sprintf("transform gives error %v, expected error: %v", err, wantErr != nil))
		return nil, false
	}
	if err != nil {
		c.Count("transforms_failing_as_expected")
		return nil, true
	}
	got, cerr := canonical(out)
	if cerr != nil {
		fail("output is no JSON: " + cerr.Error())
		return nil, false
	}
	exp, _ := canonical(model.Output(want))
	if got != exp {
		fail("output differs from the expected: got " + got + " want " + exp)
		return nil, false
	}
	c.Count("transforms_matching_the_model")
	return want, true
}

// shape draws a schema without transforms.
type shapeOpts struct {
	depth      int
	maxProps   int
	oddPct     int
	defaultPct int
	wrongDef   bool
	freePct    int
	arrayPct   int
	nullPct    int
	noObject   bool
}

func shape(r *rand.Rand, o shapeOpts) *gen.Node {
	n := &gen.Node{Type: "object"}
	k := 1 + r.Intn(o.maxProps)
	switch {
	case o.maxProps > 3 && gen.Chance(r, 2): // wide
		k, o.depth, o.maxProps = 20+r.Intn(50), min(o.depth, 1), 3
	case o.maxProps > 3 && gen.Chance(r, 2): // deep
		k, o.depth, o.maxProps = 2, 8, 2
	}
	for _, name := range gen.NameSet(r, k, o.oddPct) {
		n.Props = append(n.Props, gen.Prop{Name: name, Node: field(r, o, o.depth)})
	}
	return n
}

func field(r *rand.Rand, o shapeOpts, depth int) *gen.Node {
	var n *gen.Node
	x := r.Intn(100)
	switch {
	case depth > 0 && x < 20 && !o.noObject:
		oo := o
		oo.depth = depth - 1
		n = shape(r, oo)
		if gen.Chance(r, o.defaultPct/3) {
			n.HasDefault = true
			m := map[string]interface{}{}
			for _, p := range n.Props {
				if gen.Chance(r, 60) {
					m[p.Name] = defaultFor(r, p.Node)
				}
			}
			if gen.Chance(r, 30) {
				m["defaultOnly"] = gen.Scalar(r)
			}
			n.Default = m
		}
	case depth > 0 && x < 20+o.arrayPct:
		n = &gen.Node{Type: "array", Items: field(r, o, depth-1)}
		if gen.Chance(r, o.defaultPct/2) {
			n.HasDefault = true
			n.Default = defaultFor(r, n)
		}
	case x < 20+o.arrayPct+o.freePct && !o.noObject:
		n = &gen.Node{Type: "object", Free: true}
		if gen.Chance(r, o.defaultPct) {
			n.HasDefault = true
			n.Default = map[string]interface{}{"free": gen.Value(r, 2, gen.Idents)}
		}
	default:
		n = scalarNode(r)
		if gen.Chance(r, o.defaultPct) {
			n.HasDefault = true
			n.Default = defaultFor(r, n)
		}
	}
	n.Nullable = gen.Chance(r, o.nullPct)
	n.NullFirst = gen.Chance(r, 50)
	n.TypeList = gen.Chance(r, 10)
	return n
}

func scalarNode(r *rand.Rand) *gen.Node {
	switch r.Intn(6) {
	case 0:
		return &gen.Node{Type: "boolean"}
	case 1:
		return &gen.Node{Type: "number"}
	case 2:
		return &gen.Node{Type: "integer"}
	case 3:
		return &gen.Node{Type: "string", DateTime: true}
	}
	return &gen.Node{Type: "string"}
}

// defaultFor draws a default which fits the field.
func defaultFor(r *rand.Rand, n *gen.Node) interface{} {
	switch n.Type {
	case "object":
		m := map[string]interface{}{}
		for _, p := range n.Props {
			if gen.Chance(r, 70) {
				m[p.Name] = defaultFor(r, p.Node)
			}
		}
		return m
	case "array":
		a := []interface{}{}
		for i := r.Intn(3); i >= 0; i-- {
			a = append(a, defaultFor(r, n.Items))
		}
		return a
	case "boolean":
		return r.Intn(2) == 0
	case "number":
		return gen.NumberVal(r)
	case "integer":
		return float64(r.Intn(100))
	}
	if n.DateTime {
		return "2001-02-03T04:05:06Z"
	}
	return gen.Pick(r, []string{"", "dflt", "Default Text", "0", "☃"})
}

// eachNode visits all nodes below n.
func eachNode(n *gen.Node, path []string, f func(n *gen.Node, path []string)) {
	for _, p := range n.Props {
		pp := append(append([]string{}, path...), p.Name)
		f(p.Node, pp)
		eachNode(p.Node, pp, f)
	}
	if n.Items != nil {
		pp := append(append([]string{}, path...), "[*]")
		f(n.Items, pp)
		eachNode(n.Items, pp, f)
	}
}

// absent gives a path which finds nothing in any document: the first segment is never a member name.
func absent(r *rand.Rand) *gen.Path {
	switch r.Intn(4) {
	case 0:
		return &gen.Path{Segs: []gen.Seg{{Kind: gen.Field, Name: "nowhere"}}}
	case 1:
		return &gen.Path{Segs: []gen.Seg{{Kind: gen.Field, Name: "nowhere"}, {Kind: gen.Wild}, {Kind: gen.Field, Name: "x"}}}
	case 2:
		return &gen.Path{Segs: []gen.Seg{{Kind: gen.Field, Name: "nowhere"}, {Kind: gen.FilterEq, Name: "id", Lit: 1.0}}}
	}
	return &gen.Path{Segs: []gen.Seg{{Kind: gen.Field, Name: "nowhere"}, {Kind: gen.Index, I: 3}}}
}

func rootNear(r *rand.Rand, root *gen.Node, wrong int) interface{} {
	for i := 0; i < 20; i++ {
		if v, ok := gen.Near(r, root, wrong); ok {
			if _, isObj := v.(map[string]interface{}); isObj || gen.Chance(r, 10) {
				if gen.Chance(r, 3) {
					v = gen.Enlarge(r, v)
				}
				if gen.Chance(r, 10) {
					v = gen.Reshape(r, v)
				}
				return v
			}
		}
	}
	return map[string]interface{}{}
}

func init() {
	register(&h.Check{
		ID:   "T05",
		Rule: "random schema (nesting, arrays, free-form objects, defaults, odd names, nullable) without transforms for the identifier or with ones that find nothing, times random documents which match it to varying degrees; a case is non-trivial if the expected output is not empty, distinct by schema and document",
		Assumptions: []string{"object and array defaults fit the declared type (others are rejected when the transformer is built)",
			"property names have no '.' or '[' (path escaping)"},
		Quick: 36000, Thorough: 400000,
		Need: []string{"transforms_matching_the_model", "expected_value_at_same_place", "expected_empty"},
		Run: func(c *h.Case) {
			r := c.R
			o := shapeOpts{depth: 1 + r.Intn(4), maxProps: 6, oddPct: 30, defaultPct: 35, freePct: 10, arrayPct: 20, nullPct: 10}
			jc := &jsonCase{root: shape(r, o), ident: "it"}
			if gen.Chance(r, 40) {
				eachNode(jc.root, nil, func(n *gen.Node, path []string) {
					if gen.Chance(r, 30) {
						// instructions which find nothing or belong to another identifier
						t := &gen.Transform{Method: gen.Pick(r, []string{"", "first", "last", "concatenate"})}
						ident := jc.ident
						other := gen.Chance(r, 40)
						for i := r.Intn(2); i >= 0; i-- {
							in := gen.Instr{Path: absent(r)}
							if other {
								in.Path = &gen.Path{}
							}
							if gen.Chance(r, 30) {
								in.Ops = []gen.Op{{Type: "inverse"}}
							}
							t.From = append(t.From, in)
						}
						if other {
							ident = gen.Pick(r, []string{"other", "i", "it2", "IT"})
						}
						n.Tr = append(n.Tr, gen.NamedTransform{Ident: ident, T: t})
					}
				})
			}
			tr := transformer(c, jc.root, jc.ident, false)
			if tr == nil {
				return
			}
			schemaText := gen.RenderCompact(jc.root.JSON())
			for i := 0; i < 6; i++ {
				wrong := []int{0, 10, 30, 60}[r.Intn(4)]
				doc := rootNear(r, jc.root, wrong)
				raw := gen.Render(doc, gen.Layout{})
				want, ok := jc.check(c, tr, doc, raw)
				if !ok {
					return
				}
				c.Eval(want != nil, schemaText, raw)
				if want != nil {
					c.Count("expected_value_at_same_place")
					if c.WantSample() {
						c.Sample(map[string]interface{}{"schema": json.RawMessage(schemaText), "document": json.RawMessage(raw), "output": json.RawMessage(model.Output(want))})
					}
				} else {
					c.Count("expected_empty")
				}
			}
		},
	})
}

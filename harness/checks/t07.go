package checks

import (
	"encoding/json"
	"math/rand"

	"verif/harness/gen"
	"verif/harness/h"
	"verif/harness/model"
)

// arrayGen draws fields fed by arrays.
type arrayGen struct {
	r      *rand.Rand
	doc    map[string]interface{}
	ident  string
	opPct  int
	nested int // deepest nesting of arrays drawn
}

func (g *arrayGen) tr(n *gen.Node, from ...gen.Instr) {
	n.Tr = append(n.Tr, gen.NamedTransform{Ident: g.ident, T: &gen.Transform{From: from, Method: gen.Pick(g.r, []string{"", "", "first", "last"})}})
}

// relPath makes a path relative to the item from a path within it.
func relPath(segs []gen.Seg) *gen.Path { return &gen.Path{Rel: true, Segs: segs} }

// array draws an array field which selects from src: the value itself, of which path tells the way.
func (g *arrayGen) array(path *gen.Path, src interface{}, forbidden string, level int) *gen.Node {
	r := g.r
	if level > g.nested {
		g.nested = level
	}
	n := &gen.Node{Type: "array"}
	if path != nil {
		in := gen.Instr{Path: path}
		if gen.Chance(r, 20) {
			g.tr(n, gen.Instr{Path: absent(r)}, in)
		} else {
			g.tr(n, in)
		}
	}
	var sample interface{}
	if a, ok := src.([]interface{}); ok {
		if len(a) > 0 {
			sample = gen.Pick(r, a)
		}
	} else {
		sample = src
	}
	if gen.Chance(r, 10) {
		n.HasDefault = true
	}
	n.Items = g.item(sample, forbidden, level)
	if n.HasDefault {
		n.Default = gen.Copy(defaultFor(r, n))
	}
	return n
}

func (g *arrayGen) item(sample interface{}, forbidden string, level int) *gen.Node {
	r := g.r
	switch s := sample.(type) {
	case map[string]interface{}:
		if gen.Chance(r, 15) { // a scalar picked from each item
			n := scalarNode(r)
			g.tr(n, gen.Instr{Path: relPath(gen.Walk(r, s, 20, func(interface{}) bool { return gen.Chance(r, 50) }))})
			if t := n.Tr[0].T; len(t.From[0].Path.Segs) == 0 || t.From[0].Path.Segs[0].Kind == gen.DotWild {
				t.From[0].Path.Segs = []gen.Seg{{Kind: gen.Field, Name: "name"}}
			}
			return n
		}
		if gen.Chance(r, 8) {
			return &gen.Node{Type: "object", Free: true}
		}
		return g.object(s, forbidden, level)
	case []interface{}:
		if gen.Chance(r, 85) {
			return g.array(nil, s, forbidden, level+1)
		}
	}
	return scalarNode(r)
}

func (g *arrayGen) object(s map[string]interface{}, forbidden string, level int) *gen.Node {
	r := g.r
	n := &gen.Node{Type: "object"}
	used := map[string]bool{}
	for i := 1 + r.Intn(5); i > 0; i-- {
		name := gen.Pick(r, append([]string{"f1", "f2", "out-3", "name", "id"}, gen.Keys(s)...))
		if used[name] {
			continue
		}
		used[name] = true
		var f *gen.Node
		switch x := r.Intn(100); {
		case x < 25: // the same place in the item
			switch v := s[name].(type) {
			case map[string]interface{}:
				f = g.object(v, forbidden, level)
			case []interface{}:
				f = g.array(nil, v, forbidden, level+1)
			}
			if f == nil {
				f = scalarNode(r)
			}
		case x < 35: // an absolute path
			f = scalarNode(r)
			p := sourcePath(r, g.doc, 10, 10, isScalarVal)
			for p.Segs[0].Name == forbidden || p.Segs[0].Kind == gen.DotWild {
				p = sourcePath(r, g.doc, 10, 10, isScalarVal)
			}
			g.tr(f, gen.Instr{Path: p})
		case x < 60 && level < 3: // a nested array
			segs := gen.Walk(r, s, 25, func(v interface{}) bool { _, ok := v.([]interface{}); return ok || gen.Chance(r, 20) })
			if len(segs) == 0 || segs[0].Kind == gen.DotWild {
				segs = []gen.Seg{{Kind: gen.Field, Name: "sub"}}
			}
			src, _ := model.Select(&gen.Path{Segs: segs}, s)
			f = g.array(relPath(segs), src, forbidden, level+1)
		default:
			f = scalarNode(r)
			segs := gen.Walk(r, s, 15, func(v interface{}) bool { return isScalarVal(v) || gen.Chance(r, 10) })
			if gen.Chance(r, 10) {
				segs = gen.Spoil(r, segs)
			}
			if len(segs) == 0 || segs[0].Kind == gen.DotWild || segs[0].Kind == gen.Quoted {
				segs = []gen.Seg{{Kind: gen.Field, Name: gen.Pick(r, []string{"id", "data-x"})}}
			}
			in := gen.Instr{Path: relPath(segs)}
			if gen.Chance(r, 20) {
				g.tr(f, gen.Instr{Path: relPath([]gen.Seg{{Kind: gen.Field, Name: "absent"}})}, in)
			} else {
				g.tr(f, in)
			}
			if gen.Chance(r, 15) {
				f.HasDefault, f.Default = true, defaultFor(r, f)
			}
		}
		n.Props = append(n.Props, gen.Prop{Name: name, Node: f})
	}
	return n
}

// root draws a schema with arrays and siblings reading the same places.
func (g *arrayGen) root() *gen.Node {
	r := g.r
	root := &gen.Node{Type: "object"}
	used := map[string]bool{}
	for i := 2 + r.Intn(4); i > 0; i-- {
		name := gen.Pick(r, []string{"list", "rows", "out", "o", "strs", "res", "arr2", "str", "more-rows", "odd-key", "2nd"})
		if used[name] {
			continue
		}
		used[name] = true
		var f *gen.Node
		switch x := r.Intn(10); {
		case x < 6:
			stop := func(v interface{}) bool {
				_, ok := v.([]interface{})
				return ok && gen.Chance(r, 80) || gen.Chance(r, 10)
			}
			p := sourcePath(r, g.doc, 30, 5, stop)
			src, _ := model.Select(p, g.doc)
			if gen.Chance(r, 20) {
				p, src = nil, g.doc[name]
			}
			f = g.array(p, src, name, 1)
		case x < 7:
			f = &gen.Node{Type: "object"}
			inner := g.array(&gen.Path{Segs: []gen.Seg{{Kind: gen.Field, Name: "list"}}}, g.doc["list"], name, 1)
			f.Props = []gen.Prop{{Name: gen.Pick(r, []string{"inner", "in-ner"}), Node: inner}}
		case x < 8:
			// an object whose transform selects an object, with fields on top
			f = &gen.Node{Type: "object"}
			g.tr(f, gen.Instr{Path: &gen.Path{Segs: []gen.Seg{{Kind: gen.Field, Name: "o"}}}})
			k := scalarNode(r)
			g.tr(k, gen.Instr{Path: sourcePath(r, g.doc, 10, 10, isScalarVal)})
			f.Props = []gen.Prop{{Name: gen.Pick(r, []string{"name", "extra"}), Node: k}, {Name: "id", Node: scalarNode(r)}}
		default:
			f = scalarNode(r)
			g.tr(f, gen.Instr{Path: sourcePath(r, g.doc, 20, 10, isScalarVal)})
		}
		root.Props = append(root.Props, gen.Prop{Name: name, Node: f})
	}
	return root
}

// ambiguousSingles tells if a document has arrays of one array or of one null, which the transform of an array does not
// treat as a list of that one item.
func ambiguousSingles(v interface{}) bool {
	switch t := v.(type) {
	case []interface{}:
		if len(t) == 1 && t[0] == nil {
			return true
		}
		for _, x := range t {
			if ambiguousSingles(x) {
				return true
			}
		}
	case map[string]interface{}:
		for _, x := range t {
			if ambiguousSingles(x) {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&h.Check{
		ID:   "T07",
		Rule: "schemas with array fields selecting from lists of the document (wildcards, filters, ranges, single values, same place, defaults), item objects and scalars with relative and absolute paths, arrays nested up to three deep, and sibling fields reading the same locations, over documents with missing, null and wrongly typed parts; non-trivial if the expected output has an array of two or more items",
		Assumptions: []string{"absolute paths inside an array's items do not start at that array's own top-level field",
			"arrays addressed by relative paths have names of letters, digits, dashes and underscores (other names are the listed finding)"},
		Quick: 36000, Thorough: 400000,
		Need: []string{"transforms_matching_the_model", "outputs_with_arrays", "nesting_2", "nesting_3"},
		Run: func(c *h.Case) {
			r := c.R
			if c.Idx == 0 {
				probeOddArrayName(c)
			}
			g := &arrayGen{r: r, doc: gen.Source(r), ident: "it"}
			if gen.Chance(r, 30) {
				g.doc["matrix"] = []interface{}{[]interface{}{1.0, "b"}, []interface{}{}, []interface{}{nil, 2.0}}
			}
			if gen.Chance(r, 10) {
				g.doc["matrix"] = []interface{}{[]interface{}{1.0, "b"}}
			}
			jc := &jsonCase{root: g.root(), ident: "it"}
			text := gen.RenderCompact(jc.root.JSON())
			tr := transformer(c, jc.root, "it", false)
			if tr == nil {
				return
			}
			for i := 0; i < 5; i++ {
				d := mutate(r, g.doc, i*3)
				raw := gen.Render(d, gen.Layout{})
				want, ok := jc.check(c, tr, d, raw)
				if !ok {
					return
				}
				arr := hasArray(want, 2)
				c.Eval(arr, text, raw)
				if arr {
					c.Count("outputs_with_arrays")
					c.Count([]string{"nesting_0", "nesting_1", "nesting_2", "nesting_3", "nesting_4"}[min(g.nested, 4)])
					if c.WantSample() {
						c.Sample(map[string]interface{}{"schema": json.RawMessage(text), "document": json.RawMessage(raw), "output": json.RawMessage(model.Output(want))})
					}
				}
			}
		},
	})
}

func hasArray(v interface{}, n int) bool {
	switch t := v.(type) {
	case []interface{}:
		if len(t) >= n {
			return true
		}
		for _, x := range t {
			if hasArray(x, n) {
				return true
			}
		}
	case map[string]interface{}:
		for _, x := range t {
			if hasArray(x, n) {
				return true
			}
		}
	}
	return false
}

// probeOddArrayName checks the listed finding: relative paths below an array with a name which is no JSONPath identifier.
func probeOddArrayName(c *h.Case) {
	item := &gen.Node{Type: "string", Tr: []gen.NamedTransform{{Ident: "it", T: &gen.Transform{From: []gen.Instr{{Path: relPath([]gen.Seg{{Kind: gen.Field, Name: "id"}})}}}}}}
	arr := &gen.Node{Type: "array", Items: &gen.Node{Type: "object", Props: []gen.Prop{{Name: "x", Node: item}}},
		Tr: []gen.NamedTransform{{Ident: "it", T: &gen.Transform{From: []gen.Instr{{Path: &gen.Path{Segs: []gen.Seg{{Kind: gen.Field, Name: "src"}}}}}}}}}
	root := &gen.Node{Type: "object", Props: []gen.Prop{{Name: "my list", Node: arr}}}
	tr := transformer(c, root, "it", false)
	if tr == nil {
		return
	}
	out, err := tr.TransformNoValidation([]byte(`{"src":[{"id":"1"},{"id":"2"}]}`))
	c.Probe("relative-path-below-array-with-non-identifier-name", err != nil || string(out) != `{"my list":[{"x":"1"},{"x":"2"}]}`,
		"fields with an @ path in the items of an array named \"my list\" find nothing", map[string]interface{}{"got": string(out), "err": errText(err)})
}

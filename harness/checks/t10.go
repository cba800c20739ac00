package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/gen"
	"verif/harness/h"
	"verif/harness/model"
)

// xmlCase is a schema reading XML.
type xmlCase struct {
	root  *gen.Node
	ident string
}

func (xc *xmlCase) check(c *h.Case, tr *transform.Transformer, doc *gen.El, raw []byte) (interface{}, bool) {
	want, wantErr := model.XML(xc.root, xc.ident, doc)
	detail := func() interface{} {
		return map[string]interface{}{"schema": json.RawMessage(gen.RenderCompact(xc.root.JSON())), "ident": xc.ident, "document": string(raw)}
	}
	var out []byte
	var err error
	if !c.Guard("transform", detail, func() { out, err = tr.TransformNoValidation(raw) }) {
		return nil, false
	}
	if wantErr == nil && model.Output(want) == nil {
		c.Count("unencodable")
		return nil, false
	}
	fail := func(what string) {
		c.Fail(what, map[string]interface{}{"input": detail(), "want": json.RawMessage(model.Output(want)), "want_error": wantErr != nil, "got": string(out), "got_error": errText(err)})
	}
	if (err != nil) != (wantErr != nil) {
		fail(fmt.Sprintf("XML transform gives error %v, expected error: %v", err, wantErr != nil))
		return nil, false
	}
	if err != nil {
		c.Count("transforms_failing_as_expected")
		return nil, true
	}
	got, cerr := canonical(out)
	if cerr != nil {
		fail("output is no JSON: " + cerr.Error())
		return nil, false
	}
	exp, _ := canonical(model.Output(want))
	if got != exp {
		fail("output differs from the expected: got " + got + " want " + exp)
		return nil, false
	}
	c.Count("transforms_matching_the_model")
	return want, true
}

// xmlGen draws schemas which read a document.
type xmlGen struct {
	r      *rand.Rand
	c      *h.Case
	spoil  int
	opPct  int
	method bool
}

// expr draws an expression relative to ctx.
func (g *xmlGen) expr(ctx *gen.El) gen.XExpr {
	r := g.r
	var x gen.XExpr
	for n := 1; n > 0; n-- {
		from := ctx
		abs := ctx.Kind == gen.Document || gen.Chance(r, 15)
		var pre []gen.XStep
		if !abs && ctx.Parent != nil && ctx.Parent.Kind == gen.Element && gen.Chance(r, 8) {
			from = ctx.Parent
			pre = []gen.XStep{{Axis: gen.XParent}}
		}
		if ctx.Kind == gen.Document {
			// most fields are below the root element
			for _, k := range ctx.Kids {
				if k.Kind == gen.Element && gen.Chance(r, 85) {
					from = k
					pre = []gen.XStep{{Axis: gen.XChild, Test: k.Name}}
				}
			}
			abs = !gen.Chance(r, 10)
		}
		l := gen.XWalk(r, from, abs)
		if len(pre) > 0 && len(l.Steps) > 0 && l.Steps[0].Axis == gen.XSelf {
			l.Steps = l.Steps[1:]
		}
		l.Steps = append(pre, l.Steps...)
		if gen.Chance(r, g.spoil) {
			s := &l.Steps[r.Intn(len(l.Steps))]
			if s.Axis != gen.XSelf && s.Axis != gen.XParent && s.Test != "text()" {
				s.Test = "missing"
			}
		}
		x = append(x, l)
	}
	if gen.Chance(r, 6) {
		other := gen.XWalk(r, ctx, ctx.Kind == gen.Document)
		x = append(x, other)
	}
	return x
}

func (g *xmlGen) transform(ctx *gen.El, ftype string, multi bool) *gen.Transform {
	r := g.r
	t := &gen.Transform{}
	n := 1
	if multi && gen.Chance(r, 30) {
		n = 2 + r.Intn(2)
		t.Method = gen.Pick(r, []string{"", "first", "last", "concatenate"})
		if ftype != "string" && t.Method == "concatenate" {
			t.Method = "last"
		}
		t.HasDelim, t.Delim = gen.Chance(r, 50), gen.Pick(r, []string{" ", "-", ""})
		if !t.HasDelim {
			t.Delim = ""
		}
	}
	for ; n > 0; n-- {
		in := gen.Instr{XPath: &gen.XPath{Expr: g.expr(ctx)}}
		if gen.Chance(r, g.opPct) {
			switch ftype {
			case "string":
				in.Ops = []gen.Op{gen.Pick(r, []gen.Op{{Type: "changeCase", Args: [][2]string{{"to", "upper"}}}, {Type: "replace", Args: [][2]string{{"regex", "[a-m]+"}, {"new", "_"}}}, {Type: "valueExists"}})}
			case "array":
				in.Ops = []gen.Op{{Type: "split", Args: [][2]string{{"on", gen.Pick(r, []string{",", " "})}}}}
			case "number", "integer":
				in.Ops = []gen.Op{{Type: gen.Pick(r, []string{"convertToInt64", "convertToFloat64", "valueExists", "duration"})}}
			case "boolean":
				in.Ops = []gen.Op{{Type: gen.Pick(r, []string{"inverse", "convertToBool", "valueExists"})}}
			}
		}
		t.From = append(t.From, in)
	}
	return t
}

func (g *xmlGen) set(n *gen.Node, t *gen.Transform) {
	n.Tr = append(n.Tr, gen.NamedTransform{Ident: "it", T: t})
}

// target is the node which the transform selects for the drawing of what is below.
func (g *xmlGen) target(t *gen.Transform, ctx *gen.El) *gen.El {
	for _, in := range t.From {
		if s := model.XSelect(in.XPath.Expr, ctx); len(s) > 0 {
			return gen.Pick(g.r, s)
		}
	}
	return nil
}

func (g *xmlGen) object(ctx *gen.El, depth int) *gen.Node {
	n := &gen.Node{Type: "object"}
	for _, name := range gen.NameSet(g.r, 1+g.r.Intn(4), 20) {
		n.Props = append(n.Props, gen.Prop{Name: name, Node: g.field(ctx, depth, false)})
	}
	return n
}

func (g *xmlGen) field(ctx *gen.El, depth int, item bool) *gen.Node {
	r := g.r
	x := r.Intn(100)
	var n *gen.Node
	switch {
	case depth > 0 && x < 20:
		t := g.transform(ctx, "object", false)
		var below *gen.El
		use := gen.Chance(r, 60)
		if use {
			below = g.target(t, ctx)
		}
		if below == nil {
			below = ctx
		}
		n = g.object(below, depth-1)
		if use {
			g.set(n, t)
		}
		if gen.Chance(r, 20) {
			m := map[string]interface{}{}
			for _, p := range n.Props {
				if gen.Chance(r, 60) {
					m[p.Name] = defaultFor(r, p.Node)
				}
			}
			n.HasDefault, n.Default = true, m
		}
	case depth > 0 && x < 45:
		t := g.transform(ctx, "array", true)
		below := g.target(t, ctx)
		if below == nil {
			below = ctx
		}
		n = &gen.Node{Type: "array", Items: g.field(below, depth-1, true)}
		if gen.Chance(r, 92) {
			g.set(n, t)
		}
		if gen.Chance(r, 20) {
			n.HasDefault, n.Default = true, defaultFor(r, n)
		}
	case x < 48:
		n = &gen.Node{Type: "object", Free: true}
		if gen.Chance(r, 50) {
			n.HasDefault, n.Default = true, map[string]interface{}{"free": gen.Value(r, 1, gen.Idents)}
		}
		if gen.Chance(r, 50) {
			g.set(n, &gen.Transform{From: []gen.Instr{{XPath: &gen.XPath{Expr: g.expr(ctx)}}}})
		}
	default:
		n = scalarNode(r)
		if gen.Chance(r, 40) {
			n.DateTime, n.Type = false, "string"
		}
		if gen.Chance(r, 30) {
			n.HasDefault, n.Default = true, defaultFor(r, n)
		}
		if item && gen.Chance(r, 50) {
			break
		}
		if gen.Chance(r, 90) {
			g.set(n, g.transform(ctx, FieldType(n), true))
		}
	}
	if gen.Chance(r, 10) {
		n.Tr = append(n.Tr, gen.NamedTransform{Ident: "other", T: &gen.Transform{From: []gen.Instr{{XPath: &gen.XPath{Expr: g.expr(ctx)}}}}})
	}
	return n
}

// FieldType is the type values of a node are converted to.
func FieldType(n *gen.Node) string { return model.FieldType(n) }

// mutateXML changes a copy of a document.
func mutateXML(r *rand.Rand, doc *gen.El, n int) *gen.El {
	d := copyEl(doc)
	for ; n > 0; n-- {
		var els []*gen.El
		var rec func(e *gen.El)
		rec = func(e *gen.El) {
			for _, k := range e.Kids {
				if k.Kind == gen.Element {
					els = append(els, k)
				}
				rec(k)
			}
		}
		rec(d)
		e := gen.Pick(r, els)
		if gen.Chance(r, 4) { // more than usual
			switch size := gen.Pick(r, []int{9, 11, 33, 101, 257}); {
			case e.Parent.Kind == gen.Element && gen.Chance(r, 70):
				for i := 0; i < size && i*len(els) < 3000; i++ {
					k := e.Parent.Add(copyEl(e))
					for _, t := range k.Kids {
						if t.Kind == gen.TextRun && i%3 == 0 {
							t.Text += fmt.Sprint(i)
						}
					}
				}
			default:
				for _, k := range e.Kids {
					if k.Kind == gen.TextRun {
						k.Text = gen.LongText(r, k.Text)
					}
				}
			}
			continue
		}
		switch x := r.Intn(5); {
		case x == 0 && e.Parent.Kind == gen.Element: // remove
			var kids []*gen.El
			for _, k := range e.Parent.Kids {
				if k != e {
					kids = append(kids, k)
				}
			}
			p := e.Parent
			p.Kids = nil
			for _, k := range kids {
				addKid(p, k)
			}
		case x == 1 && e.Parent.Kind == gen.Element: // repeat
			e.Parent.Add(copyEl(e))
		case x == 2:
			e.Attrs = nil
		case x == 3: // empty
			e.Kids = nil
		case x == 4:
			for _, k := range e.Kids {
				if k.Kind == gen.TextRun && !k.CDATA {
					k.Text = gen.Pick(r, []string{"1", "true", "abc", "2020-01-02T03:04:05Z"})
				}
			}
		}
	}
	d.Number(0)
	return d
}

func addKid(p, k *gen.El) {
	if n := len(p.Kids); n > 0 && p.Kids[n-1].Kind == gen.TextRun && k.Kind == gen.TextRun && !p.Kids[n-1].CDATA && !k.CDATA {
		p.Kids[n-1].Text += k.Text
		return
	}
	p.Add(k)
}

func copyEl(e *gen.El) *gen.El {
	c := *e
	c.Parent, c.Kids, c.Attrs = nil, nil, nil
	for _, a := range e.Attrs {
		aa := *a
		c.Attrs = append(c.Attrs, &aa)
	}
	for _, k := range e.Kids {
		kk := copyEl(k)
		kk.Parent = &c
		c.Kids = append(c.Kids, kk)
	}
	for _, k := range c.Kids {
		k.Parent = &c
	}
	return &c
}

func init() {
	register(&h.Check{
		ID:          "T10",
		Rule:        "random schemas (nested objects and arrays with and without own XPath, scalars of every type, defaults, several sources, operations) over random XML documents (attributes, CDATA, comments, mixed content, repeated elements) and mutations of them, with XPaths drawn from the document (child, descendant, attribute, parent, text(), wildcard, positional and value predicates, unions) and spoiled ones; compared with an independent XPath and field model; non-trivial if the expected output is not empty or the transform must fail, distinct by schema and document",
		Assumptions: []string{"selection of nodes by XPath is compared for the listed subset of XPath, namespaces are not drawn", "element names do not repeat at different depths"},
		Quick:       24000, Thorough: 300000,
		Need: []string{"transforms_matching_the_model", "expected_value", "expected_empty"},
		Run: func(c *h.Case) {
			r := c.R
			doc := gen.XMLSource(r)
			g := &xmlGen{r: r, c: c, spoil: []int{5, 20, 50}[r.Intn(3)], opPct: []int{0, 10, 30}[r.Intn(3)]}
			root := g.object(doc, 1+r.Intn(3))
			xc := &xmlCase{root: root, ident: "it"}
			tr := transformer(c, root, "it", true)
			if tr == nil {
				return
			}
			text := gen.RenderCompact(root.JSON())
			for i := 0; i < 5; i++ {
				d := doc
				if i > 0 {
					d = mutateXML(r, doc, i)
				}
				raw := gen.RenderXML(d, r)
				want, ok := xc.check(c, tr, d, raw)
				if !ok {
					return
				}
				c.Eval(want != nil, text, raw)
				if want != nil {
					c.Count("expected_value")
					if c.WantSample() {
						c.Sample(map[string]interface{}{"schema": json.RawMessage(text), "document": string(raw), "output": json.RawMessage(model.Output(want))})
					}
				} else {
					c.Count("expected_empty")
				}
			}
		},
	})
}

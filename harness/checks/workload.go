package checks

import (
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/gen"
	"verif/harness/h"
	"verif/harness/model"
)

// workload is a schema of any kind with documents, for the monitors which compare executions with each other.
type workload struct {
	kind   string
	root   *gen.Node
	ident  string
	xml    bool
	docs   []interface{} // JSON values or *gen.El
	raws   [][]byte
	wants  [][]byte // what the model expects: the canonical output
	errs   []bool   // the model expects an error
	noWant []bool   // the model says nothing
}

// constrain adds keywords for validation.
func constrain(r *rand.Rand, n *gen.Node, pct int) {
	eachNode(n, nil, func(n *gen.Node, _ []string) {
		if !gen.Chance(r, pct) {
			return
		}
		switch n.Type {
		case "string":
			if !n.DateTime {
				k := r.Intn(4)
				n.MinLen = &k
			}
		case "number", "integer":
			f := float64(r.Intn(20) - 10)
			n.Min = &f
		case "array":
			k := 1 + r.Intn(2)
			n.MinItems = &k
		case "object":
			for _, p := range n.Props {
				if gen.Chance(r, 50) {
					n.Required = append(n.Required, p.Name)
				}
			}
		}
	})
	for _, p := range n.Props {
		if gen.Chance(r, pct) {
			n.Required = append(n.Required, p.Name)
		}
	}
}

// newWorkload draws a workload.
func newWorkload(r *rand.Rand, docs int) *workload {
	w := &workload{ident: "it"}
	add := func(doc interface{}, raw []byte) {
		w.docs = append(w.docs, doc)
		w.raws = append(w.raws, raw)
	}
	switch r.Intn(5) {
	case 0:
		w.kind = "same_place"
		w.root = shape(r, shapeOpts{depth: 1 + r.Intn(3), maxProps: 6, oddPct: 25, defaultPct: 40, freePct: 10, arrayPct: 25, nullPct: 10})
		for i := 0; i < docs; i++ {
			d := rootNear(r, w.root, 20)
			add(d, gen.Render(d, gen.Layout{}))
		}
	case 1, 2:
		doc := gen.Source(r)
		w.kind = "sections"
		w.root = &gen.Node{Type: "object"}
		for _, name := range gen.NameSet(r, 2+r.Intn(4), 20) {
			f := scalarNode(r)
			t := section(r, doc, 4, 0)
			for i := range t.From {
				for k := r.Intn(3); k > 0 && gen.Chance(r, 40); k-- {
					t.From[i].Ops = append(t.From[i].Ops, shuffledArgs(r, anyOp(r)))
				}
			}
			f.Tr = []gen.NamedTransform{{Ident: "it", T: t}}
			if gen.Chance(r, 30) {
				f.HasDefault, f.Default = true, defaultFor(r, f)
			}
			w.root.Props = append(w.root.Props, gen.Prop{Name: name, Node: f})
		}
		if gen.Chance(r, 40) {
			o := shape(r, shapeOpts{depth: 2, maxProps: 3, oddPct: 20, defaultPct: 60, freePct: 20, arrayPct: 30})
			w.root.Props = append(w.root.Props, gen.Prop{Name: "withDefaults", Node: o})
		}
		for i := 0; i < docs; i++ {
			d := mutate(r, doc, i)
			add(d, gen.Render(d, gen.Layout{}))
		}
	case 3:
		w.kind = "arrays"
		g := &arrayGen{r: r, doc: gen.Source(r), ident: "it"}
		w.root = g.root()
		if gen.Chance(r, 40) {
			o := shape(r, shapeOpts{depth: 2, maxProps: 3, oddPct: 20, defaultPct: 60, freePct: 20, arrayPct: 40})
			w.root.Props = append(w.root.Props, gen.Prop{Name: "withDefaults", Node: o})
		}
		for i := 0; i < docs; i++ {
			d := mutate(r, g.doc, i)
			add(d, gen.Render(d, gen.Layout{}))
		}
	case 4:
		w.kind, w.xml = "xml", true
		doc := gen.XMLSource(r)
		g := &xmlGen{r: r, spoil: 15, opPct: 15}
		w.root = g.object(doc, 1+r.Intn(3))
		for i := 0; i < docs; i++ {
			d := mutateXML(r, doc, i)
			add(d, gen.RenderXML(d, r))
		}
	}
	for i := range w.docs {
		var v interface{}
		var err error
		if w.xml {
			v, err = model.XML(w.root, w.ident, w.docs[i].(*gen.El))
		} else {
			v, err = model.JSON(w.root, w.ident, w.docs[i])
		}
		out := model.Output(v)
		var canon string
		if out != nil {
			canon, _ = canonical(out)
		}
		w.wants = append(w.wants, []byte(canon))
		w.errs = append(w.errs, err != nil)
		w.noWant = append(w.noWant, err == nil && out == nil)
	}
	return w
}

// addBroken adds documents which can't be read.
func (w *workload) addBroken(r *rand.Rand) {
	broken := []string{"", "{", "[1,2", "nul", "{\"a\":1}}", "\x00", "{\"a\":}"}
	if w.xml {
		broken = []string{"", "<r>", "<r></s>", "text", "<r a=1/>", "<r><a>1</r>", "\x00"}
	}
	b := gen.Pick(r, broken)
	if len(w.raws) > 0 && gen.Chance(r, 50) {
		if raw := gen.Pick(r, w.raws); len(raw) > 2 {
			b = string(raw[:len(raw)-1-r.Intn(min(len(raw)-1, 20))])
			if w.xml {
				b = b[:len(b)/2] + "<"
			}
		}
	}
	if !w.xml && json.Valid([]byte(b)) {
		b = "{"
	}
	w.docs = append(w.docs, nil)
	w.raws = append(w.raws, []byte(b))
	w.wants = append(w.wants, nil)
	w.errs = append(w.errs, true)
	w.noWant = append(w.noWant, false)
}

func (w *workload) build(s *jsonschema.Schema) (*transform.Transformer, error) {
	if w.xml {
		return transform.NewXMLTransformer(s, w.ident)
	}
	return transform.NewTransformer(s, w.ident)
}

// load writes and loads the schema.
func (w *workload) load(c *h.Case, l gen.Layout) *jsonschema.Schema {
	text := gen.Render(w.root.JSON(), l)
	s, p, err := loadSchema(c, text)
	os.RemoveAll(filepath.Dir(p))
	if err != nil {
		c.Fail("valid schema does not load: "+err.Error(), map[string]interface{}{"schema": json.RawMessage(text)})
		return nil
	}
	return s
}

// fresh builds a new transformer from a newly loaded schema.
func (w *workload) fresh(c *h.Case) *transform.Transformer {
	s := w.load(c, gen.Layout{})
	if s == nil {
		return nil
	}
	tr, err := w.build(s)
	if err != nil {
		c.Fail("transformer can not be built: "+err.Error(), w.detail(nil))
		return nil
	}
	return tr
}

func (w *workload) detail(extra map[string]interface{}) map[string]interface{} {
	m := map[string]interface{}{"schema": json.RawMessage(gen.RenderCompact(w.root.JSON())), "ident": w.ident, "xml": w.xml}
	for k, v := range extra {
		m[k] = v
	}
	return m
}

// outcome is the result of one call. Error texts are not part of it.
type outcome struct {
	out    string
	failed bool
	panic  string
}

func call(tr *transform.Transformer, raw []byte, validate bool) (o outcome, out []byte) {
	defer func() {
		if p := recover(); p != nil {
			o = outcome{panic: "panic"}
		}
	}()
	var err error
	if validate {
		out, err = tr.Transform(raw)
	} else {
		out, err = tr.TransformNoValidation(raw)
	}
	return outcome{out: string(out), failed: err != nil}, out
}

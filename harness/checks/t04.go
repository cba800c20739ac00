package checks

import (
	"encoding/json"
	"math"
	"math/rand"

	"verif/harness/gen"
	"verif/harness/h"
	"verif/harness/model"
)

// tighten adds constraints which the outputs of w meet or miss.
func (w *workload) tighten(r *rand.Rand) {
	var outs []interface{}
	for i := range w.wants {
		if !w.errs[i] && !w.noWant[i] {
			if v, err := decode(w.wants[i]); err == nil {
				outs = append(outs, v)
			}
		}
	}
	tightenNode(r, w.root, outs, 45)
}

// tightenNode adds constraints around the values.
func tightenNode(r *rand.Rand, n *gen.Node, vals []interface{}, pct int) {
	tightenOwn(r, n, vals, pct)
	tightenMore(r, n, vals, pct/3)
}

// tightenMore adds rarer constraints around the values.
func tightenMore(r *rand.Rand, n *gen.Node, vals []interface{}, pct int) {
	if n.Ref != "" || len(vals) == 0 || !gen.Chance(r, pct) {
		return
	}
	m := &gen.More{}
	off := r.Intn(3) - 1
	some := gen.Pick(r, vals)
	switch t := some.(type) {
	case map[string]interface{}:
		k := max(0, len(t)+off)
		switch r.Intn(4) {
		case 0:
			m.MinProps = &k
		case 1:
			m.MaxProps = &k
		case 2:
			if len(n.Props) == 0 {
				return
			}
			for _, i := range r.Perm(len(n.Props))[:min(len(n.Props), 2+r.Intn(2))] {
				m.Dep = append(m.Dep, n.Props[i].Name)
			}
			if gen.Chance(r, 20) {
				m.Dep = append(m.Dep[:1], "neverThere")
			}
			if len(m.Dep) < 2 {
				return
			}
		case 3:
			m.Pat = gen.Pick(r, []string{"^[a-m]", "[0-9]$", ".", "^$", "e"})
			m.PatNode = &gen.Node{Type: gen.Pick(r, []string{"string", "number", "object", "array", "boolean"}), Nullable: gen.Chance(r, 50)}
			if gen.Chance(r, 50) {
				m.PatNode = &gen.Node{MinLen: &k, MaxItems: &k}
			}
		}
	case []interface{}:
		for _, v := range vals {
			if longestArray(v) > 40 {
				return // the validation library takes minutes for many equal items
			}
		}
		m.Unique = true
	case float64:
		if t > 1e15 || t < -1e15 {
			return
		}
		switch r.Intn(3) {
		case 0:
			if n.Max != nil {
				return
			}
			t += float64(off)
			m.Below = &t
		case 1:
			for _, v := range vals {
				if f, ok := v.(float64); ok && math.Abs(f) > 1e15 {
					return // the evaluator's numbers aren't exact
				}
			}
			n.Multiple = gen.Pick(r, []float64{2, 3, 0.5, 10})
		case 2:
			m.Not = &gen.Node{Min: &t}
		}
	case string:
		k := max(0, len([]rune(t))+off)
		m.Not = gen.Pick(r, []*gen.Node{{MinLen: &k}, {Pattern: "^[a-m]"}, {Enum: []interface{}{t}}, {Type: "string", MaxLen: &k}})
	case bool:
		m.Not = &gen.Node{Enum: []interface{}{t}}
	case nil:
		m.Not = gen.Pick(r, []*gen.Node{{Type: "null"}, {Type: "object"}})
	}
	n.More = m
}

func tightenOwn(r *rand.Rand, n *gen.Node, vals []interface{}, pct int) {
	var vs []interface{}
	for _, v := range vals {
		if v != nil {
			vs = append(vs, v)
		}
	}
	with := gen.Chance(r, pct)
	var some interface{}
	if len(vs) > 0 {
		some = gen.Pick(r, vs)
	}
	off := r.Intn(3) - 1
	switch n.Type {
	case "object":
		for _, p := range n.Props {
			var sub []interface{}
			for _, v := range vs {
				if m, ok := v.(map[string]interface{}); ok {
					sub = append(sub, m[p.Name])
				}
			}
			if gen.Chance(r, pct/2) {
				n.Required = append(n.Required, p.Name)
			}
			tightenNode(r, p.Node, sub, pct)
		}
		if !n.Free && gen.Chance(r, pct/2) {
			n.Closed = true
		}
		if gen.Chance(r, pct/10) {
			n.Required = append(n.Required, "neverThere")
		}
	case "array":
		var sub []interface{}
		for _, v := range vs {
			if a, ok := v.([]interface{}); ok {
				sub = append(sub, a...)
			}
		}
		if a, ok := some.([]interface{}); ok && with {
			k := max(0, len(a)+off)
			if gen.Chance(r, 50) {
				n.MinItems = &k
			} else {
				n.MaxItems = &k
			}
		}
		if n.Items != nil {
			tightenNode(r, n.Items, sub, pct)
		}
	case "string":
		s, ok := some.(string)
		if !ok || !with || n.DateTime {
			return
		}
		k := max(0, len([]rune(s))+off)
		switch r.Intn(4) {
		case 0:
			n.MinLen = &k
		case 1:
			n.MaxLen = &k
		case 2:
			n.Enum = []interface{}{"never", s}
			if gen.Chance(r, 40) {
				n.Enum = []interface{}{"never", "ever"}
			}
		case 3:
			n.Pattern = gen.Pick(r, []string{"^[a-z]", "[0-9]", "^.{0,5}$", "[A-Z]", "^$|[a-zA-Z]"})
		}
	case "number", "integer":
		f, ok := some.(float64)
		if !ok || !with || f > 1e15 || f < -1e15 {
			return
		}
		f += float64(off)
		switch r.Intn(3) {
		case 0:
			n.Min = &f
		case 1:
			n.Max = &f
		case 2:
			n.Min, n.ExMin = &f, true
		}
	case "boolean":
		if with && gen.Chance(r, 30) {
			n.Enum = []interface{}{true}
		}
	}
}

func init() {
	register(&h.Check{
		ID:          "T04",
		Rule:        "workloads of every kind (JSON and XML) whose schemas are tightened around the outputs (required, closed objects, bounds, lengths, enums, patterns, item counts) so that some outputs conform and others just miss; the validating call must succeed exactly if the other succeeds and an independent JSON Schema evaluator accepts its output, with the same bytes, and give no output otherwise; non-trivial if the output has content, distinct by schema and document",
		Assumptions: []string{"format date-time is taken as the validation library does: a date or a time alone is accepted too"},
		Quick:       20000, Thorough: 300000,
		Need: []string{"accepted", "rejected", "transform_failed", "kind_same_place", "kind_sections", "kind_arrays", "kind_xml"},
		Run: func(c *h.Case) {
			r := c.R
			w := newWorkload(r, 5)
			w.tighten(r)
			if gen.Chance(r, 50) {
				w.addBroken(r)
			}
			c.Count("kind_" + w.kind)
			tr := w.fresh(c)
			if tr == nil {
				return
			}
			text := gen.RenderCompact(w.root.JSON())
			for i, raw := range w.raws {
				plain, _ := call(tr, raw, false)
				valid, validOut := call(tr, raw, true)
				detail := func() interface{} {
					return w.detail(map[string]interface{}{"document": string(raw), "output": plain.out, "output_error": plain.failed, "validated": valid.out, "validated_error": valid.failed})
				}
				if plain.panic != "" || valid.panic != "" {
					c.Fail("a call crashes", detail())
					return
				}
				if plain.failed != w.errs[i] && !w.noWant[i] {
					c.Fail("the non-validating transform fails unexpectedly or should fail", detail())
					return
				}
				if plain.failed {
					c.Count("transform_failed")
					c.Eval(false)
					if !valid.failed || len(validOut) > 0 {
						c.Fail("the validating transform succeeds where the other fails", detail())
						return
					}
					continue
				}
				v, err := decode([]byte(plain.out))
				if err != nil {
					c.Fail("output is no JSON", detail())
					return
				}
				c.Eval(v != nil, text, raw)
				if model.Valid(w.root, v) {
					c.Count("accepted")
					if valid.failed {
						c.Fail("conforming output is rejected", detail())
						return
					}
					if valid.out != plain.out {
						c.Fail("the validating transform gives other bytes", detail())
						return
					}
				} else {
					c.Count("rejected")
					if !valid.failed {
						c.Fail("output which does not conform is accepted", detail())
						return
					}
					if len(validOut) > 0 {
						c.Fail("output is given along with the error", detail())
						return
					}
				}
				if c.WantSample() {
					c.Sample(map[string]interface{}{"schema": json.RawMessage(text), "document": string(raw), "output": plain.out, "conforms": !valid.failed})
				}
			}
		},
	})
}

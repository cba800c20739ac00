package checks

import (
	"encoding/json"
	"math/rand"

	"verif/harness/gen"
	"verif/harness/h"
)

// layout draws a rendering.
func layout(r *rand.Rand) gen.Layout {
	return gen.Layout{R: r, Shuffle: true, Space: r.Intn(3)}
}

func init() {
	register(&h.Check{
		ID:          "T03",
		Rule:        "one schema and documents rendered 4 times each with shuffled members and different insignificant whitespace (XML: shuffled attributes, quotes, empty-element notation, declaration), transformed several times by separately built transformers, all results compared byte for byte; includes recursive descent and object wildcards; non-trivial if the output is not empty, distinct by schema and document",
		Assumptions: []string{"currentTime is left out"},
		Quick:       5000, Thorough: 100000,
		Need: []string{"comparisons", "kind_same_place", "kind_sections", "kind_arrays", "kind_xml", "wild_sections"},
		Run: func(c *h.Case) {
			r := c.R
			w := newWorkload(r, 3)
			constrain(r, w.root, 10)
			c.Count("kind_" + w.kind)
			if !w.xml && gen.Chance(r, 50) {
				// paths of which the order of results could depend on the order of members
				c.Count("wild_sections")
				for i, txt := range []string{"$..id", "$..name", "$.*", "$.*.name", "$..tag", "$.list[*].*", "$..*", "$.o.*"} {
					if !gen.Chance(r, 30) {
						continue
					}
					f := &gen.Node{Type: gen.Pick(r, []string{"string", "number", "array", "boolean"})}
					if f.Type == "array" {
						f.Items = &gen.Node{Type: gen.Pick(r, []string{"string", "number"})}
					}
					f.Tr = []gen.NamedTransform{{Ident: "it", T: &gen.Transform{From: []gen.Instr{{Path: &gen.Path{Segs: []gen.Seg{{Kind: gen.Raw, Txt: txt[1:]}}}}}}}}
					w.root.Props = append(w.root.Props, gen.Prop{Name: "wild" + string(rune('A'+i)), Node: f})
				}
			}
			text := gen.RenderCompact(w.root.JSON())
			type key struct{ doc, v int }
			first := map[key]outcome{}
			how := map[key]string{}
			for variant := 0; variant < 4; variant++ {
				l := gen.Layout{}
				if variant > 0 {
					l = layout(r)
				}
				s := w.load(c, l)
				if s == nil {
					return
				}
				for b := 0; b < 2; b++ {
					tr, err := w.build(s)
					if err != nil {
						c.Fail("transformer can not be built from a reformatted schema: "+err.Error(), w.detail(map[string]interface{}{"variant": string(gen.Render(w.root.JSON(), l))}))
						return
					}
					for i := range w.docs {
						raw := w.raws[i]
						if variant > 0 || b > 0 {
							if w.xml {
								raw = gen.RenderXML(shuffleAttrs(r, w.docs[i].(*gen.El)), r)
							} else {
								raw = gen.Render(w.docs[i], shuffledMaps(r, w.docs[i]))
							}
						}
						for v := 0; v < 2; v++ {
							o, _ := call(tr, raw, v == 1)
							k := key{i, v}
							c.Count("comparisons")
							if o.panic != "" {
								c.Fail("a call crashes", w.detail(map[string]interface{}{"document": string(raw)}))
								return
							}
							if f, ok := first[k]; !ok {
								first[k], how[k] = o, string(raw)
							} else if f != o {
								c.Fail("the same value with the same schema gives another output", w.detail(map[string]interface{}{"first_document": how[k], "document": string(raw), "validate": v == 1, "first": f.out, "first_error": f.failed, "got": o.out, "got_error": o.failed}))
								return
							}
							c.Eval(!o.failed && o.out != "null", text, w.raws[i])
						}
					}
				}
			}
			if c.WantSample() {
				c.Sample(map[string]interface{}{"schema": json.RawMessage(text), "documents": texts(w.raws), "reformatted": string(gen.Render(w.root.JSON(), layout(r)))})
			}
		},
	})
}

// shuffledMaps renders maps in random order: a layout with shuffling sorts the members first and then shuffles them.
func shuffledMaps(r *rand.Rand, _ interface{}) gen.Layout { return layout(r) }

func shuffleAttrs(r *rand.Rand, doc *gen.El) *gen.El {
	d := copyEl(doc)
	var rec func(e *gen.El)
	rec = func(e *gen.El) {
		r.Shuffle(len(e.Attrs), func(i, j int) { e.Attrs[i], e.Attrs[j] = e.Attrs[j], e.Attrs[i] })
		for _, k := range e.Kids {
			rec(k)
		}
	}
	rec(d)
	return d
}

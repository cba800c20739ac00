package checks

import (
	"bytes"
	"encoding/json"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/gen"
	"verif/harness/h"
)

func init() {
	register(&h.Check{
		ID:          "T01",
		Rule:        "histories of 12 to 40 calls on one or two transformers built from one loaded schema, over documents drawn with repetition (readable, failing, malformed; validating and non-validating calls mixed; XML and JSON; defaults, arrays, sections, operations); every result is compared with that of a transformer newly built from a newly loaded copy of the schema and with the model, every input and every output handed out earlier is compared with its copy at the end; non-trivial if the history holds two or more distinct successful results, distinct by history",
		Assumptions: []string{"currentTime is left out"},
		Quick:       8000, Thorough: 120000,
		Need: []string{"calls", "failed_calls", "repeated_documents", "outputs_checked_for_changes", "kind_same_place", "kind_sections", "kind_arrays", "kind_xml"},
		Run: func(c *h.Case) {
			r := c.R
			w := newWorkload(r, 4)
			constrain(r, w.root, 15)
			for i := r.Intn(3); i > 0; i-- {
				w.addBroken(r)
			}
			for i, raw := range w.raws {
				// white space and line ends which a call might tidy up in place
				if gen.Chance(r, 30) && len(raw) > 2 {
					end := gen.Pick(r, []string{"\r\n", "\r", "\n\t \r\n", "  "})
					switch {
					case raw[0] == '{':
						w.raws[i] = []byte("{" + end + string(raw[1:]) + end)
					default:
						w.raws[i] = []byte(string(raw) + end)
					}
					c.Count("documents with other white space")
				}
			}
			c.Count("kind_" + w.kind)
			s := w.load(c, gen.Layout{})
			if s == nil {
				return
			}
			var shared []*transform.Transformer
			var base [2][]outcome
			for i, raw := range w.raws {
				for v := 0; v < 2; v++ {
					tr := w.fresh(c)
					if tr == nil {
						return
					}
					o, _ := call(tr, append([]byte{}, raw...), v == 1)
					if o.panic != "" {
						c.Fail("a single call crashes", w.detail(map[string]interface{}{"document": string(raw)}))
						return
					}
					base[v] = append(base[v], o)
					if v == 0 && !w.noWant[i] && w.errs[i] != o.failed {
						c.Fail("the first call on a new transformer fails unexpectedly or should fail", w.detail(map[string]interface{}{"document": string(raw), "got": o.out, "failed": o.failed}))
						return
					}
					if v == 0 && !w.noWant[i] && !o.failed {
						if got, _ := canonical([]byte(o.out)); got != string(w.wants[i]) {
							c.Fail("the first call on a new transformer gives an unexpected result", w.detail(map[string]interface{}{"document": string(raw), "got": o.out, "want": string(w.wants[i])}))
							return
						}
					}
				}
			}
			trs := []int{1, 2}[r.Intn(2)]
			for i := 0; i < trs; i++ {
				tr, err := w.build(s)
				if err != nil {
					c.Fail("transformer can not be built: "+err.Error(), w.detail(nil))
					return
				}
				shared = append(shared, tr)
			}
			type kept struct{ out, copy []byte }
			var outs []kept
			seen := map[int]int{}
			distinct := map[string]bool{}
			var history []string
			inputs := make([][]byte, len(w.raws))
			for i, raw := range w.raws {
				inputs[i] = append(make([]byte, 0, len(raw)+16), raw...) // spare capacity shows appends to the input
			}
			n := 12 + r.Intn(29)
			if gen.Chance(r, 2) {
				n = 150 + r.Intn(400)
			}
			for ; n > 0; n-- {
				i := r.Intn(len(w.raws))
				v := r.Intn(2)
				k := r.Intn(trs)
				history = append(history, string(rune('A'+k))+string(rune('a'+i))+[]string{"", "!"}[v])
				seen[i]++
				var out []byte
				var err error
				ok := c.Guard("call after "+join(history), func() interface{} { return w.detail(map[string]interface{}{"document": string(w.raws[i])}) }, func() {
					if v == 1 {
						out, err = shared[k].Transform(inputs[i])
					} else {
						out, err = shared[k].TransformNoValidation(inputs[i])
					}
				})
				if !ok {
					return
				}
				got := outcome{out: string(out), failed: err != nil}
				want := base[v][i]
				c.Count("calls")
				if got.failed {
					c.Count("failed_calls")
				} else {
					distinct[got.out] = true
				}
				if got != want {
					c.Fail("a result depends on the calls before", w.detail(map[string]interface{}{"document": string(w.raws[i]), "validate": v == 1, "history": join(history), "documents": texts(w.raws), "want": want.out, "want_error": want.failed, "got": got.out, "got_error": errText(err)}))
					return
				}
				if out != nil {
					outs = append(outs, kept{out, append([]byte{}, out...)})
				}
			}
			for i := range inputs {
				full := inputs[i][:cap(inputs[i])]
				if !bytes.Equal(inputs[i], w.raws[i]) || !zero(full[len(inputs[i]):]) {
					c.Fail("the input was changed", w.detail(map[string]interface{}{"before": string(w.raws[i]), "after": string(full)}))
				}
				if seen[i] > 1 {
					c.Count("repeated_documents")
				}
			}
			for _, k := range outs {
				c.Count("outputs_checked_for_changes")
				if !bytes.Equal(k.out, k.copy) {
					c.Fail("an output handed out earlier was changed", w.detail(map[string]interface{}{"before": string(k.copy), "after": string(k.out)}))
				}
			}
			c.Eval(len(distinct) > 1, gen.RenderCompact(w.root.JSON()), join(history))
			if c.WantSample() {
				c.Sample(map[string]interface{}{"schema": json.RawMessage(gen.RenderCompact(w.root.JSON())), "history": join(history), "documents": texts(w.raws)})
			}
		},
	})
}

func zero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

func join(h []string) string {
	out := ""
	for i, s := range h {
		if i > 0 {
			out += " "
		}
		out += s
	}
	return out
}

func texts(raws [][]byte) []string {
	var out []string
	for _, r := range raws {
		out = append(out, string(r))
	}
	return out
}

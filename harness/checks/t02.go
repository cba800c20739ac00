package checks

import (
	"encoding/json"
	"sync"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/gen"
	"verif/harness/h"
)

func init() {
	register(&h.Check{
		ID:          "T02",
		Rule:        "under the race detector, 6 goroutines start together and call shared transformers (one or two, and some built meanwhile from the same loaded schema) with the same documents in different orders, validating and not; every result is compared with that of a lone call on a transformer of its own; non-trivial if at least two distinct successful results were seen, distinct by schema and documents",
		Assumptions: []string{"the race detector sees the accesses of the schedules that occurred", "currentTime is left out"},
		Quick:       1500, Thorough: 20000, Race: true, Procs: 4, Shards: 6,
		Need: []string{"calls", "failed_calls", "transformers_built_meanwhile", "kind_same_place", "kind_sections", "kind_arrays", "kind_xml"},
		Run: func(c *h.Case) {
			r := c.R
			w := newWorkload(r, 4)
			constrain(r, w.root, 15)
			if gen.Chance(r, 50) {
				w.addBroken(r)
			}
			c.Count("kind_" + w.kind)
			var base [2][]outcome
			distinct := map[string]bool{}
			for _, raw := range w.raws {
				for v := 0; v < 2; v++ {
					tr := w.fresh(c)
					if tr == nil {
						return
					}
					o, _ := call(tr, raw, v == 1)
					base[v] = append(base[v], o)
					if !o.failed {
						distinct[o.out] = true
					}
				}
			}
			s := w.load(c, gen.Layout{})
			if s == nil {
				return
			}
			var shared []*transform.Transformer
			for i := 1 + r.Intn(2); i > 0; i-- {
				tr, err := w.build(s)
				if err != nil {
					c.Fail("transformer can not be built: "+err.Error(), w.detail(nil))
					return
				}
				shared = append(shared, tr)
			}
			workers := 6
			if gen.Chance(r, 3) {
				workers = 24
			}
			type step struct{ doc, validate, tr int }
			plans := make([][]step, workers)
			for g := range plans {
				for n := 12; n > 0; n-- {
					plans[g] = append(plans[g], step{r.Intn(len(w.raws)), r.Intn(2), r.Intn(len(shared) + 1)})
				}
			}
			start := make(chan struct{})
			var wg sync.WaitGroup
			for g := 0; g < workers; g++ {
				wg.Add(1)
				go func(plan []step) {
					defer wg.Done()
					<-start
					var own *transform.Transformer
					for _, p := range plan {
						tr := own
						if p.tr < len(shared) {
							tr = shared[p.tr]
						} else if own == nil {
							var err error
							if own, err = w.build(s); err != nil {
								c.Fail("transformer can not be built while others run: "+err.Error(), w.detail(nil))
								return
							}
							tr = own
							c.Count("transformers_built_meanwhile")
						}
						got, _ := call(tr, w.raws[p.doc], p.validate == 1)
						c.Count("calls")
						if got.failed {
							c.Count("failed_calls")
						}
						if want := base[p.validate][p.doc]; got != want {
							c.Fail("a concurrent call gives another result than a lone one", w.detail(map[string]interface{}{"document": string(w.raws[p.doc]), "validate": p.validate == 1, "want": want.out, "want_error": want.failed, "got": got.out, "got_error": got.failed, "got_panic": got.panic}))
							return
						}
					}
				}(plans[g])
			}
			close(start)
			wg.Wait()
			text := gen.RenderCompact(w.root.JSON())
			c.Eval(len(distinct) > 1, text, w.raws[0])
			if c.WantSample() {
				c.Sample(map[string]interface{}{"schema": json.RawMessage(text), "documents": texts(w.raws), "goroutines": workers, "calls": workers * 12})
			}
		},
	})
}

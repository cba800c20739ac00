package checks

import (
	"encoding/json"
	"math/rand"

	"verif/harness/gen"
	"verif/harness/h"
	"verif/harness/model"
)

func isScalarVal(v interface{}) bool {
	switch v.(type) {
	case map[string]interface{}, []interface{}:
		return false
	}
	return true
}

// sourcePath draws a path into doc which reaches a value accepted by stop; sometimes it is spoiled.
func sourcePath(r *rand.Rand, doc interface{}, multi, spoil int, stop func(interface{}) bool) *gen.Path {
	segs := gen.Walk(r, doc, multi, stop)
	if gen.Chance(r, spoil) || len(segs) == 0 {
		segs = gen.Spoil(r, segs)
	}
	return &gen.Path{Segs: segs}
}

// section draws a transform section reading scalars.
func section(r *rand.Rand, doc interface{}, max int, opPct int) *gen.Transform {
	t := &gen.Transform{Method: gen.Pick(r, []string{"", "first", "last", "last", "concatenate", "concatenate"})}
	if gen.Chance(r, 60) {
		t.HasDelim = true
		t.Delim = gen.Pick(r, []string{"", " ", ", ", "-", "☃", "\n"})
	}
	stopStr := func(v interface{}) bool { return isScalarVal(v) }
	if t.Method == "concatenate" && gen.Chance(r, 80) {
		// mostly texts
		stopStr = func(v interface{}) bool { _, ok := v.(string); return ok || gen.Chance(r, 10) && isScalarVal(v) }
	}
	count := 1 + r.Intn(max)
	if gen.Chance(r, 4) {
		count = gen.Pick(r, []int{6, 9, 17, 40})
	}
	for i := count; i > 0; i-- {
		in := gen.Instr{Path: sourcePath(r, doc, 20, 40, stopStr)}
		if gen.Chance(r, opPct) {
			in.Ops = append(in.Ops, gen.Op{Type: "changeCase", Args: [][2]string{{"to", gen.Pick(r, []string{"upper", "lower"})}}})
		}
		t.From = append(t.From, in)
	}
	return t
}

func init() {
	register(&h.Check{
		ID:          "T06",
		Rule:        "scalar fields (also nested and array fields) with 1 to 4 (sometimes up to 40) source instructions, every method, delimiters, several identifiers, over documents in which a random subset of the sources is present, null or empty; non-trivial if at least one field has two or more sources and the expected output is not empty or an expected failure",
		Assumptions: []string{"numbers stay within the range of a double"},
		Quick:       12000, Thorough: 400000,
		Need: []string{"transforms_matching_the_model", "transforms_failing_as_expected", "concatenations", "last", "first"},
		Run: func(c *h.Case) {
			r := c.R
			doc := gen.Source(r)
			idents := []string{"it", "other", "cumulo", "i-t"}
			root := &gen.Node{Type: "object"}
			multi := false
			failing := gen.Chance(r, 25)
			var addFields func(n *gen.Node, depth int)
			addFields = func(n *gen.Node, depth int) {
				for _, name := range gen.NameSet(r, 1+r.Intn(3), 20) {
					var f *gen.Node
					if depth > 0 && gen.Chance(r, 25) {
						f = &gen.Node{Type: "object"}
						addFields(f, depth-1)
					} else {
						f = scalarNode(r)
						if !failing {
							f.Type, f.DateTime = "string", f.DateTime && false
						}
						if gen.Chance(r, 30) {
							f.HasDefault, f.Default = true, defaultFor(r, f)
						}
						for _, id := range idents {
							if !gen.Chance(r, 60) {
								continue
							}
							t := section(r, doc, 4, 15)
							if !failing {
								for i := range t.From {
									if t.Method == "concatenate" && len(t.From) > 1 || len(t.From[i].Ops) > 0 {
										// sources which convert to a text
										t.From[i].Path = sourcePath(r, doc, 0, 40, isScalarVal)
									}
								}
							}
							multi = multi || len(t.From) > 1
							f.Tr = append(f.Tr, gen.NamedTransform{Ident: id, T: t})
						}
					}
					n.Props = append(n.Props, gen.Prop{Name: name, Node: f})
				}
			}
			addFields(root, 2)
			text := gen.RenderCompact(root.JSON())
			for _, id := range idents[:2+r.Intn(3)] {
				jc := &jsonCase{root: root, ident: id}
				tr := transformer(c, root, id, false)
				if tr == nil {
					return
				}
				for i := 0; i < 3; i++ {
					d := mutate(r, doc, i*2).(map[string]interface{})
					raw := gen.Render(d, gen.Layout{})
					want, ok := jc.check(c, tr, d, raw)
					if !ok {
						return
					}
					eachNode(root, nil, func(n *gen.Node, _ []string) {
						if t := n.Transform(id); t != nil && len(t.From) > 1 {
							switch t.Method {
							case "concatenate":
								c.Count("concatenations")
							case "last":
								c.Count("last")
							default:
								c.Count("first")
							}
						}
					})
					c.Eval(multi && want != nil, text, id, raw)
					if c.WantSample() {
						c.Sample(map[string]interface{}{"schema": json.RawMessage(text), "ident": id, "document": json.RawMessage(raw), "output": json.RawMessage(model.Output(want))})
					}
				}
			}
		},
	})
}

// mutate changes n places of a document: removing, nulling or replacing values.
func mutate(r *rand.Rand, v interface{}, n int) interface{} {
	v = gen.Copy(v)
	for ; n > 0; n-- {
		mutateOne(r, v)
	}
	if gen.Chance(r, 3) {
		v = gen.Enlarge(r, v)
	}
	if gen.Chance(r, 10) {
		v = gen.Reshape(r, v)
	}
	return v
}

func mutateOne(r *rand.Rand, v interface{}) {
	for depth := 0; depth < 6; depth++ {
		switch t := v.(type) {
		case map[string]interface{}:
			if len(t) == 0 {
				return
			}
			k := gen.Pick(r, gen.Keys(t))
			if isScalarVal(t[k]) || gen.Chance(r, 25) {
				switch r.Intn(5) {
				case 0, 1:
					delete(t, k)
				case 2:
					t[k] = nil
				case 3:
					t[k] = ""
				case 4:
					t[k] = gen.Value(r, 2, gen.Idents)
				}
				return
			}
			v = t[k]
		case []interface{}:
			if len(t) == 0 {
				return
			}
			i := r.Intn(len(t))
			if isScalarVal(t[i]) || gen.Chance(r, 20) {
				t[i] = gen.Value(r, 1, gen.Idents)
				return
			}
			v = t[i]
		default:
			return
		}
	}
}

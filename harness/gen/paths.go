package gen

import (
	"math/rand"
	"sort"
)

// Keys returns the sorted keys of an object.
func Keys(m map[string]interface{}) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Walk draws a path to something in v. stop decides with the value reached if to stop there.
func Walk(r *rand.Rand, v interface{}, multiPct int, stop func(interface{}) bool) []Seg {
	var segs []Seg
	for depth := 0; depth < 8; depth++ {
		if len(segs) > 0 && stop(v) {
			return segs
		}
		switch t := v.(type) {
		case map[string]interface{}:
			if len(t) == 0 {
				return segs
			}
			if len(segs) > 0 && Chance(r, multiPct/4) {
				segs = append(segs, Seg{Kind: DotWild})
				v = t[Pick(r, Keys(t))]
				continue
			}
			k := Pick(r, Keys(t))
			if IsIdent(k) && !Chance(r, 10) {
				segs = append(segs, Seg{Kind: Field, Name: k})
			} else {
				segs = append(segs, Seg{Kind: Quoted, Name: k})
			}
			v = t[k]
		case []interface{}:
			if len(t) == 0 {
				return segs
			}
			i := r.Intn(len(t))
			v = t[i]
			if !Chance(r, multiPct) {
				segs = append(segs, Seg{Kind: Index, I: i})
				continue
			}
			switch r.Intn(4) {
			case 0, 1:
				segs = append(segs, Seg{Kind: Wild})
			case 2:
				lo := r.Intn(i + 1)
				segs = append(segs, Seg{Kind: Range, I: lo, J: i + 1 + r.Intn(2)})
			case 3:
				m, ok := v.(map[string]interface{})
				if !ok {
					segs = append(segs, Seg{Kind: Wild})
					continue
				}
				done := false
				for _, k := range Keys(m) {
					if !IsIdent(k) || k == "true" || k == "false" {
						continue
					}
					if f, ok := m[k].(float64); ok {
						// the JSONPath library has no comparisons other than equality
						if f >= 0 && f == float64(int(f)) && f < 1e6 {
							segs = append(segs, Seg{Kind: FilterEq, Name: k, Lit: f})
						} else {
							continue
						}
						done = true
						break
					}
					if s, ok := m[k].(string); ok && plain(s) {
						segs = append(segs, Seg{Kind: FilterEq, Name: k, Lit: s})
						done = true
						break
					}
				}
				if !done {
					segs = append(segs, Seg{Kind: Wild})
				}
			}
		default:
			return segs
		}
	}
	return segs
}

func plain(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return s != "" && s != "true" && s != "false" && s != "null"
}

// Spoil changes a path so that it most likely finds nothing.
func Spoil(r *rand.Rand, segs []Seg) []Seg {
	out := append([]Seg{}, segs...)
	i := r.Intn(len(out) + 1)
	if i == len(out) {
		return append(out, Seg{Kind: Field, Name: "missing"})
	}
	switch out[i].Kind {
	case Field, Quoted:
		out[i].Name = "missing" + out[i].Name
		out[i].Kind = Quoted
	case Index:
		out[i].I += 100
	default:
		return append(out, Seg{Kind: Field, Name: "missing"})
	}
	return out
}

// Source draws a document to read from: a tree with a repeating structure.
func Source(r *rand.Rand) map[string]interface{} {
	m := map[string]interface{}{}
	keys := []string{"id", "name", "n", "tag", "data-x", "sub", "flag"}
	obj := func(depth int) map[string]interface{} { return nil }
	obj = func(depth int) map[string]interface{} {
		o := map[string]interface{}{}
		for _, k := range keys {
			if Chance(r, 35) {
				continue
			}
			switch k {
			case "id":
				o[k] = float64(r.Intn(4))
			case "name":
				o[k] = StringVal(r)
			case "n":
				o[k] = NumberVal(r)
			case "tag":
				o[k] = Pick(r, []string{"x", "y", "z"})
			case "flag":
				o[k] = r.Intn(2) == 0
			case "data-x":
				o[k] = Scalar(r)
			case "sub":
				if depth > 0 {
					if Chance(r, 50) {
						o[k] = obj(depth - 1)
					} else {
						var a []interface{}
						for i := r.Intn(4); i > 0; i-- {
							a = append(a, obj(depth-1))
						}
						if a == nil {
							a = []interface{}{}
						}
						o[k] = a
					}
				}
			}
		}
		return o
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		var a []interface{}
		for j := r.Intn(4); j >= 0; j-- {
			a = append(a, obj(2))
		}
		m[Pick(r, []string{"list", "rows", "more-rows"})] = a
	}
	m["o"] = obj(2)
	m["str"] = StringVal(r)
	m["num"] = NumberVal(r)
	m["flag"] = r.Intn(2) == 0
	m["scalars"] = []interface{}{StringVal(r), NumberVal(r), StringVal(r)}
	m["strs"] = []interface{}{StringVal(r), StringVal(r)}
	m["empty"] = []interface{}{}
	m["nil"] = nil
	m["odd-key"] = Scalar(r)
	return m
}

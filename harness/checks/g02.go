package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"time"

	"verif/harness/gen"
	"verif/harness/gproj"
	"verif/harness/h"
)

// numDecode decodes JSON keeping the digits of numbers.
func numDecode(raw []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing content")
	}
	return v, nil
}

func sameNumber(a, b json.Number, double bool) bool {
	x, ok1 := new(big.Rat).SetString(string(a))
	y, ok2 := new(big.Rat).SetString(string(b))
	if !ok1 || !ok2 {
		return a == b
	}
	if double {
		f, _ := x.Float64()
		g, _ := y.Float64()
		return f == g
	}
	return x.Cmp(y) == 0
}

// zeroish tells whether a value has only empty, zero or null content.
func zeroish(v interface{}) bool {
	switch t := v.(type) {
	case nil:
		return true
	case bool:
		return !t
	case string:
		if x, err := time.Parse(time.RFC3339Nano, t); err == nil {
			return x.IsZero()
		}
		return t == ""
	case json.Number:
		x, ok := new(big.Rat).SetString(string(t))
		return ok && x.Sign() == 0
	case []interface{}:
		return len(t) == 0
	case map[string]interface{}:
		for _, x := range t {
			if !zeroish(x) {
				return false
			}
		}
		return true
	}
	return false
}

// tripper compares a document with what became of it.
type tripper struct {
	u   *gproj.Unit
	bad []string
	n   int64
	out int64 // optional content which was left out
}

func (t *tripper) add(format string, args ...interface{}) {
	if len(t.bad) < 15 {
		t.bad = append(t.bad, fmt.Sprintf(format, args...))
	}
}

func (t *tripper) object(path string, props []gproj.P, in, out map[string]interface{}) {
	known := map[string]bool{}
	for _, p := range visible(props) {
		known[p.Name] = true
		iv, inIn := in[p.Name]
		ov, inOut := out[p.Name]
		switch {
		case inIn && inOut:
			t.value(path+"."+p.Name, p.N, iv, ov)
		case inIn:
			if p.Req {
				t.add("%s.%s: required, but left out", path, p.Name)
			} else if !zeroish(iv) {
				t.add("%s.%s: lost %v", path, p.Name, iv)
			}
			t.out++
		case inOut:
			// Without pointers an absent date-time is the zero time.
			if s, ok := ov.(string); ok && p.N.K == "date-time" && !p.N.Null && !p.Req && !t.u.O.Pointers && s == "0001-01-01T00:00:00Z" {
				continue
			}
			t.add("%s.%s: invented %v", path, p.Name, ov)
		}
	}
	for k := range out {
		if !known[k] {
			t.add("%s.%s: not a property", path, k)
		}
	}
}

func (t *tripper) value(path string, n *gproj.N, in, out interface{}) {
	t.n++
	if in == nil || out == nil {
		if in != nil || out != nil {
			t.add("%s: %v became %v", path, in, out)
		}
		return
	}
	switch n.K {
	case "date-time":
		a, err1 := time.Parse(time.RFC3339Nano, fmt.Sprint(in))
		b, err2 := time.Parse(time.RFC3339Nano, fmt.Sprint(out))
		if err1 != nil || err2 != nil || !a.Equal(b) {
			t.add("%s: time %v became %v", path, in, out)
		}
		return
	case "array":
		a, ok1 := in.([]interface{})
		b, ok2 := out.([]interface{})
		if !ok1 || !ok2 || len(a) != len(b) {
			t.add("%s: %v became %v", path, in, out)
			return
		}
		for i := range a {
			t.value(fmt.Sprintf("%s[%d]", path, i), n.Items, a[i], b[i])
		}
		return
	case "object":
		a, ok1 := in.(map[string]interface{})
		b, ok2 := out.(map[string]interface{})
		if !ok1 || !ok2 {
			t.add("%s: %v became %v", path, in, out)
			return
		}
		if len(visible(n.Props)) > 0 {
			t.object(path, n.Props, a, b)
			return
		}
	}
	if x, ok := in.(json.Number); ok {
		if y, ok := out.(json.Number); ok && sameNumber(x, y, n.K == "number") {
			return
		}
	} else if reflect.DeepEqual(in, out) {
		return
	}
	t.add("%s: %v became %v", path, in, out)
}

const g02Docs = 12

func g02Run(c *h.Case) {
	gw := c.Data.(*gworker)
	u := gw.units[c.Idx%len(gw.units)]
	if u.Failed {
		return
	}
	for _, t := range u.Types() {
		for i := 0; i < g02Docs; i++ {
			doc := gen.Render(gproj.DocOf(c.R, t.Props, 0), gen.Layout{R: c.R, Space: c.R.Intn(3)})
			info := func(extra map[string]interface{}) map[string]interface{} {
				extra["type"], extra["document"], extra["code"] = t.Name, string(doc), u.Code()
				return u.Info(extra)
			}
			a, ok := gw.ask(c, u, gproj.Request{Op: "json", Type: u.Pkg + "." + t.Name, Doc: string(doc)})
			if !ok {
				return
			}
			if a.Err != "" {
				c.Fail("a conforming document is refused", info(map[string]interface{}{"error": a.Err}))
				return
			}
			in, err := numDecode(doc)
			if err != nil {
				c.Fail("harness: bad document", info(map[string]interface{}{"error": err.Error()}))
				return
			}
			out, err := numDecode([]byte(a.Out))
			if err != nil {
				c.Fail("encoding gives no JSON", info(map[string]interface{}{"error": err.Error(), "output": a.Out}))
				return
			}
			tr := &tripper{u: u}
			tr.object("$", t.Props, in.(map[string]interface{}), out.(map[string]interface{}))
			if len(tr.bad) > 0 {
				c.Fail("the document changed on its way through the struct", info(map[string]interface{}{"differences": tr.bad, "output": a.Out}))
				return
			}
			again, ok := gw.ask(c, u, gproj.Request{Op: "json", Type: u.Pkg + "." + t.Name, Doc: a.Out})
			if !ok {
				return
			}
			var back interface{}
			if again.Err == "" {
				back, _ = numDecode([]byte(again.Out))
			}
			if !reflect.DeepEqual(stripped(back, nil, t.Props), stripped(out, nil, t.Props)) {
				c.Fail("a second round trip differs from the first", info(map[string]interface{}{"first": a.Out, "second": again.Out, "error": again.Err}))
				return
			}
			c.Add("values compared after a round trip", tr.n)
			c.Add("empty optional content left out", tr.out)
			c.Count("documents round-tripped")
			c.Eval(tr.n > 0, u.Pkg, t.Name, doc)
			if i == 3 && c.WantSample() {
				c.Sample(map[string]interface{}{"schemas": u.Schemas(), "type": t.Name, "options": u.O.String(), "document": string(doc), "output": a.Out})
			}
		}
	}
}

// stripped normalises encoded content for the comparison of options: empty optional content is left out, numbers and
// times get one form.
func stripped(v interface{}, n *gproj.N, props []gproj.P) interface{} {
	if props == nil && n != nil {
		props = n.Props
	}
	switch t := v.(type) {
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, x := range t {
			var p *gproj.P
			for i := range props {
				if props[i].Name == k {
					p = &props[i]
				}
			}
			if p == nil {
				out[k] = x
				continue
			}
			y := stripped(x, p.N, nil)
			if !p.Req && zeroish(y) {
				continue
			}
			out[k] = y
		}
		return out
	case []interface{}:
		out := make([]interface{}, len(t))
		for i, x := range t {
			if n != nil && n.Items != nil {
				x = stripped(x, n.Items, nil)
			}
			out[i] = x
		}
		return out
	}
	return v
}

// disturb makes a document which does not conform any more: other types, missing and unknown members.
func disturb(r *rand.Rand, v interface{}, props []gproj.P, u *gproj.Unit) interface{} {
	o, ok := v.(gen.Obj)
	if !ok {
		return v
	}
	out := gen.Obj{}
	for _, m := range o {
		var n *gproj.N
		for _, p := range props {
			if p.Name == m.Key {
				n = p.N
			}
		}
		switch k := r.Intn(100); {
		case k < 12:
			continue
		case k < 20:
			m.Val = nil
		case k < 24:
			m.Val = gen.Value(r, 1, []string{"a", "b"})
		case n != nil && n.K == "object" && len(n.Props) > 0:
			m.Val = disturb(r, m.Val, n.Props, u)
		}
		out = append(out, m)
	}
	for i := r.Intn(3); i > 0; i-- {
		k := gen.Pick(r, []string{"unknown", "Unknown Thing", "Odd", "x-y-z"})
		if len(u.P.FieldNames) > 0 && gen.Chance(r, 60) {
			ks := sortedKeys(u.P.FieldNames)
			k = u.FieldName(gen.Pick(r, ks)) // the Go name means nothing in JSON
			for _, p := range props {
				if p.Name == k {
					k = "unknown"
				}
			}
		}
		out = append(out, gen.Member{Key: k, Val: gen.Value(r, 1, []string{"a"})})
	}
	return out
}

func g03Run(c *h.Case) {
	gw := c.Data.(*gworker)
	per := g03Opts
	n := len(gw.units) / per
	units := gw.units[(c.Idx%n)*per : (c.Idx%n+1)*per]
	first := units[0]
	for _, t := range first.Types() {
		for i := 0; i < g02Docs; i++ {
			v := interface{}(gproj.DocOf(c.R, t.Props, 0))
			kind := "conforming"
			if i%2 == 1 {
				v = disturb(c.R, v, t.Props, first)
				kind = "disturbed"
			}
			doc := gen.RenderCompact(v)
			var base *gproj.Unit
			var want interface{}
			var wantErr, wantOut string
			for _, u := range units {
				if u.Failed {
					continue
				}
				name := u.Pkg + "." + u.TypeName(t.Part)
				a, ok := gw.ask(c, u, gproj.Request{Op: "json", Type: name, Doc: string(doc)})
				if !ok {
					return
				}
				var got interface{}
				if a.Err == "" {
					out, err := numDecode([]byte(a.Out))
					if err != nil {
						c.Fail("encoding gives no JSON", u.Info(map[string]interface{}{"document": string(doc), "output": a.Out}))
						return
					}
					got = stripped(out, nil, t.Props)
				}
				if base == nil {
					base, want, wantErr, wantOut = u, got, a.Err, a.Out
					continue
				}
				if (a.Err == "") != (wantErr == "") || !reflect.DeepEqual(got, want) {
					c.Fail("two option sets speak different JSON", u.Info(map[string]interface{}{"type": t.Name, "document": string(doc), "other options": base.O.String(),
						"output": a.Out + a.Err, "other output": wantOut + wantErr, "code": u.Code(), "other code": base.Code()}))
					return
				}
				c.Count("outputs compared with those of another option set")
				if a.Err != "" {
					c.Count("refused alike")
				}
			}
			c.Count(kind + " documents")
			c.Eval(base != nil, t.Name, doc, fmt.Sprint(first.P.ID))
		}
	}
	// Renamed structs and fields carry the requested names.
	for _, u := range units {
		if u.Failed {
			continue
		}
		for _, t := range u.Types() {
			a, ok := gw.ask(c, u, gproj.Request{Op: "type", Type: u.Pkg + "." + t.Name})
			if !ok {
				return
			}
			view := map[string]*viewed{}
			if a.Type == nil {
				c.Fail("a struct does not have the requested name", u.Info(map[string]interface{}{"type": t.Name, "code": u.Code()}))
				return
			}
			jsonView(a.Type, 0, view)
			for _, p := range visible(t.Props) {
				if v := view[p.Name]; v == nil || v.f.Go != u.FieldName(p.Name) {
					c.Fail("a field does not have the requested name", u.Info(map[string]interface{}{"type": t.Name, "property": p.Name, "want": u.FieldName(p.Name), "code": u.Code()}))
					return
				}
				if _, ok := u.P.FieldNames[p.Name]; ok {
					c.Count("renamed fields seen")
				}
			}
			if _, ok := u.P.Structs[t.Part.Base]; ok {
				c.Count("renamed structs seen")
			}
		}
	}
	if c.WantSample() {
		c.Sample(first.Info(map[string]interface{}{"code": first.Code(), "code of " + units[1].O.String(): units[1].Code()}))
	}
}

const g02Quick, g02Thorough = 150, 2500
const g03Quick, g03Thorough, g03Opts = 100, 1200, 6

func init() {
	register(&h.Check{
		ID:          "G02",
		Rule:        fmt.Sprintf("a case is one generated and compiled package (see G01) and %d random conforming documents for each of its structs; the compiled code decodes and encodes each, the outcome is compared with the document along the schema, then goes round once more; non-trivial when at least one value was compared", g02Docs),
		Assumptions: []string{"encoding/json"},
		Quick:       g02Quick * 6, Thorough: g02Thorough * 3,
		Prepare: func(p *h.Parent) error { return structSet.prepare(p, byTier(p.Tier, g02Quick, g02Thorough)) },
		Setup:   func(w *h.Worker) error { return structSet.setup(w, byTier(w.Tier, g02Quick, g02Thorough)) },
		Run:     g02Run,
		Need:    []string{"documents round-tripped", "values compared after a round trip", "empty optional content left out"},
	})
	set := &gset{opts: func(r *rand.Rand, p *gproj.Proj) []gproj.Opt { return gproj.RandOpts(r, g03Opts, gproj.Opt{}) }}
	register(&h.Check{
		ID:          "G03",
		Rule:        fmt.Sprintf("a case is one schema project generated under %d different combinations of options and compiled; %d conforming and disturbed documents per struct go through all of them, outputs are compared pairwise after leaving out empty optional content; the names of structs and fields are read by reflection", g03Opts, g02Docs),
		Assumptions: []string{"encoding/json"},
		Quick:       g03Quick * 3, Thorough: g03Thorough,
		Prepare: func(p *h.Parent) error { return prepareProjects(set, p, byTier(p.Tier, g03Quick, g03Thorough)) },
		Setup:   func(w *h.Worker) error { return set.setup(w, byTier(w.Tier, g03Quick, g03Thorough)) },
		Run:     g03Run,
		Need:    []string{"outputs compared with those of another option set", "disturbed documents", "conforming documents", "renamed fields seen", "renamed structs seen", "refused alike"},
	})
}

// prepareProjects is prepare for checks with one case per project.
func prepareProjects(g *gset, p *h.Parent, projects int) error {
	only := p.Only
	if only >= 0 {
		p.Only = (only % projects) * g03Opts
	}
	err := g.prepare(p, projects)
	p.Only = only
	return err
}

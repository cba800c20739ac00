package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/gen"
	"verif/harness/h"
)

// typeAtoms are what a type can be spelled with.
var typeAtoms = []interface{}{"string", "number", "integer", "boolean", "object", "array", "null", nil, 1.0, true, map[string]interface{}{}, []interface{}{}, []interface{}{"string"}, map[string]interface{}{"type": "string"}}

type typeCase struct {
	absent bool
	val    interface{}
}

// typeVerdict is the rule: the type, nullable, an error, and whether the property says anything.
func typeVerdict(tc typeCase) (typ string, nullable, bad, decided bool) {
	if tc.absent {
		return "", false, true, true
	}
	switch t := tc.val.(type) {
	case string:
		return t, false, false, t != "null"
	case []interface{}:
		n := 0
		for _, e := range t {
			s, ok := e.(string)
			if !ok {
				return "", false, true, true
			}
			if s == "null" {
				nullable = true
			} else {
				n++
				typ = s
			}
		}
		switch {
		case n > 1, len(t) == 0:
			return "", false, true, true
		case n == 0:
			return "", false, false, false // only null
		}
		return typ, nullable, false, true
	}
	return "", false, true, true
}

// allTypeCases are all type notations with lists of up to three elements.
func allTypeCases() []typeCase {
	out := []typeCase{{absent: true}, {val: []interface{}{}}}
	for _, a := range typeAtoms {
		out = append(out, typeCase{val: a})
		out = append(out, typeCase{val: []interface{}{a}})
		for _, b := range typeAtoms {
			out = append(out, typeCase{val: []interface{}{a, b}})
			for _, c := range typeAtoms {
				out = append(out, typeCase{val: []interface{}{a, b, c}})
			}
		}
	}
	return out
}

// decoys are members which must not be taken for the type of the field.
func decoys(r *rand.Rand) gen.Obj {
	all := gen.Obj{
		{Key: "description", Val: `the "type": "number" of this`},
		{Key: "properties", Val: gen.Obj{{Key: "type", Val: gen.Obj{{Key: "type", Val: "boolean"}}}, {Key: "x", Val: gen.Obj{{Key: "type", Val: []interface{}{"array", "null"}}}}}},
		{Key: "items", Val: gen.Obj{{Key: "type", Val: []interface{}{"null", "integer"}}}},
		{Key: "default", Val: gen.Obj{{Key: "type", Val: "object"}}},
		{Key: "enum", Val: []interface{}{"type", gen.Obj{{Key: "type", Val: "string"}}}},
		{Key: "Type", Val: "integer"},
		{Key: "types", Val: "integer"},
		{Key: "format", Val: "type"},
		{Key: "allOf", Val: []interface{}{gen.Obj{{Key: "type", Val: "string"}}}},
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all[:r.Intn(len(all))]
}

func init() {
	cases := allTypeCases()
	register(&h.Check{
		ID:    "J07",
		Rule:  "exhaustive type notations with up to three list elements (valid names, null, non-names), each among random other members in random order and layout, asked from FieldType; and schema files with random lists of allOf and oneOf references, nested decoys and property names, asked from SchemaTypes. Non-trivial: a list notation or an error for FieldType, a file with at least one reference for SchemaTypes",
		Quick: len(cases) * 4, Thorough: len(cases) * 60, Shards: 4,
		Need: []string{"field_types_nullable", "field_types_plain", "field_types_refused", "schema_types_with_references", "schema_types_refused"},
		Run: func(c *h.Case) {
			if c.Idx%4 == 3 {
				runSchemaTypes(c)
				return
			}
			tc := cases[(c.Idx-c.Idx/4)%len(cases)]
			o := decoys(c.R)
			if !tc.absent {
				o = append(o, gen.Member{Key: "type", Val: tc.val})
			}
			raw := gen.Render(o, gen.Layout{R: c.R, Shuffle: true, Space: c.R.Intn(3)})
			var typ string
			var nullable bool
			var err error
			detail := func() interface{} { return map[string]interface{}{"field": str(raw)} }
			if !c.Guard("FieldType", detail, func() { typ, nullable, err = jsonschema.FieldType(raw) }) {
				return
			}
			wantType, wantNull, bad, decided := typeVerdict(tc)
			_, isList := tc.val.([]interface{})
			c.Eval(decided && (isList || bad), "ft", fmt.Sprint(tc), raw)
			if !decided {
				c.Count("only_null_undecided")
				return
			}
			what := fmt.Sprintf("type %s: got %q nullable %v error %v, want %q nullable %v error %v", gen.RenderCompact(tc.val), typ, nullable, err, wantType, wantNull, bad)
			switch {
			case bad && err == nil, !bad && (err != nil || typ != wantType || nullable != wantNull):
				c.Fail(what, detail())
			case bad:
				c.Count("field_types_refused")
			case nullable:
				c.Count("field_types_nullable")
			default:
				c.Count("field_types_plain")
			}
			if c.WantSample() {
				c.Sample(map[string]interface{}{"field": str(raw), "type": typ, "nullable": nullable, "error": errText(err)})
			}
		},
	})
}

func runSchemaTypes(c *h.Case) {
	r := c.R
	refs := func() (list []interface{}, want []string) {
		for n := r.Intn(5); n > 0; n-- {
			ref := gen.Pick(r, []string{"a.json", "./b.json", "../x/c.v1.json", "#/definitions/d", "file#/definitions/e", "http://127.0.0.1/x.json", "a.json", "ünï.json", "#/properties/a"})
			o := gen.Obj{{Key: "$ref", Val: ref}}
			if gen.Chance(r, 20) {
				o = append(o, gen.Member{Key: "description", Val: "d"})
			}
			if gen.Chance(r, 15) {
				// decoys: references which aren't at the top
				list = append(list, gen.Obj{{Key: "type", Val: "object"}, {Key: "properties", Val: gen.Obj{{Key: "p", Val: gen.Obj{{Key: "$ref", Val: "deep.json"}}}}}, {Key: "allOf", Val: []interface{}{gen.Obj{{Key: "$ref", Val: "deep2.json"}}}}})
			}
			list = append(list, o)
			want = append(want, ref)
		}
		return
	}
	var o gen.Obj
	all, wantAll := refs()
	one, wantOne := refs()
	if all != nil {
		o = append(o, gen.Member{Key: "allOf", Val: all})
	}
	if one != nil {
		o = append(o, gen.Member{Key: "oneOf", Val: one})
	}
	var wantProps []string
	if gen.Chance(r, 80) {
		props := gen.Obj{}
		for _, name := range gen.NameSet(r, r.Intn(6), 30) {
			wantProps = append(wantProps, name)
			p := gen.Obj{{Key: "type", Val: "object"}, {Key: "properties", Val: gen.Obj{{Key: "inner", Val: gen.Obj{{Key: "$ref", Val: "inner.json"}}}}}}
			if gen.Chance(r, 40) {
				p = gen.Obj{{Key: "$ref", Val: "prop.json"}}
			}
			props = append(props, gen.Member{Key: name, Val: p})
		}
		o = append(o, gen.Member{Key: "properties", Val: props})
	}
	sort.Strings(wantProps)
	if gen.Chance(r, 60) {
		o = append(o, gen.Member{Key: "type", Val: gen.Pick[interface{}](r, []interface{}{"object", []interface{}{"object", "null"}})})
	}
	if gen.Chance(r, 30) {
		o = append(o, gen.Member{Key: "definitions", Val: gen.Obj{{Key: "d", Val: gen.Obj{{Key: "allOf", Val: []interface{}{gen.Obj{{Key: "$ref", Val: "def.json"}}}}, {Key: "properties", Val: gen.Obj{{Key: "defprop", Val: gen.Obj{}}}}}}}})
	}
	raw := gen.Render(o, gen.Layout{R: r, Shuffle: true, Space: r.Intn(3)})
	bad := gen.Chance(r, 15)
	if bad {
		raw = raw[:r.Intn(len(raw))]
	}
	p := writeFile(c.Dir, "schema.json", raw)
	defer os.RemoveAll(filepath.Dir(p))
	if bad && gen.Chance(r, 30) {
		os.Remove(p)
	}
	var a, n, props []string
	var err error
	detail := func() interface{} {
		return map[string]interface{}{"schema": str(raw), "allOf": a, "oneOf": n, "properties": props, "error": errText(err)}
	}
	if !c.Guard("SchemaTypes", detail, func() { a, n, props, err = jsonschema.SchemaTypes(p) }) {
		return
	}
	c.Eval(bad || len(wantAll)+len(wantOne) > 0, "st", raw)
	if bad {
		if err == nil {
			c.Fail("unreadable schema file reported without error", detail())
		}
		c.Count("schema_types_refused")
		return
	}
	if err != nil {
		c.Fail("schema types fail: "+err.Error(), detail())
		return
	}
	// an element which isn't a reference has no name to report
	trim := func(in []string) (out []string) {
		for _, s := range in {
			if s != "" {
				out = append(out, s)
			}
		}
		return
	}
	if !reflect.DeepEqual(trim(a), wantAll) || !reflect.DeepEqual(trim(n), wantOne) {
		w, _ := json.Marshal([][]string{wantAll, wantOne})
		c.Fail("references reported differ, want "+string(w), detail())
	}
	if len(props) != len(wantProps) || len(props) > 0 && !reflect.DeepEqual(props, wantProps) {
		c.Fail(fmt.Sprintf("properties reported differ, want %q", wantProps), detail())
	}
	if len(wantAll)+len(wantOne) > 0 {
		c.Count("schema_types_with_references")
	}
}

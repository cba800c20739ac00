package checks

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/gen"
	"verif/harness/h"
	"verif/harness/model"
)

func xmlText(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// opValues are the values operations are tried on.
func opValue(r *rand.Rand, operation gen.Op) interface{} {
	op := operation.Type
	if gen.Chance(r, 12) {
		return gen.Value(r, 2, []string{"id", "n", "name", "tag"})
	}
	if gen.Chance(r, 4) { // long texts
		parts := make([]string, gen.Pick(r, []int{9, 11, 17, 33, 65, 101, 257, 257, 1030}))
		for i := range parts {
			parts[i] = gen.Pick(r, []string{"a", "bc", "X", "12", "", "é", "foo"})
		}
		delimiter := gen.Pick(r, []string{",", "-", " ", ":", "ab", "_"})
		if len(operation.Args) == 1 && gen.Chance(r, 70) {
			delimiter = operation.Args[0][1]
		}
		return strings.Join(parts, delimiter)
	}
	if gen.Chance(r, 3) { // white space
		return gen.Pick(r, []string{" ", "  ", "\t", "\n", "\u00a0", "\u200b"})
	}
	switch op {
	case "duration":
		d := func() string { return gen.Pick(r, []string{"", "0", "1", "00", "07", "59", "60", "99", "100", "9999"}) }
		switch r.Intn(6) {
		case 0:
			return d() + ":" + d()
		case 1, 2:
			return d() + ":" + d() + ":" + d()
		case 3:
			return fmt.Sprintf("%02d:%02d:%02d", r.Intn(30), r.Intn(60), r.Intn(60))
		case 4:
			return fmt.Sprintf("%d:%02d", r.Intn(200), r.Intn(60))
		}
		return gen.Pick(r, []string{"1", "", "a:b", "1:2:3:4", "-1:20", "1:2 ", "1.5:3", "99999999999999999999:1", ":::", " 1:2"})
	case "max":
		a := []interface{}{}
		count := r.Intn(5)
		if gen.Chance(r, 6) {
			count = gen.Pick(r, []int{11, 17, 40, 130})
		}
		for i := count; i > 0; i-- {
			m := map[string]interface{}{}
			if gen.Chance(r, 97) {
				m["id"] = float64(r.Intn(7) - 3)
			}
			if gen.Chance(r, 97) {
				m["n"] = gen.NumberVal(r)
			}
			m["name"] = gen.StringVal(r)
			m["tag"] = gen.Pick(r, []string{"p", "q", "r"})
			a = append(a, m)
		}
		return a
	case "inverse":
		return r.Intn(2) == 0
	case "timeParse":
		return gen.Pick(r, []interface{}{"2020-02-29", "2021-02-29", "1999-12-31", "0001-01-01", "9999-12-31", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05+05:30", "2020-01-02T03:04:05.678Z", "13:45", "24:00", "00:00", "", "x", "1970-01-01", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59.999999999-12:00", "2020-06-15T23:30:00-07:00", "Feb 3, 2013", "12:05 AM", "31/12/99", "2020-366", "1 Jan 20 05:04 UTC"})
	case "convertToFloat64", "convertToInt64", "convertToBool":
		return gen.Pick(r, []interface{}{"1", "0", "-5", "3.7", "", "true", "T", "abc", "9223372036854775807", "9223372036854775808", "1e5", 0.0, 1.0, -1.0, 2.5, -2.5, true, false, 1e15, []interface{}{1.0, 2.0}, []interface{}{}, []interface{}{nil}, []interface{}{nil, 1.0}, []interface{}{nil, nil}, []interface{}{false}, []interface{}{""}, []interface{}{[]interface{}{}}, map[string]interface{}{}, "+7", "0x1F", "1_000", " 1", "1.0", "Inf", "-0", "9007199254740993", "-9223372036854775808", "f", "False", "TRUE", "yes", 1e19, -0.5, 0.5, 0.999999, -1.5, 9007199254740993.0, 1e300})
	case "split":
		return gen.Pick(r, []interface{}{"a,b,c", "", ",", ",a,,b,", "no", "x-y-z", "a b  c", "aabbaabb", "ünï-cödé", ":", "a, b ,c", ",,,", "a::b", "ab", "-"})
	case "toCamelCase":
		return gen.Pick(r, []interface{}{"foo-bar-baz", "FOO-BAR", "-foo", "foo-", "--", "", "one two three", "éclair-àla-carte", "a_b_c", "x,y", "already", "ALREADY", "fooBar-bazQux", "ǆ-ǆ", "1st-2nd", "a--b", "it's-o'clock", "foo bar-baz qux", "-"})
	}
	if gen.Chance(r, 30) {
		return gen.Pick(r, []string{"ŞİĞ", "ß", "ǆ", "ŉ", "Àé", "MiXeD 123", "aXbXc", "abcabc", "$1", "a.b", "x\ny", "bcbc", "aaa", "Abc ABC abc"})
	}
	return gen.StringVal(r)
}

// htmlText draws text with simple markup.
func htmlText(r *rand.Rand) string {
	var b strings.Builder
	parts := r.Intn(8)
	if gen.Chance(r, 12) {
		parts = gen.Pick(r, []int{20, 40, 100, 300})
	}
	for i := parts; i >= 0; i-- {
		b.WriteString(gen.Pick(r, []string{"word", "two words", " ", "<b>", "</b>", "<p class=\"x\">", "</p>", "<br/>", "<br>", "&amp;", "&lt;b&gt;", "&quot;", "it's", "ünï ☃", "&eacute;", "1 & 2", ". ", "<a href=\"http://x.y/z?a=1&amp;b=2\">", "</a>", "&nbsp;", "\n"}))
	}
	return b.String()
}

// badOps are operations and methods which must be rejected when the transformer is built.
func badSection(r *rand.Rand) (string, string) {
	op := func(name, args string) string {
		if args == "" {
			return fmt.Sprintf(`{"from":[{"jsonPath":"$.v","xmlPath":"/r/v","operations":[{"type":%q}]}]}`, name)
		}
		return fmt.Sprintf(`{"from":[{"jsonPath":"$.v","xmlPath":"/r/v","operations":[{"type":%q,"args":%s}]}]}`, name, args)
	}
	list := [][2]string{
		{"unknown operation", op("upperCase", "")}, {"unknown operation", op("", "")}, {"unknown operation", op("Split", `{"on":","}`)}, {"unknown operation", op("changecase", `{"to":"upper"}`)},
		{"unknown method", `{"from":[{"jsonPath":"$.v"}],"method":"concat"}`}, {"unknown method", `{"from":[{"jsonPath":"$.v"}],"method":"First"}`}, {"unknown method", `{"from":[{"jsonPath":"$.v"}],"method":" last"}`},
		{"missing argument", op("changeCase", "")}, {"missing argument", op("changeCase", "{}")}, {"invalid argument", op("changeCase", `{"to":"Upper"}`)}, {"invalid argument", op("changeCase", `{"to":""}`)}, {"extra argument", op("changeCase", `{"to":"upper","x":"y"}`)}, {"wrong argument", op("changeCase", `{"too":"upper"}`)},
		{"missing argument", op("max", "")}, {"missing argument", op("max", `{"by":"@.n"}`)}, {"missing argument", op("max", `{"return":"@.n"}`)}, {"extra argument", op("max", `{"by":"@.n","return":"@.n","x":"1"}`)}, {"wrong argument", op("max", `{"by":"@.n","returns":"@.n"}`)},
		{"missing argument", op("replace", `{"regex":"a"}`)}, {"missing argument", op("replace", `{"new":"a"}`)}, {"invalid argument", op("replace", `{"regex":"(","new":"a"}`)}, {"invalid argument", op("replace", `{"regex":"a**","new":"a"}`)}, {"extra argument", op("replace", `{"regex":"a","new":"b","all":"true"}`)},
		{"missing argument", op("split", "")}, {"extra argument", op("split", `{"on":",","n":"2"}`)}, {"wrong argument", op("split", `{"by":","}`)},
		{"missing argument", op("timeParse", `{"format":"2006"}`)}, {"missing argument", op("timeParse", `{"layout":"2006"}`)}, {"extra argument", op("timeParse", `{"layout":"2006","format":"2006","z":""}`)},
		{"missing argument", op("currentTime", "")}, {"extra argument", op("currentTime", `{"format":"RFC3339","zone":"UTC"}`)},
		{"missing argument", op("toCamelCase", "")}, {"wrong argument", op("toCamelCase", `{"on":"-"}`)},
		{"argument of a wrong type", op("split", `{"on":1}`)}, {"argument of a wrong type", op("changeCase", `{"to":["upper"]}`)},
	}
	x := gen.Pick(r, list)
	return x[0], x[1]
}

func init() {
	register(&h.Check{
		ID:   "T08",
		Rule: "one field fed by a chain of 1 to 4 operations with drawn arguments over values of every JSON type and their boundary cases, as JSON and (for texts) as XML, compared with reference implementations; plus schemas with invalid operations, methods or arguments which must be rejected; non-trivial if the transform succeeds with a value or must fail because of the value, distinct by chain and value",
		Assumptions: []string{"removeHTML is compared for words, simple tags and entities", "currentTime is checked to be in the asked format and within an hour of now",
			"the Go regexp, time and strings packages are trusted as reference for replace, timeParse and case mapping"},
		Quick: 40000, Thorough: 800000,
		Need: []string{"json_ok", "json_expected_failure", "xml_ok", "xml_expected_failure", "rejected_at_build", "op_max", "op_duration", "op_timeParse", "op_removeHTML", "op_currentTime", "op_split", "op_convertToBool", "op_convertToInt64", "op_convertToFloat64", "op_inverse", "op_valueExists", "op_toCamelCase", "op_replace", "op_changeCase"},
		Run: func(c *h.Case) {
			switch {
			case c.Idx%20 == 7:
				opReject(c)
			case c.Idx%20 == 13:
				opCurrentTime(c)
			default:
				opChain(c)
			}
		},
	})
}

func opReject(c *h.Case) {
	what, section := badSection(c.R)
	kind := gen.Pick(c.R, []string{`{"type":"object","properties":{"v":{"type":"string","transform":{"it":%s}}}}`,
		`{"type":"object","properties":{"o":{"type":"object","properties":{"v":{"type":"integer","transform":{"it":%s}}}}}}`,
		`{"type":"object","properties":{"v":{"type":"array","items":{"type":"string"},"transform":{"it":%s}}}}`,
		`{"type":"object","properties":{"v":{"type":"array","items":{"type":"string","transform":{"it":%s}}}}}`,
		`{"type":"object","properties":{"v":{"type":"object","properties":{},"transform":{"it":%s}}}}`,
		`{"type":"object","properties":{"v":{"type":"object","properties":{"w":{"type":"number"}},"transform":{"it":%s}}}}`})
	text := fmt.Sprintf(kind, section)
	s, p, err := loadSchema(c, []byte(text))
	defer os.RemoveAll(filepath.Dir(p))
	if err != nil {
		c.Fail("schema does not load: "+err.Error(), text)
		return
	}
	for _, isXML := range []bool{false, true} {
		build := transform.NewTransformer
		if isXML {
			build = transform.NewXMLTransformer
		}
		tr, err := build(s, "it")
		if err == nil || tr != nil {
			c.Fail(what+" is not rejected when the transformer is built", map[string]interface{}{"schema": json.RawMessage(text), "xml": isXML})
			return
		}
		if _, err := build(s, "other"); err != nil {
			c.Fail("instructions for another identifier are rejected: "+err.Error(), json.RawMessage(text))
			return
		}
		c.Count("rejected_at_build")
	}
	c.Eval(true, text)
}

func opCurrentTime(c *h.Case) {
	format := gen.Pick(c.R, []string{"RFC3339", "2006-01-02 15:04:05 -0700", "Mon Jan _2 15:04:05 2006 -0700", "02/01/2006 15h04 -07:00"})
	n := &gen.Node{Type: "object", Props: []gen.Prop{{Name: "v", Node: &gen.Node{Type: "string", Tr: []gen.NamedTransform{{Ident: "it", T: &gen.Transform{From: []gen.Instr{{
		Path: &gen.Path{Segs: []gen.Seg{{Kind: gen.Field, Name: "v"}}}, XPath: &gen.XPath{Txt: "/r/v"},
		Ops: []gen.Op{{Type: "currentTime", Args: [][2]string{{"format", format}}}}}}}}}}}}}
	for _, isXML := range []bool{false, true} {
		tr := transformer(c, n, "it", isXML)
		if tr == nil {
			return
		}
		in := `{"v":"x"}`
		if isXML {
			in = "<r><v>x</v></r>"
		}
		out, err := tr.TransformNoValidation([]byte(in))
		var got struct{ V string }
		if err == nil {
			err = json.Unmarshal(out, &got)
		}
		layout := format
		if layout == "RFC3339" {
			layout = time.RFC3339
		}
		var t time.Time
		if err == nil {
			t, err = time.Parse(layout, got.V)
		}
		if d := time.Since(t); err != nil || d > time.Hour || d < -time.Hour {
			c.Fail("currentTime gives no current time", map[string]interface{}{"format": format, "got": string(out), "err": errText(err), "xml": isXML})
			return
		}
		c.Count("op_currentTime")
	}
	c.Eval(true, "currentTime", format)
}

func opChain(c *h.Case) {
	r := c.R
	var ops []gen.Op
	ftype := gen.Pick(r, []string{"string", "string", "string", "integer", "number", "boolean", "array", "date-time"})
	var value interface{}
	if gen.Chance(r, 12) {
		ops = []gen.Op{{Type: "removeHTML"}}
		value = htmlText(r)
		ftype = "string"
		if gen.Chance(r, 30) {
			ops = append(ops, stringOp(r))
		}
	} else {
		for i := []int{1, 1, 1, 2, 2, 3, 4}[r.Intn(7)]; i > 0; i-- {
			ops = append(ops, shuffledArgs(r, anyOp(r)))
		}
		if gen.Chance(r, 25) { // chains which fit together
			ops = gen.Pick(r, [][]gen.Op{
				{{Type: "convertToBool"}, {Type: "inverse"}},
				{{Type: "valueExists"}, {Type: "inverse"}},
				{{Type: "convertToInt64"}, {Type: "convertToBool"}, {Type: "inverse"}},
				{{Type: "split", Args: [][2]string{{"on", ","}}}, {Type: "convertToBool"}},
				{{Type: "max", Args: [][2]string{{"by", "@.id"}, {"return", "@.name"}}}, {Type: "changeCase", Args: [][2]string{{"to", "upper"}}}},
				{{Type: "replace", Args: [][2]string{{"regex", "^$"}, {"new", "0:0"}}}, {Type: "duration"}, {Type: "convertToInt64"}},
				{{Type: "toCamelCase", Args: [][2]string{{"delimiter", "-"}}}, {Type: "replace", Args: [][2]string{{"regex", "([A-Z])"}, {"new", "_$1"}}}},
				{{Type: "changeCase", Args: [][2]string{{"to", "lower"}}}, {Type: "toCamelCase", Args: [][2]string{{"delimiter", " "}}}},
			})
		}
		value = opValue(r, ops[0])
	}
	f := &gen.Node{Type: ftype}
	switch ftype {
	case "date-time":
		f.Type, f.DateTime = "string", true
	case "array":
		f.Items = scalarNode(r)
		if gen.Chance(r, 20) {
			f.Items.HasDefault, f.Items.Default = true, defaultFor(r, f.Items)
		}
	}
	if gen.Chance(r, 25) && ftype != "array" {
		f.HasDefault, f.Default = true, defaultFor(r, f)
	}
	f.Tr = []gen.NamedTransform{{Ident: "it", T: &gen.Transform{From: []gen.Instr{{
		Path: &gen.Path{Segs: []gen.Seg{{Kind: gen.Field, Name: "src"}}}, XPath: &gen.XPath{Txt: "/r/src"}, Ops: ops}}}}}
	jc := &jsonCase{root: &gen.Node{Type: "object", Props: []gen.Prop{{Name: "v", Node: f}}}, ident: "it"}
	doc := map[string]interface{}{"src": value}
	raw := gen.Render(doc, gen.Layout{})
	tr := transformer(c, jc.root, "it", false)
	if tr == nil {
		return
	}
	text := gen.RenderCompact(jc.root.JSON())
	want, wantErr := model.JSON(jc.root, "it", doc)
	if _, ok := jc.check(c, tr, doc, raw); !ok {
		return
	}
	c.Eval(want != nil || wantErr != nil, "json", text, raw)
	if wantErr != nil {
		c.Count("json_expected_failure")
	} else {
		c.Count("json_ok")
		for _, op := range ops {
			c.Count("op_" + op.Type)
		}
	}
	if c.WantSample() && wantErr == nil {
		c.Sample(map[string]interface{}{"operations": json.RawMessage(text), "document": json.RawMessage(raw), "output": json.RawMessage(model.Output(want))})
	}

	// the same with the text as XML
	s, ok := value.(string)
	if !ok || strings.TrimSpace(s) != s || s == "" || strings.ContainsAny(s, "\n\r\t") {
		return
	}
	xtr := transformer(c, jc.root, "it", true)
	if xtr == nil {
		return
	}
	x := "<r><src>" + xmlText(s) + "</src></r>"
	var xwant interface{}
	var xerr error
	if v, ok := model.Convert(s, ftype); ok && v != nil {
		xwant, xerr = model.Ops(ops, v)
	} else if !ok {
		xwant, xerr = model.Ops(ops, s)
	}
	if ftype == "array" && xerr == nil && xwant != nil {
		a, ok := xwant.([]interface{})
		if !ok {
			a = []interface{}{xwant}
		}
		xwant = nil
		var out []interface{}
		for _, y := range a {
			// the items convert as those from JSON do
			// the items convert as those from JSON do
			if y, ok := model.Convert(y, model.FieldType(f.Items)); ok && y != nil {
				out = append(out, y)
			} else if f.Items.HasDefault {
				out = append(out, f.Items.Default)
			}
		}
		if len(out) > 0 {
			xwant = out
		}
	}
	if xwant == nil && xerr == nil && f.HasDefault {
		xwant = f.Default
	}
	var res interface{}
	if xwant != nil {
		res = map[string]interface{}{"v": xwant}
	}
	out, err := xtr.TransformNoValidation([]byte(x))
	detail := map[string]interface{}{"schema": json.RawMessage(text), "document": x, "want": json.RawMessage(model.Output(res)), "want_error": xerr != nil, "got": string(out), "got_error": errText(err)}
	if model.Output(res) == nil {
		return
	}
	if (err != nil) != (xerr != nil) {
		c.Fail(fmt.Sprintf("XML transform gives error %v, expected error: %v", err, xerr != nil), detail)
		return
	}
	c.Eval(res != nil || xerr != nil, "xml", text, x)
	if err != nil {
		c.Count("xml_expected_failure")
		return
	}
	c.Count("xml_ok")
	got, cerr := canonical(out)
	exp, _ := canonical(model.Output(res))
	if cerr != nil || got != exp {
		c.Fail("XML transform gives "+got+", expected "+exp, detail)
	}
}

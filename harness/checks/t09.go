package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"verif/harness/gen"
	"verif/harness/h"
)

// convTypes are the scalar types values are converted to.
var convTypes = []string{"boolean", "number", "integer", "string", "date-time"}

func convNode(typ string) *gen.Node {
	if typ == "date-time" {
		return &gen.Node{Type: "string", DateTime: true}
	}
	return &gen.Node{Type: typ}
}

// convValues are the texts of JSON values which every type is tried with.
var convValues = func() []string {
	out := []string{"true", "false", "null", "{}", "[]", `{"a":1}`}
	for _, n := range []string{"0", "-0", "1", "-1", "2", "0.5", "-0.5", "0.0", "0.1", "1e3", "1E3", "1e-3", "1e21", "1e20", "123456789012", "9007199254740991", "9007199254740992", "1e308", "5e-324", "-1e-7",
		"1578000000", "1577934245", "0.999", "-62135596800", "253402300799", "1e15", "3.141592653589793", "2147483648", "4294967296", "100", "-7", "12.50", "1.0", "10", "1000000000000000000000"} {
		out = append(out, n)
	}
	for _, s := range append([]string{"2020-01-02T03:04:05+00:00", "1970-01-01T00:00:00Z", "1970-01-01T00:00:00+01:00", "1969-12-31T23:59:59Z", "1970-01-01T00:00:00.000000001Z", "0001-01-01T00:00:00+00:00", "0001-01-01T00:00:01Z", "0001-01-01T01:00:00+01:00", "2000-01-01T00:00:00-00:00", "2016-12-31T23:59:60Z", "2020-01-02t03:04:05z", "2020-01-02T03:04:05+24:00", "2020-01-02T03:04:05-07:00", "2020-06-30T23:59:59.999999999Z", "2020-02-29T00:00:00Z", "2021-02-29T00:00:00Z", "1900-01-01T00:00:00+05:30",
		"9999-12-31T23:59:59Z", "0001-01-01T00:00:00Z", "2020-01-02T24:00:00Z", "2020-01-02T03:04:05", "2020-01-02 03:04:05Z", "2020-01-02T03:04:05.5+14:00", "2020-1-2T03:04:05Z", "1600000000",
		"1.", ".5", "1e400", "-1e400", "1e-400", "0e0", "--1", "+-1", "1,000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616",
		"0.1", "0.30000000000000004", "1E5", "1e+5", "00", "-0", "+0", "infinity", "0b1", "0o7", "0xFp2", "True", "tRUE", "on", "no", "False", "\u00a05", "٣", "\U0001F600", "\u2028", "</script>", "\\", "\"", "\u0000"}, gen.Strings...) {
		out = append(out, string(gen.Quote(s)))
	}
	for _, s := range []string{"[true]", "[0]", `["12"]`, `[""]`, "[[1]]", `[[["x"]]]`, "[1,2]", `["a","b"]`, "[null]", "[null,1]", "[[],1]", "[[null]]", `[{"a":1}]`, "[false,true]", `["2020-01-02T03:04:05Z"]`, "[1578000000]", `["","x"]`, "[[5,6],[7]]"} {
		out = append(out, s)
	}
	return out
}()

func randomConvValue(r *rand.Rand) string {
	switch r.Intn(9) {
	case 0: // any double
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return strconv.FormatFloat(f, gen.Pick(r, []byte{'g', 'e'}), -1, 64)
			}
		}
	case 1:
		return strconv.FormatInt(r.Int63n(1<<54)-1<<53, 10)
	case 2:
		return fmt.Sprintf("%d.%0*d", r.Intn(200)-100, 1+r.Intn(6), r.Intn(10))
	case 3: // text of any 64 bit number
		return strconv.Quote(strconv.FormatInt(int64(r.Uint64()>>uint(r.Intn(60)))*int64(1-2*r.Intn(2)), 10))
	case 4: // text of a decimal
		s := fmt.Sprintf("%d.%d", r.Intn(100000), r.Int63())
		if gen.Chance(r, 50) {
			s += fmt.Sprintf("%s%d", gen.Pick(r, []string{"e", "E", "e-", "e+"}), r.Intn(40))
		}
		return strconv.Quote(gen.Pick(r, []string{"", "-", "+"}) + s)
	case 5: // an instant
		t := time.Unix(r.Int63n(250000000000)-60000000000, 0).UTC()
		if gen.Chance(r, 15) { // around the borders of years and of what is special
			t = time.Date(gen.Pick(r, []int{1, 2, 1000, 1583, 1899, 1900, 1970, 1970, 1980, 2000, 2038, 2100, 9999}), gen.Pick(r, []time.Month{1, 1, 2, 3, 12}), 1, 0, 0, r.Intn(3), 0, time.UTC)
		}
		if gen.Chance(r, 40) {
			t = t.In(time.FixedZone("", (r.Intn(28*4)-14*4)*900))
		}
		if gen.Chance(r, 40) {
			t = t.Add(time.Duration(r.Intn(1e9)))
		}
		return strconv.Quote(t.Format(time.RFC3339Nano))
	case 6: // almost an instant
		b := []byte(time.Unix(r.Int63n(4000000000), 0).UTC().Format(time.RFC3339))
		b[r.Intn(len(b))] = gen.Pick(r, []byte("0123456789-:TZ. "))
		return strconv.Quote(string(b))
	case 7:
		return strconv.FormatInt(r.Int63n(300000000000)-70000000000, 10)
	}
	return string(gen.Quote(gen.StringVal(r)))
}

// expectation of one value in a field.
type expectation struct {
	absent bool   // no value
	any    bool   // not decided
	kind   string // bool, num, text, time
	b      bool
	num    *big.Rat // exact value
	f      float64  // or the nearest double of it
	text   string
	t      time.Time
}

func ratOf(s string) *big.Rat {
	x, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}
	return x
}

// decimal tells whether s is a decimal number in text.
func decimal(s string) (ok, integer bool) {
	t := strings.TrimLeft(s, "+-")
	if len(s)-len(t) > 1 {
		return false, false
	}
	integer = t != ""
	digits, dot, exp := 0, false, false
	for i := 0; i < len(t); i++ {
		switch c := t[i]; {
		case c >= '0' && c <= '9':
			digits++
		case c == '.' && !dot && !exp:
			dot, integer = true, false
		case (c == 'e' || c == 'E') && !exp && digits > 0:
			exp, integer = true, false
			if i+1 < len(t) && (t[i+1] == '+' || t[i+1] == '-') {
				i++
			}
			if i+1 >= len(t) {
				return false, false
			}
		default:
			return false, false
		}
	}
	return digits > 0, integer && digits > 0
}

// expect says what a JSON value becomes in a field of the type, from the rules as documented.
func expect(typ string, tok interface{}) expectation {
	for {
		a, ok := tok.([]interface{})
		if !ok {
			break
		}
		if len(a) == 0 {
			return expectation{absent: true}
		}
		tok = a[0]
	}
	none := expectation{absent: true}
	switch v := tok.(type) {
	case nil, map[string]interface{}:
		return none
	case bool:
		switch typ {
		case "boolean":
			return expectation{kind: "bool", b: v}
		case "number", "integer":
			if v {
				return expectation{kind: "num", num: big.NewRat(1, 1)}
			}
			return expectation{kind: "num", num: new(big.Rat)}
		case "string":
			return expectation{kind: "text", text: map[bool]string{true: "true", false: "false"}[v]}
		}
		return none
	case json.Number:
		f, err := strconv.ParseFloat(string(v), 64)
		if err != nil {
			return expectation{any: true}
		}
		switch typ {
		case "boolean":
			return expectation{kind: "bool", b: f > 0}
		case "number", "integer":
			return expectation{kind: "num", f: f}
		case "string":
			return expectation{kind: "plain", f: f}
		}
		whole := math.Trunc(f)
		if whole < -62167219200 || whole > 253402300799 {
			return expectation{absent: true} // no year of four digits
		}
		t := time.Unix(0, 0).UTC()
		// counted in days so that no conversion of the code under test is repeated
		days := math.Floor(whole / 86400)
		return expectation{kind: "time", t: t.AddDate(0, 0, int(days)).Add(time.Duration(whole-days*86400) * time.Second)}
	case string:
		switch typ {
		case "boolean":
			switch v {
			case "", "0", "f", "F", "false", "FALSE", "False":
				return expectation{kind: "bool"}
			case "1", "t", "T", "true", "TRUE", "True":
				return expectation{kind: "bool", b: true}
			}
			return none
		case "number", "integer":
			ok, integer := decimal(v)
			if !ok {
				if strings.ContainsAny(v, "xXpP_") && strings.ContainsAny(v, "0123456789") {
					return expectation{any: true} // Go's own notations: hexadecimal floats and digits grouped by underscores
				}
				return none
			}
			if integer {
				x := ratOf(strings.TrimPrefix(v, "+"))
				if x.Num().IsInt64() {
					return expectation{kind: "num", num: x}
				}
			}
			f, err := strconv.ParseFloat(v, 64)
			if err != nil {
				return none // beyond the doubles
			}
			return expectation{kind: "num", f: f}
		case "string":
			return expectation{kind: "text", text: v}
		}
		t, ok := rfc3339(v)
		if !ok || t.Equal(time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)) {
			return none
		}
		return expectation{kind: "time", t: t}
	}
	return expectation{any: true}
}

// rfc3339 reads a timestamp by hand.
func rfc3339(s string) (time.Time, bool) {
	num := func(a, b int) (int, bool) {
		n := 0
		for i := a; i < b; i++ {
			if i >= len(s) || s[i] < '0' || s[i] > '9' {
				return 0, false
			}
			n = n*10 + int(s[i]-'0')
		}
		return n, true
	}
	if len(s) < 20 || s[4] != '-' || s[7] != '-' || s[10] != 'T' || s[13] != ':' || s[16] != ':' {
		return time.Time{}, false
	}
	var f [6]int
	for i, p := range [][2]int{{0, 4}, {5, 7}, {8, 10}, {11, 13}, {14, 16}, {17, 19}} {
		var ok bool
		if f[i], ok = num(p[0], p[1]); !ok {
			return time.Time{}, false
		}
	}
	leap := f[0]%4 == 0 && (f[0]%100 != 0 || f[0]%400 == 0)
	month := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if f[1] < 1 || f[1] > 12 || f[2] < 1 || f[3] > 23 || f[4] > 59 || f[5] > 59 {
		return time.Time{}, false
	}
	last := month[f[1]-1]
	if leap && f[1] == 2 {
		last++
	}
	if f[2] > last {
		return time.Time{}, false
	}
	rest := s[19:]
	nanos := 0
	if rest[0] == '.' {
		n := 1
		for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
			n++
		}
		if n == 1 {
			return time.Time{}, false
		}
		digits := (rest[1:n] + "000000000")[:9]
		nanos, _ = strconv.Atoi(digits)
		rest = rest[n:]
	}
	offset := 0
	switch {
	case rest == "Z":
	case len(rest) == 6 && (rest[0] == '+' || rest[0] == '-') && rest[3] == ':':
		at := len(s) - 6
		hh, ok1 := num(at+1, at+3)
		mm, ok2 := num(at+4, at+6)
		if !ok1 || !ok2 || hh > 23 || mm > 59 {
			return time.Time{}, false
		}
		offset = hh*3600 + mm*60
		if rest[0] == '-' {
			offset = -offset
		}
	default:
		return time.Time{}, false
	}
	return time.Date(f[0], time.Month(f[1]), f[2], f[3], f[4], f[5], nanos, time.UTC).Add(-time.Duration(offset) * time.Second), true
}

// agrees tells if the output value is as expected.
func (e expectation) agrees(v interface{}, there bool) bool {
	if e.any {
		return true
	}
	if e.absent || !there {
		return e.absent == !there
	}
	switch e.kind {
	case "bool":
		b, ok := v.(bool)
		return ok && b == e.b
	case "num":
		n, ok := v.(json.Number)
		if !ok {
			return false
		}
		if e.num != nil {
			x := ratOf(string(n))
			return x != nil && x.Cmp(e.num) == 0
		}
		f, err := strconv.ParseFloat(string(n), 64)
		return err == nil && f == e.f
	case "text":
		s, ok := v.(string)
		return ok && s == e.text
	case "plain":
		s, ok := v.(string)
		if !ok || strings.ContainsAny(s, "eE+ ") || (len(s) > 1 && strings.HasPrefix(s, "0") && !strings.HasPrefix(s, "0.")) || strings.HasSuffix(s, ".") || (strings.Contains(s, ".") && strings.HasSuffix(s, "0")) {
			return false
		}
		f, err := strconv.ParseFloat(s, 64)
		return err == nil && f == e.f
	case "time":
		s, ok := v.(string)
		if !ok {
			return false
		}
		t, ok := rfc3339(s)
		return ok && t.Equal(e.t)
	}
	return false
}

func init() {
	src := func(name string) *gen.Transform {
		return &gen.Transform{From: []gen.Instr{{Path: &gen.Path{Segs: []gen.Seg{{Kind: gen.Field, Name: name}}}, XPath: &gen.XPath{Expr: gen.XExpr{{Abs: true, Steps: []gen.XStep{{Axis: gen.XChild, Test: "r"}, {Axis: gen.XChild, Test: name}}}}}}}}
	}
	tr := func(t *gen.Transform) []gen.NamedTransform { return []gen.NamedTransform{{Ident: "it", T: t}} }
	register(&h.Check{
		ID:          "T09",
		Rule:        "every value of a table (all JSON kinds, number spellings, numeric and boolean texts, timestamps, nested arrays) and random values (any double, any 64 bit number in text, decimals, instants, near misses) against every scalar type in every placement (same place, nested, array item, transform, transform array item, XML text and attribute); a monitor written from the documented rules, with exact arithmetic, reads every output; non-trivial if a value is produced, distinct by type, placement and value",
		Assumptions: []string{"JSON numbers are doubles, numbers outside them are not decided", "hexadecimal floats and digits grouped by underscores in text are not decided", "a value which does not convert is left out when read from its own place; through a transform the raw JSON value is passed on and is not decided here"},
		Quick:       30000, Thorough: 1500000,
		Need: []string{"type_boolean", "type_number", "type_integer", "type_string", "type_date-time", "place_same", "place_transform", "place_item", "place_xml", "absent", "converted"},
		Setup: func(w *h.Worker) error {
			root := &gen.Node{Type: "object"}
			xroot := &gen.Node{Type: "object"}
			add := func(n *gen.Node, name string, f *gen.Node) { n.Props = append(n.Props, gen.Prop{Name: name, Node: f}) }
			deep := &gen.Node{Type: "object"}
			for _, t := range convTypes {
				add(root, "s-"+t, convNode(t))
				f := convNode(t)
				f.Tr = tr(src("src"))
				add(root, "t-"+t, f)
				add(root, "i-"+t, &gen.Node{Type: "array", Items: convNode(t)})
				add(root, "u-"+t, &gen.Node{Type: "array", Items: convNode(t), Tr: tr(src("list"))})
				add(deep, t, convNode(t))
				x := convNode(t)
				x.Tr = tr(src("src"))
				add(xroot, "x-"+t, x)
				y := convNode(t)
				y.Tr = tr(&gen.Transform{From: []gen.Instr{{XPath: &gen.XPath{Expr: gen.XExpr{{Abs: true, Steps: []gen.XStep{{Axis: gen.XChild, Test: "r"}, {Axis: gen.XAttr, Test: "a"}}}}}}}})
				add(xroot, "a-"+t, y)
				add(xroot, "l-"+t, &gen.Node{Type: "array", Items: convNode(t), Tr: tr(src("src"))})
			}
			add(root, "deep", deep)
			w.Data = []*gen.Node{root, xroot}
			return nil
		},
		Run: func(c *h.Case) {
			r := c.R
			roots := c.Data.([]*gen.Node)
			var text string
			if c.Idx < len(convValues) {
				text = convValues[c.Idx]
			} else {
				text = randomConvValue(r)
			}
			xml := c.Idx >= len(convValues) && gen.Chance(r, 30)
			if c.Idx < 2*len(convValues) && c.Idx >= len(convValues) {
				text, xml = convValues[c.Idx-len(convValues)], true
			}
			dec := json.NewDecoder(strings.NewReader(text))
			dec.UseNumber()
			var tok interface{}
			if err := dec.Decode(&tok); err != nil {
				c.Count("unreadable")
				return
			}
			if xml {
				s, ok := tok.(string)
				if !ok {
					if _, isNum := tok.(json.Number); !isNum {
						return
					}
					s = text
				}
				if strings.ContainsAny(s, "\x00\r") || strings.TrimSpace(s) != s {
					return // what no XML holds or XML readers change
				}
				runConvXML(c, roots[1], s)
				return
			}
			// the value at every place
			doc := map[string]json.RawMessage{"src": json.RawMessage(text), "list": json.RawMessage("[" + text + "," + text + ",true]")}
			deep := map[string]json.RawMessage{}
			for _, t := range convTypes {
				doc["s-"+t] = json.RawMessage(text)
				doc["i-"+t] = json.RawMessage("[true," + text + "]")
				deep[t] = json.RawMessage(text)
			}
			db, _ := json.Marshal(deep)
			doc["deep"] = db
			// keep the spelling of the numbers
			var raw bytes.Buffer
			raw.WriteByte('{')
			first := true
			for k, v := range doc {
				if !first {
					raw.WriteByte(',')
				}
				first = false
				raw.WriteString(strconv.Quote(k) + ":")
				raw.Write(v)
			}
			raw.WriteByte('}')
			tf := transformer(c, roots[0], "it", false)
			if tf == nil {
				return
			}
			undecidable := false
			for _, t := range convTypes {
				undecidable = undecidable || expect(t, tok).any
			}
			var out []byte
			var err error
			detail := func() interface{} {
				return map[string]interface{}{"value": text, "document": raw.String(), "output": string(out), "error": errText(err)}
			}
			if !c.Guard("transform", detail, func() { out, err = tf.TransformNoValidation(raw.Bytes()) }) {
				return
			}
			if err != nil {
				if !undecidable {
					c.Fail("the transform of convertible values fails", detail())
				}
				c.Count("undecided_error")
				return
			}
			got := decodeNumbers(out)
			if got == nil {
				c.Fail("output is no JSON", detail())
				return
			}
			for _, t := range convTypes {
				e := expect(t, tok)
				v, ok := got["s-"+t]
				judge(c, e, t, "same", text, v, ok, detail)
				dv, _ := got["deep"].(map[string]interface{})
				v, ok = dv[t]
				judge(c, e, t, "nested", text, v, ok, detail)
				if !e.absent {
					v, ok = got["t-"+t]
					judge(c, e, t, "transform", text, v, ok, detail)
				}
				// items: a first item true goes before the value, the value is left out if it does not convert
				judgeItems := func(name, place string, toks ...interface{}) {
					list, _ := got[name].([]interface{})
					var want []expectation
					for _, x := range toks {
						e := expect(t, x)
						if e.any {
							return
						}
						if !e.absent {
							want = append(want, e)
						}
					}
					ok := len(list) == len(want)
					for i := 0; ok && i < len(want); i++ {
						ok = want[i].agrees(list[i], true)
					}
					c.Count("place_" + place)
					c.Eval(len(want) > 0, t, place, text)
					if !ok {
						c.Fail(fmt.Sprintf("%s as an array item of type %s (%s) becomes %v", text, t, place, got[name]), detail())
					}
				}
				judgeItems("i-"+t, "item", true, tok)
				judgeItems("u-"+t, "transform_item", tok, tok, true)
			}
			if c.WantSample() {
				c.Sample(map[string]interface{}{"value": text, "output": string(out)})
			}
		},
	})
}

// judge compares one output value with what is expected.
func judge(c *h.Case, e expectation, typ, place, text string, v interface{}, there bool, detail func() interface{}) {
	if e.any {
		c.Count("undecided")
		return
	}
	c.Count("type_" + typ)
	c.Count("place_" + place)
	if e.absent {
		c.Count("absent")
	} else {
		c.Count("converted")
	}
	c.Eval(!e.absent, typ, place, text)
	if !e.agrees(v, there) {
		c.Fail(fmt.Sprintf("%s in a field of type %s (%s) becomes %v (there: %v)", text, typ, place, v, there), detail())
	}
}

func decodeNumbers(out []byte) map[string]interface{} {
	dec := json.NewDecoder(bytes.NewReader(out))
	dec.UseNumber()
	var got interface{}
	if err := dec.Decode(&got); err != nil {
		return nil
	}
	if got == nil {
		return map[string]interface{}{}
	}
	m, _ := got.(map[string]interface{})
	return m
}

func runConvXML(c *h.Case, root *gen.Node, s string) {
	doc := &gen.El{Kind: gen.Document}
	el := doc.Add(&gen.El{Kind: gen.Element, Name: "r"})
	el.Attrs = append(el.Attrs, &gen.El{Kind: gen.Attribute, Name: "a", Text: s, Parent: el})
	x := el.Add(&gen.El{Kind: gen.Element, Name: "src"})
	if s != "" {
		x.Add(&gen.El{Kind: gen.TextRun, Text: s})
	}
	raw := gen.RenderXML(doc, c.R)
	tf := transformer(c, root, "it", true)
	if tf == nil {
		return
	}
	var out []byte
	var err error
	detail := func() interface{} {
		return map[string]interface{}{"text": s, "document": string(raw), "output": string(out), "error": errText(err)}
	}
	if !c.Guard("transform", detail, func() { out, err = tf.TransformNoValidation(raw) }) {
		return
	}
	if err != nil {
		c.Fail("the transform of texts fails", detail())
		return
	}
	got := decodeNumbers(out)
	if got == nil {
		c.Fail("output is no JSON", detail())
		return
	}
	for _, t := range convTypes {
		e := expect(t, s)
		for _, p := range []string{"x-", "a-"} {
			v, ok := got[p+t]
			judge(c, e, t, "xml", s, v, ok, detail)
		}
		list, _ := got["l-"+t].([]interface{})
		var v interface{}
		if len(list) == 1 {
			v = list[0]
		}
		judge(c, e, t, "xml_item", s, v, len(list) == 1, detail)
	}
}

package checks

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/gen"
	"verif/harness/h"
)

// hostile draws a schema of any shape, for loading only what the loader accepts.
type hostile struct {
	r     *rand.Rand
	names []string
}

var oddNames = []string{"a", "b", "c", "id", "$", "@", "*", "a.b", ".", "a[0]", "[*]", "[0]", "", " ", "a b", "é", "a-b", "0", "1a", "a'b", "a\"b", "..", "$.a", "transform", "type", "properties", "items", "default", "a/b", "a~b", "\u2028", "length", "null", "true", "(", ")", "[", "]", "a]", "x\ny", "\\", "`", "%s", "@.a"}

func (g *hostile) name() string {
	if gen.Chance(g.r, 55) {
		return gen.Pick(g.r, []string{"a", "b", "c", "id", "x", "y"})
	}
	return gen.Pick(g.r, oddNames)
}

func (g *hostile) jsonPath() string {
	r := g.r
	var b strings.Builder
	b.WriteString(gen.Pick(r, []string{"$", "$", "$", "@", "@", "", "x", "$$", "@.@", "$.$"}))
	descents := 0
	for n := r.Intn(5); n > 0; n-- {
		x := r.Intn(16)
		if x == 9 || x == 4 {
			if descents++; descents > 2 {
				x = 0
			}
		}
		switch x {
		case 0, 1, 2, 3:
			b.WriteString("." + g.name())
		case 4:
			b.WriteString(".." + g.name())
		case 5:
			b.WriteString("[*]")
		case 6:
			b.WriteString(fmt.Sprintf("[%d]", r.Intn(7)-3))
		case 7:
			b.WriteString("[?(@." + g.name() + gen.Pick(r, []string{"", "==1", "=='x'", "==\"a\"", ">0", "<", "=~", "==@.b", "==true", "!=1", " in [1]"}) + ")]")
		case 8:
			b.WriteString(gen.Pick(r, []string{"[0:2]", "[-1:]", "[::-1]", "[0:9:0]", "[1,2]", "['a','b']", "[(@.length-1)]", "[\"a\"]", "[", "]", "[]", "[?]", "[?()]", "['", "[0", "[99999999999999999999]", "[-9223372036854775808:]"}))
		case 9:
			b.WriteString(gen.Pick(r, []string{"..*", "..[0]", "..['a']", ".", "..", "..["}))
		case 10:
			b.WriteString(".*")
		case 11:
			b.WriteString("[" + string(gen.Quote(g.name())) + "]")
		case 12:
			b.WriteString(gen.Pick(r, []string{" ", "()", "(1)", "+1", "{}", "{\"a\":@.b}", "/", "?", "'", "\"", "\x00", "😀", "&&true"}))
		default:
			b.WriteString("." + gen.Pick(r, []string{"a", "b", "c", "id"}))
		}
	}
	return b.String()
}

func (g *hostile) xPath() string {
	r := g.r
	return gen.Pick(r, []string{"", "/r", "/r/a", "//a", "//b", "a", "b", "@id", "/r/@id", "//@*", "//*", "*", ".", "..", "/", "//text()", "text()", "//a[1]", "//a[@id]", "//a[@id='1']", "//a[last()]", "//a | //b", "count(//a)", "string(//a)",
		"//a[", "//a]", "///", "[1]", "//a[b]", "//a[position()<3]", "ancestor::*", "following-sibling::a", "preceding::b", "//comment()", "//node()", "self::node()", "a/b/c", "concat('a','b')", "1", "'x'", "true()", "//a[1=1]", "//a[contains(.,'x')]",
		"not(//a)", "sum(//a)", "//a/../b", "@", "//", "//ns:a", "-1", "//a[text()='x']", "name()", "id('a')", "//a[0]", "//a[-1]", "//a[99999999999]", "//processing-instruction()", "(//a)[1]", "(//a|//b)[last()]", "//a[not(@id)]", "//b[../a]", "/r//a//b", "child::a", "descendant::a", "//a[substring(.,2)]", "//a[string-length()>1]", "/r/a[1]/@id", "@id/..", "//@id/a", "//a[@id=//b/@id]", "normalize-space(//a)", "number(//a)", "boolean(//a)"})
}

func (g *hostile) op() gen.Obj {
	r := g.r
	op := anyOp(r)
	if gen.Chance(r, 20) {
		op = gen.Op{Type: gen.Pick(r, []string{"removeHTML", "currentTime", "convertToBool", "convertToInt64", "nonsense", "", "max", "split", "replace"})}
		switch op.Type {
		case "currentTime":
			op.Args = [][2]string{{"format", gen.Pick(r, []string{"RFC3339", "2006", "", "x"})}}
		case "max":
			op.Args = [][2]string{{"by", g.jsonPath()}, {"return", g.jsonPath()}}
		case "split":
			op.Args = [][2]string{{"on", gen.Pick(r, []string{"", "a", "\x00"})}}
		case "replace":
			op.Args = [][2]string{{"regex", gen.Pick(r, []string{"(", "a", "", "$", "(?i)A", "\\", "[", "a{1000}"})}, {"new", "$9$x${1"}}
		}
	}
	o := gen.Obj{{Key: "type", Val: op.Type}}
	args := gen.Obj{}
	for _, a := range op.Args {
		args = append(args, gen.Member{Key: a[0], Val: a[1]})
	}
	if len(args) > 0 || gen.Chance(r, 30) {
		o = append(o, gen.Member{Key: "args", Val: args})
	}
	if gen.Chance(r, 3) {
		o = append(o, gen.Member{Key: "args", Val: g.junk(1)})
	}
	return o
}

// junk is any JSON value.
func (g *hostile) junk(depth int) interface{} {
	return gen.Value(g.r, depth, append([]string{"a", "b", "id"}, oddNames...))
}

func (g *hostile) transform() interface{} {
	r := g.r
	if gen.Chance(r, 3) {
		return g.junk(2)
	}
	t := gen.Obj{}
	var from []interface{}
	for n := 1 + r.Intn(3); n > 0; n-- {
		in := gen.Obj{}
		if !gen.Chance(r, 8) {
			in = append(in, gen.Member{Key: "jsonPath", Val: g.jsonPath()})
		}
		if !gen.Chance(r, 8) {
			in = append(in, gen.Member{Key: "xmlPath", Val: g.xPath()})
		}
		if gen.Chance(r, 40) {
			var ops []interface{}
			for k := 1 + r.Intn(3); k > 0; k-- {
				ops = append(ops, g.op())
			}
			in = append(in, gen.Member{Key: "operations", Val: ops})
		}
		if gen.Chance(r, 2) {
			from = append(from, g.junk(1))
		} else {
			from = append(from, in)
		}
	}
	if !gen.Chance(r, 4) {
		t = append(t, gen.Member{Key: "from", Val: from})
	}
	if gen.Chance(r, 40) {
		t = append(t, gen.Member{Key: "method", Val: gen.Pick(r, []string{"first", "last", "concatenate", "concatenate", "last", ""})})
	}
	if gen.Chance(r, 20) {
		t = append(t, gen.Member{Key: "methodOptions", Val: gen.Obj{{Key: "concatenateDelimiter", Val: gen.Pick(r, []string{"", ",", "\x00"})}}})
	}
	return t
}

func (g *hostile) node(depth int) interface{} {
	r := g.r
	if gen.Chance(r, 2) {
		return g.junk(2)
	}
	n := gen.Obj{}
	put := func(k string, v interface{}) { n = append(n, gen.Member{Key: k, Val: v}) }
	var typ string
	switch x := r.Intn(12); {
	case depth > 0 && x < 4:
		typ = "object"
		props := gen.Obj{}
		seen := map[string]bool{}
		for k := r.Intn(4); k > 0; k-- {
			name := g.name()
			if !seen[name] {
				seen[name] = true
				props = append(props, gen.Member{Key: name, Val: g.node(depth - 1)})
			}
		}
		if !gen.Chance(r, 6) {
			put("properties", props)
		}
	case depth > 0 && x < 7:
		typ = "array"
		if !gen.Chance(r, 10) {
			put("items", g.node(depth-1))
		}
	default:
		typ = gen.Pick(r, []string{"string", "number", "integer", "boolean", "string"})
		if typ == "string" && gen.Chance(r, 40) {
			put("format", gen.Pick(r, []string{"date-time", "date-time", "email", "uri"}))
		}
	}
	switch r.Intn(12) {
	case 0:
		put("type", []interface{}{typ, "null"})
	case 1:
		put("type", []interface{}{"null", typ})
	case 2:
		put("type", gen.Pick(r, []interface{}{typ, []interface{}{typ}, "null", []interface{}{}, []interface{}{"null"}, []interface{}{"string", "number"}, nil, 1.0, "nonsense", []interface{}{"object", "array"}}))
	default:
		put("type", typ)
	}
	if gen.Chance(r, 20) {
		switch {
		case gen.Chance(r, 40):
			put("default", g.junk(2))
		case typ == "object":
			put("default", map[string]interface{}{g.name(): g.junk(1), g.name(): nil})
		case typ == "array":
			put("default", []interface{}{g.junk(1), nil})
		default:
			put("default", gen.Scalar(r))
		}
	}
	if gen.Chance(r, 40) {
		put("transform", gen.Obj{{Key: "it", Val: g.transform()}})
	} else if gen.Chance(r, 3) {
		put("transform", g.junk(2))
	}
	if gen.Chance(r, 5) {
		var list []interface{}
		for k := 1 + r.Intn(2); k > 0; k-- {
			list = append(list, g.node(depth-1))
		}
		put(gen.Pick(r, []string{"allOf", "oneOf", "anyOf"}), list)
	}
	if gen.Chance(r, 4) {
		put(gen.Pick(r, []string{"required", "enum", "additionalProperties", "description", "minLength", "pattern"}), g.junk(1))
	}
	r.Shuffle(len(n), func(i, j int) { n[i], n[j] = n[j], n[i] })
	return n
}

// nastyTexts are texts on which operations and conversions may stumble.
var nastyTexts = []string{"", " ", "-", "--", "a--b", "a-", "-a", ",,", "a,,b", "::", ":", "1:", ":1", "1:2:3:4", "00:00", "0", "-0", "+", ".", "e", "1e", "0x", "1e999", "-1e999",
	"99999999999999999999", "-9223372036854775809", "NaN", "Infinity", "-Inf", "null", "true", "tRuE", "0001-01-01T00:00:00Z", "9999-12-31T23:59:60Z", "2020-01-02T03:04:05+99:99",
	"2020-02-30", "<", "<b", "<!--", "<![CDATA[", "&#0;", "&#xD800;", "&", "<script>", "</", "\x00", "\ufeff", "\u2028", "\ufffd", "$1", "${", "\\", "((", "[", "\U0010ffff", "e\u0301", "  ", "a  b", "__", "a__b"}

// awkward draws a text from pieces on which operations may stumble.
func awkward(r *rand.Rand) string {
	var b strings.Builder
	for n := gen.Pick(r, []int{0, 1, 1, 1, 2, 3, 4, 6}); n > 0; n-- {
		if gen.Chance(r, 60) {
			b.WriteString(gen.Pick(r, []string{"-", "_", " ", ",", ":", ".", "a", "b", "A", "1", "0", "<", ">", "&", "é", "ß", "ﬁ", "日", "\n", "\t", "\""}))
		} else {
			b.WriteString(gen.Pick(r, nastyTexts))
		}
	}
	return b.String()
}

// battery draws a well-formed schema of which each property applies operations to
// its own node, and documents which hold awkward texts and other types there.
func battery(r *rand.Rand) ([]byte, [2][][]byte) {
	piece := func() string {
		return gen.Pick(r, []string{"-", "_", " ", ",", ":", ".", "a", "", "--", "é", "<", "1"})
	}
	props := gen.Obj{}
	n := 4 + r.Intn(12)
	for i := 0; i < n; i++ {
		var ops []interface{}
		for k := gen.Pick(r, []int{1, 1, 1, 2, 3}); k > 0; k-- {
			op := anyOp(r)
			switch r.Intn(12) {
			case 0:
				op = gen.Op{Type: "removeHTML"}
			case 1:
				op = gen.Op{Type: "currentTime", Args: [][2]string{{"format", gen.Pick(r, []string{"RFC3339", "2006", "15:04"})}}}
			}
			if gen.Chance(r, 50) {
				for j, a := range op.Args {
					switch a[0] {
					case "delimiter", "on", "new", "to", "delimeter":
						op.Args[j][1] = piece()
					}
				}
			}
			o := gen.Obj{{Key: "type", Val: op.Type}}
			args := gen.Obj{}
			for _, a := range op.Args {
				args = append(args, gen.Member{Key: a[0], Val: a[1]})
			}
			if len(args) > 0 {
				o = append(o, gen.Member{Key: "args", Val: args})
			}
			ops = append(ops, o)
		}
		t := gen.Obj{{Key: "from", Val: []interface{}{gen.Obj{
			{Key: "jsonPath", Val: fmt.Sprintf("$.s%d", i)}, {Key: "xmlPath", Val: fmt.Sprintf("/r/s%d", i)}, {Key: "operations", Val: ops}}}}}
		if gen.Chance(r, 30) {
			t = append(t, gen.Member{Key: "method", Val: gen.Pick(r, []string{"first", "last", "concatenate"})})
		}
		leaf := gen.Obj{{Key: "type", Val: gen.Pick(r, []string{"string", "string", "string", "number", "integer", "boolean", "array"})}}
		switch leaf[0].Val {
		case "array":
			leaf = append(leaf, gen.Member{Key: "items", Val: gen.Obj{{Key: "type", Val: "string"}}})
		case "string":
			if gen.Chance(r, 20) {
				leaf = append(leaf, gen.Member{Key: "format", Val: "date-time"})
			}
		}
		leaf = append(leaf, gen.Member{Key: "transform", Val: gen.Obj{{Key: "it", Val: t}}})
		props = append(props, gen.Member{Key: fmt.Sprintf("p%d", i), Val: leaf})
	}
	text := gen.RenderCompact(gen.Obj{{Key: "type", Val: "object"}, {Key: "properties", Val: props}})
	var docs [2][][]byte
	for k := 0; k < 4; k++ {
		doc := map[string]interface{}{}
		var x bytes.Buffer
		x.WriteString("<r>")
		for i := 0; i < n; i++ {
			name, v := fmt.Sprintf("s%d", i), awkward(r)
			if gen.Chance(r, 10) {
				doc[name] = gen.Value(r, 2, []string{"a", "id"})
			} else {
				doc[name] = v
			}
			x.WriteString("<" + name + ">")
			xml.EscapeText(&x, []byte(v))
			x.WriteString("</" + name + ">")
		}
		x.WriteString("</r>")
		docs[0] = append(docs[0], gen.RenderCompact(doc))
		docs[1] = append(docs[1], x.Bytes())
	}
	return text, docs
}

// contrary draws a document which uses the names of a schema with any types.
func (g *hostile) document(depth int) interface{} {
	r := g.r
	if depth <= 0 || gen.Chance(r, 25) {
		if gen.Chance(r, 30) {
			return gen.Pick(r, nastyTexts)
		}
		return gen.Scalar(r)
	}
	if gen.Chance(r, 40) {
		list := []interface{}{}
		for k := r.Intn(4); k > 0; k-- {
			list = append(list, g.document(depth-1))
		}
		return list
	}
	m := map[string]interface{}{}
	for k := r.Intn(5); k > 0; k-- {
		m[g.name()] = g.document(depth - 1)
	}
	return m
}

// corrupt spoils bytes.
func corrupt(r *rand.Rand, raw []byte) []byte {
	b := append([]byte{}, raw...)
	for n := 1 + r.Intn(3); n > 0; n-- {
		if len(b) == 0 {
			return []byte{byte(r.Intn(256))}
		}
		i := r.Intn(len(b))
		switch r.Intn(7) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = append(b[:i:i], b[min(len(b), i+1+r.Intn(4)):]...)
		case 3:
			b = append(b[:i:i], append([]byte(gen.Pick(r, []string{"[", "]", "{", "}", "\"", ",", ":", "null", "1e999", "\\u12", "\xff", "<", ">", "&", "]]>", "<a>", "</a>", "-", "\x00", "<!--", "<![CDATA["})), b[i:]...)...)
		case 4:
			j := r.Intn(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(b[:j:j], b[i:]...)
		case 5:
			b[i] ^= 1 << uint(r.Intn(8))
		case 6:
			b = append(b, gen.Pick(r, []string{"}", "]", " x", "<a/>", "\n", "0"})...)
		}
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
	}
	return b
}

// malformedXML tells that the bytes are no XML document by the Go XML reader.
func malformedXML(raw []byte) bool {
	dec := xml.NewDecoder(bytes.NewReader(raw))
	foreign := false
	dec.CharsetReader = func(_ string, in io.Reader) (io.Reader, error) {
		foreign = true
		return in, nil
	}
	element := false
	for {
		t, err := dec.Token()
		if foreign {
			return false // another encoding, not decided
		}
		if err == io.EOF {
			return !element
		}
		if err != nil {
			return true
		}
		if _, ok := t.(xml.StartElement); ok {
			element = true
		}
	}
}

const callLimit = 30 * time.Second

func init() {
	extremes := func(r *rand.Rand, text []byte, xml bool) []byte {
		n := 1 + r.Intn(3000)
		if bytes.Contains(text, []byte("..")) || bytes.Contains(text, []byte("//")) {
			n = 1 + n/40 // each descent multiplies the work with the depth
		}
		if xml {
			switch r.Intn(4) {
			case 0:
				return []byte(strings.Repeat("<a>", n) + strings.Repeat("</a>", n))
			case 1:
				return []byte("<r>" + strings.Repeat("<a id='1'>x</a>", n) + "</r>")
			case 2:
				return []byte("<r><a>" + strings.Repeat("9", n) + "</a></r>")
			}
			return []byte("<r " + fmt.Sprintf("a%d='1' ", n) + "><!-- c --><?pi x?><![CDATA[" + strings.Repeat("<", n) + "]]></r>")
		}
		switch r.Intn(7) {
		case 0:
			return []byte(strings.Repeat("[", n) + strings.Repeat("]", n))
		case 1:
			return []byte(strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n))
		case 2:
			return []byte(`{"a":` + strings.Repeat("9", n) + `}`)
		case 3:
			return []byte(`{"a":1e` + strings.Repeat("9", 1+n%5) + `,"b":-1e308}`)
		case 4:
			return []byte(`[` + strings.Repeat("1,", n) + `1]`)
		case 5:
			return []byte("\"" + strings.Repeat("\\ud800\xff", n%50) + "\"")
		}
		if n < 100 {
			n = 100
		}
		return []byte(`{"a":` + strings.Repeat("[", 4*n) + strings.Repeat("]", 4*n) + "}")
	}
	register(&h.Check{
		ID:          "T11",
		Rule:        "hostile schemas (names which look like paths, defaults and keywords of wrong types, random JSONPath and XPath texts, operations in any order) and ordinary ones, each built for JSON and XML and fed documents which contradict the schema, extreme documents, and documents with corrupted bytes; monitors watch every call for crashes, for its duration, for output which is JSON, and that what the standard readers find malformed gives an error; non-trivial if a transformer was built, distinct by schema and document",
		Assumptions: []string{"malformed is what encoding/json and encoding/xml refuse, and XML without any element", "at most two descents (..) per JSONPath, and documents at most 400 levels deep for paths with descents, since the work of each descent multiplies with the depth of the document", fmt.Sprintf("bounded time is %s per call of at most a megabyte", callLimit)},
		Quick:       24000, Thorough: 500000,
		Need: []string{"built_json", "built_xml", "not_built", "not_loaded", "outputs", "errors", "malformed", "corrupted", "extreme", "validated", "operations on awkward texts"},
		Run: func(c *h.Case) {
			r := c.R
			g := &hostile{r: r}
			var text []byte
			var raws [2][][]byte
			switch {
			case gen.Chance(r, 20):
				var docs [2][][]byte
				text, docs = battery(r)
				raws[0] = append(raws[0], docs[0]...)
				raws[1] = append(raws[1], docs[1]...)
				c.Count("operations on awkward texts")
			case gen.Chance(r, 40):
				w := newWorkload(r, 4)
				text = gen.RenderCompact(w.root.JSON())
				for _, raw := range w.raws {
					k := 0
					if w.xml {
						k = 1
					}
					raws[k] = append(raws[k], raw, corrupt(r, raw))
					c.Count("corrupted")
				}
			default:
				root := gen.Obj{{Key: "type", Val: "object"}}
				if gen.Chance(r, 12) {
					root = gen.Obj{{Key: "type", Val: "array"}, {Key: "items", Val: g.node(3)}}
				} else {
					props := gen.Obj{}
					seen := map[string]bool{}
					for k := 1 + r.Intn(5); k > 0; k-- {
						name := g.name()
						if !seen[name] {
							seen[name] = true
							props = append(props, gen.Member{Key: name, Val: g.node(3)})
						}
					}
					root = append(root, gen.Member{Key: "properties", Val: props})
				}
				if gen.Chance(r, 3) {
					root = append(root, gen.Member{Key: gen.Pick(r, []string{"items", "required", "default", "transform", "allOf"}), Val: g.junk(2)})
				}
				text = gen.RenderCompact(root)
				if gen.Chance(r, 4) {
					text = corrupt(r, text)
				}
			}
			for k := 0; k < 3; k++ {
				raw := gen.RenderCompact(g.document(4))
				raws[0] = append(raws[0], raw)
				if gen.Chance(r, 60) {
					raws[0] = append(raws[0], corrupt(r, raw))
					c.Count("corrupted")
				}
			}
			x := gen.RenderXML(gen.XMLSource(r), r)
			raws[1] = append(raws[1], x, corrupt(r, x), []byte("<r id='7'><a id='1'>x</a><a>2</a><b>true<c/></b><!--c--></r>"))
			if gen.Chance(r, 25) {
				raws[0] = append(raws[0], extremes(r, text, false))
				raws[1] = append(raws[1], extremes(r, text, true))
				c.Count("extreme")
			}
			detail := func(extra map[string]interface{}) map[string]interface{} {
				m := map[string]interface{}{"schema": string(text)}
				for k, v := range extra {
					m[k] = v
				}
				return m
			}
			p := writeFile(c.Dir, "schema.json", text)
			defer os.RemoveAll(filepath.Dir(p))
			for k := range raws {
				xml := k == 1
				s, _, err := loadSchema(c, text)
				if err != nil || s == nil {
					c.Count("not_loaded")
					c.Eval(false)
					return
				}
				var tr *transform.Transformer
				if !c.Guard("building a transformer", func() interface{} { return detail(map[string]interface{}{"xml": xml}) }, func() {
					if xml {
						tr, err = transform.NewXMLTransformer(s, "it")
					} else {
						tr, err = transform.NewTransformer(s, "it")
					}
				}) {
					return
				}
				if (err == nil) != (tr != nil) {
					c.Fail("building gives neither or both of a transformer and an error", detail(nil))
				}
				if err != nil {
					c.Count("not_built")
					c.Eval(false)
					continue
				}
				if xml {
					c.Count("built_xml")
				} else {
					c.Count("built_json")
				}
				for _, raw := range raws[k] {
					c.Eval(true, text, raw, xml)
					malformed := false
					if xml {
						malformed = malformedXML(raw)
					} else {
						malformed = !json.Valid(raw)
					}
					if malformed {
						c.Count("malformed")
					}
					for _, validate := range []bool{false, true} {
						var out []byte
						var err error
						d := func() interface{} {
							return detail(map[string]interface{}{"xml": xml, "document": string(raw), "document_hex": fmt.Sprintf("%.2000x", raw), "validate": validate, "output": string(out), "error": errText(err)})
						}
						start := time.Now()
						if !c.Guard("transform", d, func() {
							if validate {
								out, err = tr.Transform(raw)
							} else {
								out, err = tr.TransformNoValidation(raw)
							}
						}) {
							return
						}
						if took := time.Since(start); took > time.Second {
							c.Count("calls_over_a_second")
							if os.Getenv("VH_SLOW") != "" {
								fmt.Fprintf(os.Stderr, "SLOW %v %s %.300s\n", took, text, raw)
							}
						}
						if took := time.Since(start); took > callLimit {
							c.Fail("a call takes "+took.String(), d())
							return
						}
						if err != nil {
							c.Count("errors")
							if len(out) > 0 {
								c.Fail("a call gives both output and an error", d())
								return
							}
							continue
						}
						if validate {
							c.Count("validated")
						}
						c.Count("outputs")
						if !json.Valid(out) {
							c.Fail("output is no JSON", d())
							return
						}
						if malformed {
							c.Fail("a malformed document gives no error", d())
							return
						}
						if c.WantSample() && len(raw) < 2000 {
							c.Sample(detail(map[string]interface{}{"document": string(raw), "output": string(out)}))
						}
					}
				}
			}
		},
	})
}

// Package gproj makes schema projects for the code generator, generates code for them under several option sets,
// compiles everything into one driver program and talks to it.
package gproj

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/harness/gen"
)

// N is a node of a project's schema.
type N struct {
	K     string // boolean, number, integer, string, date-time, object, array, graphql-hydration
	Null  bool
	Desc  string
	Props []P
	Items *N
	Extra gen.Obj // keywords which do not matter to the generated structs, or matter only to GraphQL
	Place string  // where the node is written: "" inline, "def" in the definitions, otherwise a file
}

// P is a property of an object node.
type P struct {
	Name string
	N    *N
	Req  bool
}

// Prop finds a property.
func (n *N) Prop(name string) *P {
	for i := range n.Props {
		if n.Props[i].Name == name {
			return &n.Props[i]
		}
	}
	return nil
}

// Part is one schema file which becomes a struct.
type Part struct {
	Base  string // file name without the extension
	File  string // file name relative to the project directory
	N     *N     // object node with its own properties
	AllOf []*Part
	OneOf []*Part
	Desc  string
	Ext   string // extension of the schema file
}

// All gives the properties of the part together with those of its allOf parts, of which the part's own come first.
func (p *Part) All() []P {
	out := append([]P(nil), p.N.Props...)
	for _, a := range p.AllOf {
		out = join(out, a.All())
	}
	return out
}

// join adds the properties which are not there yet.
func join(out, more []P) []P {
	names := map[string]bool{}
	for _, p := range out {
		names[p.Name] = true
	}
	for _, p := range more {
		if !names[p.Name] {
			names[p.Name] = true
			out = append(out, p)
		}
	}
	return out
}

// Proj is one project: a set of schema files and the ones which are generated.
type Proj struct {
	ID    int
	Parts []*Part // every part which becomes a struct, in the order in which they are generated
	Root  *Part
	Runs  []*Part // the schemas on which generation is run, in order
	Files []File
	// FieldNames are renames of fields which are necessary or wanted, Structs those of structs.
	FieldNames map[string]string
	Structs    map[string]string
	// GraphQL are renames of GraphQL types.
	GraphQL map[string]string
	Kind    string // single, alternatives or both
}

// File is a schema file of a project.
type File struct {
	Name string
	Text []byte
}

// Style restricts projects.
type Style struct {
	Avro    bool // only what Avro can express
	GraphQL bool
	Names   []string // extra names
	Deep    int
	Plain   bool // no nullable scalars
	Single  int  // percentage of projects with a single file
}

var goNames = []string{"id", "title", "count", "flag", "when", "ratio", "tags", "meta", "inner", "owner", "URL", "siteName", "altText", "a", "b", "x1", "longDescription", "type", "func", "range", "map", "publishDate", "snake_case", "Upper", "kids", "list", "lat", "lon", "z", "err", "time", "string", "interface", "name2", "Time", "json", "value", "in", "converted", "nil", "true", "int64", "fooBar", "barBaz", "foo", "baz", "bar"}

// oddNames need a rename to become a Go field.
var oddNames = []string{"k-v", "1st", "_private", "with space", "ns:attr", "@id", "a/b", "x+y", "größe-x", "été!", "日本", "-dash", "50%", "#tag", "a_-b", "-"}

// awkwardNames may be used as Go fields but deserve attention.
var awkwardNames = []string{"größe", "été", "Élan", "x_y_z", "ID", "Id", "iD", "_", longName, longName + "Too", longName + "2"}

const longName = "aPropertyNameOfSuchALengthThatNobodyWouldWriteItButWhichIsPossible"

// avroNames have a meaning in the generated Avro code.
var avroNames = []string{"schema", "get", "setString", "setDefault", "finalize", "SchemaName", "avroId", "AvroSomething", "avro", "trailing_", "double_under__", "nullField", "serialize", "schema_", "get_", "setBoolean", "setInt", "setLong", "setFloat", "setDouble", "setBytes", "appendMap", "appendArray", "marshalJSON", "unmarshalJSON", "avroCRC64Fingerprint", "ab", "a_b", "aB"}

type maker struct {
	r     *rand.Rand
	p     *Proj
	style Style
	used  map[string]bool // Go names in use among the properties of the current part and its relatives
	n     int
}

func exported(s string) string { return strings.Title(s) }

func goIdent(s string) bool {
	for i, c := range s {
		if c != '_' && !unicode.IsLetter(c) && (i == 0 || !unicode.IsDigit(c)) {
			return false
		}
	}
	c, _ := utf8.DecodeRuneInString(exported(s))
	return s != "" && unicode.IsUpper(c)
}

var words = []string{"the", "quick", "brown", "field", "of", "values", "which", "are", "1.", "-", "*", "http://x.y/z?a=1&b=2", "(optional)", "ünï", "☃", "it's", "100%", "a:b", "{x}", "[y]", "//", "#"}
var oddWords = []string{`"quoted"`, "`tick`", `back\slash`, `\n`, "*/", "/*", `"`, "`", `\`, "tab\there", `json:"x"`, "go:generate x", "%s%d%v", "$1", "\u2028", "\u00a0", "{{.x}}", "\x01\x7f", "\U000e0001", "\U0001F600", "<b>", "'", `""`, "``", `\"`, "\"\"\""}

// desc draws a description.
func (m *maker) desc() string {
	r := m.r
	if !gen.Chance(r, 45) {
		return ""
	}
	var lines []string
	for i := gen.Pick(r, []int{1, 1, 1, 2, 3}); i > 0; i-- {
		var w []string
		for j := r.Intn(6) + 1; j > 0; j-- {
			if gen.Chance(r, 15) {
				w = append(w, gen.Pick(r, oddWords))
			} else {
				w = append(w, gen.Pick(r, words))
			}
		}
		lines = append(lines, strings.Join(w, " "))
	}
	if m.style.GraphQL && gen.Chance(r, 20) {
		lines[0] = gen.Pick(r, []string{"DEPRECATED: ", "DEPRECATED:", "DEPRECATED:  "}) + lines[0]
	}
	return strings.Join(lines, gen.Pick(r, []string{"\n", "\n", "\n", "\n\n", "\r\n"}))
}

// name draws a property name which is free.
func (m *maker) name(used map[string]bool) string {
	r := m.r
	for {
		var n string
		switch k := r.Intn(100); {
		case k < 88 || m.style.Avro && k < 91:
			n = gen.Pick(r, goNames)
			if len(used) > 24 {
				n = "wide" + strconv.Itoa(r.Intn(1000))
			}
		case m.style.Avro && k < 97:
			n = gen.Pick(r, avroNames)
		case k < 94:
			n = gen.Pick(r, oddNames)
		default:
			n = gen.Pick(r, awkwardNames)
		}
		if (m.style.Avro || m.style.GraphQL) && !asciiName(n) {
			continue
		}
		g := m.goField(n)
		low := strings.ToLower(g)
		if used[low] || used["json:"+strings.ToLower(n)] {
			continue
		}
		used[low] = true
		used["json:"+strings.ToLower(n)] = true
		return n
	}
}

func asciiName(n string) bool {
	for i, c := range n {
		if c != '_' && (c < 'a' || c > 'z') && (c < 'A' || c > 'Z') && (i == 0 || c < '0' || c > '9') {
			return false
		}
	}
	return true
}

// recase changes the case of some letters of a name which is a Go name.
func recase(r *rand.Rand, n string) string {
	if !goIdent(n) {
		return n
	}
	for _, c := range n {
		if c > unicode.MaxASCII {
			return n
		}
	}
	return strings.Map(func(c rune) rune {
		if !gen.Chance(r, 50) {
			return c
		}
		if unicode.IsUpper(c) {
			return unicode.ToLower(c)
		}
		return unicode.ToUpper(c)
	}, n)
}

// goField gives the Go name of a property, inventing a rename where one is needed.
func (m *maker) goField(n string) string {
	if to, ok := m.p.FieldNames[n]; ok {
		return exported(to)
	}
	if !goIdent(n) {
		to := "Odd"
		if gen.Chance(m.r, 30) {
			to = "odd"
		}
		for _, c := range n {
			if unicode.IsLetter(c) {
				to += string(c)
			} else {
				to += fmt.Sprintf("x%x", c)
			}
		}
		m.p.FieldNames[n] = to
		return exported(to)
	}
	return exported(n)
}

// scalar draws a scalar node.
func (m *maker) scalar() *N {
	r := m.r
	n := &N{K: gen.Pick(r, []string{"boolean", "number", "integer", "string", "string", "date-time"}), Desc: m.desc()}
	n.Null = gen.Chance(r, 15) && !m.style.Plain
	if gen.Chance(r, 20) {
		switch n.K {
		case "string":
			n.Extra = gen.Pick(r, []gen.Obj{{{Key: "maxLength", Val: 400.0}}, {{Key: "minLength", Val: 0.0}}, {{Key: "title", Val: "A title"}}, {{Key: "examples", Val: []interface{}{"x"}}}, {{Key: "format", Val: "x-free"}}})
		case "number", "integer":
			n.Extra = gen.Pick(r, []gen.Obj{{{Key: "title", Val: "t"}}, {{Key: "minimum", Val: -1e300}}})
		}
	}
	return n
}

// hydration draws a field only GraphQL has.
func (m *maker) hydration() *N {
	r := m.r
	n := &N{K: "graphql-hydration", Desc: m.desc()}
	if m.style.GraphQL {
		n.Extra = gen.Obj{{Key: "target", Val: gen.Pick(r, []string{"Target", "Target!", "[Target]", "[Target!]!", "Other"})}}
		if gen.Chance(r, 40) {
			n.Extra = append(n.Extra, gen.Member{Key: "graphql-arguments", Val: gen.Pick(r, [][]interface{}{{"id: ID!"}, {"first: Int = 10", "", "\"which ones\"", "filter: Filter"}, {"a: [String!]!", "b: Boolean"}})})
		}
	}
	return n
}

// target draws a GraphQL type for a node which is generated elsewhere.
func (m *maker) target(n *N) *N {
	if m.style.GraphQL && gen.Chance(m.r, 5) {
		n.Extra = append(n.Extra, gen.Member{Key: "target", Val: gen.Pick(m.r, []string{"Target", "Other"})})
	}
	return n
}

// Target gives the GraphQL type a node names.
func (n *N) Target() string {
	for _, m := range n.Extra {
		if m.Key == "target" {
			return m.Val.(string)
		}
	}
	return ""
}

func (m *maker) node(depth int) *N {
	r := m.r
	k := r.Intn(100)
	switch {
	case depth > 0 && k < 20:
		n := m.object(depth-1, nil)
		if m.style.GraphQL && depth > 1 && gen.Chance(r, 8) {
			n.Extra = append(n.Extra, gen.Member{Key: "target", Val: gen.Pick(r, []string{"Target", "Other"})})
			return n
		}
		return m.target(n)
	case depth > 0 && k < 45:
		n := &N{K: "array", Desc: m.desc(), Null: gen.Chance(r, 12)}
		switch j := r.Intn(100); {
		case j < 42 || j < 45 && (m.style.Avro || m.style.GraphQL):
			n.Items = m.target(m.object(depth-1, nil))
		case j < 45:
			n.Items = &N{K: "object", Desc: m.desc(), Null: gen.Chance(r, 15)} // of free objects
		case j < 97:
			n.Items = m.target(m.scalar())
		default:
			n.Items = m.hydration()
			n.Items.Desc = ""
		}
		return n
	case depth > 0 && k < 48:
		return &N{K: "object", Desc: m.desc(), Null: gen.Chance(r, 15)} // free object
	case k < 51:
		return m.hydration()
	case depth > 0 && m.style.GraphQL && k < 55:
		// nothing below it is stored
		n := &N{K: "object", Desc: m.desc(), Null: gen.Chance(r, 15)}
		used := map[string]bool{}
		for i := r.Intn(3); i >= 0; i-- {
			c := m.hydration()
			if gen.Chance(r, 50) {
				c.Desc = ""
				c = &N{K: "array", Desc: m.desc(), Null: gen.Chance(r, 12), Items: c}
			}
			n.Props = append(n.Props, P{Name: m.name(used), N: c, Req: gen.Chance(r, 45)})
		}
		return n
	}
	return m.target(m.scalar())
}

// object makes an object node with at least one property which reaches Go.
func (m *maker) object(depth int, used map[string]bool) *N {
	r := m.r
	if used == nil {
		used = map[string]bool{}
	}
	n := &N{K: "object", Desc: m.desc(), Null: gen.Chance(r, 12)}
	visible := false
	count := r.Intn(5) + 1
	if !m.style.Avro && gen.Chance(r, 2) { // beyond a word of bits
		count = gen.Pick(r, []int{16, 33, 65, 70})
		depth = min(depth, 1)
	}
	for i := count; i > 0 || !visible; i-- {
		c := m.node(depth)
		if c.visible() {
			visible = true
		}
		n.Props = append(n.Props, P{Name: m.name(used), N: c, Req: gen.Chance(r, 45)})
	}
	if depth > 0 && gen.Chance(r, 4) && !used["foo"] && !used["foobar"] {
		// Different paths are the same when joined.
		if gen.Chance(r, 50) && !used["foobarbaz"] {
			used["foobarbaz"], used["json:foobarbaz"] = true, true
			o := m.object(min(depth-1, 1), nil)
			n.Props = append(n.Props, P{Name: "fooBarBaz", N: o, Req: gen.Chance(r, 45)})
		}
		for _, names := range [][2]string{{"foo", "barBaz"}, {"fooBar", "baz"}} {
			low := strings.ToLower(names[0])
			used[low], used["json:"+low] = true, true
			o := &N{K: "object", Desc: m.desc()}
			o.Props = []P{{Name: names[1], N: m.object(min(depth-1, 1), nil), Req: gen.Chance(r, 45)}}
			if gen.Chance(r, 30) {
				o.Props[0].N = &N{K: "array", Items: o.Props[0].N}
			}
			n.Props = append(n.Props, P{Name: names[0], N: o, Req: gen.Chance(r, 45)})
		}
	}
	if m.style.Avro && depth > 0 && gen.Chance(r, 5) && !used["first"] && !used["second"] {
		// Names of records which are the same in the generated Avro code or its file names.
		names := gen.Pick(r, [][2]string{{"ab", "a_b"}, {"aB", "a_b"}, {"fooBar", "foo_bar"}, {"ab", "ab_"}, {"AB", "ab"}, {"a_record", "a"}})
		r.Shuffle(2, func(i, j int) { names[i], names[j] = names[j], names[i] })
		for i, name := range []string{"first", "second"} {
			used[name], used["json:"+name] = true, true
			o := &N{K: "object", Desc: m.desc()}
			o.Props = []P{{Name: names[i], N: m.object(0, nil), Req: gen.Chance(r, 45)}}
			if gen.Chance(r, 30) {
				o.Props[0].N = &N{K: "array", Items: o.Props[0].N}
			}
			n.Props = append(n.Props, P{Name: name, N: o, Req: gen.Chance(r, 45)})
		}
	}
	return n
}

// visible tells whether Go sees the node.
func (n *N) visible() bool {
	return n.K != "graphql-hydration" && (n.K != "array" || n.Items.K != "graphql-hydration")
}

// Make makes the project with the given number.
func Make(seed int64, id int, style Style) *Proj {
	r := rand.New(rand.NewSource(seed*1000003 + int64(id)*7919 + 17))
	p := &Proj{ID: id, FieldNames: map[string]string{}, Structs: map[string]string{}}
	m := &maker{r: r, p: p, style: style}
	if style.Deep == 0 {
		style.Deep = 3
		if gen.Chance(r, 4) {
			style.Deep = 6
		}
	}
	single := style.Single
	if single == 0 {
		single = 50
	}
	used := map[string]bool{}
	bases := []string{"root", "article", "asset", "video2", "imageSet", "my-thing", "x", "person", "gallery", "Event", "snake_file", "oembed", "blog", "topic", "tally_", "aStructNameOfMoreThanTwentyLetters"}
	r.Shuffle(len(bases), func(i, j int) { bases[i], bases[j] = bases[j], bases[i] })
	part := func(used map[string]bool, none bool) *Part {
		base := bases[0]
		bases = bases[1:]
		if style.Avro && base == "my-thing" {
			base = bases[0]
			bases = bases[1:]
		}
		used[strings.ToLower(base)] = true
		pt := &Part{Base: base, Ext: gen.Pick(r, []string{".json", ".json", ".json", ".schema.json", ""})}
		pt.File = base + pt.Ext
		if p.Root != nil {
			pt.File = gen.Pick(r, []string{"", "", "parts/", "../other/"}) + pt.File
		}
		if !goIdent(base) || gen.Chance(r, 15) {
			to := gen.Pick(r, []string{"Renamed", "Renamed", "renamed"}) + strings.Map(func(c rune) rune {
				if unicode.IsLetter(c) || unicode.IsDigit(c) {
					return c
				}
				return 'x'
			}, base)
			p.Structs[base] = to
			used[strings.ToLower(to)] = true
		}
		if none {
			pt.N = &N{K: "object"}
		}
		return pt
	}
	fill := func(pt *Part, used map[string]bool) { pt.N = m.object(style.Deep-1, used); pt.N.Null = false }
	switch k := r.Intn(100); {
	case k < single:
		p.Kind = "single"
		p.Root = part(used, false)
		fill(p.Root, used)
		p.Parts = []*Part{p.Root}
		p.Runs = []*Part{p.Root}
	default:
		p.Kind = "alternatives"
		withProps := gen.Chance(r, 50)
		p.Root = part(used, true)
		nAll, nOne := r.Intn(3), r.Intn(3)
		if gen.Chance(r, 10) {
			nAll = 3 + r.Intn(2)
		}
		if nAll+nOne == 0 {
			nAll = 1
		}
		var all, one []*Part
		for i := 0; i < nAll; i++ {
			pt := part(used, false)
			all = append(all, pt)
		}
		for i := 0; i < nOne; i++ {
			one = append(one, part(used, false))
		}
		// A part which is shared by composition: generated by its own run.
		var deep *Part
		if len(all) > 0 && gen.Chance(r, 30) {
			deep = part(used, false)
		}
		var deepOne *Part
		if style.GraphQL && len(one) > 0 && gen.Chance(r, 35) {
			deepOne = part(used, false)
		}
		for _, a := range all {
			fill(a, used)
		}
		chain := func(pt *Part, used map[string]bool) {
			for i := 0; i < 2 && gen.Chance(r, 40); i++ {
				below := part(used, false)
				fill(below, used)
				pt.AllOf = append(pt.AllOf, below)
				p.Parts = append(p.Parts, below)
			}
		}
		if deep != nil {
			fill(deep, used)
			chain(deep, used)
			all[0].AllOf = []*Part{deep}
			p.Parts = append(p.Parts, deep)
			p.Runs = append(p.Runs, deep)
		}
		if withProps {
			p.Kind = "both"
			fill(p.Root, used)
		}
		var deepUsed map[string]bool
		for i, o := range one {
			u := map[string]bool{}
			for k := range used {
				u[k] = true
			}
			if i > 0 && deepOne != nil && gen.Chance(r, 50) { // two alternatives with a part in common
				u = deepUsed
				o.AllOf = []*Part{deepOne}
			}
			if deepOne != nil && o == one[0] {
				fill(deepOne, u)
				chain(deepOne, u)
				o.AllOf = []*Part{deepOne}
				p.Parts = append(p.Parts, deepOne)
				p.Runs = append(p.Runs, deepOne)
				deepUsed = map[string]bool{}
				for k := range u {
					deepUsed[k] = true
				}
			}
			fill(o, u)
		}
		if gen.Chance(r, 25) {
			if withProps {
				m.override(p.Root, all)
			}
			for _, o := range one {
				m.override(o, append(append([]*Part{}, all...), p.Root))
			}
			if deep != nil {
				m.override(all[0], []*Part{deep})
			}
		}
		if !style.GraphQL && len(all) > 0 {
			for _, o := range one {
				// Nothing says whether a property of the part or the same one of the root is the more specific one.
				if a := gen.Pick(r, all); gen.Chance(r, 12) && len(join(p.Root.N.Props, a.All())) == len(p.Root.N.Props)+len(a.All()) {
					o.AllOf = append(o.AllOf, a)
				}
			}
		}
		p.Root.AllOf = all
		p.Root.OneOf = one
		p.Parts = append(p.Parts, all...)
		if withProps {
			p.Parts = append(p.Parts, p.Root)
		}
		p.Parts = append(p.Parts, one...)
		p.Runs = append(p.Runs, p.Root)
	}
	if style.GraphQL {
		m.graphQL()
	}
	m.place()
	// Optional renames of fields.
	if gen.Chance(r, 40) {
		names := map[string]bool{}
		for _, pt := range p.Parts {
			eachName(pt.N, names)
		}
		var ns []string
		for n := range names {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if _, ok := p.FieldNames[n]; !ok && gen.Chance(r, 15) {
				if to := recase(r, n); to != n && gen.Chance(r, 40) {
					p.FieldNames[n] = to
					continue
				}
				p.FieldNames[n] = "Re" + strings.Map(func(c rune) rune {
					if unicode.IsLetter(c) || unicode.IsDigit(c) {
						return c
					}
					return 'x'
				}, n)
			}
		}
	}
	return p
}

// override lets the part define a property of its relatives again, with another description. The type stays, documents
// have to conform to both.
func (m *maker) override(pt *Part, relatives []*Part) {
	var from []P
	for _, x := range relatives {
		for _, p := range x.N.Props {
			k := p.N.K
			if k == "array" {
				k = p.N.Items.K
			}
			switch k {
			case "string", "number", "integer", "boolean", "date-time":
				from = append(from, p)
			case "object":
				// An interface of GraphQL cannot have a type of its own here.
				if !m.style.GraphQL {
					from = append(from, p)
				}
			}
		}
	}
	if len(from) == 0 {
		return
	}
	p := gen.Pick(m.r, from)
	for _, x := range pt.N.Props {
		if x.Name == p.Name {
			return
		}
	}
	n := *p.N
	n.Desc = m.desc()
	p.N = &n
	at := m.r.Intn(len(pt.N.Props) + 1)
	pt.N.Props = append(pt.N.Props[:at:at], append([]P{p}, pt.N.Props[at:]...)...)
}

// graphQL gives parts descriptions and draws renames of types.
func (m *maker) graphQL() {
	m.p.GraphQL = map[string]string{}
	for _, pt := range append([]*Part{m.p.Root}, m.p.Parts...) {
		pt.Desc = m.desc()
		if _, ok := m.p.GraphQL[pt.Base]; ok {
			continue
		}
		if !asciiName(pt.Base) || gen.Chance(m.r, 20) {
			m.p.GraphQL[pt.Base] = "GQL" + strings.ReplaceAll(pt.Base, "-", "Dash")
		}
		for _, q := range pt.N.Props {
			name := exported(pt.Base) + exported(q.Name)
			if len(q.N.Props) > 0 && asciiName(name) && gen.Chance(m.r, 10) {
				m.p.GraphQL[name] = "Own" + name
			}
			own := name
			if to, ok := m.p.GraphQL[name]; ok {
				own = to
			}
			for _, q := range q.N.Props { // and types nested in that
				name := own + exported(q.Name)
				if len(q.N.Props) > 0 && asciiName(name) && gen.Chance(m.r, 10) {
					m.p.GraphQL[name] = "Deep" + name
				}
			}
		}
	}
}

func eachName(n *N, names map[string]bool) {
	for _, p := range n.Props {
		names[p.Name] = true
		eachName(p.N, names)
	}
	if n.Items != nil {
		eachName(n.Items, names)
	}
}

// place moves some nodes into definitions or files of their own and renders the files.
func (m *maker) place() {
	for _, pt := range m.p.Parts {
		m.placeNode(pt.N, true)
	}
	m.p.Files = Render(m.r, m.p, gen.Layout{})
}

func (m *maker) placeNode(n *N, root bool) {
	if !root && n.K != "graphql-hydration" {
		switch k := m.r.Intn(100); {
		case k < 6:
			n.Place = "def"
		case k < 10:
			m.n++
			n.Place = fmt.Sprintf("shared/s%d.json", m.n)
		}
	}
	for _, p := range n.Props {
		m.placeNode(p.N, false)
	}
	if n.Items != nil {
		m.placeNode(n.Items, false)
	}
}

// Render writes the schema files of a project. The layout decides the order of members.
func Render(r *rand.Rand, p *Proj, l gen.Layout) []File {
	var files []File
	parts := append([]*Part(nil), p.Parts...)
	hasRoot := false
	for _, pt := range parts {
		hasRoot = hasRoot || pt == p.Root
	}
	if !hasRoot {
		parts = append(parts, p.Root)
	}
	for _, pt := range parts {
		w := &renderer{r: r, l: l}
		o := gen.Obj{}
		if pt.Desc != "" {
			o = append(o, gen.Member{Key: "description", Val: pt.Desc})
		}
		o = append(o, gen.Member{Key: "$schema", Val: "http://json-schema.org/draft-04/schema#"}, gen.Member{Key: "type", Val: "object"})
		if len(pt.N.Props) > 0 || pt != p.Root {
			o = append(o, w.object(pt.N)...)
		}
		for _, c := range []struct {
			key   string
			parts []*Part
		}{{"allOf", pt.AllOf}, {"oneOf", pt.OneOf}} {
			if len(c.parts) == 0 {
				continue
			}
			var a []interface{}
			for _, x := range c.parts {
				ref, _ := filepath.Rel(filepath.Dir("/r/schemas/"+pt.File), "/r/schemas/"+x.File)
				a = append(a, gen.Obj{{Key: "$ref", Val: ref}})
			}
			o = append(o, gen.Member{Key: c.key, Val: a})
		}
		if len(w.defs) > 0 {
			o = append(o, gen.Member{Key: "definitions", Val: w.defs})
		}
		files = append(files, File{pt.File, gen.Render(o, l)})
		for _, f := range w.files {
			files = append(files, File{filepath.Join(filepath.Dir(pt.File), f.Name), f.Text})
		}
	}
	return files
}

type renderer struct {
	r     *rand.Rand
	l     gen.Layout
	defs  gen.Obj
	files []File
}

func (w *renderer) node(n *N) gen.Obj {
	switch {
	case n.Place == "":
		return w.body(n)
	case n.Place == "def":
		name := fmt.Sprintf("d%d", len(w.defs))
		w.defs = append(w.defs, gen.Member{Key: name})
		i := len(w.defs) - 1
		w.defs[i].Val = w.body(n)
		return gen.Obj{{Key: "$ref", Val: "#/definitions/" + name}}
	}
	// A file of its own may use definitions of its own.
	sub := &renderer{r: w.r, l: w.l}
	body := sub.bodyIn(n, true)
	if len(sub.defs) > 0 {
		body = append(body, gen.Member{Key: "definitions", Val: sub.defs})
	}
	w.files = append(w.files, File{n.Place, gen.Render(body, w.l)})
	w.files = append(w.files, sub.files...)
	return gen.Obj{{Key: "$ref", Val: n.Place}}
}

func (w *renderer) body(n *N) gen.Obj { return w.bodyIn(n, false) }

func (w *renderer) bodyIn(n *N, shared bool) gen.Obj {
	o := gen.Obj{}
	t := n.K
	if t == "date-time" {
		t = "string"
	}
	if n.Desc != "" {
		o = append(o, gen.Member{Key: "description", Val: n.Desc})
	}
	if n.Null {
		if len(n.Desc)%2 == 0 {
			o = append(o, gen.Member{Key: "type", Val: []interface{}{t, "null"}})
		} else {
			o = append(o, gen.Member{Key: "type", Val: []interface{}{"null", t}})
		}
	} else {
		o = append(o, gen.Member{Key: "type", Val: t})
	}
	o = append(o, n.Extra...)
	switch n.K {
	case "date-time":
		o = append(o, gen.Member{Key: "format", Val: "date-time"})
	case "array":
		o = append(o, gen.Member{Key: "items", Val: w.in(n.Items, shared)})
	case "object":
		sub := w.objectIn(n, shared)
		o = append(o, sub...)
	}
	return o
}

// in renders a child; inside a shared file, files are named relative to it.
func (w *renderer) in(n *N, shared bool) gen.Obj {
	if shared && strings.HasPrefix(n.Place, "shared/") {
		c := *n
		o := w.node(&c)
		o[0].Val = strings.TrimPrefix(c.Place, "shared/")
		return o
	}
	if shared || n.Place == "" {
		if n.Place == "" {
			return w.bodyIn(n, shared)
		}
	}
	if n.Place == "def" {
		name := fmt.Sprintf("d%d", len(w.defs))
		w.defs = append(w.defs, gen.Member{Key: name})
		i := len(w.defs) - 1
		b := w.bodyIn(n, shared)
		w.defs[i].Val = b
		return gen.Obj{{Key: "$ref", Val: "#/definitions/" + name}}
	}
	return w.node(n)
}

func (w *renderer) object(n *N) gen.Obj { return w.objectIn(n, false) }

func (w *renderer) objectIn(n *N, shared bool) gen.Obj {
	props := gen.Obj{}
	var req []interface{}
	for _, p := range n.Props {
		props = append(props, gen.Member{Key: p.Name, Val: w.in(p.N, shared)})
		if p.Req {
			req = append(req, p.Name)
		}
	}
	o := gen.Obj{{Key: "properties", Val: props}}
	if len(req) > 0 {
		o = append(o, gen.Member{Key: "required", Val: req})
	}
	return o
}

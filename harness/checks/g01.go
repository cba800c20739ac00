package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/gproj"
	"verif/harness/h"
)

// gset is the set of units a generator check works on; parent and workers make the same one.
type gset struct {
	projects int
	style    gproj.Style
	opts     func(r *rand.Rand, p *gproj.Proj) []gproj.Opt
	race     bool
}

// plan gives the units of the set.
func (g *gset) plan(dir string, seed int64, projects int) []*gproj.Unit {
	return gproj.Plan(dir, seed, projects, g.style, func(p *gproj.Proj) []gproj.Opt {
		return g.opts(rand.New(rand.NewSource(seed*31+int64(p.ID)*101+7)), p)
	})
}

// prepare generates and compiles the units. The case of a unit is its index.
func (g *gset) prepare(p *h.Parent, projects int) error {
	units := g.plan(p.Shared, p.Seed, projects)
	only := -1
	if p.Only >= 0 {
		only = p.Only % len(units)
	}
	b := &gproj.Builder{Dir: p.Shared, Verif: h.VerifDir(), Repo: h.RepoDir(), Race: g.race}
	b.Fail = func(u *gproj.Unit, what string, detail interface{}) {
		p.Fail(u.Idx, what, u.Info(detail.(map[string]interface{})))
	}
	if _, err := b.Build(units, only); err != nil {
		return err
	}
	for _, u := range units {
		if !u.Failed {
			p.Counters["packages generated and compiled"]++
			p.Counters["generated with "+u.O.String()]++
		}
	}
	return nil
}

// gworker is what a worker of a generator check keeps.
type gworker struct {
	units  []*gproj.Unit
	driver *gproj.Driver
}

func (g *gset) setup(w *h.Worker, projects int) error {
	gw := &gworker{units: g.plan(w.Shared, w.Seed, projects)}
	if err := gproj.LoadBuilt(w.Shared, gw.units); err != nil {
		return err
	}
	var err error
	gw.driver, err = gproj.Start(filepath.Join(w.Shared, "driver"), w.Dir)
	w.Data = gw
	return err
}

// ask sends a request to the driver; a dead driver or a panic is a violation.
func (gw *gworker) ask(c *h.Case, u *gproj.Unit, q gproj.Request) (gproj.Answer, bool) {
	a, err := gw.driver.Ask(q)
	if err != nil {
		c.Fail("the generated code ended the program", u.Info(map[string]interface{}{"request": q, "error": err.Error()}))
		return a, false
	}
	if a.Panic != "" {
		c.Fail("the generated code panics", u.Info(map[string]interface{}{"request": q, "panic": a.Panic}))
		return a, false
	}
	return a, true
}

// tiers gives a number by tier.
func byTier(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// viewed is one JSON member of a Go struct.
type viewed struct {
	depth int
	n     int
	f     *gproj.FieldDesc
}

// jsonView lists the JSON members of a struct as encoding/json sees them.
func jsonView(t *gproj.TypeDesc, depth int, out map[string]*viewed) {
	for _, f := range t.Fields {
		if f.Anon {
			s := f.T
			if s.K == "ptr" {
				s = s.Elem
			}
			jsonView(s, depth+1, out)
			continue
		}
		name := f.Go
		if tag, ok := reflect.StructTag(f.Tag).Lookup("json"); ok {
			if tag == "-" {
				continue
			}
			if n := strings.Split(tag, ",")[0]; n != "" {
				name = n
			}
		}
		v := out[name]
		switch {
		case v == nil || depth < v.depth:
			out[name] = &viewed{depth, 1, f}
		case depth == v.depth:
			v.n++
		}
	}
}

// wellFormedTag tells whether the whole tag follows the conventional format.
func wellFormedTag(tag string) bool {
	for tag != "" {
		i := strings.Index(tag, `:"`)
		if i <= 0 || strings.ContainsAny(tag[:i], " \"") {
			return false
		}
		tag = tag[i+1:]
		q, err := strconv.QuotedPrefix(tag)
		if err != nil {
			return false
		}
		tag = strings.TrimPrefix(tag[len(q):], " ")
	}
	return true
}

// mirror compares a Go type with the schema.
type mirror struct {
	u   *gproj.Unit
	bad []string
	n   int64
}

func (m *mirror) add(format string, args ...interface{}) {
	if len(m.bad) < 20 {
		m.bad = append(m.bad, fmt.Sprintf(format, args...))
	}
}

// visible gives the properties Go sees.
func visible(ps []gproj.P) []gproj.P {
	var out []gproj.P
	for _, p := range ps {
		if goSees(p.N) {
			out = append(out, p)
		}
	}
	return out
}

func goSees(n *gproj.N) bool {
	return n.K != "graphql-hydration" && (n.K != "array" || n.Items.K != "graphql-hydration")
}

func (m *mirror) structType(path string, t *gproj.TypeDesc, props []gproj.P) {
	view := map[string]*viewed{}
	jsonView(t, 0, view)
	want := map[string]gproj.P{}
	for _, p := range visible(props) {
		want[p.Name] = p
	}
	for name, v := range view {
		p, ok := want[name]
		if !ok {
			m.add("%s: member %q is not a property of the schema", path, name)
			continue
		}
		if v.n != 1 {
			m.add("%s: member %q appears %d times", path, name, v.n)
		}
		m.field(path+"."+name, v.f, p)
	}
	for name := range want {
		if view[name] == nil {
			m.add("%s: property %q is missing", path, name)
		}
	}
}

func (m *mirror) field(path string, f *gproj.FieldDesc, p gproj.P) {
	m.n++
	o := m.u.O
	if want := m.u.FieldName(p.Name); f.Go != want {
		m.add("%s: field is called %q, not %q", path, f.Go, want)
	}
	if !wellFormedTag(f.Tag) {
		m.add("%s: malformed struct tag %q", path, f.Tag)
	}
	tag := reflect.StructTag(f.Tag)
	opts := strings.Split(tag.Get("json"), ",")[1:]
	omit := ""
	for _, x := range opts {
		switch x {
		case "omitempty", "omitzero":
			omit = x
		case "":
		default:
			m.add("%s: unexpected tag option %q", path, x)
		}
	}
	if (omit == "") != p.Req {
		m.add("%s: required is %v but the tag says %q", path, p.Req, tag.Get("json"))
	}
	if omit == "omitempty" && f.T.K == "struct" {
		m.add("%s: a struct value with omitempty is never left out", path)
	}
	desc, has := tag.Lookup("description")
	switch {
	case !o.DescTag || p.N.Desc == "":
		if has {
			m.add("%s: unexpected description tag %q", path, desc)
		}
	case strings.TrimRight(desc, "\r") != strings.TrimRight(firstLine(p.N.Desc), "\r"):
		m.add("%s: description tag is %q, not %q", path, desc, firstLine(p.N.Desc))
	}
	m.typ(path, f.T, p.N, p.Req, false)
}

func firstLine(s string) string { return strings.Split(s, "\n")[0] }

func (m *mirror) typ(path string, t *gproj.TypeDesc, n *gproj.N, req, elem bool) {
	o := m.u.O
	if n.K == "array" {
		if t.K != "slice" {
			m.add("%s: array became %s", path, t.K)
			return
		}
		m.typ(path+"[*]", t.Elem, n.Items, req, true)
		return
	}
	free := n.K == "object" && len(visible(n.Props)) == 0
	object := n.K == "object" && !free
	optional := o.Pointers && !req
	must := n.Null && !free || optional && !elem && (n.K == "date-time" || object && o.NoNested)
	may := must || n.Null || optional && (n.K == "object" || n.K == "date-time")
	if t.K == "ptr" {
		if !may {
			m.add("%s: unexpected pointer", path)
		}
		t = t.Elem
	} else if must {
		m.add("%s: must be a pointer", path)
	}
	want := map[string]string{"boolean": "bool", "number": "float64", "integer": "int64", "string": "string", "date-time": "time"}[n.K]
	switch {
	case free:
		if t.K != "map" || t.Name != "string" || t.Elem.K != "string" {
			m.add("%s: object without properties became %s", path, t.K)
		}
	case object:
		if t.K != "struct" {
			m.add("%s: object became %s", path, t.K)
			return
		}
		if o.NoNested != (t.Name != "") {
			m.add("%s: struct name %q with named structs %v", path, t.Name, o.NoNested)
		}
		for _, f := range t.Fields {
			if f.Anon {
				m.add("%s: embedded %s", path, f.Go)
			}
		}
		m.structType(path, t, n.Props)
	case t.K != want:
		m.add("%s: %s became %s", path, n.K, t.K)
	}
}

// commentWords normalises a comment to what formatting leaves alone.
func commentWords(s string) string { return strings.Join(strings.Fields(s), "") }

// comments compares the comments of a Go struct with the descriptions.
func (m *mirror) comments(path string, st *ast.StructType, props []gproj.P, decls map[string]*ast.StructType) {
	byName := map[string]gproj.P{}
	for _, p := range props {
		byName[p.Name] = p
	}
	for _, f := range st.Fields.List {
		if len(f.Names) == 0 || f.Tag == nil {
			continue
		}
		raw, _ := strconv.Unquote(f.Tag.Value)
		p, ok := byName[strings.Split(reflect.StructTag(raw).Get("json"), ",")[0]]
		if !ok {
			continue
		}
		got := ""
		for _, g := range []*ast.CommentGroup{f.Doc, f.Comment} {
			if g == nil {
				continue
			}
			for _, c := range g.List {
				if !strings.HasPrefix(c.Text, "//") {
					m.add("%s.%s: comment %q", path, p.Name, c.Text)
				}
				got += strings.TrimPrefix(c.Text, "//") + "\n"
			}
		}
		want := p.N.Desc
		if m.u.O.DescTag {
			want = ""
		}
		if commentWords(got) != commentWords(want) {
			m.add("%s.%s: comment is %q, not %q", path, p.Name, got, want)
		} else if want != "" {
			m.n++
		}
		t := f.Type
		n := p.N
		for {
			if a, ok := t.(*ast.ArrayType); ok {
				t = a.Elt
				n = n.Items
			} else if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			} else {
				break
			}
		}
		if n == nil {
			continue
		}
		if id, ok := t.(*ast.Ident); ok && decls[id.Name] != nil {
			m.comments(path+"."+p.Name, decls[id.Name], n.Props, decls)
		} else if s, ok := t.(*ast.StructType); ok {
			m.comments(path+"."+p.Name, s, n.Props, decls)
		}
	}
}

// g01Probe looks for the known finding about comments which go/format takes for build constraints.
func g01Probe(c *h.Case) {
	dir := filepath.Join(c.Dir, "probe")
	out := filepath.Join(dir, "out")
	os.MkdirAll(out, 0755)
	schema := writeFile(dir, "probe.json", []byte(`{"type":"object","properties":{"a":{"type":"string","description":"one\n+build two"}}}`))
	err := gproj.Protect(time.Minute, func() error {
		return generate.BuildStructsWithArgs(generate.BuildArgs{SchemaPath: schema, OutputDir: out})
	})
	src, _ := os.ReadFile(filepath.Join(out, "probe.go"))
	at := bytes.Index(src, []byte("// +build two"))
	c.Probe("comment=+build-line", err != nil || at < bytes.Index(src, []byte("package")), "a description line starting with +build becomes a build constraint of the generated file", map[string]interface{}{"code": string(src)})
}

func g01Run(c *h.Case) {
	gw := c.Data.(*gworker)
	if c.Idx == 0 {
		g01Probe(c)
	}
	u := gw.units[c.Idx%len(gw.units)]
	if u.Failed {
		return
	}
	m := &mirror{u: u}
	types := u.Types()
	// Files.
	want := map[string]bool{}
	for _, t := range types {
		want[t.File] = true
	}
	got, _ := os.ReadDir(u.Dir)
	for _, e := range got {
		if !want[e.Name()] {
			m.add("unexpected file %q", e.Name())
		}
		delete(want, e.Name())
	}
	for f := range want {
		m.add("file %q is missing", f)
	}
	decls := map[string]*ast.StructType{}
	inFile := map[string]string{}
	for _, t := range types {
		src, err := os.ReadFile(filepath.Join(u.Dir, t.File))
		if err != nil {
			continue
		}
		out, err := format.Source(src)
		if err != nil || !bytes.Equal(out, src) {
			m.add("file %q is not formatted", t.File)
		}
		f, err := parser.ParseFile(token.NewFileSet(), t.File, src, parser.ParseComments)
		if err != nil {
			m.add("file %q: %v", t.File, err)
			continue
		}
		if f.Name.Name != u.Pkg {
			m.add("file %q is of package %q", t.File, f.Name.Name)
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				for _, s := range g.Specs {
					if ts, ok := s.(*ast.TypeSpec); ok {
						if st, ok := ts.Type.(*ast.StructType); ok {
							decls[ts.Name.Name] = st
							inFile[ts.Name.Name] = t.File
						}
					}
				}
			} else {
				m.add("file %q has a declaration which is not a type", t.File)
			}
		}
	}
	for _, t := range types {
		a, ok := gw.ask(c, u, gproj.Request{Op: "type", Type: u.Pkg + "." + t.Name})
		if !ok {
			return
		}
		if a.Type == nil {
			m.add("type %q: %s", t.Name, a.Err)
			continue
		}
		if inFile[t.Name] != t.File {
			m.add("type %q is in file %q", t.Name, inFile[t.Name])
		}
		m.structType(t.Name, a.Type, t.Props)
		if decls[t.Name] != nil {
			m.comments(t.Name, decls[t.Name], t.Props, decls)
		}
		c.Count("structs compared with their schema")
	}
	sort.Strings(m.bad)
	if len(m.bad) > 0 {
		c.Fail("generated structs do not mirror the schema", u.Info(map[string]interface{}{"differences": m.bad, "code": u.Code()}))
	}
	c.Add("fields compared with their property", m.n)
	c.Count("projects of kind " + u.P.Kind)
	c.Eval(true, fmt.Sprint(u.Schemas()), u.O.String())
	if c.WantSample() {
		c.Sample(u.Info(map[string]interface{}{"code": u.Code()}))
	}
}

var structSet = &gset{opts: func(r *rand.Rand, p *gproj.Proj) []gproj.Opt { return gproj.RandOpts(r, 3, gproj.Opt{}) }}

const g01Quick, g01Thorough = 500, 2500

func init() {
	register(&h.Check{
		ID:          "G01",
		Rule:        "a case is one package generated by BuildStructsWithArgs for a random schema project (single file, or allOf and oneOf parts with or without root properties, references to definitions and files, nested and repeated objects, nullable types, date-times, free objects, hydration fields, awkward names and descriptions) under a random combination of options; all are compiled into one program, which describes its types by reflection; types, tags and comments are compared with the schema",
		Assumptions: []string{"reflection and go/parser describe the generated Go faithfully"},
		Quick:       g01Quick * 3, Thorough: g01Thorough * 3,
		Prepare: func(p *h.Parent) error { return structSet.prepare(p, byTier(p.Tier, g01Quick, g01Thorough)) },
		Setup:   func(w *h.Worker) error { return structSet.setup(w, byTier(w.Tier, g01Quick, g01Thorough)) },
		Run:     g01Run,
		Need:    []string{"packages generated and compiled", "structs compared with their schema", "fields compared with their property"},
	})
}

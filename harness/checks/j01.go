package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/gen"
	"verif/harness/h"
)

// docServer serves documents over the loopback network.
type docServer struct {
	*httptest.Server
	docs sync.Map // path to []byte
}

func newDocServer() *docServer {
	s := &docServer{}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		v, ok := s.docs.Load(r.URL.Path)
		if !ok {
			http.Error(w, "{}", http.StatusNotFound)
			return
		}
		if f, ok := v.(http.HandlerFunc); ok {
			f(w, r)
			return
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write(v.([]byte))
	}))
	return s
}

// refPair is the same schema twice: with references and with the referenced content in place.
type refPair struct{ ref, inl *gen.Node }

// refDoc is a schema document.
type refDoc struct {
	path  string // relative to the directory or the URL prefix
	query string // of the URL
	http  bool
	root  *refPair // nil while it is being made
	defs  map[string]refPair
	props map[string]refPair // the finished properties of the root
	key   string             // definitions or $defs
}

// JSON returns the document with references.
func (d *refDoc) JSON() gen.Obj {
	o := d.root.ref.JSON()
	if len(d.defs) > 0 {
		defs := gen.Obj{}
		for _, name := range sortedKeys(d.defs) {
			defs = append(defs, gen.Member{Key: name, Val: d.defs[name].ref.JSON()})
		}
		o = append(o, gen.Member{Key: d.key, Val: defs})
	}
	return o
}

type refGen struct {
	r        *rand.Rand
	base     string // URL prefix
	prefix   string // the path of it
	src      interface{}
	docs     []*refDoc
	uses     map[string]int
	changing bool // some key next to a reference constrains, which the validation library rightly ignores
	allOf    bool
	resp     int
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// serveAt sets the URL below which the documents are.
func (g *refGen) serveAt(srv *docServer, prefix string) {
	g.base, g.prefix = srv.URL+prefix, prefix
}

// target draws a reference from doc to something finished.
func (g *refGen) target(doc *refDoc) (string, *refPair) {
	r := g.r
	type cand struct {
		ref  string
		kind string
		p    refPair
	}
	var cands []cand
	inner := func(d *refDoc, prefix, kind string) {
		for _, n := range sortedKeys(d.defs) {
			cands = append(cands, cand{prefix + "#/" + d.key + "/" + n, kind + "_definition", d.defs[n]})
		}
		for _, n := range sortedKeys(d.props) {
			if gen.IsIdent(n) && gen.Chance(r, 30) {
				cands = append(cands, cand{prefix + "#/properties/" + n, kind + "_property", d.props[n]})
			}
		}
	}
	inner(doc, "", "own")
	if gen.Chance(r, 20) {
		if doc.http {
			inner(doc, g.name(doc), "own_url")
		} else {
			inner(doc, filepath.Base(doc.path), "own_file")
		}
	}
	for _, d := range g.docs {
		if d == doc || doc.http && !d.http || d.root == nil {
			continue
		}
		var ref, kind string
		if d.http && (!doc.http || gen.Chance(r, 40)) {
			ref, kind = g.name(d), "url"
		} else if d.http && gen.Chance(r, 30) {
			ref, kind = g.prefix+d.path+d.query, "url_without_host"
			if gen.Chance(r, 40) {
				ref, kind = strings.TrimPrefix(g.name(d), "http:"), "url_without_scheme"
			}
		} else {
			ref, _ = filepath.Rel(filepath.Dir(doc.path), d.path)
			if gen.Chance(r, 25) && !strings.HasPrefix(ref, "..") {
				ref = "./" + ref
			} else if gen.Chance(r, 20) {
				ref = "../" + filepath.Base(filepath.Dir("/top/"+doc.path)) + "/" + ref
				if doc.path == filepath.Base(doc.path) {
					ref = strings.TrimPrefix(ref, "../top/")
				}
			}
			ref += d.query
			kind = map[bool]string{false: "file", true: "relative_url"}[d.http]
		}
		cands = append(cands, cand{ref, kind, *d.root})
		inner(d, ref, kind)
	}
	if len(cands) == 0 {
		return "", nil
	}
	c := gen.Pick(r, cands)
	g.uses[c.kind]++
	return c.ref, &c.p
}

// field draws a field of a document.
func (g *refGen) field(doc *refDoc, depth int) refPair {
	r := g.r
	if gen.Chance(r, 35) {
		if ref, t := g.target(doc); t != nil {
			n := &gen.Node{Ref: ref, Target: t.ref}
			inl := *t.inl
			if gen.Chance(r, 40) {
				g.siblings(n, &inl)
			}
			return refPair{n, &inl}
		}
	}
	x := r.Intn(100)
	n := &gen.Node{}
	switch {
	case depth > 0 && x < 30:
		return g.object(doc, depth-1, 4)
	case depth > 0 && x < 45:
		p := g.field(doc, depth-1)
		n = &gen.Node{Type: "array", Items: p.ref}
		g.decorate(n)
		inl := *n
		inl.Items = p.inl
		return refPair{n, &inl}
	case depth > 0 && x < 52:
		// composition within a field is left for the user of the schema, references in it are not
		n = scalarNode(r)
		if gen.Chance(r, 50) {
			n = &gen.Node{Type: "object", Free: true}
		}
		inl := *n
		for k := g.count(3); k > 0; k-- {
			p := g.field(doc, 0)
			n.AnyOf = append(n.AnyOf, p.ref)
			inl.AnyOf = append(inl.AnyOf, p.inl)
		}
		return refPair{n, &inl}
	case x < 58:
		n = &gen.Node{Type: "object", Free: true}
	default:
		n = scalarNode(r)
		if gen.Chance(r, 50) {
			t := section(r, g.src, 3, 20)
			n.Tr = []gen.NamedTransform{{Ident: "it", T: t}}
			if gen.Chance(r, 20) {
				n.Tr = append(n.Tr, gen.NamedTransform{Ident: "other", T: section(r, g.src, 2, 0)})
			}
		}
		if gen.Chance(r, 30) {
			n.HasDefault, n.Default = true, defaultFor(r, n)
		}
	}
	g.decorate(n)
	inl := *n
	return refPair{n, &inl}
}

// count draws how many parts a composition has, now and then many.
func (g *refGen) count(max int) int {
	if gen.Chance(g.r, 4) {
		g.uses["many_parts"]++
		return 10 + g.r.Intn(12)
	}
	return 1 + g.r.Intn(max)
}

// decorate adds keys which aren't about other schemas.
func (g *refGen) decorate(n *gen.Node) {
	r := g.r
	n.Nullable, n.NullFirst, n.TypeList = gen.Chance(r, 15), gen.Chance(r, 50), gen.Chance(r, 15)
	if gen.Chance(r, 30) {
		n.Desc = gen.StringVal(r)
	}
	if gen.Chance(r, 25) {
		k, f := r.Intn(3), float64(r.Intn(20)-10)
		switch n.Type {
		case "string":
			if !n.DateTime {
				n.MinLen = &k
			}
		case "number", "integer":
			n.Min = &f
		case "array":
			n.MinItems = &k
		case "object":
			for _, p := range n.Props {
				if gen.Chance(r, 50) {
					n.Required = append(n.Required, p.Name)
				}
			}
		}
	}
	if gen.Chance(r, 10) {
		n.ExtraKeys = append(n.ExtraKeys, gen.Member{Key: "x-note", Val: gen.Value(r, 2, gen.Idents)})
	}
	if n.Type == "object" && gen.Chance(r, 15) {
		n.Closed = true
	}
}

func (g *refGen) object(doc *refDoc, depth, max int) refPair {
	r := g.r
	n := &gen.Node{Type: "object", Props: []gen.Prop{}}
	inl := &gen.Node{}
	var inlProps []gen.Prop
	for _, name := range gen.NameSet(r, 1+r.Intn(max), 25) {
		p := g.field(doc, depth)
		n.Props = append(n.Props, gen.Prop{Name: name, Node: p.ref})
		inlProps = append(inlProps, gen.Prop{Name: name, Node: p.inl})
	}
	g.decorate(n)
	*inl = *n
	inl.Props = inlProps
	return refPair{n, inl}
}

// siblings adds keys next to a reference, which replace those of the referenced content.
func (g *refGen) siblings(n, inl *gen.Node) {
	r := g.r
	if gen.Chance(r, 40) {
		n.Desc = gen.StringVal(r)
		if n.Desc != "" {
			inl.Desc = n.Desc
		}
	}
	if gen.Chance(r, 20) && inl.Type != "" {
		n.HasDefault, n.Default = true, defaultFor(r, &gen.Node{Type: inl.Type, DateTime: inl.DateTime, Items: &gen.Node{Type: "string"}})
		inl.HasDefault, inl.Default = true, n.Default
	}
	if gen.Chance(r, 25) && inl.Type != "object" && inl.Type != "array" {
		n.Tr = []gen.NamedTransform{{Ident: "it", T: section(r, g.src, 3, 20)}}
		inl.Tr = n.Tr
	}
	if gen.Chance(r, 15) {
		v := gen.Value(r, 2, gen.Idents)
		n.ExtraKeys = append(n.ExtraKeys, gen.Member{Key: "x-more", Val: v})
		inl.ExtraKeys = setKey(inl.ExtraKeys, "x-more", v)
	}
	if gen.Chance(r, 10) && inl.Type == "string" {
		k := r.Intn(5)
		n.MinLen, inl.MinLen = &k, &k
		g.changing = true
	}
	if gen.Chance(r, 10) && inl.Type != "" {
		// the same type but possibly null
		n.ExtraKeys = append(n.ExtraKeys, gen.Member{Key: "type", Val: []interface{}{inl.Type, "null"}})
		inl.Nullable, inl.NullFirst = true, false
		g.changing = true
	}
	if gen.Chance(r, 10) && inl.Type == "object" {
		n.Required = []string{"a", "b"}
		inl.Required = n.Required
		g.changing = true
	}
	if gen.Chance(r, 8) && inl.Type == "object" {
		p := []gen.Prop{{Name: "own", Node: scalarNode(r)}, {Name: "a", Node: scalarNode(r)}}
		n.ExtraKeys = append(n.ExtraKeys, gen.Member{Key: "properties", Val: (&gen.Node{Type: "object", Props: p}).JSON()[1].Val})
		inl.Props, inl.Free = p, false
		g.changing = true
	}
	if gen.Chance(r, 8) && inl.Type == "array" {
		it := scalarNode(r)
		n.ExtraKeys = append(n.ExtraKeys, gen.Member{Key: "items", Val: it.JSON()})
		inl.Items = it
		g.changing = true
	}
}

func setKey(o gen.Obj, key string, v interface{}) gen.Obj {
	return append(without(o, key), gen.Member{Key: key, Val: v})
}

// document makes one document, its definitions first.
func (g *refGen) document(path string, isHTTP, main bool) *refDoc {
	r := g.r
	d := &refDoc{path: path, http: isHTTP, defs: map[string]refPair{}, props: map[string]refPair{}, key: gen.Pick(r, []string{"definitions", "definitions", "$defs"})}
	if isHTTP && gen.Chance(r, 20) {
		d.query = gen.Pick(r, []string{"?v=1", "?a=b/c&d", "?x=http://x/y", "?"})
	}
	for _, name := range gen.NameSet(r, r.Intn(4), 0) {
		if strings.HasPrefix(name, "properties") {
			name = "p" + name // the validation library takes a definition of this name for properties
		}
		d.defs[name] = g.field(d, 2)
	}
	var root refPair
	if main || gen.Chance(r, 75) {
		n, inl := &gen.Node{Type: "object", Props: []gen.Prop{}}, &gen.Node{Type: "object", Props: []gen.Prop{}}
		for _, name := range gen.NameSet(r, 1+r.Intn(5), 25) {
			p := g.field(d, 2)
			n.Props = append(n.Props, gen.Prop{Name: name, Node: p.ref})
			inl.Props = append(inl.Props, gen.Prop{Name: name, Node: p.inl})
			d.props[name] = p
			if gen.Chance(r, 15) {
				n.Required = append(n.Required, name)
			}
		}
		inl.Required = n.Required
		if main && gen.Chance(r, 30) {
			for k := g.count(2); k > 0; k-- {
				if ref, t := g.target(d); t != nil && t.inl.Type == "object" {
					inlPart := *t.inl
					n.AllOf = append(n.AllOf, &gen.Node{Ref: ref, Target: t.ref})
					inl.AllOf = append(inl.AllOf, &inlPart)
					g.allOf = true
				}
			}
		}
		if !main && gen.Chance(r, 20) {
			// a composition which is left for the user of the schema
			for k := g.count(2); k > 0; k-- {
				p := g.field(d, 1)
				if gen.Chance(r, 50) {
					n.AnyOf, inl.AnyOf = append(n.AnyOf, p.ref), append(inl.AnyOf, p.inl)
				} else {
					n.OneOf, inl.OneOf = append(n.OneOf, p.ref), append(inl.OneOf, p.inl)
				}
			}
			g.uses["documents_with_alternatives"]++
		}
		if gen.Chance(r, 5) {
			text := strings.Repeat(gen.Pick(r, []string{"a", "long ", "\u00e4\n"}), 8000+r.Intn(60000))
			n.ExtraKeys = append(n.ExtraKeys, gen.Member{Key: "x-text", Val: text})
			inl.ExtraKeys = append(inl.ExtraKeys, gen.Member{Key: "x-text", Val: text})
			g.uses["big_documents"]++
			if isHTTP {
				g.uses["big_documents_from_url"]++
			}
		}
		root = refPair{n, inl}
	} else {
		p := g.field(&refDoc{path: path, http: isHTTP}, 0) // something without references
		if p.ref.Ref != "" {
			p.ref = p.inl
		}
		ref, inl := *p.ref, *p.inl
		root = refPair{&ref, &inl}
	}
	if gen.Chance(r, 20) {
		root.ref.SchemaDecl = "http://json-schema.org/draft-04/schema#"
	}
	d.root = &root
	g.docs = append(g.docs, d)
	return d
}

// plain reduces a loaded field to what it means: without the marks which loading leaves behind.
func plain(v interface{}) interface{} {
	m, ok := v.(map[string]interface{})
	if !ok {
		return v
	}
	out := map[string]interface{}{}
	for k, x := range m {
		switch k {
		case "fromRef", "definitions", "$defs", "$schema":
			continue
		case "type":
			if x == nil {
				continue
			}
			if s, ok := x.(string); ok {
				x = []interface{}{s}
			}
		case "additionalProperties":
			if x == true {
				continue
			}
		case "properties":
			if props, ok := x.(map[string]interface{}); ok {
				np := map[string]interface{}{}
				for name, p := range props {
					np[name] = plain(p)
				}
				x = np
			}
		case "items":
			x = plain(x)
		case "allOf", "anyOf", "oneOf":
			if l, ok := x.([]interface{}); ok {
				var nl []interface{}
				for _, p := range l {
					nl = append(nl, plain(p))
				}
				x = nl
			}
		}
		out[k] = x
	}
	return out
}

// schemaView is everything a user sees of a schema by walking it: path to content.
func schemaView(s *jsonschema.Schema) (map[string]string, error) {
	view := map[string]string{}
	err := jsonschema.WalkRaw(s, func(path string, raw json.RawMessage) error {
		v, err := decode(raw)
		if err != nil {
			return err
		}
		b, _ := json.Marshal(plain(v))
		view["raw "+path] += string(b)
		return nil
	})
	if err != nil {
		return nil, err
	}
	err = jsonschema.Walk(s, func(path string, i jsonschema.Instance) error {
		view["walk "+path] += instanceView(i)
		return nil
	})
	if err != nil {
		return nil, err
	}
	req := append([]string{}, s.Required...)
	sort.Strings(req)
	view["root"] = fmt.Sprint(s.Type, s.Description, s.Format, req, s.AdditionalProperties, s.Items != nil)
	return view, nil
}

// instanceView renders an Instance for comparisons.
func instanceView(i jsonschema.Instance) string {
	b, err := json.Marshal(i)
	if err != nil {
		return err.Error()
	}
	v, _ := decode(b)
	b, _ = json.Marshal(plain(v))
	return string(b)
}

func viewDiff(a, b map[string]string) string {
	keys := map[string]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if a[k] != b[k] {
			return fmt.Sprintf("%s: %s instead of %s", k, a[k], b[k])
		}
	}
	return ""
}

func init() {
	register(&h.Check{
		ID:    "J01",
		Rule:  "sets of up to six schema documents, in files of several directories and behind loopback URLs, whose fields, items, definitions, compositions and allOf parts refer to definitions and properties of their own document (by #, own file name or own URL), to whole documents and to parts of documents, with relative paths in several spellings, references within referenced content and keys next to references; each set is loaded beside one file with all content in place, in both flatten modes, and their walks, transform results and verdicts compared. Non-trivial: at least three references",
		Quick: 5000, Thorough: 120000,
		Need: []string{"own_definition", "own_property", "own_file_definition", "file", "file_definition", "url", "url_definition", "relative_url", "url_without_host", "url_without_scheme", "many_parts", "documents_with_alternatives", "big_documents", "big_documents_from_url", "views_equal", "transforms_equal", "verdicts_equal", "keys_next_to_references", "allof_by_reference"},
		Setup: func(w *h.Worker) error {
			w.Data = newDocServer()
			return nil
		},
		Run: runRefs,
	})
}

// notRefs are the uses which aren't references.
var notRefs = map[string]bool{"many_parts": true, "documents_with_alternatives": true, "big_documents": true, "big_documents_from_url": true}

func runRefs(c *h.Case) {
	r := c.R
	srv := c.Data.(*docServer)
	g := &refGen{r: r, uses: map[string]int{}, src: gen.Source(r)}
	dir := filepath.Join(c.Dir, fmt.Sprintf("refs%d", c.Idx)+oddDir(r))
	prefix := fmt.Sprintf("/c%d/", c.Idx)
	g.serveAt(srv, prefix)
	defer os.RemoveAll(dir)
	for i, n := 0, r.Intn(6); i < n; i++ {
		isHTTP := gen.Chance(r, 30)
		path := gen.Pick(r, []string{"", "sub/", "sub/deeper/", "other/"}) + fmt.Sprintf("d%d.json", i)
		g.document(path, isHTTP, false)
	}
	main := g.document(gen.Pick(r, []string{"", "sub/"})+"main.json", false, true)
	files := g.write(dir, srv, prefix)
	defer g.unserve(srv, prefix)
	inlText := gen.Render(main.root.inl.JSON(), gen.Layout{})
	inlPath := filepath.Join(dir, "inline.json")
	if err := os.WriteFile(inlPath, inlText, 0644); err != nil {
		panic(err)
	}
	total := 0
	for k, n := range g.uses {
		if !notRefs[k] {
			total += n
		}
		c.Add(k, int64(n))
	}
	detail := func() interface{} {
		return map[string]interface{}{"files": files, "main": main.path, "in_place": json.RawMessage(inlText)}
	}
	c.Eval(total >= 3, inlText, fmt.Sprint(files[main.path]))
	for _, flatten := range []bool{true, false} {
		load := jsonschema.SchemaFromFileNoFlatten
		if flatten {
			load = jsonschema.SchemaFromFile
		}
		var a, b *jsonschema.Schema
		var err, err2 error
		if !c.Guard("load", detail, func() {
			b, err2 = load(inlPath, "")
			a, err = load(filepath.Join(dir, main.path), "")
		}) {
			return
		}
		if err2 != nil {
			c.Fail("schema without references does not load: "+err2.Error(), detail())
			return
		}
		if err != nil {
			c.Fail("schema with references does not load: "+err.Error(), detail())
			return
		}
		va, err := schemaView(a)
		vb, err2 := schemaView(b)
		if err != nil || err2 != nil {
			c.Fail(fmt.Sprintf("walking fails: with references %v, in place %v", err, err2), detail())
			return
		}
		if d := viewDiff(va, vb); d != "" {
			c.Fail(fmt.Sprintf("flatten %v: fields differ: %s", flatten, d), detail())
			return
		}
		c.Count("views_equal")
		if !flatten {
			continue
		}
		ta, err := transform.NewTransformer(a, "it")
		tb, err2 := transform.NewTransformer(b, "it")
		if (err == nil) != (err2 == nil) {
			c.Fail(fmt.Sprintf("building a transformer: with references %v, in place %v", err, err2), detail())
			return
		}
		for i := 0; i < 3; i++ {
			raw := gen.RenderCompact(mutate(r, g.src, i))
			if err == nil {
				oa, _ := call(ta, raw, false)
				ob, _ := call(tb, raw, false)
				if oa != ob {
					c.Fail(fmt.Sprintf("transform of %s: with references %v, in place %v", raw, oa, ob), detail())
					return
				}
				c.Count("transforms_equal")
			}
			if g.changing {
				c.Count("constraints_next_to_references")
				continue
			}
			doc := rootNear(r, main.root.inl, 10)
			raw = gen.RenderCompact(doc)
			la, ea := a.Validate(raw)
			lb, eb := b.Validate(raw)
			if la != lb || (ea == nil) != (eb == nil) {
				c.Fail(fmt.Sprintf("verdict of %s: with references %v %v, in place %v %v", raw, la, ea, lb, eb), detail())
				return
			}
			c.Count("verdicts_equal")
			if la {
				c.Count("verdicts_positive")
			}
		}
	}
	if g.allOf {
		c.Count("allof_by_reference")
	}
	for _, f := range files {
		if strings.Contains(f, "x-more") {
			c.Count("keys_next_to_references")
		}
	}
	if total >= 3 && c.WantSample() {
		c.Sample(detail())
	}
}

// write writes the documents to files and the server.
func (g *refGen) write(dir string, srv *docServer, prefix string) map[string]string {
	files := map[string]string{}
	for _, sub := range []string{"sub/deeper", "other"} {
		os.MkdirAll(filepath.Join(dir, sub), 0755)
	}
	for _, d := range g.docs {
		text := gen.Render(d.JSON(), gen.Layout{R: g.r, Shuffle: true, Space: g.r.Intn(3)})
		if d.http {
			srv.docs.Store(prefix+d.path, text)
			files[g.name(d)] = string(text)
			continue
		}
		p := filepath.Join(dir, d.path)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, text, 0644); err != nil {
			panic(err)
		}
		files[d.path] = string(text)
	}
	return files
}

func (g *refGen) unserve(srv *docServer, prefix string) {
	for _, d := range g.docs {
		if d.http {
			srv.docs.Delete(prefix + d.path)
		}
	}
}

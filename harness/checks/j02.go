package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/gen"
	"verif/harness/h"
)

// compFile is a schema file with compositions.
type compFile struct {
	path  string // relative
	own   []gen.Prop
	props bool // has properties at all
	req   []string
	items *gen.Node
	allOf []compPart
	oneOf []compPart
	defs  []compDef
	typ   string
}

type compDef struct {
	name  string
	props []gen.Prop
	req   []string
}

// compPart is a part of a composition: a file, a definition or a schema in place.
type compPart struct {
	ref  string
	name string // what a requested type is compared with, "" for none
	file *compFile
	def  *compDef // a definition, or the schema in place if there is no reference
}

type composition struct {
	fields map[string]string // name to content
	req    map[string]bool
	items  string
}

func (c *composition) add(props []gen.Prop, req []string, items *gen.Node) {
	for _, p := range props {
		if _, ok := c.fields[p.Name]; !ok {
			c.fields[p.Name] = string(gen.RenderCompact(p.Node.JSON()))
		}
	}
	for _, r := range req {
		c.req[r] = true
	}
	if c.items == "" && items != nil {
		c.items = string(gen.RenderCompact(items.JSON()))
	}
}

func (c *composition) merge(o composition) {
	for k, v := range o.fields {
		if _, ok := c.fields[k]; !ok {
			c.fields[k] = v
		}
	}
	for r := range o.req {
		c.req[r] = true
	}
	if c.items == "" {
		c.items = o.items
	}
}

// compose is the rule.
func (f *compFile) compose(typ string, flatten bool) composition {
	c := composition{fields: map[string]string{}, req: map[string]bool{}}
	c.add(f.own, f.req, f.items)
	part := func(p compPart) {
		if p.file != nil {
			c.merge(p.file.compose(typ, flatten))
		} else {
			c.add(p.def.props, p.def.req, nil)
		}
	}
	if flatten || !f.props {
		for _, p := range f.allOf {
			part(p)
		}
	}
	for _, p := range f.oneOf {
		if p.name != "" && p.name == typ {
			part(p)
		}
	}
	return c
}

func (f *compFile) JSON() gen.Obj {
	var o gen.Obj
	props := func(ps []gen.Prop) gen.Obj {
		out := gen.Obj{}
		for _, p := range ps {
			out = append(out, gen.Member{Key: p.Name, Val: p.Node.JSON()})
		}
		return out
	}
	schema := func(d *compDef) gen.Obj {
		return gen.Obj{{Key: "type", Val: "object"}, {Key: "properties", Val: props(d.props)}, {Key: "required", Val: d.req}}
	}
	if f.typ != "" {
		o = append(o, gen.Member{Key: "type", Val: f.typ})
	}
	if f.props {
		o = append(o, gen.Member{Key: "properties", Val: props(f.own)})
	}
	if f.req != nil {
		o = append(o, gen.Member{Key: "required", Val: f.req})
	}
	if f.items != nil {
		o = append(o, gen.Member{Key: "items", Val: f.items.JSON()})
	}
	if f.defs != nil {
		d := gen.Obj{}
		for i := range f.defs {
			d = append(d, gen.Member{Key: f.defs[i].name, Val: schema(&f.defs[i])})
		}
		o = append(o, gen.Member{Key: "definitions", Val: d})
	}
	for key, parts := range map[string][]compPart{"allOf": f.allOf, "oneOf": f.oneOf} {
		if parts == nil {
			continue
		}
		var l []interface{}
		for _, p := range parts {
			if p.ref != "" {
				l = append(l, gen.Obj{{Key: "$ref", Val: p.ref}})
			} else {
				l = append(l, schema(p.def))
			}
		}
		o = append(o, gen.Member{Key: key, Val: l})
	}
	return o
}

var compNames = []string{"car", "Car", "truck", "car-x", "bike", "van_2", "tram", "bus", "base", "meta", "common"}

// makeComp makes the next file, of which the parts are among the earlier ones.
func makeComp(r *rand.Rand, k int, files []*compFile) *compFile {
	f := &compFile{props: true, typ: "object"}
	f.path = gen.Pick(r, []string{"", "", "sub/", "sub/deep/", "x/"}) + gen.Pick(r, compNames) + fmt.Sprint(k) + gen.Pick(r, []string{".json", ".json", ".v1.json", ".schema.json", ""})
	fields := func(from string, min int) (ps []gen.Prop, req []string) {
		req = []string{}
		// few names, for clashes
		for _, name := range gen.NameSet(r, min+r.Intn(4), 15) {
			n := scalarNode(r)
			if gen.Chance(r, 20) {
				n = &gen.Node{Type: "object", Props: []gen.Prop{{Name: "in", Node: scalarNode(r)}}}
			}
			n.Desc = from + " " + name
			ps = append(ps, gen.Prop{Name: name, Node: n})
			if gen.Chance(r, 30) {
				req = append(req, name)
			}
		}
		if gen.Chance(r, 10) {
			req = append(req, "elsewhere"+fmt.Sprint(r.Intn(3)))
		}
		return
	}
	f.own, f.req = fields(f.path, 1)
	if gen.Chance(r, 20) {
		f.req = nil
	}
	for n := r.Intn(3); n > 0 && gen.Chance(r, 50); n-- {
		d := compDef{name: gen.Pick(r, []string{"defA", "defB", "car", "bike"}) + fmt.Sprint(n)}
		d.props, d.req = fields(f.path+"#"+d.name, 1)
		f.defs = append(f.defs, d)
	}
	part := func() (compPart, bool) {
		var p compPart
		x := r.Intn(100)
		switch {
		case x < 70 && len(files) > 0:
			p.file = gen.Pick(r, files)
			p.ref, _ = filepath.Rel(filepath.Dir(f.path), p.file.path)
			if gen.Chance(r, 20) && !strings.HasPrefix(p.ref, "..") {
				p.ref = "./" + p.ref
			}
			p.name = strings.Split(filepath.Base(p.file.path), ".")[0]
		case x < 80 && len(files) > 0:
			o := gen.Pick(r, files)
			if len(o.defs) == 0 {
				return p, false
			}
			p.def = &o.defs[r.Intn(len(o.defs))]
			p.ref, _ = filepath.Rel(filepath.Dir(f.path), o.path)
			p.ref += "#/definitions/" + p.def.name
			p.name = p.def.name
		case x < 90 && len(f.defs) > 0:
			p.def = &f.defs[r.Intn(len(f.defs))]
			p.ref = "#/definitions/" + p.def.name
			p.name = p.def.name
		default:
			p.def = &compDef{}
			p.def.props, p.def.req = fields(f.path+" in place", 1)
		}
		return p, true
	}
	for n := r.Intn(4); n > 0; n-- {
		if p, ok := part(); ok {
			f.allOf = append(f.allOf, p)
		}
	}
	names := map[string]bool{}
	for n := r.Intn(4); n > 0; n-- {
		if p, ok := part(); ok && (p.name == "" || !names[p.name]) {
			names[p.name] = true
			f.oneOf = append(f.oneOf, p)
		}
	}
	if gen.Chance(r, 25) && len(f.allOf)+len(f.oneOf) > 0 {
		f.own, f.props = nil, false
		if gen.Chance(r, 50) {
			f.typ = ""
		}
	}
	if gen.Chance(r, 10) {
		f.items = scalarNode(r)
		f.items.Desc = f.path + " items"
	}
	return f
}

func init() {
	register(&h.Check{
		ID:    "J02",
		Rule:  "sets of up to seven schema files which compose each other with allOf and oneOf (files, definitions of the own and of other files, schemas in place), with clashing fields, own fields or none, several dots and directories in names; each file is loaded with every requested type which names some alternative and several which name none, in both flatten modes and in random order, and its fields, their content, required names and items compared with the composition rule. Non-trivial: the rule merges at least one part",
		Quick: 1000, Thorough: 60000,
		Need: []string{"loads", "lookalike_loads", "loads_merging_parts", "clashes_resolved", "alternatives_selected", "parts_left_unmerged", "loads_without_own_fields", "nested_compositions"},
		Run:  runCompositions,
	})
}

func runCompositions(c *h.Case) {
	r := c.R
	dir := filepath.Join(c.Dir, fmt.Sprintf("comp%d", c.Idx)+oddDir(r))
	defer os.RemoveAll(dir)
	var files []*compFile
	texts := map[string]string{}
	for k, n := 0, 2+r.Intn(6); k < n; k++ {
		f := makeComp(r, k, files)
		for i := range f.own {
			if gen.Chance(r, 5) {
				f.own[i].Node = &gen.Node{} // anything
			}
		}
		files = append(files, f)
		text := gen.Render(f.JSON(), gen.Layout{R: r, Shuffle: true, Space: r.Intn(3)})
		p := filepath.Join(dir, f.path)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, text, 0644); err != nil {
			panic(err)
		}
		texts[f.path] = string(text)
	}
	var jobs []compJob
	types := map[string]bool{"": true, "none": true, ".": true, "json": true}
	for _, f := range files {
		for _, p := range f.oneOf {
			types[p.name] = true
		}
	}
	list := sortedKeys(types)
	for i := len(files) - 1; i >= 0 && i >= len(files)-3; i-- {
		for _, typ := range list {
			jobs = append(jobs, compJob{files[i], typ, true}, compJob{files[i], typ, false})
		}
	}
	if j := gen.Pick(r, jobs); len(j.typ) > 1 && gen.Chance(r, 40) {
		// a file whose path and a type together are the same text as those of another load
		k := 1 + r.Intn(len(j.typ)-1)
		f := makeComp(r, 99, nil)
		f.path = j.f.path + j.typ[:k]
		text := gen.Render(f.JSON(), gen.Layout{})
		if err := os.WriteFile(filepath.Join(dir, f.path), text, 0644); err != nil {
			panic(err)
		}
		texts[f.path] = string(text)
		jobs = append(jobs, compJob{f, j.typ[k:], j.flatten})
		c.Count("lookalike_loads")
	}
	r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	for _, j := range jobs {
		detail := func() interface{} {
			return map[string]interface{}{"files": texts, "loaded": j.f.path, "type": j.typ, "flatten": j.flatten}
		}
		load := jsonschema.SchemaFromFileNoFlatten
		if j.flatten {
			load = jsonschema.SchemaFromFile
		}
		var s *jsonschema.Schema
		var err error
		if !c.Guard("load", detail, func() { s, err = load(filepath.Join(dir, j.f.path), j.typ) }) {
			return
		}
		if err != nil {
			c.Fail("composition does not load: "+err.Error(), detail())
			return
		}
		want := j.f.compose(j.typ, j.flatten)
		merging := len(want.fields) > len(j.f.own)
		c.Eval(merging, j.f.path, j.typ, fmt.Sprint(j.flatten), texts[j.f.path])
		c.Count("loads")
		if d := compDiff(s, want, j.f); d != "" {
			c.Fail(d, detail())
			return
		}
		j.observe(c, merging)
		if merging && c.WantSample() {
			c.Sample(detail())
		}
	}
}

// observe counts what kind of composition was seen.
func (j compJob) observe(c *h.Case, merging bool) {
	if merging {
		c.Count("loads_merging_parts")
	}
	if !j.f.props {
		c.Count("loads_without_own_fields")
	} else if !j.flatten && len(j.f.allOf) > 0 {
		c.Count("parts_left_unmerged")
	}
	seen := map[string]bool{}
	for _, p := range j.f.own {
		seen[p.Name] = true
	}
	for i, p := range append(append([]compPart{}, j.f.allOf...), j.f.oneOf...) {
		if i >= len(j.f.allOf) {
			if p.name == "" || p.name != j.typ {
				c.Count("alternatives_not_selected")
				continue
			}
			c.Count("alternatives_selected")
		} else if !j.flatten && j.f.props {
			continue
		}
		var names map[string]string
		if p.file != nil {
			names = p.file.compose(j.typ, j.flatten).fields
			if len(p.file.allOf)+len(p.file.oneOf) > 0 {
				c.Count("nested_compositions")
			}
		} else {
			names = map[string]string{}
			for _, q := range p.def.props {
				names[q.Name] = ""
			}
		}
		for n := range names {
			if seen[n] {
				c.Count("clashes_resolved")
			}
			seen[n] = true
		}
	}
}

type compJob struct {
	f       *compFile
	typ     string
	flatten bool
}

func compDiff(s *jsonschema.Schema, want composition, f *compFile) string {
	got := map[string]string{}
	for k, v := range s.Properties {
		got[k] = string(v)
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want.fields[k]; !ok {
			return fmt.Sprintf("field %q does not belong there: %s", k, got[k])
		}
	}
	for _, k := range sortedKeys(want.fields) {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("field %q is missing, it should be %s", k, want.fields[k])
		}
		if !samePlain(g, want.fields[k]) {
			return fmt.Sprintf("field %q is %s, it should be %s", k, g, want.fields[k])
		}
	}
	req := map[string]bool{}
	for _, q := range s.Required {
		req[q] = true
	}
	if a, b := sortedKeys(req), sortedKeys(want.req); fmt.Sprint(a) != fmt.Sprint(b) {
		return fmt.Sprintf("required are %q, they should be %q", a, b)
	}
	if (s.Items != nil) != (want.items != "") || s.Items != nil && !samePlain(string(s.Items), want.items) {
		return fmt.Sprintf("items are %s, they should be %s", s.Items, want.items)
	}
	if len(s.AllOf) != len(f.allOf) || len(s.OneOf) != len(f.oneOf) {
		return fmt.Sprintf("%d allOf and %d oneOf parts are listed of %d and %d", len(s.AllOf), len(s.OneOf), len(f.allOf), len(f.oneOf))
	}
	for i, p := range f.allOf {
		if s.AllOf[i].FromRef != p.ref {
			return fmt.Sprintf("allOf part %d is from %q, it should be %q", i, s.AllOf[i].FromRef, p.ref)
		}
	}
	return ""
}

// samePlain compares two fields up to the marks of loading.
func samePlain(a, b string) bool {
	x, err := decode([]byte(a))
	y, err2 := decode([]byte(b))
	if err != nil || err2 != nil {
		return false
	}
	p, _ := json.Marshal(plain(x))
	q, _ := json.Marshal(plain(y))
	return string(p) == string(q)
}

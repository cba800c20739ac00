package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/gen"
	"verif/harness/gproj"
	"verif/harness/h"
	"verif/harness/sdl"
)

// gqlRun compares the GraphQL of one run with the schema.
type gqlRun struct {
	u       *gproj.Unit
	defs    map[string]*sdl.Type
	reached map[string]*gproj.P
	models  map[string]map[string]bool // Go types and their JSON members
	bad     []string
	seen    map[string]int64
}

func (g *gqlRun) diff(format string, args ...interface{}) {
	if len(g.bad) < 12 {
		g.bad = append(g.bad, clip(fmt.Sprintf(format, args...)))
	}
}

// lines normalises a description: block strings lose their indentation and blank lines at the ends.
func lines(s string) string {
	var out []string
	for _, l := range strings.Split(strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(s), "\n") {
		out = append(out, strings.TrimSpace(l))
	}
	return strings.Trim(strings.Join(out, "\n"), "\n")
}

// gqlDesc gives the description and the deprecation reason of a field.
func gqlDesc(s string) (desc, reason string, deprecated bool) {
	if rest, ok := strings.CutPrefix(s, "DEPRECATED:"); ok {
		first, more, _ := strings.Cut(rest, "\n")
		return more, strings.TrimSpace(first), true
	}
	return s, "", false
}

func bang(s string, b bool) string {
	if b {
		return s + "!"
	}
	return s
}

// item gives the type of a value which is no list; name is used for objects.
func (g *gqlRun) item(n *gproj.N, req bool, name string) string {
	if t := n.Target(); t != "" {
		return bang(t, !n.Null && (req || !g.u.O.Pointers))
	}
	switch n.K {
	case "date-time":
		return "DateTime"
	case "object":
		if len(n.Props) == 0 {
			return "Any"
		}
		return bang(name, !n.Null && (req || !g.u.O.Pointers))
	}
	return bang(map[string]string{"boolean": "Boolean", "number": "Float", "integer": "Int", "string": "String"}[n.K], !n.Null)
}

func (g *gqlRun) typeOf(n *gproj.N, req bool, name string) string {
	switch {
	case n.K == "graphql-hydration":
		return n.Target()
	case n.K != "array":
		return g.item(n, req, name)
	}
	outer := !n.Null && (req || !g.u.O.Pointers)
	if n.Items.K == "graphql-hydration" {
		return bang("["+n.Items.Target()+"]", outer)
	}
	return bang("["+g.item(n.Items, req, name)+"]", outer)
}

// natural gives the name a nested type has.
func (g *gqlRun) natural(parent, prop string) string {
	s := strings.Title(parent) + strings.Title(prop)
	if to, ok := g.u.P.GraphQL[s]; ok {
		return to
	}
	return s
}

// object compares a type with the properties it should have.
func (g *gqlRun) object(path string, t *sdl.Type, ps []gproj.P, parent string, model bool) {
	if by := g.reached[t.Name]; by != nil {
		if by == &ps[0] && g.u.O.Embed {
			g.seen["types shared by alternatives"]++ // which both have the part with the object
			return
		}
		g.diff("%s: the type %s is used for several objects", path, t.Name)
		return
	}
	g.reached[t.Name] = &ps[0]
	g.seen["types compared"]++
	count := 0
	stored := map[string]bool{}
	for _, p := range ps {
		at := path + "." + p.Name
		f := t.Field(p.Name)
		if f == nil {
			g.diff("%s: %s has no such field", at, t.Name)
			continue
		}
		count++
		n := p.N
		obj := n
		if n.K == "array" {
			obj = n.Items
		}
		name := strings.NewReplacer("[", "", "]", "", "!", "").Replace(f.Type)
		if want := g.typeOf(n, p.Req, name); f.Type != want {
			g.diff("%s: the type is %s instead of %s", at, f.Type, want)
		}
		if goSees(n) {
			stored[p.Name] = true
		}
		g.describe(at, f, n.Desc)
		if n.Null || obj.Null {
			g.seen["nullable fields compared"]++
		}
		if n.K == "array" {
			count++
			g.seen["lists compared"]++
			total := t.Field("total" + g.u.FieldName(p.Name))
			if total == nil {
				g.diff("%s: there is no total field", at)
			} else {
				if total.Type != "Int!" {
					g.diff("%s: the total is %s", at, total.Type)
				}
				_, r, d := gqlDesc(n.Desc)
				g.deprecation(at+" total", total, r, d)
			}
		}
		if n.Target() != "" || obj.Target() != "" {
			g.seen["fields with a target compared"]++
			for _, m := range n.Extra {
				if m.Key == "graphql-arguments" {
					var want []string
					for _, x := range m.Val.([]interface{}) {
						if k, _, ok := strings.Cut(x.(string), ":"); ok {
							want = append(want, k)
						}
					}
					var got []string
					for _, a := range f.Args {
						got = append(got, a.Name)
					}
					if n.K != "array" && !reflect.DeepEqual(want, got) {
						g.diff("%s: the arguments are %v instead of %v", at, got, want)
					}
					g.seen["arguments compared"]++
				}
			}
			continue
		}
		if obj.K == "object" && len(obj.Props) > 0 {
			sub := g.defs[name]
			if sub == nil || sub.Kind != "type" {
				g.diff("%s: the type %s is not defined", at, name)
				continue
			}
			natural := g.natural(parent, p.Name)
			if g.u.P.GraphQL[strings.Title(parent)+strings.Title(p.Name)] != "" && strings.TrimRight(name, "_") != strings.TrimRight(natural, "_") {
				g.diff("%s: the type is called %s instead of %s", at, name, natural)
			}
			if lines(sub.Desc) != lines(obj.Desc) {
				g.diff("%s: the description of the type is %q", at, sub.Desc)
			}
			g.object(at, sub, obj.Props, name, model)
		}
	}
	if count != len(t.Fields) {
		var names []string
		for _, f := range t.Fields {
			names = append(names, f.Name)
		}
		g.diff("%s: %d fields instead of %d: %v", path, len(t.Fields), count, names)
	}
	if !model {
		return
	}
	d := sdl.Find(t.Directives, "goModel")
	if d == nil {
		if len(stored) > 0 {
			g.diff("%s: no model", path)
		}
		return
	}
	name, ok := strings.CutPrefix(d.Arg("model"), "gp/"+g.u.Pkg+".")
	members := g.models[name]
	if !ok || members == nil {
		g.diff("%s: the model %q is no Go type of the package", path, d.Arg("model"))
		return
	}
	for f := range stored {
		if !members[f] {
			g.diff("%s: the model %s has no %s", path, name, f)
		}
	}
	g.seen["models found"]++
}

func (g *gqlRun) describe(at string, f *sdl.Field, text string) {
	desc, reason, dep := gqlDesc(text)
	if lines(f.Desc) != lines(desc) {
		g.diff("%s: the description is %q", at, f.Desc)
	}
	if desc != "" {
		g.seen["descriptions compared"]++
	}
	g.deprecation(at, f, reason, dep)
}

func (g *gqlRun) deprecation(at string, f *sdl.Field, reason string, dep bool) {
	d := sdl.Find(f.Directives, "deprecated")
	switch {
	case dep != (d != nil):
		g.diff("%s: deprecated is %v", at, d != nil)
	case dep:
		g.seen["deprecations compared"]++
		if d.Arg("reason") != reason {
			g.diff("%s: the reason is %q", at, d.Arg("reason"))
		}
	}
}

// run compares what one run wrote with the schema it ran on.
func (g *gqlRun) run(root *gproj.Part) {
	name := func(base, natural string) string {
		if to, ok := g.u.P.GraphQL[base]; ok {
			return to
		}
		return natural
	}
	var kinds []string
	for _, t := range g.defs {
		kinds = append(kinds, t.Kind)
	}
	find := func(n, kind string) *sdl.Type {
		t := g.defs[n]
		if t == nil || t.Kind != kind {
			g.diff("there is no %s %s", kind, n)
			return nil
		}
		return t
	}
	var iface *sdl.Type
	var common []gproj.P
	for _, a := range root.AllOf {
		for _, q := range a.All() {
			if !slices.ContainsFunc(common, func(x gproj.P) bool { return x.Name == q.Name }) {
				common = append(common, q)
			}
		}
	}
	switch {
	case len(root.AllOf) > 0 && len(root.OneOf) > 0:
		n := name(root.Base, strings.Title(root.Base))
		if iface = find(n, "interface"); iface == nil {
			return
		}
		parent := strings.Title(g.u.TypeName(root.AllOf[0]))
		if to, ok := g.u.P.GraphQL[root.AllOf[0].Base]; ok {
			parent = to
		}
		g.object(n, iface, common, parent, false)
		g.seen["interfaces compared"]++
	case len(root.AllOf) > 0:
		// its name is that of the package
		var t *sdl.Type
		for _, x := range g.defs {
			if x.Kind == "type" && x.Field(common[0].Name) != nil && x.Name == strings.Title(g.u.Pkg) {
				t = x
			}
		}
		if t == nil {
			g.diff("there is no type %s", strings.Title(g.u.Pkg))
			return
		}
		parent := strings.Title(g.u.TypeName(root.AllOf[0]))
		if to, ok := g.u.P.GraphQL[root.AllOf[0].Base]; ok {
			parent = to
		}
		g.object(t.Name, t, common, parent, len(root.AllOf) == 1)
	case len(root.OneOf) == 0:
		n := name(root.Base, strings.Title(g.u.TypeName(root)))
		if t := find(n, "type"); t != nil {
			g.object(n, t, root.N.Props, n, true)
			if lines(t.Desc) != lines(root.Desc) {
				g.diff("%s: the description of the type is %q", n, t.Desc)
			}
		}
	}
	for _, o := range root.OneOf {
		natural := strings.Title(g.u.TypeName(o))
		if iface != nil {
			natural = strings.ToLower(o.Base)
		}
		n := name(o.Base, natural)
		t := find(n, "type")
		if t == nil {
			continue
		}
		if iface != nil && (len(t.Implements) != 1 || t.Implements[0] != iface.Name) || iface == nil && len(t.Implements) > 0 {
			g.diff("%s implements %v", n, t.Implements)
		}
		if lines(t.Desc) != lines(o.Desc) {
			g.diff("%s: the description of the type is %q", n, t.Desc)
		}
		// The fields of the interface are repeated as they are unless the alternative has them itself, the others are
		// compared with the schema.
		own := *t
		own.Fields = nil
		var inherited []*sdl.Field
		again := map[string]bool{}
		for _, p := range o.All() {
			again[p.Name] = true
			if p.N.K == "array" {
				again["total"+g.u.FieldName(p.Name)] = true
			}
		}
		redefined := 0
		for _, f := range t.Fields {
			if iface != nil && iface.Field(f.Name) != nil && again[f.Name] {
				if redefined++; f.Type != iface.Field(f.Name).Type {
					g.diff("%s.%s: the type is not that of the interface", n, f.Name)
				}
				g.seen["redefined fields compared"]++
				own.Fields = append(own.Fields, f)
			} else if iface != nil && iface.Field(f.Name) != nil {
				inherited = append(inherited, f)
				if !f.Same(iface.Field(f.Name)) {
					g.diff("%s.%s is not as the interface defines it", n, f.Name)
				}
				g.seen["inherited fields compared"]++
			} else {
				own.Fields = append(own.Fields, f)
			}
		}
		if iface != nil && len(inherited)+redefined != len(iface.Fields) {
			g.diff("%s has %d of the %d fields of the interface", n, len(inherited)+redefined, len(iface.Fields))
		}
		g.object(n, &own, o.All(), n, g.u.O.Embed || len(o.AllOf) == 0)
		g.seen["alternatives compared"]++
	}
	for n, t := range g.defs {
		if g.reached[n] == nil && t.Kind != "scalar" {
			g.diff("the %s %s belongs to nothing", t.Kind, n)
		}
	}
}

// goModels lists the struct types of the generated Go files with their JSON members.
func goModels(dir string) map[string]map[string]bool {
	types := map[string]*ast.StructType{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range file.Decls {
			if gd, ok := d.(*ast.GenDecl); ok {
				for _, s := range gd.Specs {
					if ts, ok := s.(*ast.TypeSpec); ok {
						if st, ok := ts.Type.(*ast.StructType); ok {
							types[ts.Name.Name] = st
						}
					}
				}
			}
		}
	}
	out := map[string]map[string]bool{}
	var add func(to map[string]bool, st *ast.StructType)
	add = func(to map[string]bool, st *ast.StructType) {
		for _, f := range st.Fields.List {
			if len(f.Names) == 0 {
				if id, ok := f.Type.(*ast.Ident); ok && types[id.Name] != nil {
					add(to, types[id.Name])
				}
				continue
			}
			tag, _ := strconv.Unquote(f.Tag.Value)
			to[strings.Split(reflect.StructTag(tag).Get("json"), ",")[0]] = true
		}
	}
	for n, st := range types {
		out[n] = map[string]bool{}
		add(out[n], st)
	}
	return out
}

func flat(ps []gproj.P) bool {
	for _, p := range ps {
		n := p.N
		if n.K == "array" {
			n = n.Items
		}
		if len(n.Props) > 0 {
			return false
		}
	}
	return true
}

func g08Run(c *h.Case) {
	r := c.R
	p := gproj.Make(c.Seed, c.Idx, gproj.Style{GraphQL: true, Single: 35, Deep: []int{1, 2, 3, 4}[r.Intn(4)]})
	in := filepath.Join(c.Dir, fmt.Sprintf("p%d", c.Idx), "schemas")
	if err := gproj.WriteFiles(in, p.Files); err != nil {
		c.Fail("the schema files cannot be written", map[string]interface{}{"error": err.Error()})
		return
	}
	isFlat := true
	for _, pt := range p.Parts {
		isFlat = isFlat && flat(pt.N.Props)
	}
	for k := 0; k < 3; k++ {
		o := gproj.Opt{NoNested: !isFlat || gen.Chance(r, 50), Pointers: gen.Chance(r, 50), DescTag: gen.Chance(r, 50), Embed: gen.Chance(r, 60)}
		pkg := fmt.Sprintf("pk%d", k)
		if gen.Chance(r, 30) && asciiIdent(p.Root.Base) {
			pkg = strings.ToLower(p.Root.Base)
		}
		out := filepath.Join(c.Dir, fmt.Sprintf("p%d", c.Idx), fmt.Sprintf("o%d", k))
		u := &gproj.Unit{P: p, O: o, Pkg: pkg, Dir: filepath.Join(out, pkg), In: in}
		files, scalar := gen.Chance(r, 40), gen.Chance(r, 40)
		os.MkdirAll(u.Dir, 0755)
		for ri, run := range p.Runs {
			args := u.Args(filepath.Join(in, run.File))
			args.GenerateGraphQL, args.InterfaceFiles, args.ScalarAny, args.GraphQLTypeNameMap = true, files, scalar, p.GraphQL
			dir := filepath.Join(out, fmt.Sprintf("gql%d", ri))
			os.MkdirAll(dir, 0755)
			args.OutputDirGraphQL = dir
			info := func(m map[string]interface{}) map[string]interface{} {
				m["run"], m["interfaceFiles"], m["scalarAny"], m["graphQLNames"] = run.File, files, scalar, p.GraphQL
				text := map[string]string{}
				fs, _ := filepath.Glob(filepath.Join(dir, "*"))
				for _, f := range fs {
					b, _ := os.ReadFile(f)
					text[filepath.Base(f)] = string(b)
				}
				m["graphql"] = text
				return u.Info(m)
			}
			if err := gproj.Protect(60*time.Second, func() error { return generate.BuildStructsWithArgs(args) }); err != nil {
				c.Fail("generation fails", info(map[string]interface{}{"error": err.Error()}))
				return
			}
			g := &gqlRun{u: u, defs: map[string]*sdl.Type{}, reached: map[string]*gproj.P{}, seen: map[string]int64{}, models: goModels(u.Dir)}
			fs, _ := filepath.Glob(filepath.Join(dir, "*"))
			sort.Strings(fs)
			var all []byte
			scalars := 0
			for _, f := range fs {
				b, _ := os.ReadFile(f)
				all = append(all, b...)
				ts, err := sdl.Parse(string(b))
				if err != nil {
					c.Fail("the GraphQL is not well-formed", info(map[string]interface{}{"error": err.Error(), "file": filepath.Base(f)}))
					return
				}
				for _, t := range ts {
					if t.Kind == "scalar" {
						scalars++
						if t.Name != "Any" {
							g.diff("there is a scalar %s", t.Name)
						}
						continue
					}
					if g.defs[t.Name] != nil {
						g.diff("the type %s is defined twice", t.Name)
					}
					t.File = filepath.Base(f)
					g.defs[t.Name] = t
				}
			}
			if scalar != (scalars == 1) || scalars > 1 {
				g.diff("there are %d scalars", scalars)
			}
			want := 1
			if files {
				want += len(run.OneOf)
			}
			if len(fs) != want {
				g.diff("there are %d files instead of %d: %v", len(fs), want, fs)
			}
			g.run(run)
			if len(g.bad) > 0 {
				c.Fail("the GraphQL does not describe the schema", info(map[string]interface{}{"differences": g.bad}))
				return
			}
			for k, v := range g.seen {
				c.Add(k, v)
			}
			if files && len(run.OneOf) > 0 {
				c.Count("runs with interface files")
			}
			if !o.NoNested {
				c.Count("runs without named structs")
			}
			c.Count("runs compared")
			c.Eval(len(g.defs) > 1, all)
			if k == 0 && c.WantSample() && len(g.defs) < 6 {
				c.Sample(info(map[string]interface{}{}))
			}
		}
	}
	os.RemoveAll(filepath.Join(c.Dir, fmt.Sprintf("p%d", c.Idx)))
}

func asciiIdent(s string) bool {
	for _, c := range s {
		if c != '_' && (c < 'a' || c > 'z') && (c < 'A' || c > 'Z') && (c < '0' || c > '9') {
			return false
		}
	}
	return true
}

func init() {
	register(&h.Check{
		ID:          "G08",
		Rule:        "a case is one random schema project (nested and repeated objects, nullable types, deprecations, descriptions of any kind, hydration fields with arguments, fields with a target, allOf and oneOf parts which have allOf parts of their own, renames of fields, structs and types) generated under three random option sets (pointers, embedding, interface files, scalar, GraphQL directory); the GraphQL is parsed by an independent parser of the schema language, and every type, field, list, non-null mark, description, deprecation, total, argument, implementation and Go model is compared with the schema",
		Assumptions: []string{"property names are GraphQL names", "nested objects are generated as named types (nestedStructs=false), GraphQL has no others", "properties beside allOf and oneOf are not part of the GraphQL (documented)", "the model of a type made of several allOf parts is not decided (documented)"},
		Quick:       4000, Thorough: 60000,
		Run:  g08Run,
		Need: []string{"types compared", "lists compared", "nullable fields compared", "fields with a target compared", "arguments compared", "descriptions compared", "deprecations compared", "models found", "interfaces compared", "alternatives compared", "inherited fields compared", "runs with interface files", "runs without named structs", "redefined fields compared"},
	})
}

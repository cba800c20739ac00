package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/gen"
	"verif/harness/gproj"
	"verif/harness/h"
)

// g10Case is a project with options, generated again and again.
type g10Case struct {
	p    *gproj.Proj
	args generate.BuildArgs
}

// generate runs the generation of all files; the paths may be relative.
func (g *g10Case) generate(args generate.BuildArgs, in, out, gql string) []string {
	var errs []string
	for _, run := range g.p.Runs {
		args.SchemaPath, args.OutputDir, args.OutputDirGraphQL = in+run.File, out, gql
		if err := gproj.Protect(60*time.Second, func() error { return generate.BuildStructsWithArgs(args) }); err != nil {
			errs = append(errs, run.File+": "+err.Error())
		}
	}
	return errs
}

// made keeps what was generated of a tree.
func made(t map[string]string, keep map[string]string) map[string]string {
	out := map[string]string{}
	for n, s := range t {
		if _, ok := keep[n]; ok || keep == nil {
			out[n] = s
		}
	}
	return out
}

// other gives options which write mostly the same files with another content.
func other(r *rand.Rand, a generate.BuildArgs) generate.BuildArgs {
	a.NoNestedStructs = a.NoNestedStructs != gen.Chance(r, 50)
	a.Pointers = a.Pointers != gen.Chance(r, 50)
	a.DescriptionAsStructTag = !a.DescriptionAsStructTag
	a.EmbedAllOf = a.EmbedAllOf != gen.Chance(r, 50)
	a.ScalarAny = !a.ScalarAny
	return a
}

func g10Run(c *h.Case) {
	r := c.R
	base := filepath.Join(c.Dir, fmt.Sprintf("c%d", c.Idx))
	defer os.RemoveAll(base)
	style := genStyle(r)
	if !style.Avro && !style.GraphQL && gen.Chance(r, 50) {
		style.Names = []string{"größe", "été", "x_y_z"}
	}
	p := gproj.Make(c.Seed, c.Idx, style)
	pkg := fmt.Sprintf("pk%d", r.Intn(3))
	g := &g10Case{p: p, args: genArgs(r, p, style, pkg)}
	separate := gen.Chance(r, 50)
	dirs := func(name string) (out, gql string) {
		out = filepath.Join(base, name, pkg)
		if separate {
			gql = filepath.Join(base, name, "gql")
			os.MkdirAll(gql, 0755)
		}
		os.MkdirAll(out, 0755)
		return out, gql
	}
	in := filepath.Join(base, "in", "schemas") + "/"
	if err := gproj.WriteFiles(in, p.Files); err != nil {
		c.Fail("the schema files cannot be written", map[string]interface{}{"error": err.Error()})
		return
	}
	inputs := tree(filepath.Join(base, "in"))
	info := func(m map[string]interface{}) map[string]interface{} {
		m["options"] = fmt.Sprintf("%+v", g.args)
		files := map[string]string{}
		for _, f := range p.Files {
			files[f.Name] = string(f.Text)
		}
		m["schemas"] = files
		return m
	}

	out, gql := dirs("first")
	if errs := g.generate(g.args, in, out, gql); len(errs) > 0 {
		c.Fail("generation fails", info(map[string]interface{}{"errors": errs}))
		return
	}
	first := tree(filepath.Join(base, "first"))
	files := 0
	for _, s := range first {
		if s != "/" {
			files++
		}
	}
	compare := func(kind, name string, exact bool, errs []string, extra map[string]interface{}) bool {
		if extra == nil {
			extra = map[string]interface{}{}
		}
		extra["kind"] = kind
		if len(errs) > 0 {
			extra["errors"] = errs
			c.Fail("generating again fails", info(extra))
			return false
		}
		got := tree(filepath.Join(base, name))
		if !exact {
			got = made(got, first)
		}
		if d := treeDiff(first, got, "the first run", kind); len(d) > 0 {
			extra["differences"] = d
			c.Fail("generating again gives other files", info(extra))
			return false
		}
		c.Count("compared: " + kind)
		c.Add("files compared", int64(files))
		return true
	}

	// Again into the same directory and into fresh ones.
	if !compare("the same directory", "first", true, g.generate(g.args, in, out, gql), nil) {
		return
	}
	for i := 0; i < 2; i++ {
		name := fmt.Sprintf("fresh%d/deeper", i)
		out, gql := dirs(name)
		if !compare("a fresh directory", name, true, g.generate(g.args, in, out, gql), nil) {
			return
		}
	}
	// Into a directory with the files of other options, or of shorter and longer ones of the same names.
	{
		out, gql := dirs("stale")
		o := other(r, g.args)
		if errs := g.generate(o, in, out, gql); len(errs) == 0 {
			c.Count("directories with files of other options")
		}
		if !compare("a directory with files of other options", "stale", false, g.generate(g.args, in, out, gql), map[string]interface{}{"other": fmt.Sprintf("%+v", o)}) {
			return
		}
	}
	{
		dirs("longer")
		dir := filepath.Join(base, "longer")
		for n, s := range first {
			if s == "/" {
				os.MkdirAll(filepath.Join(dir, n), 0755)
				continue
			}
			os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755)
			tail := "\n# more\n# and more\n"
			if strings.HasSuffix(n, ".go") {
				tail = "\n// more\n// and more\n"
			}
			if gen.Chance(r, 20) {
				s, tail = s[:len(s)/2], ""
				if gen.Chance(r, 40) {
					s = ""
				}
				if strings.HasSuffix(n, ".go") && (s != "" || g.args.GenerateAvro || g.args.GenerateMessagePack) {
					// these are read for the other generated files
					s = "package " + pkg + "\n"
				}
			}
			os.WriteFile(filepath.Join(dir, n), []byte(s+tail), 0644)
		}
		os.WriteFile(filepath.Join(dir, pkg, "README.md"), []byte("# about\n"), 0644)
		out, gql := dirs("longer")
		if !compare("a directory with longer and shorter files", "longer", false, g.generate(g.args, in, out, gql), nil) {
			return
		}
		if b, _ := os.ReadFile(filepath.Join(out, "README.md")); string(b) != "# about\n" {
			c.Fail("a file of the output directory which is not generated is changed", info(map[string]interface{}{"content": string(b)}))
			return
		}
	}
	// From schemas whose objects have their members in another order.
	for i := 0; i < 2; i++ {
		name := fmt.Sprintf("shuffled%d", i)
		l := gen.Layout{R: r, Shuffle: true, Space: r.Intn(3)}
		texts := gproj.Render(rand.New(rand.NewSource(1)), p, l)
		other := filepath.Join(base, name+"in", "schemas") + "/"
		gproj.WriteFiles(other, texts)
		shown := map[string]string{}
		for _, f := range texts {
			shown[f.Name] = string(f.Text)
		}
		out, gql := dirs(name)
		if !compare("another order of members", name, true, g.generate(g.args, other, out, gql), map[string]interface{}{"reordered": shown}) {
			return
		}
	}
	// With relative paths.
	wd, err := os.Getwd()
	if err != nil {
		wd = "/"
	}
	for i := 0; i < 2; i++ {
		name := fmt.Sprintf("relative%d", i)
		out, gql := dirs(name)
		cwd := gen.Pick(r, []string{base, filepath.Join(base, "in"), filepath.Join(base, "in", "schemas"), out, filepath.Dir(out), filepath.Join(base, "first")})
		rel := func(p string) string {
			if p == "" {
				return ""
			}
			s, _ := filepath.Rel(cwd, p)
			if gen.Chance(r, 25) {
				return p
			}
			if gen.Chance(r, 25) {
				s = "./" + s
			}
			return s
		}
		rin, rout, rgql := rel(strings.TrimSuffix(in, "/"))+"/", rel(out), rel(gql)
		if cwd == out && gen.Chance(r, 40) {
			rout = ""
		}
		if rin == "./" && gen.Chance(r, 70) {
			rin = ""
		}
		if err := os.Chdir(cwd); err != nil {
			c.Fail("chdir", map[string]interface{}{"error": err.Error()})
			return
		}
		errs := g.generate(g.args, rin, rout, rgql)
		os.Chdir(wd)
		if !compare("relative paths", name, true, errs, map[string]interface{}{"schemas in": rin, "output": rout, "GraphQL output": rgql, "working directory": cwd}) {
			return
		}
	}
	// Through symbolic links: the package is named like the link.
	{
		out, gql := dirs("linked")
		store, inlink := filepath.Join(base, "storage", "store"), filepath.Join(base, "inlink")
		os.RemoveAll(out)
		os.MkdirAll(store, 0755)
		os.Symlink(store, out)
		os.Symlink(filepath.Join(base, "in"), inlink)
		errs := g.generate(g.args, filepath.Join(inlink, "schemas")+"/", out, gql)
		os.Remove(out)
		os.Rename(store, out)
		if !compare("directories behind symbolic links", "linked", true, errs, nil) {
			return
		}
		os.Remove(inlink)
	}
	if d := treeDiff(inputs, tree(filepath.Join(base, "in")), "before", "afterwards"); len(d) > 0 {
		c.Fail("the input files are changed", info(map[string]interface{}{"differences": d}))
		return
	}
	for k, v := range map[string]bool{"with Avro": g.args.GenerateAvro, "with MessagePack": g.args.GenerateMessagePack, "with GraphQL": g.args.GenerateGraphQL, "with alternatives": len(p.Root.OneOf) > 0} {
		if v {
			c.Count("projects " + k)
		}
	}
	c.Eval(files > 1, fmt.Sprint(first))
	if c.WantSample() {
		c.Sample(info(map[string]interface{}{"files": files}))
	}
}

func init() {
	register(&h.Check{
		ID:          "G10",
		Rule:        "a case is one random schema project with one random set of options, generated eleven times: twice into one directory, into fresh ones, into one with the files of other options, into one with longer and shorter files of the same names, from schema files with their members in other orders, with relative paths from several working directories, and with schemas and output behind symbolic links; all files are compared with the first ones byte for byte, and the schema files with their state before",
		Assumptions: []string{"the order of the members of arrays (allOf, oneOf, required, type) stays", "MessagePack code is generated for the package, Go files of other schemas in the directory are part of it"},
		Quick:       500, Thorough: 8000,
		Run: g10Run,
		Need: []string{"files compared", "compared: the same directory", "compared: a fresh directory", "compared: a directory with files of other options", "compared: a directory with longer and shorter files", "compared: another order of members", "compared: relative paths", "compared: directories behind symbolic links",
			"projects with Avro", "projects with MessagePack", "projects with GraphQL", "projects with alternatives"},
	})
}

package checks

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/gen"
	"verif/harness/gproj"
	"verif/harness/h"
)

// tree is the content of a directory, directories have the content "/".
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		switch {
		case err != nil:
			out[rel] = "!" + err.Error()
		case i.IsDir():
			out[rel] = "/"
		case i.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(p)
			out[rel] = "-> " + to
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				b = []byte("!" + err.Error())
			}
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

// treeDiff lists what differs between two trees.
func treeDiff(a, b map[string]string, an, bn string) []string {
	var out []string
	for n, t := range a {
		u, ok := b[n]
		switch {
		case !ok:
			out = append(out, fmt.Sprintf("%s: only %s", n, an))
		case t != u:
			i := 0
			for i < len(t) && i < len(u) && t[i] == u[i] {
				i++
			}
			at := func(s string) string {
				from, to := i-40, i+60
				if from < 0 {
					from = 0
				}
				if to > len(s) {
					to = len(s)
				}
				return s[from:to]
			}
			out = append(out, fmt.Sprintf("%s: from byte %d on %q in %s, %q in %s", n, i, at(t), an, at(u), bn))
		}
	}
	for n := range b {
		if _, ok := a[n]; !ok {
			out = append(out, fmt.Sprintf("%s: only %s", n, bn))
		}
	}
	sort.Strings(out)
	if len(out) > 10 {
		out = out[:10]
	}
	return out
}

// buildCommand builds the command of the repository.
func buildCommand(p *h.Parent) error {
	cmd := exec.Command("go", "build", "-o", filepath.Join(p.Shared, "jstransform"), "github.com/GannettDigital/jstransform")
	cmd.Dir = filepath.Join(os.Getenv("VERIF_DIR"), "harness")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("the command does not build: %v\n%s", err, out)
	}
	return nil
}

// cliCase is a project with options and their flags.
type cliCase struct {
	r     *rand.Rand
	p     *gproj.Proj
	args  generate.BuildArgs // without the paths
	flags [][]string         // each flag with its value
	given map[string]bool
}

// spell gives one of the ways to write a flag.
func (c *cliCase) spell(name, value string) []string {
	dash := gen.Pick(c.r, []string{"-", "-", "--"})
	if gen.Chance(c.r, 50) {
		return []string{dash + name, value}
	}
	return []string{dash + name + "=" + value}
}

func (c *cliCase) boolFlag(name string, v, def bool) {
	if v == def && gen.Chance(c.r, 60) {
		return
	}
	dash := gen.Pick(c.r, []string{"-", "-", "--"})
	c.given[name] = true
	switch {
	case v && gen.Chance(c.r, 60):
		c.flags = append(c.flags, []string{dash + name})
	case v:
		c.flags = append(c.flags, []string{dash + name + "=" + gen.Pick(c.r, []string{"true", "1", "t", "T", "TRUE", "True"})})
	default:
		c.flags = append(c.flags, []string{dash + name + "=" + gen.Pick(c.r, []string{"false", "0", "f", "F", "FALSE", "False"})})
	}
}

func (c *cliCase) mapFlag(name string, m map[string]string) {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) == 0 {
		return
	}
	sort.Strings(keys)
	c.r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	c.given[name] = true
	for len(keys) > 0 {
		n := 1 + c.r.Intn(len(keys))
		var s []string
		for _, k := range keys[:n] {
			if gen.Chance(c.r, 8) { // the last of several counts
				decoy := k + "=" + gen.Pick(c.r, []string{"Decoy", "x", ""})
				if gen.Chance(c.r, 50) || len(s) > 0 {
					s = append(s, decoy)
				} else {
					c.flags = append(c.flags, append(c.spell(name, decoy), c.spell(name, k+"="+m[k])...))
					c.given["the same rename twice"] = true
					continue
				}
			}
			s = append(s, k+"="+m[k])
		}
		keys = keys[n:]
		if len(s) == 0 {
			continue
		}
		c.flags = append(c.flags, c.spell(name, strings.Join(s, ",")))
	}
}

func (c *cliCase) stringFlag(name, v string) {
	c.given[name] = true
	c.flags = append(c.flags, c.spell(name, v))
}

// flat gives the flags in a random order.
func (c *cliCase) flat() []string {
	fs := append([][]string(nil), c.flags...)
	c.r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	var out []string
	for _, f := range fs {
		out = append(out, f...)
	}
	return out
}

// genArgs draws options for a project.
func genArgs(r *rand.Rand, p *gproj.Proj, style gproj.Style, pkg string) generate.BuildArgs {
	u := &gproj.Unit{P: p, Pkg: pkg, O: gproj.Opt{NoNested: gen.Chance(r, 50), Pointers: gen.Chance(r, 50), DescTag: gen.Chance(r, 50), Embed: gen.Chance(r, 50), Msgp: gen.Chance(r, 35), Avro: style.Avro && gen.Chance(r, 80)}}
	args := u.Args("")
	args.OutputDir = ""
	args.GenerateGraphQL = (style.GraphQL || style.Avro) && gen.Chance(r, 80)
	if style.GraphQL {
		// only named structs make GraphQL of nested objects
		args.NoNestedStructs = args.NoNestedStructs || gen.Chance(r, 70)
	}
	args.InterfaceFiles, args.ScalarAny, args.GraphQLTypeNameMap = gen.Chance(r, 40), gen.Chance(r, 40), p.GraphQL
	return args
}

func genStyle(r *rand.Rand) gproj.Style {
	s := gproj.Style{Single: 40, Deep: 1 + r.Intn(3)}
	switch r.Intn(5) {
	case 0, 1:
		s.GraphQL = true
	case 2, 3:
		s.Avro = true
	}
	return s
}

type cliResult struct {
	code int
	out  string
}

func (c cliResult) String() string { return fmt.Sprintf("exit %d: %s", c.code, clip(c.out)) }

func runCommand(shared, dir string, args []string) cliResult {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(shared, "jstransform"), args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	if err != nil && cmd.ProcessState == nil {
		return cliResult{-2, err.Error()}
	}
	return cliResult{cmd.ProcessState.ExitCode(), b.String()}
}

// damages are the ways in which generation is made to fail.
var damages = []string{"no schema", "malformed schema", "empty schema", "missing reference", "no output directory", "output directory is a file", "no GraphQL directory", "output file is a directory", "GraphQL file is a directory", "schema is a directory", "union"}

func g09Run(c *h.Case) {
	r := c.R
	base := filepath.Join(c.Dir, fmt.Sprintf("c%d", c.Idx))
	defer os.RemoveAll(base)
	style := genStyle(r)
	p := gproj.Make(c.Seed, c.Idx, style)
	pkg := fmt.Sprintf("pk%d", r.Intn(3))
	cc := &cliCase{r: r, p: p, given: map[string]bool{}}
	cc.args = genArgs(r, p, style, pkg)
	a := &cc.args
	if a.ImportPath != "" && !a.GenerateAvro && !a.GenerateGraphQL && gen.Chance(r, 50) {
		a.ImportPath = ""
	}
	cc.boolFlag("interfaceFiles", a.InterfaceFiles, false)
	cc.boolFlag("nestedStructs", !a.NoNestedStructs, true)
	cc.boolFlag("pointers", a.Pointers, false)
	cc.boolFlag("descriptionAsStructTag", a.DescriptionAsStructTag, true)
	cc.boolFlag("embedAllOf", a.EmbedAllOf, true)
	cc.boolFlag("avro", a.GenerateAvro, false)
	cc.boolFlag("msgp", a.GenerateMessagePack, false)
	cc.boolFlag("graphql", a.GenerateGraphQL, false)
	cc.boolFlag("scalarAny", a.ScalarAny, false)
	if gen.Chance(r, 20) {
		// Only the first = and the commas separate, everything else belongs to the names.
		odd := func(m map[string]string) map[string]string {
			out := map[string]string{}
			for k, v := range m {
				out[k] = v
			}
			if ks := sortedKeys(out); len(ks) > 0 && gen.Chance(r, 15) {
				out[gen.Pick(r, ks)] = ""
				c.Count("runs with an empty name in renames")
			}
			out[gen.Pick(r, []string{"notThere", " space", "", "not There "})] = gen.Pick(r, []string{"a=b", "=", "a=b=c", " x", "x ", "", "\t"})
			return out
		}
		switch r.Intn(3) {
		case 0:
			a.StructNameMap = odd(a.StructNameMap)
		case 1:
			a.FieldNameMap = odd(a.FieldNameMap)
		case 2:
			a.GraphQLTypeNameMap = odd(a.GraphQLTypeNameMap)
			for _, k := range sortedKeys(a.GraphQLTypeNameMap) {
				if gen.Chance(r, 30) {
					a.GraphQLTypeNameMap[k] += gen.Pick(r, []string{"=", "=y", " ", " z"})
				}
			}
		}
		c.Count("runs with odd names in renames")
	}
	cc.mapFlag("rename", a.StructNameMap)
	cc.mapFlag("renameFields", a.FieldNameMap)
	cc.mapFlag("renameGraphQLType", a.GraphQLTypeNameMap)
	if a.ImportPath != "" {
		cc.stringFlag("importPath", a.ImportPath)
	}

	in := filepath.Join(base, "in", "schemas")
	out := filepath.Join(base, "out", pkg)
	cwd := filepath.Join(append([]string{base}, []string{"work", "here", "below", "that"}[:1+r.Intn(4)]...)...)
	damage := ""
	if gen.Chance(r, 25) {
		damage = gen.Pick(r, damages)
	}
	inCwd := gen.Chance(r, 25) // no output directory is given
	if inCwd && (damage == "no output directory" || damage == "output directory is a file") {
		inCwd = false
	}
	if inCwd {
		cwd = out
	}
	gql := ""
	if gen.Chance(r, 50) || strings.HasPrefix(damage, "no GraphQL") {
		gql = filepath.Join(base, "gql")
		if !inCwd && !strings.HasPrefix(damage, "no GraphQL") && gen.Chance(r, 25) {
			cwd = gql
			c.Count("runs below the GraphQL directory")
		}
	}
	root := filepath.Join(in, p.Root.File)
	stem := strings.Split(filepath.Base(root), ".")[0]
	setup := func() {
		os.RemoveAll(base)
		for _, d := range []string{in, out, cwd, filepath.Join(base, "gql"), filepath.Join(base, "elsewhere")} {
			os.MkdirAll(d, 0755)
		}
		gproj.WriteFiles(in, p.Files)
		os.WriteFile(filepath.Join(base, "elsewhere", "note.txt"), []byte("keep"), 0644)
		os.WriteFile(filepath.Join(out, "notes.md"), []byte("keep"), 0644)
		switch damage {
		case "no schema":
			os.Remove(root)
		case "malformed schema":
			b, _ := os.ReadFile(root)
			os.WriteFile(root, b[:len(b)*2/3], 0644)
		case "empty schema":
			os.WriteFile(root, nil, 0644)
		case "missing reference":
			os.WriteFile(root, []byte(`{"type":"object","properties":{"a":{"$ref":"nowhere/a.json"}}}`), 0644)
		case "no output directory":
			os.RemoveAll(out)
		case "output directory is a file":
			os.RemoveAll(out)
			os.WriteFile(out, []byte("keep"), 0644)
		case "no GraphQL directory":
			os.RemoveAll(filepath.Join(base, "gql"))
		case "output file is a directory":
			os.MkdirAll(filepath.Join(out, p.Parts[0].Base+".go"), 0755)
		case "GraphQL file is a directory":
			os.MkdirAll(filepath.Join(out, stem+".graphqls"), 0755)
			os.MkdirAll(filepath.Join(base, "gql", stem+".graphqls"), 0755)
		case "schema is a directory":
			os.Remove(root)
			os.MkdirAll(root, 0755)
		case "union":
			os.WriteFile(root, []byte(`{"type":"object","properties":{"a":{"type":["string","integer"]},"b":{"type":"array"}}}`), 0644)
		}
	}
	info := func(m map[string]interface{}) map[string]interface{} {
		m["damage"], m["options"] = damage, fmt.Sprintf("%+v", cc.args)
		files := map[string]string{}
		for _, f := range p.Files {
			files[f.Name] = string(f.Text)
		}
		m["schemas"] = files
		return m
	}

	// What the library does.
	setup()
	before := tree(base)
	var errs []error
	for _, run := range p.Runs {
		args := cc.args
		args.SchemaPath, args.OutputDir, args.OutputDirGraphQL = filepath.Join(in, run.File), out, gql
		errs = append(errs, gproj.Protect(60*time.Second, func() error { return generate.BuildStructsWithArgs(args) }))
	}
	want := tree(base)

	// What the command does.
	setup()
	rel := func(path string) string {
		if gen.Chance(r, 50) {
			return path
		}
		s, _ := filepath.Rel(cwd, path)
		switch {
		case gen.Chance(r, 40) && !strings.HasPrefix(s, "."):
			s = "./" + s
		case gen.Chance(r, 20):
			s = "../" + filepath.Base(cwd) + "/" + s
		}
		c.Count("relative paths")
		return s
	}
	for i, run := range p.Runs {
		argv := cc.flat()
		if gql != "" {
			argv = append(argv, cc.spell("outputPathGraphQL", rel(gql))...)
		}
		if gen.Chance(r, 10) {
			argv = append(argv, "--")
		}
		argv = append(argv, rel(filepath.Join(in, run.File)))
		if !inCwd {
			argv = append(argv, rel(out))
		} else {
			c.Count("runs without an output directory")
		}
		got := runCommand(c.Shared, cwd, argv)
		m := map[string]interface{}{"command line": argv, "command": got.String(), "library": fmt.Sprint(errs[i])}
		switch {
		case got.code < 0 || strings.Contains(got.out, "panic:") || strings.Contains(got.out, "goroutine "):
			c.Fail("the command crashes", info(m))
			return
		case (got.code == 0) != (errs[i] == nil):
			c.Fail("the exit code is wrong", info(m))
			return
		case got.code != 0 && strings.TrimSpace(got.out) == "":
			c.Fail("the command fails without a message", info(m))
			return
		}
		if errs[i] != nil {
			c.Count("failing generations")
			if damage != "" {
				c.Count("failing: " + damage)
			}
		} else {
			c.Count("successful generations")
		}
	}
	if d := treeDiff(want, tree(base), "the library", "the command"); len(d) > 0 {
		c.Fail("the command does not write what the library writes", info(map[string]interface{}{"differences": d, "flags": cc.flat()}))
		return
	}
	// Nothing is written elsewhere.
	for n := range want {
		if _, ok := before[n]; !ok {
			c.Count("files compared")
			if !strings.HasPrefix(n, filepath.Join("out", pkg)+"/") && !strings.HasPrefix(n, "gql/") {
				c.Fail("a file is written elsewhere", info(map[string]interface{}{"file": n}))
				return
			}
		}
	}
	for n, t := range before {
		if want[n] != t && !strings.HasPrefix(n, "out/") {
			c.Fail("a file which is no output is changed", info(map[string]interface{}{"file": n}))
			return
		}
	}
	for f := range cc.given {
		c.Count("runs with -" + f)
	}
	if gql != "" {
		c.Count("runs with -outputPathGraphQL")
	}
	c.Eval(len(want) > len(before), cc.flat(), fmt.Sprint(want))
	if c.WantSample() {
		c.Sample(info(map[string]interface{}{"flags": cc.flat()}))
	}
	// Files which cannot be written make it fail.
	if damage == "" && gen.Chance(r, 50) {
		var fs []string
		for n, t := range want {
			if before[n] == "" && t != "/" && t != "" {
				fs = append(fs, n)
			}
		}
		sort.Strings(fs)
		if len(fs) > 0 {
			n := gen.Pick(r, fs)
			setup()
			at := filepath.Join(base, n)
			os.MkdirAll(filepath.Dir(at), 0755)
			kind := "directory in place of a file"
			// Files which are read again later cannot be /dev/full, which never ends.
			if ext := filepath.Ext(n); ext == ".graphqls" || ext == ".go" && !a.GenerateAvro && !a.GenerateMessagePack {
				kind = "full disk"
				os.Symlink("/dev/full", at)
			} else {
				os.MkdirAll(at, 0755)
			}
			failed := false
			var outs []string
			for _, run := range p.Runs {
				argv := append(cc.flat(), "-outputPathGraphQL", gql, filepath.Join(in, run.File), out)
				got := runCommand(c.Shared, cwd, argv)
				outs = append(outs, got.String())
				failed = failed || got.code > 0 && strings.TrimSpace(got.out) != ""
			}
			i, err := os.Lstat(at)
			if err == nil && i.Mode()&(os.ModeSymlink|os.ModeDir) != 0 {
				c.Count(kind + ": " + filepath.Ext(n))
				if !failed {
					c.Fail("a file which cannot be written goes unnoticed", info(map[string]interface{}{"file": n, "kind": kind, "flags": cc.flat(), "commands": outs}))
					return
				}
			}
			os.RemoveAll(at)
		}
	}
	g09Usage(c, cc, base, setup, rel, root, out, cwd)
}

// g09Usage runs a command line with a mistake.
func g09Usage(c *h.Case, cc *cliCase, base string, setup func(), rel func(string) string, root, out, cwd string) {
	r := c.R
	setup()
	before := tree(base)
	paths := []string{rel(root), rel(out)}
	fs := cc.flat()
	var without []string // the flags without those which need an import path, and without the import path
	for _, f := range cc.flags {
		n := strings.TrimLeft(strings.SplitN(f[0], "=", 2)[0], "-")
		if n != "importPath" && n != "avro" && n != "graphql" {
			without = append(without, f...)
		}
	}
	kind := gen.Pick(r, []string{"no schema path", "avro without import path", "graphql without import path", "unknown flag", "rename without =", "no value", "no boolean", "import path empty"})
	var argv []string
	switch kind {
	case "no schema path":
		argv = fs
	case "avro without import path":
		argv = append(append(without, "-avro"), paths...)
	case "graphql without import path":
		argv = append(without, "-graphql=true")
		if gen.Chance(r, 50) {
			argv = append(argv, "-outputPathGraphQL", filepath.Join(base, "gql"))
		}
		argv = append(argv, paths...)
	case "unknown flag":
		argv = append(append(fs, gen.Pick(r, []string{"-nope", "--nested", "-out=x", "-Avro", "-output"})), paths...)
	case "rename without =":
		argv = append(append(fs, "-"+gen.Pick(r, []string{"rename", "renameFields", "renameGraphQLType"}), gen.Pick(r, []string{"a", "a=b,c", "a:b", ""})), paths...)
	case "no value":
		argv = append(fs, "-"+gen.Pick(r, []string{"importPath", "outputPathGraphQL", "rename", "renameFields", "renameGraphQLType"}))
	case "no boolean":
		argv = append(append(fs, "-"+gen.Pick(r, []string{"pointers", "avro", "msgp", "graphql", "nestedStructs", "embedAllOf", "interfaceFiles", "scalarAny", "descriptionAsStructTag"})+"=maybe"), paths...)
	case "import path empty":
		argv = append(append(without, gen.Pick(r, []string{"-avro", "-graphql"}), "-importPath", ""), paths...)
	}
	got := runCommand(c.Shared, cwd, argv)
	m := map[string]interface{}{"mistake": kind, "command line": argv, "command": got.String()}
	switch {
	case got.code <= 0:
		c.Fail("a usage error does not exit non-zero", m)
		return
	case strings.TrimSpace(got.out) == "" || strings.Contains(got.out, "panic:"):
		c.Fail("a usage error has no message", m)
		return
	}
	if d := treeDiff(before, tree(base), "before", "afterwards"); len(d) > 0 {
		m["differences"] = d
		c.Fail("a usage error writes files", m)
		return
	}
	c.Count("usage errors: " + kind)
	c.Eval(true, kind, argv)
}

func init() {
	register(&h.Check{
		ID:          "G09",
		Rule:        "a case is one random schema project with one random set of options, given to the library and, spelled in a random way (order, dashes, = or not, boolean spellings, repeated and joined renames, defaults left out, relative or absolute paths, no output directory), to the command built from the tree; both start with the same directories, a quarter of them damaged so that generation fails, and everything below the directory of the case is compared byte for byte afterwards; a second command line of every case has a mistake",
		Assumptions: []string{"keys of renames have no commas or =, values no commas", "-h is no error"},
		Quick:       1500, Thorough: 20000,
		Prepare: buildCommand,
		Run:     g09Run,
		Need: []string{"relative paths", "runs without an output directory", "failing generations", "successful generations", "files compared", "runs with -interfaceFiles", "runs with -nestedStructs", "runs with -pointers",
			"runs with -descriptionAsStructTag", "runs with -embedAllOf", "runs with -avro", "runs with -msgp", "runs with -graphql", "runs with -scalarAny", "runs with -rename", "runs with odd names in renames", "runs with -renameFields", "runs with -renameGraphQLType",
			"runs below the GraphQL directory", "runs with -the same rename twice", "runs with an empty name in renames", "runs with -importPath", "runs with -outputPathGraphQL", "usage errors: no schema path", "usage errors: avro without import path", "usage errors: graphql without import path"},
	})
}

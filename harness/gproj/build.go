package gproj

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/gen"
)

//go:embed driver.go.txt
var driverSource string

//go:embed driver_msgp.go.txt
var driverMsgp string

//go:embed driver_avro.go.txt
var driverAvro string

// Opt is one combination of options.
type Opt struct {
	NoNested, Pointers, DescTag, Embed, Msgp, Avro bool
	NoRenames                                      bool // leave out the renames which are not necessary
}

func (o Opt) String() string {
	var s []string
	for _, x := range []struct {
		b bool
		n string
	}{{o.NoNested, "named"}, {o.Pointers, "pointers"}, {o.DescTag, "tags"}, {o.Embed, "embed"}, {o.Msgp, "msgp"}, {o.Avro, "avro"}} {
		if x.b {
			s = append(s, x.n)
		}
	}
	return strings.Join(s, "+")
}

// Unit is one package generated for one project under one combination of options.
type Unit struct {
	Idx    int
	P      *Proj
	O      Opt
	Pkg    string
	Dir    string // output directory
	In     string // directory of the schema files
	Failed bool
}

// Type is one expected root struct.
type Type struct {
	Name  string
	Part  *Part
	Props []P // the JSON members of the struct, embedded ones included
	File  string
}

// TypeName gives the Go name of the struct of a part.
func (u *Unit) TypeName(pt *Part) string {
	if to, ok := u.P.Structs[pt.Base]; ok {
		return exported(to)
	}
	return exported(pt.Base)
}

// FieldName gives the Go name of a property.
func (u *Unit) FieldName(json string) string {
	if to, ok := u.P.FieldNames[json]; ok {
		return exported(to)
	}
	return exported(json)
}

// Types lists the structs the unit's package should have.
func (u *Unit) Types() []Type {
	var out []Type
	isOne := map[*Part]bool{}
	for _, o := range u.P.Root.OneOf {
		isOne[o] = true
	}
	for _, pt := range u.P.Parts {
		t := Type{Name: u.TypeName(pt), Part: pt, Props: pt.All(), File: pt.Base + ".go"}
		if isOne[pt] {
			t.Props = join(t.Props, u.P.Root.All())
		}
		out = append(out, t)
	}
	return out
}

// Args gives the arguments of generation for a schema of the unit.
func (u *Unit) Args(schema string) generate.BuildArgs {
	return generate.BuildArgs{
		SchemaPath: schema, OutputDir: u.Dir,
		DescriptionAsStructTag: u.O.DescTag, NoNestedStructs: u.O.NoNested, Pointers: u.O.Pointers, EmbedAllOf: u.O.Embed,
		GenerateMessagePack: u.O.Msgp, GenerateAvro: u.O.Avro, ImportPath: "gp/" + u.Pkg,
		StructNameMap: u.P.Structs, FieldNameMap: u.P.FieldNames,
	}
}

// WriteFiles writes the schema files of a project.
func WriteFiles(dir string, files []File) error {
	for _, f := range files {
		path := filepath.Join(dir, f.Name)
		if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(path, f.Text, 0644); err != nil {
			return err
		}
	}
	return nil
}

// Protect runs f, turning panics and endless runs into errors.
func Protect(limit time.Duration, f func() error) error {
	done := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		done <- f()
	}()
	select {
	case err := <-done:
		return err
	case <-time.After(limit):
		return fmt.Errorf("no end after %v", limit)
	}
}

// Generate generates the code of the unit into u.Dir.
func (u *Unit) Generate() error {
	if err := os.MkdirAll(u.Dir, 0755); err != nil {
		return err
	}
	for _, run := range u.P.Runs {
		args := u.Args(filepath.Join(u.In, run.File))
		if err := Protect(60*time.Second, func() error { return generate.BuildStructsWithArgs(args) }); err != nil {
			return err
		}
	}
	return nil
}

// Module sets up a scratch module named gp.
func Module(dir, verif, repo string) error {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	mod, err := os.ReadFile(filepath.Join(verif, "harness", "go.mod"))
	if err != nil {
		return err
	}
	text := strings.Replace(string(mod), "module verif/harness", "module gp", 1)
	text = regexp.MustCompile(`(replace github.com/GannettDigital/jstransform => ).*`).ReplaceAllString(text, "${1}"+repo)
	sum, err := os.ReadFile(filepath.Join(verif, "harness", "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(text), 0644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0644)
}

// Builder generates and compiles units.
type Builder struct {
	Dir   string // scratch directory
	Verif string
	Repo  string
	Race  bool
	Fail  func(u *Unit, what string, detail interface{})
}

// Plan prepares the units of a seed without generating anything.
func Plan(dir string, seed int64, projects int, style Style, opts func(p *Proj) []Opt) []*Unit {
	var units []*Unit
	for i := 0; i < projects; i++ {
		p := Make(seed, i, style)
		for _, o := range opts(p) {
			n := len(units)
			pkg := fmt.Sprintf("u%d", n)
			units = append(units, &Unit{Idx: n, P: p, O: o, Pkg: pkg, Dir: filepath.Join(dir, "mod", pkg), In: filepath.Join(dir, "schemas", fmt.Sprintf("p%d", i), "schemas")})
		}
	}
	return units
}

var pkgLine = regexp.MustCompile(`^# gp/(u\d+)`)

// Build generates all units (only the given one if only is not negative) and compiles the driver, the path of which it
// returns. Units which cannot be generated or compiled are reported and left out.
func (b *Builder) Build(units []*Unit, only int) (string, error) {
	mod := filepath.Join(b.Dir, "mod")
	if err := Module(mod, b.Verif, b.Repo); err != nil {
		return "", err
	}
	var use []*Unit
	for _, u := range units {
		if only >= 0 && u.P != units[only].P {
			u.Failed = true
			continue
		}
		if err := WriteFiles(u.In, u.P.Files); err != nil {
			return "", err
		}
		if err := u.Generate(); err != nil {
			b.Fail(u, "generation fails", map[string]interface{}{"error": err.Error()})
			u.Failed = true
			os.RemoveAll(u.Dir)
			continue
		}
		use = append(use, u)
	}
	for round := 0; ; round++ {
		failed, out, err := b.compile(mod, use)
		if err == nil {
			break
		}
		if round > 3 || len(failed) == 0 {
			return "", fmt.Errorf("building the driver: %v\n%s", err, out)
		}
		var keep []*Unit
		for _, u := range use {
			if msg, ok := failed[u.Pkg]; ok {
				b.Fail(u, "the generated code does not compile", map[string]interface{}{"compiler": msg, "code": u.Code()})
				u.Failed = true
				continue
			}
			keep = append(keep, u)
		}
		use = keep
	}
	var ok []string
	for _, u := range use {
		ok = append(ok, u.Pkg)
	}
	data, _ := json.Marshal(ok)
	return filepath.Join(b.Dir, "driver"), os.WriteFile(filepath.Join(b.Dir, "built.json"), data, 0644)
}

// LoadBuilt marks the units which were not built.
func LoadBuilt(dir string, units []*Unit) error {
	data, err := os.ReadFile(filepath.Join(dir, "built.json"))
	if err != nil {
		return err
	}
	var ok []string
	if err := json.Unmarshal(data, &ok); err != nil {
		return err
	}
	set := map[string]bool{}
	for _, p := range ok {
		set[p] = true
	}
	for _, u := range units {
		u.Failed = !set[u.Pkg]
	}
	return nil
}

// Code gives the Go files of the unit.
func (u *Unit) Code() map[string]string {
	out := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(u.Dir, "*"))
	for _, f := range files {
		if data, err := os.ReadFile(f); err == nil && !strings.HasSuffix(f, "_test.go") && len(data) < 30000 {
			out[filepath.Base(f)] = string(data)
		}
	}
	return out
}

// Schemas gives the schema files of the unit.
func (u *Unit) Schemas() map[string]string {
	out := map[string]string{}
	for _, f := range u.P.Files {
		out[f.Name] = string(f.Text)
	}
	return out
}

// Info describes the unit for a report.
func (u *Unit) Info(extra map[string]interface{}) map[string]interface{} {
	m := map[string]interface{}{"options": u.O.String(), "schemas": u.Schemas(), "kind": u.P.Kind, "package": u.Pkg}
	if len(u.P.FieldNames) > 0 {
		m["fieldNames"] = u.P.FieldNames
	}
	if len(u.P.Structs) > 0 {
		m["structNames"] = u.P.Structs
	}
	for k, v := range extra {
		m[k] = v
	}
	return m
}

func (b *Builder) compile(mod string, use []*Unit) (map[string]string, string, error) {
	cmdDir := filepath.Join(mod, "cmd")
	if err := os.MkdirAll(cmdDir, 0755); err != nil {
		return nil, "", err
	}
	var reg, imp strings.Builder
	msgp, avro := false, false
	for _, u := range use {
		msgp = msgp || u.O.Msgp
		avro = avro || u.O.Avro
		fmt.Fprintf(&imp, "\t%q\n", "gp/"+u.Pkg)
		for _, t := range u.Types() {
			fmt.Fprintf(&reg, "\ttypes[%q] = reflect.TypeOf(%s.%s{})\n", u.Pkg+"."+t.Name, u.Pkg, t.Name)
			if u.O.Avro {
				fmt.Fprintf(&reg, "\tbulks[%q] = bulk(%s.%sBulkAvroWriter)\n", u.Pkg+"."+t.Name, u.Pkg, t.Name)
			}
		}
	}
	text := "package main\n\nimport (\n\t\"reflect\"\n" + imp.String() + ")\n\nvar _ = reflect.TypeOf\n\nfunc init() {\n" + reg.String() + "}\n"
	files := map[string]string{"main.go": driverSource, "registry.go": text}
	if msgp {
		files["msgp.go"] = driverMsgp
	}
	if avro {
		files["avro.go"] = driverAvro
	}
	for n, t := range files {
		if err := os.WriteFile(filepath.Join(cmdDir, n), []byte(t), 0644); err != nil {
			return nil, "", err
		}
	}
	args := []string{"build", "-o", filepath.Join(b.Dir, "driver")}
	if b.Race {
		args = append(args, "-race")
	}
	args = append(args, "./cmd")
	cmd := exec.Command("go", args...)
	cmd.Dir = mod
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GO111MODULE=on")
	out, err := cmd.CombinedOutput()
	if err == nil {
		return nil, "", nil
	}
	failed := map[string]string{}
	cur := ""
	for _, line := range strings.Split(string(out), "\n") {
		if m := pkgLine.FindStringSubmatch(line); m != nil {
			cur = m[1]
			failed[cur] = ""
			continue
		}
		if strings.HasPrefix(line, "# ") {
			cur = ""
			// A type the package should have is missing, or something the driver uses.
			continue
		}
		if cur != "" {
			failed[cur] += line + "\n"
		} else if m := undefined.FindStringSubmatch(line); m != nil {
			failed[m[1]] += line + "\n"
		} else if m := badSyntax.FindStringSubmatch(line); m != nil {
			failed[m[1]] += line + "\n"
		}
	}
	if len(failed) == 0 {
		// Errors in loading packages have other forms.
		for _, m := range anyPkg.FindAllStringSubmatch(string(out), -1) {
			failed[m[1]] = string(out)
		}
	}
	return failed, string(out), err
}

var anyPkg = regexp.MustCompile(`\b(?:gp|mod)/(u\d+)\b`)

var undefined = regexp.MustCompile(`undefined: (u\d+)\.`)
var badSyntax = regexp.MustCompile(`^(?:\.\./)?(u\d+)/[^ ]*\.go:\d+`)

// Driver is a running driver.
type Driver struct {
	mu  sync.Mutex
	bin string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *os.File
}

// Start starts a driver program.
func Start(bin, dir string) (*Driver, error) {
	d := &Driver{bin: bin}
	var err error
	if d.err, err = os.OpenFile(filepath.Join(dir, "driver.err"), os.O_CREATE|os.O_RDWR|os.O_TRUNC|os.O_APPEND, 0644); err != nil {
		return nil, err
	}
	return d, d.start()
}

func (d *Driver) start() error {
	d.cmd = exec.Command(d.bin)
	d.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1")
	d.cmd.Stderr = d.err
	var err error
	if d.in, err = d.cmd.StdinPipe(); err != nil {
		return err
	}
	out, err := d.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	d.out = bufio.NewReaderSize(out, 1<<20)
	return d.cmd.Start()
}

// Request and Answer are the driver's protocol.
type Request struct {
	Op     string
	Type   string  `json:",omitempty"`
	Doc    string  `json:",omitempty"`
	Seed   int64   `json:",omitempty"`
	Seeds  []int64 `json:",omitempty"`
	Time   string  `json:",omitempty"`
	Mode   string  `json:",omitempty"`
	FailAt int64   `json:",omitempty"`
	Delay  int     `json:",omitempty"`
	Par    int     `json:",omitempty"`
}

type Answer struct {
	Out   string
	Err   string
	Panic string
	Map   map[string]string
	List  []string
	Type  *TypeDesc
	N     int64
}

// TypeDesc describes a Go type as the driver sees it.
type TypeDesc struct {
	K      string
	Name   string
	Elem   *TypeDesc
	Fields []*FieldDesc
}

// FieldDesc describes a struct field.
type FieldDesc struct {
	Go   string
	Tag  string
	Anon bool
	T    *TypeDesc
}

// Ask sends a request. An error means that the driver died or did not answer.
func (d *Driver) Ask(q Request) (a Answer, err error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	data, _ := json.Marshal(q)
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := d.in.Write(append(data, '\n')); err != nil {
			ch <- res{nil, err}
			return
		}
		line, err := d.out.ReadBytes('\n')
		ch <- res{line, err}
	}()
	var r res
	select {
	case r = <-ch:
	case <-time.After(60 * time.Second):
		d.cmd.Process.Kill()
		r = <-ch
		r.err = fmt.Errorf("no answer after a minute")
	}
	if r.err != nil {
		d.in.Close()
		d.cmd.Process.Kill()
		werr := d.cmd.Wait()
		text, _ := os.ReadFile(d.err.Name())
		if len(text) > 3000 {
			text = text[:3000]
		}
		d.err.Truncate(0)
		d.start()
		return a, fmt.Errorf("%v (%v): %s", r.err, werr, text)
	}
	return a, json.Unmarshal(r.line, &a)
}

// Close ends the driver.
func (d *Driver) Close() {
	d.in.Close()
	d.cmd.Wait()
	d.err.Close()
}

// Stderr gives what the driver wrote to its standard error.
func (d *Driver) Stderr() string {
	b, _ := os.ReadFile(d.err.Name())
	return string(b)
}

// Names gives the sorted names of the props.
func Names(ps []P) []string {
	var out []string
	for _, p := range ps {
		out = append(out, p.Name)
	}
	sort.Strings(out)
	return out
}

// RandOpts draws n different combinations of the struct options.
func RandOpts(r *rand.Rand, n int, base Opt) []Opt {
	seen := map[Opt]bool{}
	var out []Opt
	for len(out) < n {
		o := base
		o.NoNested, o.Pointers, o.DescTag, o.Embed = gen.Chance(r, 50), gen.Chance(r, 50), gen.Chance(r, 50), gen.Chance(r, 60)
		if seen[o] {
			continue
		}
		seen[o] = true
		out = append(out, o)
	}
	return out
}

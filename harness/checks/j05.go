package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/gen"
	"verif/harness/h"
)

// schemaLoad is one way of loading one file.
type schemaLoad struct {
	file    string
	typ     string
	flatten bool
}

func (l schemaLoad) load(path string) (*jsonschema.Schema, error) {
	if l.flatten {
		return jsonschema.SchemaFromFile(path, l.typ)
	}
	return jsonschema.SchemaFromFileNoFlatten(path, l.typ)
}

// loneView is what a lone caller sees.
type loneView struct {
	failed   bool
	view     map[string]string
	verdicts []string
	types    string
}

func verdict(v interface {
	Validate(raw []byte) (bool, error)
}, raw []byte) string {
	ok, err := v.Validate(raw)
	return fmt.Sprint(ok, err != nil)
}

// rawValidator adapts the json.RawMessage of the validators.
type rawValidator func([]byte) (bool, error)

func (f rawValidator) Validate(raw []byte) (bool, error) { return f(raw) }

func typesOf(path string) string {
	all, one, req, err := jsonschema.SchemaTypes(path)
	if err != nil {
		return "error"
	}
	return fmt.Sprintf("%q %q %q", all, one, req)
}

func init() {
	register(&h.Check{
		ID:    "J05",
		Rule:  "under the race detector, sets of schema files as in J01 (references between files and URLs) and J02 (compositions with requested types), also with names that contain the separator of keys, sometimes one which does not load; 2 to 8 goroutines start together on cold caches and load them by different spellings of their paths, with different requested types and in both flatten modes, walk, validate and share the schemas they get; all they see is compared with what a lone caller sees of an untouched copy of the files, one copy for each way of loading. Non-trivial: two goroutines loaded the same file",
		Quick: 500, Thorough: 20000, Race: true, Procs: 4, Shards: 6, Hang: 40 * time.Second,
		Need: []string{"loads_equal", "loads_failed_alike", "verdicts_equal", "validators_alone", "walks_of_shared_schemas", "kind_references", "kind_compositions", "kind_separators", "loads_by_relative_path"},
		Setup: func(w *h.Worker) error {
			w.Data = newDocServer()
			return nil
		},
		Run: runConcurrentLoads,
	})
}

func runConcurrentLoads(c *h.Case) {
	r := c.R
	srv := c.Data.(*docServer)
	dir := filepath.Join(c.Dir, fmt.Sprintf("conc%d", c.Idx)+oddDir(r))
	defer os.RemoveAll(dir)
	texts := map[string]string{} // by relative path
	var loads []schemaLoad
	var docs [][]byte
	kind := gen.Pick(r, []string{"references", "compositions", "compositions", "separators"})
	c.Count("kind_" + kind)
	both := func(file, typ string) {
		loads = append(loads, schemaLoad{file, typ, true}, schemaLoad{file, typ, false})
	}
	switch kind {
	case "references":
		g := &refGen{r: r, uses: map[string]int{}, src: gen.Source(r)}
		prefix := fmt.Sprintf("/p%d/", c.Idx)
		g.serveAt(srv, prefix)
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			g.document(gen.Pick(r, []string{"", "sub/", "sub/deeper/", "other/"})+fmt.Sprintf("d%d.json", i), gen.Chance(r, 20), false)
		}
		main := g.document("main.json", false, true)
		g.write(filepath.Join(dir, "live"), srv, prefix)
		defer g.unserve(srv, prefix)
		for _, d := range g.docs {
			if !d.http {
				b, err := os.ReadFile(filepath.Join(dir, "live", d.path))
				if err != nil {
					panic(err)
				}
				texts[d.path] = string(b)
				if d == main || gen.Chance(r, 50) {
					both(d.path, "")
				}
			}
		}
		for i := 0; i < 4; i++ {
			docs = append(docs, gen.RenderCompact(rootNear(r, main.root.inl, 10*i)))
		}
	case "compositions":
		var files []*compFile
		types := map[string]bool{"": true, "none": true}
		for k, n := 0, 2+r.Intn(5); k < n; k++ {
			f := makeComp(r, k, files)
			files = append(files, f)
			texts[f.path] = string(gen.Render(f.JSON(), gen.Layout{R: r, Shuffle: true, Space: r.Intn(3)}))
			for _, p := range f.oneOf {
				types[p.name] = true
			}
		}
		list := sortedKeys(types)
		for k := 0; k < 4; k++ {
			both(files[len(files)-1-r.Intn(min(3, len(files)))].path, gen.Pick(r, list))
		}
		for i := 0; i < 4; i++ {
			o := map[string]interface{}{}
			for _, f := range files {
				for _, p := range f.own {
					if gen.Chance(r, 60) {
						o[p.Name] = gen.Pick(r, []interface{}{"text", 5.0, true, nil})
					}
				}
			}
			docs = append(docs, gen.RenderCompact(o))
		}
	case "separators":
		// names of files and types which the usual separators of keys occur in
		sep := gen.Pick(r, []string{"|", "|", "#", ":", ",", "|true|", "|false|", "\n", "~"})
		obj := func(field string) string {
			return `{"type":"object","properties":{"` + field + `":{"type":"string"}},"oneOf":[{"$ref":"x.json"},{"$ref":"y.json"},{"$ref":"a` + sep + `x.json"}]}`
		}
		part := func(field string) string {
			return `{"type":"object","properties":{"` + field + `":{"type":"number"}}}`
		}
		if sep == "#" || sep == "\n" {
			sep = "|" // not possible in references
		}
		texts["m.json"], texts["m.json"+sep+"a"] = obj("one"), obj("two")
		texts["x.json"], texts["y.json"], texts["a"+sep+"x.json"] = part("x"), part("y"), part("ax")
		for _, t := range []string{"x", "y", "a" + sep + "x", "", "true", "false"} {
			both("m.json", t)
			both("m.json"+sep+"a", t)
		}
		// and names which differ by little: in case, by a blank, by the way a letter is written
		for _, alike := range []string{"M.json", "m.JSON", "m.json ", " m.json", "m%2Ejson", "mé.json", "me\u0301.json"} {
			texts[alike] = obj("like " + alike)
			both(alike, gen.Pick(r, []string{"", "x", "y", " x", "x ", "X"}))
		}
		both("m.json", "X")
		both("m.json", "x ")
		docs = [][]byte{[]byte(`{"one":5}`), []byte(`{"two":5}`), []byte(`{"one":"a","two":"b","x":5}`)}
	}
	if gen.Chance(r, 30) {
		texts["broken.json"] = gen.Pick(r, []string{`{"type":"object","properties":{"a":{"$ref":"missing.json"}}}`, `{"type":"object"`, `{"type":"object","properties":{"a":{"$ref":"#/definitions/none"}}}`, `[]`})
		both("broken.json", "")
	}
	write := func(sub string) string {
		root := filepath.Join(dir, sub)
		for _, p := range sortedKeys(texts) {
			f := filepath.Join(root, p)
			os.MkdirAll(filepath.Dir(f), 0755)
			if err := os.WriteFile(f, []byte(texts[p]), 0644); err != nil {
				panic(err)
			}
		}
		return root
	}
	detail := func(more interface{}) interface{} {
		return map[string]interface{}{"files": texts, "what": more}
	}
	observe := func(l schemaLoad, path string, s *jsonschema.Schema, err error) (loneView, error) {
		if err != nil {
			return loneView{failed: true}, nil
		}
		v, err := schemaView(s)
		if err != nil {
			return loneView{}, err
		}
		out := loneView{view: v}
		for _, raw := range docs {
			out.verdicts = append(out.verdicts, verdict(rawValidator(func(b []byte) (bool, error) { return s.Validate(b) }), raw))
		}
		return out, nil
	}
	base := make([]loneView, len(loads))
	for i, l := range loads {
		path := filepath.Join(write(fmt.Sprintf("lone%d", i)), l.file)
		s, err := l.load(path)
		var e error
		if base[i], e = observe(l, path, s, err); e != nil {
			c.Fail("walking a schema fails: "+e.Error(), detail(l))
			return
		}
		base[i].types = typesOf(path)
	}

	live := write("live")
	os.Mkdir(filepath.Join(live, "no"), 0755)
	cwd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	rel, err := filepath.Rel(cwd, live)
	if err != nil {
		panic(err)
	}
	spell := func(k int, file string) string {
		switch k {
		case 1:
			c.Count("loads_by_relative_path")
			return filepath.Join(rel, file)
		case 2:
			return live + "/./" + file
		case 3:
			return live + "/../live//" + file
		case 4:
			return live + "/no/../" + file
		}
		return filepath.Join(live, file)
	}
	type step struct{ load, spelling, action, doc, yields int }
	workers := 2 + r.Intn(7)
	if gen.Chance(r, 5) {
		workers = 24
	}
	plans := make([][]step, workers)
	first := map[string]int{}
	sharedFile := false
	few := gen.Chance(r, 50) // most load the same
	for g := range plans {
		for n := 2 + r.Intn(6); n > 0; n-- {
			k := r.Intn(len(loads))
			if few {
				k = r.Intn(min(2, len(loads)))
			}
			if o, ok := first[loads[k].file]; ok && o != g {
				sharedFile = true
			}
			first[loads[k].file] = g
			plans[g] = append(plans[g], step{k, r.Intn(5), r.Intn(10), r.Intn(len(docs)), r.Intn(4)})
		}
	}
	same := func(i int, got loneView) string {
		want := base[i]
		if got.failed != want.failed {
			return fmt.Sprintf("fails %v instead of %v", got.failed, want.failed)
		}
		if d := viewDiff(got.view, want.view); d != "" {
			return d
		}
		if a, b := fmt.Sprint(got.verdicts), fmt.Sprint(want.verdicts); a != b {
			return "verdicts " + a + " instead of " + b
		}
		return ""
	}
	var mu sync.Mutex
	shared := map[int]*jsonschema.Schema{} // schemas exchanged between goroutines
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range plans {
		wg.Add(1)
		go func(plan []step) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 4000)
					c.Fail(fmt.Sprint("panic: ", p), detail(strings.Split(string(buf[:runtime.Stack(buf, false)]), "\n")))
				}
			}()
			<-start
			for _, p := range plan {
				l := loads[p.load]
				path := spell(p.spelling, l.file)
				for i := 0; i < p.yields; i++ {
					runtime.Gosched()
				}
				if p.action == 0 {
					if t := typesOf(path); t != base[p.load].types {
						c.Fail("SchemaTypes gives "+t+" instead of "+base[p.load].types, detail(l))
						return
					}
					c.Count("types_equal")
					continue
				}
				if p.action == 1 && !base[p.load].failed {
					v, err := jsonschema.NewValidator(path)
					if err != nil {
						c.Fail("a validator can not be made: "+err.Error(), detail(l))
						return
					}
					got := verdict(rawValidator(func(b []byte) (bool, error) { return v.Validate(b) }), docs[p.doc])
					if want := base[p.load].verdicts[p.doc]; got != want {
						c.Fail("a validator gives "+got+" instead of "+want, detail(map[string]interface{}{"load": l, "document": string(docs[p.doc])}))
						return
					}
					c.Count("validators_alone")
					continue
				}
				var s *jsonschema.Schema
				var err error
				if p.action == 2 {
					mu.Lock()
					s = shared[p.load]
					mu.Unlock()
				}
				if s == nil {
					s, err = l.load(path)
					if err == nil && p.action < 6 {
						mu.Lock()
						shared[p.load] = s
						mu.Unlock()
					}
				} else {
					c.Count("walks_of_shared_schemas")
				}
				got, err := observe(l, path, s, err)
				if err != nil {
					c.Fail("walking a schema fails: "+err.Error(), detail(l))
					return
				}
				if d := same(p.load, got); d != "" {
					c.Fail("a concurrent caller sees something else: "+d, detail(l))
					return
				}
				if got.failed {
					c.Count("loads_failed_alike")
				} else {
					c.Count("loads_equal")
					c.Add("verdicts_equal", int64(len(docs)))
				}
			}
		}(plans[g])
	}
	close(start)
	wg.Wait()
	c.Eval(sharedFile, fmt.Sprint(texts), fmt.Sprint(plans))
	if c.WantSample() {
		c.Sample(map[string]interface{}{"files": texts, "goroutines": workers, "loads": loads})
	}
}

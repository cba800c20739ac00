package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/gen"
	"verif/harness/h"
	"verif/harness/model"
)

// fault is one way in which a document of a schema is faulty for a while.
type fault struct {
	kind  string
	text  []byte           // the faulty content, nil when there is none
	serve http.HandlerFunc // for documents from a URL
	sure  bool             // loading has to fail
}

// spoilKeywords puts values of the wrong kind into a schema text.
func spoilKeywords(r *rand.Rand, v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		keys := gen.Keys(t)
		for i := 0; i < 3 && len(keys) > 0; i++ {
			k := gen.Pick(r, keys)
			if gen.Chance(r, 60) {
				t[k] = spoilKeywords(r, t[k])
				return t
			}
		}
		switch k := gen.Pick(r, []string{"type", "properties", "items", "required", "enum", "allOf", "oneOf", "anyOf", "$ref", "additionalProperties", "pattern", "minLength", "maximum", "definitions", "format", "description", "fromRef", "transform", "default", "minItems", "multipleOf", "exclusiveMinimum", "id", "$schema", "not", "dependencies", "patternProperties", "const", "if"}); r.Intn(4) {
		case 0:
			delete(t, k)
			if len(keys) > 0 {
				delete(t, gen.Pick(r, keys))
			}
		default:
			t[k] = gen.Pick[interface{}](r, []interface{}{nil, 1.0, -1.5, true, "", "x", "#", "#/", "#/definitions/nope", "nope.json", "http://", "(", []interface{}{}, []interface{}{nil}, []interface{}{"a", "a"}, []interface{}{1.0}, []interface{}{map[string]interface{}{}}, map[string]interface{}{}, map[string]interface{}{"a": 1.0}, map[string]interface{}{"": nil}, map[string]interface{}{"$ref": "#"}, map[string]interface{}{"$ref": 5.0}, map[string]interface{}{"type": 1.0}})
		}
		return t
	case []interface{}:
		if len(t) > 0 && gen.Chance(r, 70) {
			i := r.Intn(len(t))
			t[i] = spoilKeywords(r, t[i])
			return t
		}
		return append(t, nil)
	}
	return gen.Pick[interface{}](r, []interface{}{nil, 7.0, "x", []interface{}{}, map[string]interface{}{}})
}

// makeFault draws a fault for a document.
func (g *refGen) makeFault(d *refDoc, right []byte) fault {
	r := g.r
	self := "#"
	if !d.http && gen.Chance(r, 50) {
		self = filepath.Base(d.path)
	}
	edit := func(kind string, sure bool, change func(m map[string]interface{})) fault {
		v, err := decode(right)
		if err != nil {
			panic(err)
		}
		m := v.(map[string]interface{})
		change(m)
		b, _ := json.Marshal(m)
		return fault{kind: kind, text: b, sure: sure}
	}
	add := func(m map[string]interface{}, s interface{}) {
		if defs, ok := m["definitions"].(map[string]interface{}); ok {
			defs["faulty"] = s
		} else {
			m["definitions"] = map[string]interface{}{"faulty": s}
		}
	}
	if d.http && gen.Chance(r, 50) {
		status := func(code int) http.HandlerFunc {
			return func(w http.ResponseWriter, req *http.Request) {
				w.WriteHeader(code)
				w.Write(right)
			}
		}
		switch r.Intn(4) {
		case 0:
			return fault{kind: "http_not_found", sure: true}
		case 1:
			return fault{kind: "http_server_error", serve: status(gen.Pick(r, []int{500, 502, 403, 410})), sure: true}
		case 2:
			return fault{kind: "http_connection_closed", sure: true, serve: func(w http.ResponseWriter, req *http.Request) {
				if hj, ok := w.(http.Hijacker); ok {
					if conn, _, err := hj.Hijack(); err == nil {
						conn.Close()
					}
				}
			}}
		case 3:
			return fault{kind: "http_body_cut", sure: true, serve: func(w http.ResponseWriter, req *http.Request) {
				w.Header().Set("Content-Length", fmt.Sprint(len(right)))
				w.Write(right[:len(right)/2])
				panic(http.ErrAbortHandler)
			}}
		}
	}
	switch r.Intn(9) {
	case 0:
		return fault{kind: "missing", sure: true}
	case 1, 2:
		return fault{kind: "malformed_json", text: spoilDocument(r, right), sure: true}
	case 3:
		return edit("dangling_reference", true, func(m map[string]interface{}) {
			add(m, map[string]interface{}{"$ref": gen.Pick(r, []string{"#/definitions/notThere", "notThere.json", "notThere.json#/definitions/x", "#/not/there", "sub/notThere/x.json", "http://127.0.0.1:1/x.json"})})
		})
	case 4:
		return edit("circular_reference", true, func(m map[string]interface{}) {
			loop := map[string]interface{}{"$ref": self + "/definitions/faulty"}
			if self != "#" {
				loop["$ref"] = self + "#/definitions/faulty"
			}
			switch r.Intn(4) {
			case 0:
				add(m, loop)
			case 1:
				add(m, map[string]interface{}{"type": "array", "items": loop})
			case 2:
				add(m, map[string]interface{}{"type": "object", "properties": map[string]interface{}{"again": map[string]interface{}{"type": "object", "properties": map[string]interface{}{"deep": loop}}}})
			case 3:
				add(m, map[string]interface{}{"type": "object", "properties": map[string]interface{}{"again": map[string]interface{}{"$ref": self}}})
			}
		})
	case 5:
		return edit("unsupported_additional_properties", !d.http, func(m map[string]interface{}) {
			m["additionalProperties"] = gen.Pick[interface{}](r, []interface{}{"yes", 5.0, []interface{}{}})
		})
	case 6:
		return fault{kind: "no_schema", text: []byte(gen.Pick(r, []string{"[]", "5", "null", "\"text\"", "[{}]", "true", "false", "{}", "[[]]"}))}
	}
	v, _ := decode(right)
	for k := 1 + r.Intn(3); k > 0; k-- {
		v = spoilKeywords(r, v)
	}
	b, _ := json.Marshal(v)
	return fault{kind: "wrong_keywords", text: b}
}

func init() {
	register(&h.Check{
		ID:    "J08",
		Rule:  "sets of documents as in J01 of which one or two are faulty at first (missing, a directory, malformed, cut, keywords of the wrong kind, dangling, circular within and between documents, HTTP errors, cut bodies and closed connections); the set is loaded several times in both flatten modes and by a validator, where no load may crash or hang and those with an evident fault have to fail; then the faulty documents are put right and the same loads have to succeed with the fields, and the verdicts, of the right content. Non-trivial: a load failed before",
		Quick: 4000, Thorough: 150000, Hang: 30 * time.Second,
		Need: []string{"loads_failed", "repaired_loads_right", "repaired_verdicts_right", "fault_missing", "fault_malformed_json", "fault_dangling_reference", "fault_circular_reference", "fault_circular_documents", "fault_ring_of_files", "fault_ring_of_urls", "fault_wrong_keywords", "fault_no_schema", "fault_directory", "fault_http_not_found", "fault_http_server_error", "fault_http_connection_closed", "fault_http_body_cut", "faults_in_referenced_documents"},
		Setup: func(w *h.Worker) error {
			w.Data = newDocServer()
			return nil
		},
		Run: runFaults,
	})
}

func runFaults(c *h.Case) {
	r := c.R
	srv := c.Data.(*docServer)
	g := &refGen{r: r, uses: map[string]int{}, src: gen.Source(r)}
	dir := filepath.Join(c.Dir, fmt.Sprintf("w%d", c.Idx)+oddDir(r))
	defer os.RemoveAll(dir)
	prefix := fmt.Sprintf("/w%d/", c.Idx)
	g.serveAt(srv, prefix)
	for i, n := 0, r.Intn(4); i < n; i++ {
		path := gen.Pick(r, []string{"", "sub/", "sub/deeper/", "other/"}) + fmt.Sprintf("d%d.json", i)
		g.document(path, gen.Chance(r, 35), false)
	}
	main := g.document(gen.Pick(r, []string{"", "sub/"})+"main.json", false, true)
	files := g.write(dir, srv, prefix)
	defer g.unserve(srv, prefix)
	inlText := gen.Render(main.root.inl.JSON(), gen.Layout{})
	inlPath := filepath.Join(dir, "inline.json")
	if err := os.WriteFile(inlPath, inlText, 0644); err != nil {
		panic(err)
	}

	// the documents which loading the main one leads to
	reach := g.reachable(main, files)
	faulty := map[*refDoc]fault{}
	for k := 1 + r.Intn(2); k > 0; k-- {
		d := main
		if gen.Chance(r, 60) {
			d = gen.Pick(r, reach)
		}
		if _, ok := faulty[d]; !ok {
			faulty[d] = g.makeFault(d, []byte(files[g.name(d)]))
		}
	}
	if gen.Chance(r, 10) {
		// a circle of other documents
		d := gen.Pick(r, reach)
		isHTTP := d.http || gen.Chance(r, 50)
		ref := g.ring(dir, srv, d, isHTTP)
		v, _ := decode([]byte(files[g.name(d)]))
		m := v.(map[string]interface{})
		m["x-ring"] = map[string]interface{}{"$ref": ref}
		b, _ := json.Marshal(m)
		faulty = map[*refDoc]fault{d: {kind: map[bool]string{false: "ring_of_files", true: "ring_of_urls"}[isHTTP], text: b, sure: true}}
		defer func() {
			for i := 0; i < 4; i++ {
				srv.docs.Delete(fmt.Sprintf("%sring%d.json", prefix, i))
			}
		}()
	} else if gen.Chance(r, 10) {
		// two documents which refer to each other
		for _, d := range reach {
			if d == main || d.http {
				continue
			}
			back, _ := filepath.Rel(filepath.Dir(d.path), main.path)
			v, _ := decode([]byte(files[d.path]))
			m := v.(map[string]interface{})
			m["definitions"] = map[string]interface{}{"back": map[string]interface{}{"$ref": back + gen.Pick(r, []string{"", "#/properties"})}}
			// its own definitions are in $defs or gone, which is another fault
			b, _ := json.Marshal(m)
			faulty = map[*refDoc]fault{d: {kind: "circular_documents", text: b, sure: true}}
			break
		}
	}
	sure := true // one fault can hide another, by removing the references to it
	kinds := map[string]string{}
	for d, f := range faulty {
		kinds[g.name(d)] = f.kind + ": " + string(f.text)
		sure = sure && f.sure
		if d != main {
			c.Count("faults_in_referenced_documents")
		}
		if d.http {
			switch {
			case f.serve != nil:
				srv.docs.Store(prefix+d.path, f.serve)
			case f.text == nil:
				srv.docs.Delete(prefix + d.path)
			default:
				srv.docs.Store(prefix+d.path, f.text)
			}
			c.Count("fault_" + f.kind)
			continue
		}
		p := filepath.Join(dir, d.path)
		if f.text == nil {
			os.Remove(p)
			if gen.Chance(r, 30) {
				f.kind = "directory"
				os.Mkdir(p, 0755)
			}
		} else if err := os.WriteFile(p, f.text, 0644); err != nil {
			panic(err)
		}
		c.Count("fault_" + f.kind)
	}
	detail := func() interface{} {
		return map[string]interface{}{"files": files, "main": main.path, "faults": kinds}
	}
	mainPath := filepath.Join(dir, main.path)
	failed := [2]bool{}
	validatorMade := false
	for k := 1 + r.Intn(3); k > 0; k-- {
		mode := r.Intn(2)
		var err error
		if !c.Guard("load", detail, func() { _, err = loadMode(mode, mainPath) }) {
			return
		}
		failed[mode] = err != nil
		if err != nil {
			c.Count("loads_failed")
		} else {
			c.Count("loads_despite_a_fault")
			validatorMade = true
			if sure {
				c.Fail("a schema which can not be loaded loads without error", detail())
				return
			}
		}
		if gen.Chance(r, 20) {
			if !c.Guard("NewValidator", detail, func() { _, err = jsonschema.NewValidator(mainPath) }) {
				return
			}
			if err == nil {
				validatorMade = true
			} else {
				c.Count("validators_failed")
			}
		}
		if gen.Chance(r, 20) {
			if !c.Guard("SchemaTypes", detail, func() { jsonschema.SchemaTypes(mainPath) }) {
				return
			}
		}
	}
	c.Eval(failed[0] || failed[1], fmt.Sprint(files), fmt.Sprint(kinds))

	for d := range faulty {
		if d.http {
			srv.docs.Store(prefix+d.path, []byte(files[g.name(d)]))
			continue
		}
		p := filepath.Join(dir, d.path)
		os.Remove(p)
		if err := os.WriteFile(p, []byte(files[d.path]), 0644); err != nil {
			panic(err)
		}
	}
	for mode := range failed {
		if !failed[mode] {
			continue
		}
		var s, want *jsonschema.Schema
		var err error
		if !c.Guard("load", detail, func() { s, err = loadMode(mode, mainPath) }) {
			return
		}
		// a referenced file may have loaded in spite of its fault, and is remembered as it was then
		remembered := false
		for d, f := range faulty {
			remembered = remembered || d != main && !f.sure
		}
		if remembered {
			c.Count("referenced_file_may_be_remembered")
			continue
		}
		if err != nil {
			c.Fail("the load still fails after the files were put right: "+err.Error(), detail())
			return
		}
		if want, err = loadMode(mode, inlPath); err != nil {
			c.Fail("schema without references does not load: "+err.Error(), detail())
			return
		}
		va, err := schemaView(s)
		vb, err2 := schemaView(want)
		if err != nil || err2 != nil {
			c.Fail(fmt.Sprintf("walking fails: repaired %v, in place %v", err, err2), detail())
			return
		}
		if d := viewDiff(va, vb); d != "" {
			c.Fail("the load after the repair does not give the corrected content: "+d, detail())
			return
		}
		c.Count("repaired_loads_right")
		if validatorMade || closedInComposition(main.root.inl) {
			continue // made of the faulty content without error, and rightly remembered
		}
		for i := 0; i < 6; i++ {
			v, err := decode(gen.RenderCompact(rootNear(r, main.root.inl, gen.Pick(r, []int{0, 10}))))
			if err != nil {
				continue
			}
			raw := gen.RenderCompact(v)
			got, _ := s.Validate(raw)
			if wantV := model.Valid(main.root.ref, v); got != wantV {
				c.Fail(fmt.Sprintf("after the repair %s gets %v, want %v", raw, got, wantV), detail())
				return
			}
			c.Count("repaired_verdicts_right")
		}
	}
	if c.WantSample() {
		c.Sample(detail())
	}
}

// closedInComposition tells of schemas with both compositions and closed objects, where the validation library lets
// objects have the properties of sibling parts.
func closedInComposition(n *gen.Node) bool {
	closed, composed := false, false
	var visit func(n *gen.Node)
	visit = func(n *gen.Node) {
		closed = closed || n.Closed
		parts := append(append(append([]*gen.Node{}, n.AllOf...), n.AnyOf...), n.OneOf...)
		composed = composed || len(parts) > 0
		for _, p := range n.Props {
			parts = append(parts, p.Node)
		}
		if n.Items != nil {
			parts = append(parts, n.Items)
		}
		for _, p := range parts {
			visit(p)
		}
	}
	visit(n)
	return closed && composed
}

func loadMode(mode int, path string) (*jsonschema.Schema, error) {
	if mode == 0 {
		return jsonschema.SchemaFromFile(path, "")
	}
	return jsonschema.SchemaFromFileNoFlatten(path, "")
}

func (g *refGen) name(d *refDoc) string {
	if d.http {
		return g.base + d.path + d.query
	}
	return d.path
}

// ring makes a circle of one to four documents, some led to by others of the row which aren't part of the circle, and
// returns the reference by which d can refer to the first.
func (g *refGen) ring(dir string, srv *docServer, d *refDoc, isHTTP bool) string {
	r := g.r
	n := 1 + r.Intn(4)
	back := r.Intn(n)
	suffix := func() string { return gen.Pick(r, []string{"", "#", "#/definitions/x", "#/definitions"}) }
	for i := 0; i < n; i++ {
		next := i + 1
		if next == n {
			next = back
		}
		ref := fmt.Sprintf("ring%d.json", next)
		if isHTTP && gen.Chance(r, 40) {
			ref = g.base + ref
		}
		if next == i {
			ref += gen.Pick(r, []string{"", "#", "#/definitions", "#/definitions/x"})
		} else {
			ref += suffix()
		}
		x := map[string]interface{}{"$ref": ref}
		if gen.Chance(r, 50) {
			x = map[string]interface{}{"type": "array", "items": x}
		}
		text, _ := json.Marshal(map[string]interface{}{"type": "object", "properties": map[string]interface{}{}, "definitions": map[string]interface{}{"x": x}})
		if isHTTP {
			srv.docs.Store(fmt.Sprintf("%sring%d.json", g.prefix, i), text)
		} else if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("ring%d.json", i)), text, 0644); err != nil {
			panic(err)
		}
	}
	if isHTTP {
		return g.base + "ring0.json" + suffix()
	}
	rel, err := filepath.Rel(filepath.Dir(d.path), "ring0.json")
	if err != nil {
		panic(err)
	}
	return rel + suffix()
}

// reachable lists the documents which expanding the references of d leads to, d included.
func (g *refGen) reachable(d *refDoc, files map[string]string) []*refDoc {
	seen := map[*refDoc]bool{}
	var out []*refDoc
	var visit func(d *refDoc)
	visit = func(d *refDoc) {
		if seen[d] {
			return
		}
		seen[d] = true
		out = append(out, d)
		v, _ := decode([]byte(files[g.name(d)]))
		eachRef(v, func(ref string) {
			file, _, _ := strings.Cut(ref, "#")
			if file == "" {
				return
			}
			for _, o := range g.docs {
				switch {
				case o.http && d.http:
					base, err := url.Parse(g.name(d))
					if err != nil {
						panic(err)
					}
					if u, err := base.Parse(file); err == nil && u.String() == g.name(o) {
						visit(o)
					}
				case o.http:
					if file == g.name(o) {
						visit(o)
					}
				case !d.http && o.path == filepath.Join(filepath.Dir(d.path), file):
					visit(o)
				}
			}
		})
	}
	visit(d)
	return out
}

func eachRef(v interface{}, f func(string)) {
	switch t := v.(type) {
	case map[string]interface{}:
		for _, k := range gen.Keys(t) {
			if s, ok := t[k].(string); ok && k == "$ref" {
				f(s)
			} else {
				eachRef(t[k], f)
			}
		}
	case []interface{}:
		for _, x := range t {
			eachRef(x, f)
		}
	}
}

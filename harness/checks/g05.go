package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/avro"
	"verif/harness/gproj"
	"verif/harness/h"
)

// millis gives the milliseconds of an instant, rounded down.
func millis(sec int64, nano int64) *big.Int {
	n := new(big.Int).Mul(big.NewInt(sec), big.NewInt(1000000000))
	n.Add(n, big.NewInt(nano))
	q, m := new(big.Int), new(big.Int)
	q.DivMod(n, big.NewInt(1000000), m) // Euclidean
	return q
}

func millisOf(t time.Time) *big.Int { return millis(t.Unix(), int64(t.Nanosecond())) }

// avroZero tells whether a decoded value is the null or zero form.
func avroZero(v interface{}) bool {
	switch t := v.(type) {
	case nil:
		return true
	case bool:
		return !t
	case int64:
		return t == 0
	case float64:
		return t == 0
	case string:
		return t == ""
	case []interface{}:
		return len(t) == 0
	case map[string]interface{}:
		return len(t) == 0
	case *avro.Record:
		for _, x := range t.Values {
			if !avroZero(x) && x != int64(-62135596800000) {
				return false
			}
		}
		return true
	}
	return false
}

// goZero tells whether a dumped value is the zero value.
func goZero(d interface{}) bool {
	switch t := d.(type) {
	case nil:
		return true
	case []interface{}:
		return len(t) == 0
	case map[string]interface{}:
		for k, x := range t {
			switch k {
			case "b":
				return x == false
			case "s":
				return x == ""
			case "i", "f":
				return x == "0"
			case "time":
				p := x.([]interface{})
				return p[0] == "-62135596800" && p[1] == "0"
			case "struct":
				for _, f := range x.([]interface{}) {
					if !goZero(f.([]interface{})[1]) {
						return false
					}
				}
				return true
			case "map":
				return len(x.(map[string]interface{})) == 0
			}
		}
	}
	return false
}

type avroDiff struct {
	n    int64
	seen map[string]int64
	diff func(string, ...interface{})
}

// dumpFields collects the fields of a dumped struct, of several with the same name the one nearest to the surface.
func dumpFields(fields []interface{}, depth int, at map[string]int, out map[string]interface{}) {
	for _, f := range fields {
		p := f.([]interface{})
		name := p[0].(string)
		if strings.HasPrefix(name, "*") {
			s, _ := p[1].(map[string]interface{})
			inner, _ := s["struct"].([]interface{})
			dumpFields(inner, depth+1, at, out)
			continue
		}
		if d, ok := at[name]; !ok || depth < d {
			at[name], out[name] = depth, p[1]
		}
	}
}

// record compares the fields of a dumped struct with those of a record and gives the number of fields the record should have.
func (a *avroDiff) record(path string, fields []interface{}, rec *avro.Record) int {
	want := map[string]interface{}{}
	dumpFields(fields, 0, map[string]int{}, want)
	for _, name := range sortedKeys(want) {
		v, ok := rec.Values[name]
		if !ok {
			a.diff("%s.%s: the record has no such field", path, name)
			continue
		}
		a.value(path+"."+name, want[name], v)
	}
	return len(want)
}

func (a *avroDiff) value(path string, d, v interface{}) {
	a.n++
	bad := func() {
		text, _ := json.Marshal(d)
		if r, ok := v.(*avro.Record); ok {
			v = r.Values
		}
		a.diff("%s: %s is written as %v", path, clip(string(text)), clip(fmt.Sprintf("%#v", v)))
	}
	if goZero(d) && v == nil {
		a.seen["null for an absent value"]++
		return
	}
	switch t := d.(type) {
	case nil:
		if !avroZero(v) {
			bad()
		}
		a.seen["zero for an absent value"]++
	case []interface{}:
		l, ok := v.([]interface{})
		if ok && len(l) < len(t) { // absent times are left out of lists
			var present []interface{}
			for _, x := range t {
				if x != nil {
					present = append(present, x)
				}
			}
			if len(present) > 0 {
				if m, _ := present[0].(map[string]interface{}); m != nil {
					if m, _ = m["ptr"].(map[string]interface{}); m["time"] != nil {
						t = present
					}
				}
			} else if len(l) == 0 {
				t = nil
			}
		}
		if !ok || len(l) != len(t) {
			bad()
			return
		}
		for i := range t {
			a.value(fmt.Sprintf("%s[%d]", path, i), t[i], l[i])
		}
		a.seen["lists compared"]++
	case map[string]interface{}:
		for k, x := range t {
			switch k {
			case "ptr":
				if v == nil {
					bad()
					return
				}
				a.value(path, x, v)
			case "b", "s":
				if v != x {
					bad()
				}
			case "i":
				if i, ok := v.(int64); !ok || strconv.FormatInt(i, 10) != x {
					bad()
				}
			case "f":
				if f, ok := v.(float64); !ok || strconv.FormatUint(math.Float64bits(f), 10) != x {
					bad()
				}
			case "time":
				p := x.([]interface{})
				sec, _ := strconv.ParseInt(p[0].(string), 10, 64)
				nano, _ := strconv.ParseInt(p[1].(string), 10, 64)
				if i, ok := v.(int64); !ok || millis(sec, nano).Cmp(big.NewInt(i)) != 0 && !(goZero(d) && i == 0) {
					bad()
				}
				a.seen["times compared"]++
			case "map":
				m, ok := v.(map[string]interface{})
				xm := x.(map[string]interface{})
				if !ok || len(m) != len(xm) {
					bad()
					return
				}
				for key, y := range xm {
					a.value(path+"{"+key+"}", y, m[key])
				}
				a.seen["maps compared"]++
			case "struct":
				rec, ok := v.(*avro.Record)
				if !ok {
					bad()
					return
				}
				if n := a.record(path, x.([]interface{}), rec); n != len(rec.Names) {
					a.diff("%s: the record has the fields %v", path, rec.Names)
				}
				a.seen["nested records compared"]++
			default:
				bad()
			}
		}
	default:
		bad()
	}
}

// avroMeta checks the metadata of a record.
func avroMeta(rec *avro.Record, from, to time.Time, deleted bool) string {
	t, ok := rec.Values["AvroWriteTime"].(int64)
	if !ok || millisOf(from).Cmp(big.NewInt(t)) > 0 || millisOf(to).Cmp(big.NewInt(t)) < 0 {
		return fmt.Sprintf("the write time is %v instead of %v to %v", rec.Values["AvroWriteTime"], millisOf(from), millisOf(to))
	}
	if d, ok := rec.Values["AvroDeleted"].(bool); !ok || d != deleted {
		return fmt.Sprintf("the deleted mark is %v instead of %v", rec.Values["AvroDeleted"], deleted)
	}
	return ""
}

// avroSchema compares a record type with the properties of a struct.
func avroSchema(path string, ps []gproj.P, t *avro.Type, o gproj.Opt, meta int, diff func(string, ...interface{}), n *int64) {
	fields := map[string]*avro.Field{}
	for _, f := range t.Fields {
		fields[f.Name] = f
	}
	count := 0
	for _, p := range ps {
		if !goSees(p.N) {
			continue
		}
		count++
		*n++
		at := path + "." + p.Name
		f := fields[p.Name]
		if f == nil {
			diff("%s: the schema has no such field", at)
			continue
		}
		avroKind(at, p.N, f.Type, p.Req, o, diff, n)
		if p.N.Desc != "" && o.DescTag {
			if want := strings.Split(p.N.Desc, "\n")[0]; f.Doc != want {
				diff("%s: the description is %q", at, f.Doc)
			}
		}
	}
	if count+meta != len(t.Fields) {
		diff("%s: %d fields instead of %d", path, len(t.Fields), count+meta)
	}
}

func avroKind(at string, nd *gproj.N, t *avro.Type, req bool, o gproj.Opt, diff func(string, ...interface{}), n *int64) {
	if t.K == "union" {
		if len(t.Union) != 2 || t.Union[0].K != "null" {
			diff("%s: unexpected union of %d types", at, len(t.Union))
			return
		}
		if req && !nd.Null {
			diff("%s: a required value may be null", at)
		}
		t = t.Union[1]
	}
	want := map[string]string{"boolean": "boolean", "number": "double", "integer": "long", "string": "string", "date-time": "long", "object": "record", "array": "array"}[nd.K]
	if nd.K == "object" && len(nd.Props) == 0 {
		want = "map"
	}
	if t.K != want {
		diff("%s: the type is %s instead of %s", at, t.K, want)
		return
	}
	if (nd.K == "date-time") != (t.Logical == "timestamp-millis") {
		diff("%s: the logical type is %q", at, t.Logical)
	}
	switch t.K {
	case "record":
		avroSchema(at, nd.Props, t, o, 0, diff, n)
	case "array":
		avroKind(at+"[]", nd.Items, t.Items, true, o, diff, n)
	}
}

const g05Values = 16

// g05Probe looks for the known finding about a name which the Avro library does not know to be one of its methods.
func g05Probe(c *h.Case) {
	dir := filepath.Join(c.Dir, "probe")
	out := filepath.Join(dir, "out")
	os.MkdirAll(out, 0755)
	schema := writeFile(dir, "probe.json", []byte(`{"type":"object","properties":{"setUnionElem":{"type":"string"}}}`))
	err := gproj.Protect(time.Minute, func() error {
		return generate.BuildStructsWithArgs(generate.BuildArgs{SchemaPath: schema, OutputDir: out, GenerateAvro: true, ImportPath: "example.com/out"})
	})
	src, _ := os.ReadFile(filepath.Join(out, "avro", "probe", "probe.go"))
	clash := bytes.Contains(src, []byte("\n\tSetUnionElem ")) && bytes.Contains(src, []byte(") SetUnionElem("))
	c.Probe("field=setUnionElem", err != nil || clash, "with Avro a property setUnionElem gives code with a field and a method of one name, which does not compile", map[string]interface{}{"error": errText(err), "code": string(src)})
}

func g05Run(c *h.Case) {
	gw := c.Data.(*gworker)
	if c.Idx == 0 {
		g05Probe(c)
	}
	u := gw.units[c.Idx%len(gw.units)]
	if u.Failed {
		return
	}
	for _, t := range u.Types() {
		text, err := os.ReadFile(filepath.Join(u.Dir, strings.ToLower(t.Name)+".avsc"))
		fail := func(what string, extra map[string]interface{}) {
			extra["type"], extra["schema"], extra["code"] = t.Name, clip(string(text)), u.Code()[t.File]
			extra["avro code"] = u.Code()[strings.ToLower(t.Name)+"_avro.go"]
			c.Fail(what, u.Info(extra))
		}
		if err != nil {
			fail("no Avro schema file", map[string]interface{}{"error": err.Error()})
			return
		}
		s, err := avro.ParseSchema(text)
		if err != nil || s.K != "record" {
			fail("the Avro schema is not valid", map[string]interface{}{"error": fmt.Sprint(err)})
			return
		}
		var bad []string
		diff := func(f string, x ...interface{}) {
			if len(bad) < 10 {
				bad = append(bad, clip(fmt.Sprintf(f, x...)))
			}
		}
		var n int64
		avroSchema(t.Name, t.Props, s, u.O, 2, diff, &n)
		c.Add("schema fields compared", n)
		if len(bad) > 0 {
			fail("the Avro schema does not describe the struct", map[string]interface{}{"differences": bad})
			return
		}
		for i := 0; i < g05Values; i++ {
			seed := c.R.Int63()
			if i < 6 {
				seed = seed/6*6 + int64(i)
			}
			wt := time.Unix(c.R.Int63n(4e9)-1e9, c.R.Int63n(1e9)).UTC()
			q := gproj.Request{Op: "avro", Type: u.Pkg + "." + t.Name, Seed: seed, Time: wt.Format(time.RFC3339Nano), Delay: c.R.Intn(2)}
			a, ok := gw.ask(c, u, q)
			if !ok {
				return
			}
			vfail := func(what string, extra map[string]interface{}) {
				extra["value"], extra["request"] = clip(a.Map["value"]), q
				fail(what, extra)
			}
			if a.Map["error"] != "" {
				vfail("writing fails", map[string]interface{}{"error": a.Map["error"]})
				return
			}
			if x, ok := a.Map["value changed"]; ok {
				vfail("writing changed the value", map[string]interface{}{"got": clip(x)})
				return
			}
			raw, _ := base64.StdEncoding.DecodeString(a.Map["file"])
			f, err := avro.ReadFile(raw)
			if err != nil {
				vfail("the container file cannot be read", map[string]interface{}{"error": err.Error(), "bytes": clip(fmt.Sprintf("%q", raw))})
				return
			}
			if len(f.Records) != 1 {
				vfail("not one record", map[string]interface{}{"records": len(f.Records)})
				return
			}
			avroSchema("file:"+t.Name, t.Props, f.Type, gproj.Opt{NoNested: u.O.NoNested}, 2, diff, &n)
			rec := f.Records[0].(*avro.Record)
			if msg := avroMeta(rec, wt, wt, q.Delay == 1); msg != "" {
				diff("%s", msg)
			}
			var dump map[string]interface{}
			json.Unmarshal([]byte(a.Map["value"]), &dump)
			ad := &avroDiff{diff: diff, seen: map[string]int64{}}
			if k := ad.record(t.Name, dump["struct"].([]interface{}), rec); k+2 != len(rec.Names) {
				diff("the record has the fields %v", rec.Names)
			}
			if len(bad) > 0 {
				vfail("the record does not hold the value", map[string]interface{}{"differences": bad})
				return
			}
			for k, v := range ad.seen {
				c.Add(k, v)
			}
			c.Count("records compared")
			c.Add("values found in records", ad.n)
			c.Eval(ad.n > 1, u.Pkg, t.Name, raw)
			if i == 8 && c.WantSample() {
				c.Sample(map[string]interface{}{"schemas": u.Schemas(), "options": u.O.String(), "type": t.Name, "value": clip(a.Map["value"]), "avro schema": clip(string(text))})
			}
		}
	}
}

const g05Quick, g05Thorough = 60, 500

var avroSet = &gset{style: gproj.Style{Avro: true}, opts: func(r *rand.Rand, p *gproj.Proj) []gproj.Opt {
	return gproj.RandOpts(r, 3, gproj.Opt{Avro: true})
}}

func init() {
	register(&h.Check{
		ID:          "G05",
		Rule:        fmt.Sprintf("a case is one package generated with Avro support and compiled; the schema files are read by an independent parser and compared with the JSON schema, %d random values of each struct are written as container files which an independent reader decodes by the schema within the file, and every field is compared with the value", g05Values),
		Assumptions: []string{"property names are ASCII identifiers, which Avro asks for"},
		Quick:       g05Quick * 3, Thorough: g05Thorough * 3,
		Prepare: func(p *h.Parent) error {
			n := byTier(p.Tier, g05Quick, g05Thorough)
			if err := avroSet.prepare(p, n); err != nil {
				return err
			}
			testUnits(p, avroSet, n, byTier(p.Tier, 6, 50))
			return nil
		},
		Setup: func(w *h.Worker) error { return avroSet.setup(w, byTier(w.Tier, g05Quick, g05Thorough)) },
		Run:   g05Run,
		Need:  []string{"records compared", "schema fields compared", "values found in records", "times compared", "lists compared", "nested records compared", "packages whose generated tests passed"},
	})
}

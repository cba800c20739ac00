package checks

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/harness/avro"
	"verif/harness/gproj"
	"verif/harness/h"
)

const g06Quick, g06Thorough = 40, 250

var avroRaceSet = &gset{style: gproj.Style{Avro: true}, race: true, opts: func(r *rand.Rand, p *gproj.Proj) []gproj.Opt {
	return gproj.RandOpts(r, 2, gproj.Opt{Avro: true})
}}

// nilSafe tells whether a nil item can be written: a record within the record which cannot be null has no value then.
func nilSafe(t *avro.Type) bool {
	for _, f := range t.Fields {
		if f.Type.K == "record" {
			return false
		}
	}
	return true
}

// emptyRecord checks the record of a nil item.
func emptyRecord(rec *avro.Record) bool {
	for _, n := range rec.Names {
		if n != "AvroWriteTime" && n != "AvroDeleted" && !avroZero(rec.Values[n]) {
			return false
		}
	}
	return true
}

// g06Record compares a record of a file with the value written and gives the differences.
func g06Record(name, value string, rec *avro.Record, from, to time.Time, deleted bool) []string {
	var bad []string
	diff := func(f string, x ...interface{}) {
		if len(bad) < 6 {
			bad = append(bad, clip(fmt.Sprintf(f, x...)))
		}
	}
	if msg := avroMeta(rec, from, to, deleted); msg != "" {
		diff("%s", msg)
	}
	if value == "" {
		if !emptyRecord(rec) {
			diff("a nil item is written as %v", rec.Values)
		}
		return bad
	}
	var dump map[string]interface{}
	json.Unmarshal([]byte(value), &dump)
	ad := &avroDiff{diff: diff, seen: map[string]int64{}}
	if k := ad.record(name, dump["struct"].([]interface{}), rec); k+2 != len(rec.Names) {
		diff("the record has the fields %v", rec.Names)
	}
	return bad
}

func rfc(s string) time.Time {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		panic(err)
	}
	return t
}

func g06Run(c *h.Case) {
	gw := c.Data.(*gworker)
	if c.Idx == 0 {
		g06Probe(c, gw)
	}
	u := gw.units[c.Idx%len(gw.units)]
	if u.Failed {
		return
	}
	types := u.Types()
	for _, t := range types {
		text, err := os.ReadFile(filepath.Join(u.Dir, strings.ToLower(t.Name)+".avsc"))
		if err != nil {
			c.Fail("no Avro schema file", u.Info(map[string]interface{}{"type": t.Name, "error": err.Error()}))
			return
		}
		s, err := avro.ParseSchema(text)
		if err != nil {
			c.Fail("the Avro schema is not valid", u.Info(map[string]interface{}{"type": t.Name, "error": err.Error()}))
			return
		}
		size := int64(0)
		for i := 0; i < 5; i++ {
			if !g06Single(c, gw, u, t.Name, i, &size) {
				return
			}
		}
		for i := 0; i < 8; i++ {
			if !g06Bulk(c, gw, u, t.Name, nilSafe(s), i, size) {
				return
			}
		}
	}
}

// g06Time draws a write time.
func g06Time(r *rand.Rand, i int) string {
	switch {
	case i%4 == 0:
		return ""
	case i%4 == 1 && r.Intn(3) == 0:
		return "zone"
	}
	return time.Unix(r.Int63n(4e9)-1e9, r.Int63n(1e9)).In(time.FixedZone("x", r.Intn(80000)-40000)).Format(time.RFC3339Nano)
}

func g06Single(c *h.Case, gw *gworker, u *gproj.Unit, name string, i int, size *int64) bool {
	q := gproj.Request{Op: "avro", Type: u.Pkg + "." + name, Seed: c.R.Int63(), Time: g06Time(c.R, i), Delay: c.R.Intn(2), Par: 1}
	switch i {
	case 1:
		q.Mode = "nil"
	case 2, 3:
		q.FailAt = 1 + c.R.Int63n(*size+40)
		if i == 3 {
			q.FailAt = *size + 1 - c.R.Int63n(60)
		}
		if q.FailAt < 1 {
			q.FailAt = 1
		}
	case 4:
		q.Par = 2 + c.R.Intn(6)
	}
	a, ok := gw.ask(c, u, q)
	if !ok {
		return false
	}
	fail := func(what string, extra map[string]interface{}) bool {
		extra["type"], extra["request"], extra["value"] = name, q, clip(a.Map["value"])
		c.Fail(what, u.Info(extra))
		return false
	}
	if x, ok := a.Map["value changed"]; ok {
		return fail("writing changed the value", map[string]interface{}{"got": clip(x)})
	}
	if len(a.List) != q.Par {
		return fail("no answer", map[string]interface{}{"answer": a})
	}
	for _, text := range a.List {
		o := map[string]string{}
		json.Unmarshal([]byte(text), &o)
		raw, _ := base64.StdEncoding.DecodeString(o["file"])
		if q.Mode == "nil" {
			if o["error"] == "" {
				return fail("a nil value is written", map[string]interface{}{"bytes": len(raw)})
			}
			c.Count("nil values refused")
			c.Eval(true, u.Pkg, name, "nil", q.Delay)
			continue
		}
		if (o["error"] != "") != (o["failed"] != "0") {
			return fail("a failure of the destination is not reported, or one is reported without it", map[string]interface{}{"error": o["error"], "failed writes": o["failed"]})
		}
		if o["failed"] != "0" {
			c.Count("failures of the destination reported")
			c.Eval(true, u.Pkg, name, "failing", q.FailAt)
			continue
		}
		f, err := avro.ReadFile(raw)
		if err != nil || len(f.Records) != 1 {
			return fail("not a container file with one record", map[string]interface{}{"error": fmt.Sprint(err)})
		}
		if i == 0 {
			*size = int64(len(raw))
		}
		from, to := rfc(o["before"]), rfc(o["after"])
		if q.Time != "" && q.Time != "zone" {
			from = rfc(q.Time)
			to = from
		} else {
			c.Count("files with the current time")
		}
		if bad := g06Record(name, a.Map["value"], f.Records[0].(*avro.Record), from, to, q.Delay == 1); len(bad) > 0 {
			return fail("the record is not the one which was asked for", map[string]interface{}{"differences": bad})
		}
		if q.Par > 1 {
			c.Count("files written at the same time from one value")
		}
		c.Count("single records compared")
		c.Eval(true, u.Pkg, name, raw)
	}
	return true
}

func g06Bulk(c *h.Case, gw *gworker, u *gproj.Unit, name string, nils bool, i int, size int64) bool {
	r := c.R
	n := []int{1, 2, 3, 5, 8, 20}[r.Intn(6)]
	if r.Intn(12) == 0 {
		n = 150
		if r.Intn(5) == 0 {
			n = 1300
		}
	}
	q := gproj.Request{Op: "bulk", Type: u.Pkg + "." + name, Seed: r.Int63n(1e15), Time: g06Time(r, i), Par: 1}
	for j := 0; j < n; j++ {
		s := r.Int63n(1e12)
		switch {
		case nils && r.Intn(5) == 0:
			s = -1
		case len(q.Seeds) > 0 && r.Intn(6) == 0:
			s = q.Seeds[r.Intn(len(q.Seeds))]
		}
		q.Seeds = append(q.Seeds, s)
	}
	if i == 6 && r.Intn(2) == 0 {
		q.Seeds = []int64{-2}
	}
	if r.Intn(2) == 0 {
		q.Delay = []int{20, 200, 1000}[r.Intn(3)]
		if n > 20 {
			q.Delay = 20
		}
	}
	var mode []string
	if r.Intn(3) == 0 {
		mode = append(mode, "buffered")
	}
	switch i {
	case 1, 2, 3, 4: // failures: in the header, at the start of a block, at the end, anywhere
		q.FailAt = 1 + r.Int63n(size+1+int64(n)*size/3)
		if i == 1 {
			q.FailAt = 1 + r.Int63n(20)
		}
		if i < 4 && r.Intn(2) == 0 {
			mode = append(mode, "late")
		}
		if r.Intn(2) == 0 {
			mode = append(mode, "stay")
		}
	case 5, 6:
		q.Par = 2 + r.Intn(5)
	case 7:
		mode = append(mode, "late")
	}
	q.Mode = strings.Join(mode, " ")
	a, ok := gw.ask(c, u, q)
	if !ok {
		return false
	}
	fail := func(what string, extra map[string]interface{}) bool {
		extra["type"], extra["request"] = name, q
		c.Fail(what, u.Info(extra))
		return false
	}
	if x, ok := a.Map["value changed"]; ok {
		return fail("writing changed a value", map[string]interface{}{"got": clip(x)})
	}
	if a.N != 0 {
		return fail("the writer is still running after it closed its error channel", map[string]interface{}{"writers": a.N})
	}
	if len(a.List) != q.Par {
		return fail("no answer", map[string]interface{}{"answer": a})
	}
	for _, text := range a.List {
		o := map[string]string{}
		json.Unmarshal([]byte(text), &o)
		if o["hang"] != "" {
			return fail("the writer hangs", map[string]interface{}{"what": o["hang"], "errors": o["errors"], "taken": o["taken"]})
		}
		if o["later"] != "" {
			return fail("the file is written to after the error channel is closed", map[string]interface{}{})
		}
		var errs []string
		var taken []int64
		json.Unmarshal([]byte(o["errors"]), &errs)
		json.Unmarshal([]byte(o["taken"]), &taken)
		raw, _ := base64.StdEncoding.DecodeString(o["file"])
		broken := o["failed"] != "0"
		if broken && (len(errs) != 1 || !strings.Contains(errs[0], "on purpose")) || !broken && len(errs) > 0 {
			return fail("the error channel does not tell what happened", map[string]interface{}{"errors": errs, "failed writes": o["failed"]})
		}
		f, err := avro.ReadFile(raw)
		if broken {
			c.Count("failures of the destination reported")
			if f == nil {
				f = &avro.File{}
			}
		} else if len(taken) == 0 && len(raw) == 0 {
			f = &avro.File{} // the file of no record is empty
			c.Count("files of no record")
		} else if err != nil {
			return fail("the container file cannot be read", map[string]interface{}{"error": err.Error(), "bytes": clip(fmt.Sprintf("%q", raw))})
		}
		if len(f.Records) > len(taken) || !broken && len(f.Records) != len(taken) {
			return fail("the number of records is not that of the items", map[string]interface{}{"records": len(f.Records), "items": len(taken), "errors": errs})
		}
		from, to := rfc(o["before"]), rfc(o["after"])
		if q.Time != "" && q.Time != "zone" {
			from = rfc(q.Time)
			to = from
		}
		var first interface{}
		for j, x := range f.Records {
			rec := x.(*avro.Record)
			value := ""
			if taken[j] >= 0 {
				value = a.Map[fmt.Sprintf("value %d", taken[j])]
			} else {
				c.Count("nil items written as deleted")
			}
			bad := g06Record(name, value, rec, from, to, taken[j] < 0)
			if j == 0 {
				first = rec.Values["AvroWriteTime"]
			} else if rec.Values["AvroWriteTime"] != first {
				bad = append(bad, "the write time differs from that of the first record")
			}
			if len(bad) > 0 {
				return fail("a record is not that of its item", map[string]interface{}{"item": j, "differences": bad, "value": clip(value)})
			}
			c.Count("bulk records compared")
		}
		if broken {
			c.Add("records before a failure", int64(len(f.Records)))
		}
		if q.Par > 1 {
			c.Count("files written side by side")
		}
		for _, m := range mode {
			c.Count("bulk files with mode " + m)
		}
		c.Count("bulk files")
		c.Eval(len(taken) > 0, u.Pkg, name, q.Mode, o["taken"], o["failed"], len(f.Records))
		if i == 4 && c.WantSample() {
			c.Sample(map[string]interface{}{"options": u.O.String(), "type": name, "request": q, "errors": errs, "items taken": taken, "records read": len(f.Records)})
		}
	}
	return true
}

// g06Probe writes a nil item of a type with a nested record, with a program of its own as it ends it.
func g06Probe(c *h.Case, gw *gworker) {
	for _, u := range gw.units {
		if u.Failed {
			continue
		}
		for _, t := range u.Types() {
			text, err := os.ReadFile(filepath.Join(u.Dir, strings.ToLower(t.Name)+".avsc"))
			if err != nil {
				continue
			}
			s, err := avro.ParseSchema(text)
			if err != nil || nilSafe(s) {
				continue
			}
			d, err := gproj.Start(filepath.Join(c.Shared, "driver"), c.Dir)
			if err != nil {
				return
			}
			defer d.Close()
			q := gproj.Request{Op: "bulk", Type: u.Pkg + "." + t.Name, Seeds: []int64{-1}, Seed: 1, Time: time.Unix(1e9, 0).UTC().Format(time.RFC3339Nano), Par: 1}
			a, err := d.Ask(q)
			if err == nil && a.Panic == "" {
				// no crash: then it must be right
				o := map[string]string{}
				if len(a.List) == 1 {
					json.Unmarshal([]byte(a.List[0]), &o)
				}
				raw, _ := base64.StdEncoding.DecodeString(o["file"])
				f, ferr := avro.ReadFile(raw)
				if ferr == nil && len(f.Records) == 1 {
					rec := f.Records[0].(*avro.Record)
					if emptyRecord(rec) && rec.Values["AvroDeleted"] == true && rec.Values["AvroWriteTime"] == big.NewInt(1e12).Int64() {
						c.Count("nil items with a nested record written")
						return
					}
				}
				c.Fail("a nil item with a nested record is not written as a deleted marker", u.Info(map[string]interface{}{"type": t.Name, "errors": o["errors"], "hang": o["hang"]}))
				return
			}
			c.Probe("nil-item-with-nested-record", true, "the bulk Avro writer ends the program on a nil item when a nested object is not nullable in Avro", u.Info(map[string]interface{}{"type": t.Name, "request": q, "error": clip(fmt.Sprint(err, a.Panic))}))
			return
		}
	}
}

func init() {
	register(&h.Check{
		ID:          "G06",
		Rule:        "a case is one package generated with Avro support and compiled with the race detector; each type's single writers get values, nil, zero and other times, failing destinations and several goroutines with one value, its bulk writer sequences of items (nil and repeated ones too) with different timing, buffering, late readers of the error channel, writers side by side and destinations failing at any byte; an independent reader decodes the files and an offline checker compares the records one by one with the items the writer took",
		Assumptions: []string{"items are not changed while the writer has them", "the destination follows the rules of io.Writer"},
		Quick:       g06Quick * 2, Thorough: g06Thorough * 2, Race: true,
		Prepare: func(p *h.Parent) error {
			return avroRaceSet.prepare(p, byTier(p.Tier, g06Quick, g06Thorough))
		},
		Setup: func(w *h.Worker) error { return avroRaceSet.setup(w, byTier(w.Tier, g06Quick, g06Thorough)) },
		Run:   g06Run,
		Need:  []string{"single records compared", "bulk records compared", "nil values refused", "failures of the destination reported", "records before a failure", "nil items written as deleted", "files with the current time", "files written side by side", "files written at the same time from one value", "bulk files with mode late", "bulk files with mode stay", "bulk files with mode buffered", "files of no record"},
	})
}

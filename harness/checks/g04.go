package checks

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/harness/gproj"
	"verif/harness/h"
)

// mpReader is an independent MessagePack decoder.
type mpReader struct {
	b     []byte
	depth int
}

type mpExt struct {
	Type int8
	Data []byte
}

func (r *mpReader) take(n int) []byte {
	if n < 0 || n > len(r.b) {
		panic(fmt.Sprintf("%d bytes wanted, %d left", n, len(r.b)))
	}
	b := r.b[:n]
	r.b = r.b[n:]
	return b
}

func (r *mpReader) uint(n int) uint64 {
	var x uint64
	for _, c := range r.take(n) {
		x = x<<8 | uint64(c)
	}
	return x
}

func (r *mpReader) value() interface{} {
	r.depth++
	defer func() { r.depth-- }()
	if r.depth > 100 {
		panic("nesting too deep")
	}
	c := r.take(1)[0]
	switch {
	case c <= 0x7f:
		return int64(c)
	case c >= 0xe0:
		return int64(int8(c))
	case c >= 0x80 && c <= 0x8f:
		return r.mapping(int(c & 0xf))
	case c >= 0x90 && c <= 0x9f:
		return r.array(int(c & 0xf))
	case c >= 0xa0 && c <= 0xbf:
		return string(r.take(int(c & 0x1f)))
	}
	switch c {
	case 0xc0:
		return nil
	case 0xc2:
		return false
	case 0xc3:
		return true
	case 0xc4, 0xc5, 0xc6:
		return append([]byte{}, r.take(int(r.uint(1<<(c-0xc4))))...)
	case 0xc7, 0xc8, 0xc9:
		n := int(r.uint(1 << (c - 0xc7)))
		t := int8(r.take(1)[0])
		return mpExt{t, append([]byte{}, r.take(n)...)}
	case 0xca:
		return float64(math.Float32frombits(uint32(r.uint(4))))
	case 0xcb:
		return math.Float64frombits(r.uint(8))
	case 0xcc, 0xcd, 0xce, 0xcf:
		return r.uint(1 << (c - 0xcc))
	case 0xd0:
		return int64(int8(r.uint(1)))
	case 0xd1:
		return int64(int16(r.uint(2)))
	case 0xd2:
		return int64(int32(r.uint(4)))
	case 0xd3:
		return int64(r.uint(8))
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		t := int8(r.take(1)[0])
		return mpExt{t, append([]byte{}, r.take(1<<(c-0xd4))...)}
	case 0xd9, 0xda, 0xdb:
		return string(r.take(int(r.uint(1 << (c - 0xd9)))))
	case 0xdc, 0xdd:
		return r.array(int(r.uint(2 << (c - 0xdc))))
	case 0xde, 0xdf:
		return r.mapping(int(r.uint(2 << (c - 0xde))))
	}
	panic(fmt.Sprintf("byte %#x starts no value", c))
}

func (r *mpReader) array(n int) interface{} {
	if n > len(r.b) {
		panic("array longer than the content")
	}
	out := make([]interface{}, n)
	for i := range out {
		out[i] = r.value()
	}
	return out
}

func (r *mpReader) mapping(n int) interface{} {
	out := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k, ok := r.value().(string)
		if !ok {
			panic("a key is no text")
		}
		if _, ok := out[k]; ok {
			panic(fmt.Sprintf("key %q twice", k))
		}
		out[k] = r.value()
	}
	return out
}

// mpDecode decodes one value which must take all bytes.
func mpDecode(b []byte) (v interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	rd := &mpReader{b: b}
	v = rd.value()
	if len(rd.b) > 0 {
		return nil, fmt.Errorf("%d bytes follow the value", len(rd.b))
	}
	return v, nil
}

// mpCompare compares a decoded MessagePack value with the driver's dump of the Go value.
func mpCompare(path string, dump, v interface{}, diff func(string, ...interface{}), n *int64) {
	*n++
	bad := func() {
		text, _ := json.Marshal(dump)
		if len(text) > 200 {
			text = text[:200]
		}
		diff("%s: %s is written as %v", path, text, v)
	}
	switch d := dump.(type) {
	case nil:
		if v != nil {
			bad()
		}
		return
	case []interface{}:
		a, ok := v.([]interface{})
		if !ok && v == nil && len(d) == 0 {
			return
		}
		if !ok || len(a) != len(d) {
			bad()
			return
		}
		for i := range d {
			mpCompare(fmt.Sprintf("%s[%d]", path, i), d[i], a[i], diff, n)
		}
		return
	case map[string]interface{}:
		for k, x := range d {
			switch k {
			case "ptr":
				mpCompare(path, x, v, diff, n)
			case "b":
				if v != x {
					bad()
				}
			case "s":
				if v != x {
					bad()
				}
			case "i":
				switch t := v.(type) {
				case int64:
					if fmt.Sprint(t) != x {
						bad()
					}
				case uint64:
					if fmt.Sprint(t) != x {
						bad()
					}
				default:
					bad()
				}
			case "f":
				f, ok := v.(float64)
				if !ok || fmt.Sprint(math.Float64bits(f)) != x {
					bad()
				}
			case "time":
				e, ok := v.(mpExt)
				p := x.([]interface{})
				if !ok || len(e.Data) != 12 || fmt.Sprint(int64(binary.BigEndian.Uint64(e.Data))) != p[0] || fmt.Sprint(int32(binary.BigEndian.Uint32(e.Data[8:]))) != p[1] {
					bad()
				}
			case "map":
				m, ok := v.(map[string]interface{})
				xm := x.(map[string]interface{})
				if !ok || len(m) != len(xm) {
					bad()
					return
				}
				for k, y := range xm {
					mpCompare(path+"{"+k+"}", y, m[k], diff, n)
				}
			case "struct":
				m, ok := v.(map[string]interface{})
				if !ok {
					bad()
					return
				}
				fields := x.([]interface{})
				if len(m) != len(fields) {
					diff("%s: %d fields are written as %d", path, len(fields), len(m))
				}
				for _, f := range fields {
					p := f.([]interface{})
					name := p[2].(string)
					y, ok := m[name]
					if !ok {
						diff("%s.%s: not written, keys are %v", path, name, sortedKeys(m))
						continue
					}
					mpCompare(path+"."+name, p[1], y, diff, n)
				}
			}
		}
		return
	}
	diff("%s: unknown kind of value", path)
}

const g04Values = 24

func g04Run(c *h.Case) {
	gw := c.Data.(*gworker)
	u := gw.units[c.Idx%len(gw.units)]
	if u.Failed {
		return
	}
	for _, t := range u.Types() {
		for i := 0; i < g04Values; i++ {
			seed := c.R.Int63()
			if i < 6 {
				seed = seed/6*6 + int64(i) // every profile from all zero to all set
			}
			a, ok := gw.ask(c, u, gproj.Request{Op: "msgp", Type: u.Pkg + "." + t.Name, Seed: seed})
			if !ok {
				return
			}
			fail := func(what string, extra map[string]interface{}) {
				extra["type"], extra["value"], extra["seed"] = t.Name, clip(a.Map["value"]), seed
				extra["code"] = u.Code()[t.File]
				c.Fail(what, u.Info(extra))
			}
			if a.Err != "" {
				fail("the MessagePack round trip fails", map[string]interface{}{"error": a.Err})
				return
			}
			for _, k := range []string{"unmarshal", "decode", "unmarshal into used", "decode into used"} {
				if a.Map[k] != a.Map["value"] {
					fail("the value changed: "+k, map[string]interface{}{"got": clip(a.Map[k])})
					return
				}
			}
			if x, ok := a.Map["value changed"]; ok {
				fail("encoding changed the value", map[string]interface{}{"got": clip(x)})
				return
			}
			raw, _ := base64.StdEncoding.DecodeString(a.Map["marshal"])
			for _, other := range []string{"encode", "prefixed"} {
				if a.Map["marshal"] == a.Map[other] {
					continue
				}
				// Maps have no order, so only their length and content can be compared.
				enc, _ := base64.StdEncoding.DecodeString(a.Map[other])
				x, err1 := mpDecode(raw)
				y, err2 := mpDecode(enc)
				if !strings.Contains(a.Map["value"], `{"map":{"`) || err1 != nil || err2 != nil || len(raw) != len(enc) || fmt.Sprint(x) != fmt.Sprint(y) {
					fail("the bytes differ between MarshalMsg and: "+other, map[string]interface{}{"MarshalMsg": clip(fmt.Sprintf("%q", raw)), "other": clip(fmt.Sprintf("%q", enc))})
					return
				}
				c.Count("encodings equal but for the order of a map")
			}
			if int64(len(raw)) > a.N {
				fail("the encoding exceeds the announced size", map[string]interface{}{"announced": a.N, "length": len(raw)})
				return
			}
			v, err := mpDecode(raw)
			if err != nil {
				fail("the encoding is not well-formed", map[string]interface{}{"error": err.Error(), "bytes": clip(fmt.Sprintf("%q", raw))})
				return
			}
			var dump interface{}
			json.Unmarshal([]byte(a.Map["value"]), &dump)
			var bad []string
			var n int64
			mpCompare(t.Name, dump, v, func(f string, x ...interface{}) { bad = append(bad, clip(fmt.Sprintf(f, x...))) }, &n)
			if len(bad) > 0 {
				if len(bad) > 10 {
					bad = bad[:10]
				}
				fail("the encoding does not hold the value", map[string]interface{}{"differences": bad})
				return
			}
			c.Count("values encoded and decoded")
			c.Add("items found in the encodings", n)
			c.Add("encoded bytes", int64(len(raw)))
			if strings.Contains(a.Map["value"], "null") {
				c.Count("values with nil pointers")
			}
			if strings.Contains(a.Map["value"], `"time"`) {
				c.Count("values with times")
			}
			if strings.Contains(a.Map["value"], `"map"`) {
				c.Count("values with maps")
			}
			c.Eval(n > 1, u.Pkg, t.Name, raw)
			if i == 8 && c.WantSample() {
				c.Sample(map[string]interface{}{"schemas": u.Schemas(), "options": u.O.String(), "type": t.Name, "value": clip(a.Map["value"]), "bytes": clip(fmt.Sprintf("%q", raw))})
			}
		}
	}
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

// testUnits runs the generated tests of some units.
func testUnits(p *h.Parent, g *gset, projects, n int) {
	units := g.plan(p.Shared, p.Seed, projects)
	if gproj.LoadBuilt(p.Shared, units) != nil || p.Only >= 0 {
		return
	}
	args := []string{"test", "-vet=off"}
	byPkg := map[string]*gproj.Unit{}
	step := len(units)/n + 1
	for i := 0; i < len(units); i += step {
		if u := units[i]; !u.Failed {
			args = append(args, "./"+u.Pkg)
			byPkg["gp/"+u.Pkg] = u
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(p.Shared, "mod")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GO111MODULE=on")
	out, _ := cmd.CombinedOutput()
	for _, line := range strings.Split(string(out), "\n") {
		f := strings.Fields(line)
		if len(f) < 2 {
			continue
		}
		u := byPkg[f[1]]
		if u == nil {
			continue
		}
		switch f[0] {
		case "ok":
			p.Counters["packages whose generated tests passed"]++
		case "FAIL":
			p.Fail(u.Idx, "the generated tests fail", u.Info(map[string]interface{}{"output": clip(string(out))}))
		}
	}
}

const g04Quick, g04Thorough = 60, 600

func init() {
	set := &gset{opts: func(r *rand.Rand, p *gproj.Proj) []gproj.Opt { return gproj.RandOpts(r, 3, gproj.Opt{Msgp: true}) }}
	register(&h.Check{
		ID:          "G04",
		Rule:        fmt.Sprintf("a case is one package generated with MessagePack methods and compiled, and %d random values for each of its structs, from all zero to all set, with boundary numbers, long texts, nil pointers, empty and long slices; the driver encodes through both interfaces (also after a prefix and through small buffers) and decodes into fresh and used values; the bytes are decoded by an independent decoder and compared with the value", g04Values),
		Assumptions: []string{"nil and empty slices and maps are the same value", "the extension for times is that of the MessagePack library: seconds and nanoseconds"},
		Quick:       g04Quick * 3, Thorough: g04Thorough * 3,
		Prepare: func(p *h.Parent) error {
			n := byTier(p.Tier, g04Quick, g04Thorough)
			if err := set.prepare(p, n); err != nil {
				return err
			}
			testUnits(p, set, n, byTier(p.Tier, 8, 60))
			return nil
		},
		Setup: func(w *h.Worker) error { return set.setup(w, byTier(w.Tier, g04Quick, g04Thorough)) },
		Run:   g04Run,
		Need:  []string{"values encoded and decoded", "items found in the encodings", "values with nil pointers", "values with times", "packages whose generated tests passed"},
	})
}

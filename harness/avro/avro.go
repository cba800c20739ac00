// Package avro is an independent reader of Avro schemas and container files.
package avro

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math"
	"regexp"
	"strings"
	"unicode/utf8"
)

// Type is an Avro type.
type Type struct {
	K       string // null boolean int long float double bytes string record array map union
	Name    string // full name of records
	Fields  []*Field
	Items   *Type
	Union   []*Type
	Logical string
}

// Field is a field of a record.
type Field struct {
	Name    string
	Doc     string
	Type    *Type
	Default interface{}
	HasDef  bool
	Logical string // a logical type given at the field
}

var nameForm = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

type schemaParser struct {
	named map[string]*Type
}

// ParseSchema reads a schema strictly. Object members given twice are refused.
func ParseSchema(text []byte) (t *Type, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	if err := uniqueMembers(text); err != nil {
		return nil, err
	}
	var v interface{}
	if err := json.Unmarshal(text, &v); err != nil {
		return nil, err
	}
	p := &schemaParser{named: map[string]*Type{}}
	return p.parse(v, ""), nil
}

func uniqueMembers(text []byte) error {
	d := json.NewDecoder(bytes.NewReader(text))
	var walk func() error
	walk = func() error {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch tok {
		case json.Delim('{'):
			seen := map[string]bool{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return err
				}
				if seen[k.(string)] {
					return fmt.Errorf("member %q given twice", k)
				}
				seen[k.(string)] = true
				if err := walk(); err != nil {
					return err
				}
			}
			_, err = d.Token()
		case json.Delim('['):
			for d.More() {
				if err := walk(); err != nil {
					return err
				}
			}
			_, err = d.Token()
		}
		return err
	}
	return walk()
}

func bad(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }

func (p *schemaParser) parse(v interface{}, ns string) *Type {
	switch v := v.(type) {
	case string:
		switch v {
		case "null", "boolean", "int", "long", "float", "double", "bytes", "string":
			return &Type{K: v}
		}
		full := v
		if !strings.Contains(v, ".") && ns != "" {
			full = ns + "." + v
		}
		if t := p.named[full]; t != nil {
			return t
		}
		bad("unknown type %q", v)
	case []interface{}:
		t := &Type{K: "union"}
		seen := map[string]bool{}
		for _, x := range v {
			u := p.parse(x, ns)
			key := u.K + " " + u.Name
			if u.K == "union" || seen[key] {
				bad("a union may not hold %s", key)
			}
			seen[key] = true
			t.Union = append(t.Union, u)
		}
		if len(t.Union) == 0 {
			bad("empty union")
		}
		return t
	case map[string]interface{}:
		k, ok := v["type"].(string)
		if !ok {
			return p.parse(v["type"], ns)
		}
		switch k {
		case "record", "error":
			name, _ := v["name"].(string)
			full := name
			if s, ok := v["namespace"].(string); ok && !strings.Contains(name, ".") {
				ns = s
				if ns != "" {
					full = ns + "." + name
				}
			} else if i := strings.LastIndex(name, "."); i >= 0 {
				ns = name[:i]
			} else if ns != "" {
				full = ns + "." + name
			}
			for _, part := range strings.Split(full, ".") {
				if !nameForm.MatchString(part) {
					bad("%q is no Avro name", full)
				}
			}
			if p.named[full] != nil {
				bad("the name %q is defined twice", full)
			}
			t := &Type{K: "record", Name: full}
			p.named[full] = t
			list, ok := v["fields"].([]interface{})
			if !ok {
				bad("record %q has no fields", full)
			}
			seen := map[string]bool{}
			for _, x := range list {
				m, ok := x.(map[string]interface{})
				if !ok {
					bad("a field of %q is no object", full)
				}
				f := &Field{}
				f.Name, _ = m["name"].(string)
				if !nameForm.MatchString(f.Name) {
					bad("%q is no name of a field", f.Name)
				}
				if seen[f.Name] {
					bad("field %q of %q is given twice", f.Name, full)
				}
				seen[f.Name] = true
				f.Doc, _ = m["doc"].(string)
				f.Logical, _ = m["logicalType"].(string)
				f.Type = p.parse(m["type"], ns)
				f.Default, f.HasDef = m["default"]
				if f.HasDef && !validDefault(f.Type, f.Default) {
					bad("default %v of field %q does not fit", f.Default, f.Name)
				}
				t.Fields = append(t.Fields, f)
			}
			return t
		case "array":
			return &Type{K: "array", Items: p.parse(v["items"], ns)}
		case "map":
			return &Type{K: "map", Items: p.parse(v["values"], ns)}
		default:
			t := p.parse(v["type"], ns)
			if l, ok := v["logicalType"].(string); ok {
				c := *t
				c.Logical = l
				return &c
			}
			return t
		}
	}
	bad("%v is no type", v)
	return nil
}

func validDefault(t *Type, d interface{}) bool {
	switch t.K {
	case "null":
		return d == nil
	case "boolean":
		_, ok := d.(bool)
		return ok
	case "int", "long", "float", "double":
		_, ok := d.(float64)
		return ok
	case "string", "bytes":
		_, ok := d.(string)
		return ok
	case "array":
		_, ok := d.([]interface{})
		return ok
	case "map", "record":
		_, ok := d.(map[string]interface{})
		return ok
	case "union":
		return validDefault(t.Union[0], d)
	}
	return false
}

// Record is a decoded record.
type Record struct {
	Names  []string
	Values map[string]interface{}
}

type reader struct {
	b     []byte
	depth int
}

func (r *reader) take(n int) []byte {
	if n < 0 || n > len(r.b) {
		bad("%d bytes wanted, %d left", n, len(r.b))
	}
	b := r.b[:n]
	r.b = r.b[n:]
	return b
}

func (r *reader) long() int64 {
	var x uint64
	for shift := uint(0); ; shift += 7 {
		if shift > 63 {
			bad("number too long")
		}
		c := r.take(1)[0]
		x |= uint64(c&0x7f) << shift
		if c < 0x80 {
			break
		}
	}
	return int64(x>>1) ^ -int64(x&1)
}

func (r *reader) bytes() []byte { return r.take(int(r.long())) }

// decode reads a value: nil, bool, int64, float64, string, []interface{}, map[string]interface{}, *Record.
func (r *reader) decode(t *Type) interface{} {
	r.depth++
	defer func() { r.depth-- }()
	if r.depth > 200 {
		bad("nesting too deep")
	}
	switch t.K {
	case "null":
		return nil
	case "boolean":
		switch c := r.take(1)[0]; c {
		case 0:
			return false
		case 1:
			return true
		default:
			bad("boolean %d", c)
		}
	case "int", "long":
		return r.long()
	case "float":
		return float64(math.Float32frombits(binary.LittleEndian.Uint32(r.take(4))))
	case "double":
		return math.Float64frombits(binary.LittleEndian.Uint64(r.take(8)))
	case "bytes":
		return append([]byte{}, r.bytes()...)
	case "string":
		b := r.bytes()
		if !utf8.Valid(b) {
			bad("text is not UTF-8")
		}
		return string(b)
	case "union":
		i := r.long()
		if i < 0 || i >= int64(len(t.Union)) {
			bad("union member %d of %d", i, len(t.Union))
		}
		return r.decode(t.Union[i])
	case "record":
		rec := &Record{Values: map[string]interface{}{}}
		for _, f := range t.Fields {
			rec.Names = append(rec.Names, f.Name)
			rec.Values[f.Name] = r.decode(f.Type)
		}
		return rec
	case "array", "map":
		list := []interface{}{}
		m := map[string]interface{}{}
		for {
			n := r.long()
			if n == 0 {
				break
			}
			if n < 0 {
				n = -n
				r.long()
			}
			if n > int64(len(r.b)) && t.Items.K != "null" && t.Items.K != "record" {
				bad("array longer than the content")
			}
			for ; n > 0; n-- {
				if t.K == "map" {
					k := string(r.bytes())
					if _, ok := m[k]; ok {
						bad("key %q twice", k)
					}
					m[k] = r.decode(t.Items)
				} else {
					list = append(list, r.decode(t.Items))
				}
			}
		}
		if t.K == "map" {
			return m
		}
		return list
	}
	bad("unknown type %q", t.K)
	return nil
}

// File is the content of a container file.
type File struct {
	Schema  []byte
	Codec   string
	Type    *Type
	Records []interface{}
	Blocks  int
}

// ReadFile reads a container file, which must be complete.
func ReadFile(b []byte) (f *File, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	r := &reader{b: b}
	if string(r.take(4)) != "Obj\x01" {
		bad("no container file")
	}
	meta := r.decode(&Type{K: "map", Items: &Type{K: "bytes"}}).(map[string]interface{})
	f = &File{}
	f.Schema, _ = meta["avro.schema"].([]byte)
	codec, _ := meta["avro.codec"].([]byte)
	f.Codec = string(codec)
	if f.Type, err = ParseSchema(f.Schema); err != nil {
		return nil, fmt.Errorf("schema of the file: %v", err)
	}
	sync := string(r.take(16))
	for len(r.b) > 0 {
		n := r.long()
		data := r.bytes()
		if string(r.take(16)) != sync {
			bad("wrong sync marker")
		}
		switch f.Codec {
		case "", "null":
		case "snappy":
			if len(data) < 4 {
				bad("snappy block too short")
			}
			sum := binary.BigEndian.Uint32(data[len(data)-4:])
			data = unsnap(data[:len(data)-4])
			if crc32.ChecksumIEEE(data) != sum {
				bad("wrong checksum")
			}
		default:
			bad("unknown codec %q", f.Codec)
		}
		f.Blocks++
		br := &reader{b: data}
		for ; n > 0; n-- {
			f.Records = append(f.Records, br.decode(f.Type))
		}
		if len(br.b) > 0 {
			bad("%d bytes follow the records of a block", len(br.b))
		}
	}
	return f, nil
}

// unsnap undoes snappy compression.
func unsnap(b []byte) []byte {
	n, k := binary.Uvarint(b)
	if k <= 0 || n > 1<<30 {
		bad("snappy length")
	}
	b = b[k:]
	out := make([]byte, 0, n)
	for len(b) > 0 {
		c := b[0]
		var length, off int
		switch c & 3 {
		case 0:
			length = int(c>>2) + 1
			b = b[1:]
			if length > 60 {
				w := length - 60
				length = 0
				for i := 0; i < w; i++ {
					length |= int(b[i]) << (8 * i)
				}
				length++
				b = b[w:]
			}
			out = append(out, b[:length]...)
			b = b[length:]
			continue
		case 1:
			length = int(c>>2&7) + 4
			off = int(c>>5)<<8 | int(b[1])
			b = b[2:]
		case 2:
			length = int(c>>2) + 1
			off = int(b[1]) | int(b[2])<<8
			b = b[3:]
		case 3:
			length = int(c>>2) + 1
			off = int(binary.LittleEndian.Uint32(b[1:]))
			b = b[5:]
		}
		if off == 0 || off > len(out) {
			bad("snappy offset")
		}
		for i := 0; i < length; i++ {
			out = append(out, out[len(out)-off])
		}
	}
	if uint64(len(out)) != n {
		bad("snappy content has %d bytes instead of %d", len(out), n)
	}
	return out
}

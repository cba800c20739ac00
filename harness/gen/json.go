// Package gen generates schemas and documents and renders them in many layouts.
package gen

import (
	"encoding/json"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// Member is one member of an ordered object.
type Member struct {
	Key string
	Val interface{}
}

// Obj is an object with ordered members.
type Obj []Member

// Layout says how to render JSON.
type Layout struct {
	R       *rand.Rand // nil for the canonical layout
	Shuffle bool       // shuffle the members of objects
	Space   int        // 0 none, 1 indented, 2 random
}

var spaces = []string{"", "", " ", "  ", "\n", "\t", "\r\n", " \n\t "}

func (l Layout) ws() string {
	if l.R == nil || l.Space != 2 {
		return ""
	}
	return spaces[l.R.Intn(len(spaces))]
}

// Render writes v as JSON.
func Render(v interface{}, l Layout) []byte {
	var b strings.Builder
	b.WriteString(l.ws())
	render(&b, v, l, "")
	b.WriteString(l.ws())
	return []byte(b.String())
}

// RenderCompact writes v without whitespace and with sorted or given member order.
func RenderCompact(v interface{}) []byte { return Render(v, Layout{}) }

func render(b *strings.Builder, v interface{}, l Layout, indent string) {
	nl, in := "", indent
	if l.Space == 1 {
		in = indent + "  "
		nl = "\n" + in
	}
	switch t := v.(type) {
	case Obj:
		ms := t
		if l.Shuffle && l.R != nil {
			ms = append(Obj{}, t...)
			l.R.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		}
		b.WriteString("{" + l.ws())
		for i, m := range ms {
			if i > 0 {
				b.WriteString("," + l.ws())
			}
			b.WriteString(nl)
			b.Write(Quote(m.Key))
			b.WriteString(l.ws() + ":" + l.ws())
			if l.Space == 1 {
				b.WriteString(" ")
			}
			render(b, m.Val, l, in)
			b.WriteString(l.ws())
		}
		if l.Space == 1 && len(ms) > 0 {
			b.WriteString("\n" + indent)
		}
		b.WriteString("}")
	case map[string]interface{}:
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		o := make(Obj, 0, len(t))
		for _, k := range keys {
			o = append(o, Member{k, t[k]})
		}
		render(b, o, l, indent)
	case []interface{}:
		b.WriteString("[" + l.ws())
		for i, x := range t {
			if i > 0 {
				b.WriteString("," + l.ws())
			}
			b.WriteString(nl)
			render(b, x, l, in)
			b.WriteString(l.ws())
		}
		if l.Space == 1 && len(t) > 0 {
			b.WriteString("\n" + indent)
		}
		b.WriteString("]")
	case []string:
		x := make([]interface{}, len(t))
		for i := range t {
			x[i] = t[i]
		}
		render(b, x, l, indent)
	case string:
		b.Write(Quote(t))
	case json.RawMessage:
		b.Write(t)
	case nil:
		b.WriteString("null")
	case int:
		b.WriteString(strconv.Itoa(t))
	default:
		raw, err := json.Marshal(t)
		if err != nil {
			panic(err)
		}
		b.Write(raw)
	}
}

// Quote writes a JSON string without HTML escaping.
func Quote(s string) []byte {
	var b strings.Builder
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(s); err != nil {
		panic(err)
	}
	return []byte(strings.TrimSuffix(b.String(), "\n"))
}

// Copy makes a deep copy of a JSON value.
func Copy(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		m := make(map[string]interface{}, len(t))
		for k, x := range t {
			m[k] = Copy(x)
		}
		return m
	case []interface{}:
		s := make([]interface{}, len(t))
		for i, x := range t {
			s[i] = Copy(x)
		}
		return s
	}
	return v
}

// Pick returns a random element.
func Pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

// Chance is true with a probability of pct percent.
func Chance(r *rand.Rand, pct int) bool { return r.Intn(100) < pct }

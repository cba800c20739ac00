// Package sdl reads GraphQL schema definitions: object types, interfaces and scalars.
package sdl

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Type is a definition.
type Type struct {
	Kind       string // type, interface or scalar
	Name       string
	Desc       string
	Implements []string
	Directives []Directive
	Fields     []*Field
	File       string
}

// Field finds a field.
func (t *Type) Field(name string) *Field {
	for _, f := range t.Fields {
		if f.Name == name {
			return f
		}
	}
	return nil
}

// Field is a field or an argument.
type Field struct {
	Name       string
	Desc       string
	Args       []*Field
	Type       string // canonical
	Default    string
	Directives []Directive
}

// Same compares all of two fields.
func (f *Field) Same(g *Field) bool {
	return fmt.Sprintf("%#v", f.flat()) == fmt.Sprintf("%#v", g.flat())
}

func (f *Field) flat() []string {
	out := []string{f.Name, f.Desc, f.Type, f.Default}
	for _, a := range f.Args {
		out = append(out, a.flat()...)
	}
	for _, d := range f.Directives {
		out = append(out, fmt.Sprint(d))
	}
	return out
}

// Directive is a directive with its arguments.
type Directive struct {
	Name string
	Args []Arg
}

// Arg is an argument of a directive; strings are unquoted.
type Arg struct{ Name, Value string }

// Arg finds an argument.
func (d *Directive) Arg(name string) string {
	for _, a := range d.Args {
		if a.Name == name {
			return a.Value
		}
	}
	return ""
}

// Find finds a directive.
func Find(ds []Directive, name string) *Directive {
	for i := range ds {
		if ds[i].Name == name {
			return &ds[i]
		}
	}
	return nil
}

type token struct {
	k, v string // name, string, number, or the punctuation itself
	pos  int
}

type syntax string

func bad(pos int, format string, args ...interface{}) {
	panic(syntax(fmt.Sprintf("at byte %d: ", pos) + fmt.Sprintf(format, args...)))
}

func nameStart(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func lex(s string) []token {
	var out []token
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case strings.HasPrefix(s[i:], "\ufeff"):
			i += 3
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ',':
			i++
		case c == '#':
			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
				i++
			}
		case nameStart(c):
			j := i
			for j < len(s) && (nameStart(s[j]) || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, token{"name", s[i:j], i})
			i = j
		case c >= '0' && c <= '9' || c == '-':
			j := i + 1
			for j < len(s) && strings.IndexByte("0123456789.eE+-", s[j]) >= 0 {
				j++
			}
			if _, err := strconv.ParseFloat(s[i:j], 64); err != nil {
				bad(i, "number %q", s[i:j])
			}
			out = append(out, token{"number", s[i:j], i})
			i = j
		case strings.HasPrefix(s[i:], `"""`):
			v, n := blockString(s[i+3:], i)
			out = append(out, token{"string", v, i})
			i += 3 + n
		case c == '"':
			v, n := plainString(s[i+1:], i)
			out = append(out, token{"string", v, i})
			i += 1 + n
		case strings.HasPrefix(s[i:], "..."):
			out = append(out, token{"...", "...", i})
			i += 3
		case strings.IndexByte("!$&()[]{}:=@|", c) >= 0:
			out = append(out, token{string(c), string(c), i})
			i++
		default:
			bad(i, "unexpected character %q", s[i:i+1])
		}
	}
	return append(out, token{"end", "", len(s)})
}

// source checks that a character may be in a document.
func source(r rune, size, pos int) {
	if r == utf8.RuneError && size == 1 || r < 0x20 && r != '\t' && r != '\n' && r != '\r' {
		bad(pos, "character %q", r)
	}
}

func plainString(s string, pos int) (string, int) {
	var b strings.Builder
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '"':
			return b.String(), i + 1
		case c == '\n' || c == '\r':
			bad(pos+i, "line break in a string")
		case c == '\\':
			if i+1 >= len(s) {
				bad(pos+i, "escape")
			}
			if k := strings.IndexByte(`"\/bfnrt`, s[i+1]); k >= 0 {
				b.WriteByte("\"\\/\b\f\n\r\t"[k])
				i += 2
				continue
			}
			if s[i+1] != 'u' || i+6 > len(s) {
				bad(pos+i, "escape %q", s[i:i+2])
			}
			n, err := strconv.ParseUint(s[i+2:i+6], 16, 32)
			if err != nil {
				bad(pos+i, "escape %q", s[i:i+6])
			}
			i += 6
			if n >= 0xd800 && n < 0xdc00 && i+6 <= len(s) && s[i:i+2] == `\u` {
				if lo, err := strconv.ParseUint(s[i+2:i+6], 16, 32); err == nil && lo >= 0xdc00 && lo < 0xe000 {
					n = (n-0xd800)<<10 + (lo - 0xdc00) + 0x10000
					i += 6
				}
			}
			if n >= 0xd800 && n < 0xe000 {
				bad(pos+i, "lone surrogate")
			}
			b.WriteRune(rune(n))
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			source(r, n, pos+i)
			b.WriteRune(r)
			i += n
		}
	}
	bad(pos, "unterminated string")
	return "", 0
}

func blockString(s string, pos int) (string, int) {
	var b strings.Builder
	for i := 0; i < len(s); {
		switch {
		case strings.HasPrefix(s[i:], `\"""`):
			b.WriteString(`"""`)
			i += 4
		case strings.HasPrefix(s[i:], `"""`):
			return dedent(b.String()), i + 3
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			source(r, n, pos+i)
			b.WriteRune(r)
			i += n
		}
	}
	bad(pos, "unterminated block string")
	return "", 0
}

// dedent is BlockStringValue of the GraphQL specification.
func dedent(raw string) string {
	lines := strings.Split(strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(raw), "\n")
	common := -1
	for i, l := range lines {
		n := len(l) - len(strings.TrimLeft(l, " \t"))
		if i > 0 && n < len(l) && (common < 0 || n < common) {
			common = n
		}
	}
	for i := range lines {
		if i > 0 && common > 0 {
			if len(lines[i]) < common {
				lines[i] = ""
			} else {
				lines[i] = lines[i][common:]
			}
		}
	}
	blank := func(l string) bool { return strings.Trim(l, " \t") == "" }
	for len(lines) > 0 && blank(lines[0]) {
		lines = lines[1:]
	}
	for len(lines) > 0 && blank(lines[len(lines)-1]) {
		lines = lines[:len(lines)-1]
	}
	return strings.Join(lines, "\n")
}

type parser struct {
	ts []token
}

func (p *parser) peek() token { return p.ts[0] }

func (p *parser) next() token {
	t := p.ts[0]
	if t.k != "end" {
		p.ts = p.ts[1:]
	}
	return t
}

func (p *parser) want(k string) token {
	t := p.next()
	if t.k != k {
		bad(t.pos, "%s %q instead of %s", t.k, t.v, k)
	}
	return t
}

func (p *parser) is(k string) bool { return p.peek().k == k }

// Parse reads a document.
func Parse(text string) (types []*Type, err error) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(syntax)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", string(s))
		}
	}()
	p := &parser{lex(text)}
	for !p.is("end") {
		t := &Type{Desc: p.desc()}
		k := p.want("name")
		t.Kind = k.v
		switch k.v {
		case "scalar":
			t.Name = p.name()
			t.Directives = p.directives()
		case "type", "interface":
			t.Name = p.name()
			if p.peek().v == "implements" {
				p.next()
				if p.is("&") {
					p.next()
				}
				t.Implements = append(t.Implements, p.name())
				for p.is("&") {
					p.next()
					t.Implements = append(t.Implements, p.name())
				}
			}
			t.Directives = p.directives()
			p.want("{")
			t.Fields = p.fields("}", true)
			if len(t.Fields) == 0 {
				bad(k.pos, "type %s has no fields", t.Name)
			}
		default:
			bad(k.pos, "unknown definition %q", k.v)
		}
		types = append(types, t)
	}
	return types, nil
}

func (p *parser) desc() string {
	if p.is("string") {
		return p.next().v
	}
	return ""
}

func (p *parser) name() string {
	t := p.want("name")
	if strings.HasPrefix(t.v, "__") {
		bad(t.pos, "reserved name %q", t.v)
	}
	return t.v
}

func (p *parser) fields(end string, args bool) []*Field {
	var out []*Field
	seen := map[string]bool{}
	for !p.is(end) {
		f := &Field{Desc: p.desc()}
		pos := p.peek().pos
		f.Name = p.name()
		if seen[f.Name] {
			bad(pos, "%s is there twice", f.Name)
		}
		seen[f.Name] = true
		if args && p.is("(") {
			p.next()
			f.Args = p.fields(")", false)
			if len(f.Args) == 0 {
				bad(pos, "no arguments")
			}
		}
		p.want(":")
		f.Type = p.typ()
		if !args && p.is("=") {
			p.next()
			f.Default = p.value()
		}
		f.Directives = p.directives()
		out = append(out, f)
	}
	p.next()
	return out
}

func (p *parser) typ() string {
	var s string
	if p.is("[") {
		p.next()
		s = "[" + p.typ() + "]"
		p.want("]")
	} else {
		s = p.name()
	}
	if p.is("!") {
		p.next()
		s += "!"
	}
	return s
}

func (p *parser) directives() []Directive {
	var out []Directive
	for p.is("@") {
		p.next()
		d := Directive{Name: p.name()}
		if p.is("(") {
			p.next()
			for !p.is(")") {
				n := p.name()
				p.want(":")
				d.Args = append(d.Args, Arg{n, p.value()})
			}
			p.next()
		}
		out = append(out, d)
	}
	return out
}

func (p *parser) value() string {
	t := p.next()
	switch t.k {
	case "string", "name", "number":
		return t.v
	case "[":
		s := "["
		for !p.is("]") {
			s += p.value() + " "
		}
		p.next()
		return s + "]"
	case "{":
		s := "{"
		for !p.is("}") {
			s += p.name() + ":"
			p.want(":")
			s += p.value() + " "
		}
		p.next()
		return s + "}"
	}
	bad(t.pos, "%q is no value", t.v)
	return ""
}

package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// Node is a schema.
type Node struct {
	Type       string // object, array, string, number, integer, boolean
	DateTime   bool   // a string with format date-time
	Nullable   bool
	NullFirst  bool
	TypeList   bool // list notation even with a single type
	Props      []Prop
	Free       bool // an object with empty properties
	NoItems    bool
	Items      *Node
	Required   []string
	HasDefault bool
	Default    interface{}
	Tr         []NamedTransform
	Desc       string

	Enum       []interface{}
	Pattern    string
	MinLen     *int
	MaxLen     *int
	Min        *float64
	Max        *float64
	ExMin      bool // exclusiveMinimum (draft 4 boolean)
	Closed     bool // additionalProperties false
	MinItems   *int
	MaxItems   *int
	ExtraKeys  Obj // any further keys
	AllOf      []*Node
	AnyOf      []*Node
	OneOf      []*Node
	Ref        string // $ref, standing for the schema Target
	Target     *Node
	Multiple   float64
	More       *More // rarer constraints
	SchemaDecl string
}

// More holds constraints which few nodes have.
type More struct {
	Unique             bool
	MinProps, MaxProps *int
	Below              *float64 // maximum with exclusiveMaximum (draft 4 boolean)
	Not                *Node
	Dep                []string // the first property needs the others
	Pat                string   // properties whose name matches conform to PatNode
	PatNode            *Node
}

// Prop is a named property.
type Prop struct {
	Name string
	Node *Node
}

// NamedTransform is a transform section for one identifier.
type NamedTransform struct {
	Ident string
	T     *Transform
}

// Transform is one transform section.
type Transform struct {
	From     []Instr
	Method   string
	HasDelim bool
	Delim    string
}

// Instr is one source instruction.
type Instr struct {
	Path  *Path
	XPath *XPath
	Ops   []Op
}

// Op is one operation.
type Op struct {
	Type string
	Args [][2]string
}

// Arg returns an argument.
func (o Op) Arg(name string) string {
	for _, a := range o.Args {
		if a[0] == name {
			return a[1]
		}
	}
	return ""
}

// Transform returns the section for ident or nil.
func (n *Node) Transform(ident string) *Transform {
	for _, t := range n.Tr {
		if t.Ident == ident {
			return t.T
		}
	}
	return nil
}

// Prop finds a property.
func (n *Node) Prop(name string) *Node {
	for _, p := range n.Props {
		if p.Name == name {
			return p.Node
		}
	}
	return nil
}

// SegKind is the kind of a path segment.
type SegKind int

// Segment kinds.
const (
	Field SegKind = iota
	Quoted
	Index
	Wild    // [*]
	DotWild // .*
	FilterEq
	FilterHas
	FilterGt
	Range
	Descend // ..name
	Raw
)

// Seg is one segment of a JSONPath.
type Seg struct {
	Kind SegKind
	Name string
	I, J int
	Lit  interface{}
	Txt  string
}

// Path is a JSONPath.
type Path struct {
	Rel  bool
	Segs []Seg
}

func (p *Path) String() string {
	var b strings.Builder
	if p.Rel {
		b.WriteString("@")
	} else {
		b.WriteString("$")
	}
	for _, s := range p.Segs {
		switch s.Kind {
		case Field:
			b.WriteString("." + s.Name)
		case Quoted:
			b.WriteString("[" + string(Quote(s.Name)) + "]")
		case Index:
			fmt.Fprintf(&b, "[%d]", s.I)
		case Wild:
			b.WriteString("[*]")
		case DotWild:
			b.WriteString(".*")
		case FilterEq:
			fmt.Fprintf(&b, "[?(@.%s==%s)]", s.Name, RenderCompact(s.Lit))
		case FilterGt:
			fmt.Fprintf(&b, "[?(@.%s>%s)]", s.Name, RenderCompact(s.Lit))
		case Range:
			fmt.Fprintf(&b, "[%d:%d]", s.I, s.J)
		case Descend:
			b.WriteString(".." + s.Name)
		case Raw:
			b.WriteString(s.Txt)
		}
	}
	return b.String()
}

// JSON returns the schema as an ordered JSON value.
func (n *Node) JSON() Obj {
	var o Obj
	add := func(k string, v interface{}) { o = append(o, Member{k, v}) }
	if n.SchemaDecl != "" {
		add("$schema", n.SchemaDecl)
	}
	switch {
	case n.Type == "":
	case n.Nullable && n.NullFirst:
		add("type", []interface{}{"null", n.Type})
	case n.Nullable:
		add("type", []interface{}{n.Type, "null"})
	case n.TypeList:
		add("type", []interface{}{n.Type})
	default:
		add("type", n.Type)
	}
	if n.DateTime {
		add("format", "date-time")
	}
	if n.Desc != "" {
		add("description", n.Desc)
	}
	if n.HasDefault {
		add("default", n.Default)
	}
	if n.Enum != nil {
		add("enum", n.Enum)
	}
	if n.Pattern != "" {
		add("pattern", n.Pattern)
	}
	if n.MinLen != nil {
		add("minLength", *n.MinLen)
	}
	if n.MaxLen != nil {
		add("maxLength", *n.MaxLen)
	}
	if n.Min != nil {
		add("minimum", *n.Min)
	}
	if n.ExMin {
		add("exclusiveMinimum", true)
	}
	if n.Max != nil {
		add("maximum", *n.Max)
	}
	if n.MinItems != nil {
		add("minItems", *n.MinItems)
	}
	if n.MaxItems != nil {
		add("maxItems", *n.MaxItems)
	}
	if n.Multiple > 0 {
		add("multipleOf", n.Multiple)
	}
	if n.Ref != "" {
		add("$ref", n.Ref)
	}
	for _, l := range []struct {
		key  string
		list []*Node
	}{{"allOf", n.AllOf}, {"anyOf", n.AnyOf}, {"oneOf", n.OneOf}} {
		if l.list != nil {
			var parts []interface{}
			for _, p := range l.list {
				parts = append(parts, p.JSON())
			}
			add(l.key, parts)
		}
	}
	if len(n.Tr) > 0 {
		var tr Obj
		for _, t := range n.Tr {
			tr = append(tr, Member{t.Ident, t.T.JSON()})
		}
		add("transform", tr)
	}
	if n.Type == "object" && (n.Free || n.Props != nil) {
		props := Obj{}
		for _, p := range n.Props {
			props = append(props, Member{p.Name, p.Node.JSON()})
		}
		add("properties", props)
	}
	if n.Closed {
		add("additionalProperties", false)
	}
	if n.Items != nil {
		add("items", n.Items.JSON())
	}
	if n.Required != nil {
		add("required", n.Required)
	}
	if m := n.More; m != nil {
		if m.Unique {
			add("uniqueItems", true)
		}
		if m.MinProps != nil {
			add("minProperties", *m.MinProps)
		}
		if m.MaxProps != nil {
			add("maxProperties", *m.MaxProps)
		}
		if m.Below != nil {
			add("maximum", *m.Below)
			add("exclusiveMaximum", true)
		}
		if m.Not != nil {
			add("not", m.Not.JSON())
		}
		if len(m.Dep) > 0 {
			add("dependencies", Obj{{m.Dep[0], m.Dep[1:]}})
		}
		if m.PatNode != nil {
			add("patternProperties", Obj{{m.Pat, m.PatNode.JSON()}})
		}
	}
	o = append(o, n.ExtraKeys...)
	return o
}

// JSON returns the transform section as an ordered JSON value.
func (t *Transform) JSON() Obj {
	var from []interface{}
	for _, in := range t.From {
		var o Obj
		if in.Path != nil {
			o = append(o, Member{"jsonPath", in.Path.String()})
		}
		if in.XPath != nil {
			o = append(o, Member{"xmlPath", in.XPath.String()})
		}
		if in.Ops != nil {
			ops := []interface{}{}
			for _, op := range in.Ops {
				oo := Obj{{"type", op.Type}}
				if op.Args != nil {
					var args Obj
					for _, a := range op.Args {
						args = append(args, Member{a[0], a[1]})
					}
					oo = append(oo, Member{"args", args})
				}
				ops = append(ops, oo)
			}
			o = append(o, Member{"operations", ops})
		}
		from = append(from, o)
	}
	o := Obj{{"from", from}}
	if t.Method != "" {
		o = append(o, Member{"method", t.Method})
	}
	if t.HasDelim {
		o = append(o, Member{"methodOptions", Obj{{"concatenateDelimiter", t.Delim}}})
	}
	return o
}

// Idents are names usable in dotted JSONPath.
var Idents = []string{"a", "b", "c", "d", "e", "title", "url", "items", "meta", "x1", "_u", "bodyText", "ünï", "Name", "type", "default", "properties", "transform"}

// OddNames need quoting in JSONPath but no escaping.
var OddNames = []string{"data-x", "x-y-z", "2nd", "0", "9lives", "with space", "a:b", "a/b", "@id", "#text", "ключ-1", "k,v", "+", "a'b", "per%cent"}

// NameSet draws distinct names.
func NameSet(r *rand.Rand, n, oddPct int) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		var s string
		if Chance(r, oddPct) {
			s = Pick(r, OddNames)
		} else {
			s = Pick(r, Idents)
		}
		if seen[s] {
			s += fmt.Sprint(r.Intn(50))
			if seen[s] {
				continue
			}
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

// IsIdent tells if a name can be used in dotted JSONPath.
func IsIdent(s string) bool {
	for i, c := range s {
		switch {
		case c == '_', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c > 127 && c < 0x250:
		case i > 0 && c >= '0' && c <= '9':
		default:
			return false
		}
	}
	return s != ""
}

// XPath is an XPath, as text or as an expression.
type XPath struct {
	Txt  string
	Expr XExpr
}

func (x *XPath) String() string {
	if x.Expr != nil {
		return x.Expr.String()
	}
	return x.Txt
}

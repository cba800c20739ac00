package gen

import (
	"encoding/xml"
	"fmt"
	"math/rand"
	"strings"
)

// El is an XML element, attribute or text run.
type El struct {
	Kind   ElKind
	Name   string
	Text   string // of texts and attributes
	CDATA  bool
	Attrs  []*El
	Kids   []*El
	Parent *El
	Order  int // document order
}

// ElKind is the kind of an XML node.
type ElKind int

// Kinds of XML nodes.
const (
	Document ElKind = iota
	Element
	TextRun
	Attribute
	Comment
)

// InnerText is the text of an element, attribute or text.
func (e *El) InnerText() string {
	switch e.Kind {
	case TextRun, Attribute:
		return e.Text
	case Comment:
		return ""
	}
	var b strings.Builder
	for _, k := range e.Kids {
		b.WriteString(k.InnerText())
	}
	return b.String()
}

// HasElement tells if the element has child elements.
func (e *El) HasElement() bool {
	for _, k := range e.Kids {
		if k.Kind == Element {
			return true
		}
	}
	return false
}

// Add appends a child.
func (e *El) Add(k *El) *El {
	k.Parent = e
	e.Kids = append(e.Kids, k)
	return k
}

// Number numbers all nodes in document order.
func (e *El) Number(n int) int {
	e.Order = n
	n++
	for _, a := range e.Attrs {
		a.Order = n
		a.Parent = e
		n++
	}
	for _, k := range e.Kids {
		n = k.Number(n)
	}
	return n
}

func xmlEscape(s string, attr bool) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// RenderXML writes the document. With r the insignificant parts (quotes, empty tags, the declaration) vary.
func RenderXML(doc *El, r *rand.Rand) []byte {
	var b strings.Builder
	if r != nil && Chance(r, 40) {
		b.WriteString(Pick(r, []string{`<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>` + "\n", `<?xml version='1.0' encoding='utf-8' standalone='yes'?>` + "\n"}))
	}
	for _, k := range doc.Kids {
		renderEl(&b, k, r)
	}
	if r != nil && Chance(r, 20) {
		b.WriteString("\n<!-- end -->\n")
	}
	return []byte(b.String())
}

func renderEl(b *strings.Builder, e *El, r *rand.Rand) {
	switch e.Kind {
	case TextRun:
		if e.CDATA {
			b.WriteString("<![CDATA[" + e.Text + "]]>")
			return
		}
		b.WriteString(xmlEscape(e.Text, false))
		return
	case Comment:
		b.WriteString("<!--" + e.Text + "-->")
		return
	}
	b.WriteString("<" + e.Name)
	for _, a := range e.Attrs {
		q := `"`
		v := xmlEscape(a.Text, true)
		if r != nil && Chance(r, 30) {
			q = "'"
		}
		b.WriteString(" " + a.Name + "=" + q + v + q)
	}
	if len(e.Kids) == 0 && (r == nil || Chance(r, 50)) {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, k := range e.Kids {
		renderEl(b, k, r)
	}
	b.WriteString("</" + e.Name + ">")
}

// xmlNames are the element names by depth, no name occurs at two depths.
var xmlNames = [][]string{{"r"}, {"item", "list", "title", "meta-data", "n1"}, {"name", "val", "sub", "p_q"}, {"leaf", "x.y", "deep"}, {"end"}}
var xmlAttrs = []string{"id", "k", "data-x", "lang"}

// XMLSource draws an XML document.
func XMLSource(r *rand.Rand) *El {
	doc := &El{Kind: Document}
	if Chance(r, 10) {
		doc.Add(&El{Kind: Comment, Text: " start "})
	}
	root := doc.Add(&El{Kind: Element, Name: "r"})
	fillEl(r, root, 1)
	doc.Number(0)
	return doc
}

func xmlTextVal(r *rand.Rand) string {
	s := StringVal(r)
	return strings.NewReplacer("\r", " ", "]]>", "]]").Replace(s)
}

func fillEl(r *rand.Rand, e *El, depth int) {
	if Chance(r, 40) {
		for _, a := range xmlAttrs {
			if Chance(r, 50) {
				v := xmlTextVal(r)
				if a == "k" {
					v = Pick(r, []string{"u", "v", "w"})
				}
				if a == "id" && Chance(r, 70) {
					v = fmt.Sprint(r.Intn(4))
				}
				e.Attrs = append(e.Attrs, &El{Kind: Attribute, Name: a, Text: v})
			}
		}
	}
	if depth >= len(xmlNames) || depth > 1 && Chance(r, 45) {
		// a leaf
		for i := r.Intn(3); i > 0; i-- {
			addText(r, e)
		}
		return
	}
	mixed := Chance(r, 15)
	space := Chance(r, 30)
	n := 1 + r.Intn(6-depth)
	if depth == 1 {
		n++
	}
	for i := 0; i < n; i++ {
		if space {
			addRun(e, &El{Kind: TextRun, Text: "\n" + strings.Repeat("  ", depth)})
		}
		if mixed && Chance(r, 40) {
			addText(r, e)
		}
		if Chance(r, 6) {
			e.Add(&El{Kind: Comment, Text: "c"})
		}
		k := e.Add(&El{Kind: Element, Name: Pick(r, xmlNames[depth])})
		fillEl(r, k, depth+1)
	}
}

func addText(r *rand.Rand, e *El) {
	t := xmlTextVal(r)
	if t == "" {
		return
	}
	addRun(e, &El{Kind: TextRun, Text: t, CDATA: Chance(r, 20)})
}

// addRun adds a text; a text next to a text is joined with it unless one is CDATA.
func addRun(e *El, t *El) {
	if n := len(e.Kids); n > 0 && e.Kids[n-1].Kind == TextRun && !e.Kids[n-1].CDATA && !t.CDATA {
		e.Kids[n-1].Text += t.Text
		return
	}
	e.Add(t)
}

// XAxis is the axis of an XPath step.
type XAxis int

// Axes.
const (
	XChild XAxis = iota
	XDesc        // descendant
	XAttr
	XSelf
	XParent
)

// XStep is one step.
type XStep struct {
	Axis XAxis
	Test string // a name, "*" or "text()"
	Pred []XPred
}

// XPred is a predicate.
type XPred struct {
	Index int    // [n] when above zero, [last()] when -1
	Attr  string // [@attr='Lit'], [@attr] if Lit is nil
	Child string // [child='Lit'], [child] if Lit is nil
	Lit   *string
	Not   bool
}

// XLoc is a location path.
type XLoc struct {
	Abs   bool
	Steps []XStep
}

// XExpr is a union of location paths.
type XExpr []XLoc

func (x XExpr) String() string {
	var parts []string
	for _, l := range x {
		parts = append(parts, l.String())
	}
	return strings.Join(parts, " | ")
}

func (l XLoc) String() string {
	var b strings.Builder
	for i, s := range l.Steps {
		switch {
		case s.Axis == XDesc && i == 0 && !l.Abs:
			b.WriteString(".//")
		case s.Axis == XDesc:
			b.WriteString("//")
		case i > 0 || l.Abs:
			b.WriteString("/")
		}
		switch s.Axis {
		case XAttr:
			b.WriteString("@" + s.Test)
		case XSelf:
			b.WriteString(".")
		case XParent:
			b.WriteString("..")
		default:
			b.WriteString(s.Test)
		}
		for _, p := range s.Pred {
			b.WriteString("[" + p.String() + "]")
		}
	}
	return b.String()
}

func (p XPred) String() string {
	s := ""
	switch {
	case p.Index > 0:
		return fmt.Sprint(p.Index)
	case p.Index < 0:
		return "last()"
	case p.Attr != "":
		s = "@" + p.Attr
	default:
		s = p.Child
	}
	if p.Lit != nil {
		q := "'"
		if strings.Contains(*p.Lit, "'") {
			q = `"`
		}
		s += "=" + q + *p.Lit + q
	}
	if p.Not {
		s = "not(" + s + ")"
	}
	return s
}

// XWalk draws a location path from ctx which selects something in most cases.
func XWalk(r *rand.Rand, ctx *El, abs bool) XLoc {
	l := XLoc{Abs: abs}
	cur := ctx
	desc := false
	for d := 0; d < 5; d++ {
		if d > 0 && Chance(r, 35) {
			break
		}
		if len(cur.Attrs) > 0 && Chance(r, 25) {
			a := Pick(r, cur.Attrs)
			l.Steps = append(l.Steps, XStep{Axis: XAttr, Test: a.Name})
			return l
		}
		var els []*El
		text := false
		for _, k := range cur.Kids {
			if k.Kind == Element {
				els = append(els, k)
			}
			text = text || k.Kind == TextRun
		}
		if len(els) == 0 {
			if text && d > 0 && Chance(r, 20) {
				l.Steps = append(l.Steps, XStep{Axis: XChild, Test: "text()"})
			}
			break
		}
		e := Pick(r, els)
		s := XStep{Axis: XChild, Test: e.Name}
		if !desc && Chance(r, 20) {
			desc = true
			s.Axis = XDesc
			for Chance(r, 50) {
				var below []*El
				for _, k := range e.Kids {
					if k.Kind == Element {
						below = append(below, k)
					}
				}
				if len(below) == 0 {
					break
				}
				e = Pick(r, below)
			}
			s.Test = e.Name
		} else if Chance(r, 10) {
			s.Test = "*"
		}
		if Chance(r, 30) && s.Axis == XChild {
			switch r.Intn(4) {
			case 0:
				s.Pred = append(s.Pred, XPred{Index: 1 + r.Intn(3)})
			case 1:
				s.Pred = append(s.Pred, XPred{Index: -1})
			case 2:
				if len(e.Attrs) > 0 {
					a := Pick(r, e.Attrs)
					p := XPred{Attr: a.Name}
					if plain(a.Text) || a.Name == "id" && len(a.Text) == 1 {
						p.Lit = &a.Text
					}
					p.Not = Chance(r, 20)
					s.Pred = append(s.Pred, p)
				}
			case 3:
				for _, k := range e.Kids {
					if k.Kind == Element {
						t := k.InnerText()
						p := XPred{Child: k.Name}
						if plain(t) {
							p.Lit = &t
						}
						p.Not = Chance(r, 20)
						s.Pred = append(s.Pred, p)
						break
					}
				}
			}
		}
		l.Steps = append(l.Steps, s)
		cur = e
	}
	if len(l.Steps) == 0 {
		if abs {
			l.Steps = []XStep{{Axis: XChild, Test: "*"}}
		} else {
			l.Steps = []XStep{{Axis: XSelf}}
		}
	}
	return l
}

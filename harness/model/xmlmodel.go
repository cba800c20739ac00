package model

import (
	"sort"
	"strings"

	"verif/harness/gen"
)

// XSelect evaluates an expression relative to ctx. The root of absolute paths is ctx as well.
func XSelect(x gen.XExpr, ctx *gen.El) []*gen.El {
	seen := map[*gen.El]bool{}
	var out []*gen.El
	for _, l := range x {
		for _, e := range selectLoc(l, ctx) {
			if !seen[e] {
				seen[e] = true
				out = append(out, e)
			}
		}
	}
	if len(x) == 1 {
		sort.SliceStable(out, func(i, j int) bool { return out[i].Order < out[j].Order })
	}
	return out
}

func selectLoc(l gen.XLoc, ctx *gen.El) []*gen.El {
	cur := []*gen.El{ctx}
	for _, s := range l.Steps {
		seen := map[*gen.El]bool{}
		var next []*gen.El
		for _, c := range cur {
			found := axis(s, c)
			for _, p := range s.Pred {
				var kept []*gen.El
				for i, e := range found {
					if holds(p, e, i+1, len(found)) {
						kept = append(kept, e)
					}
				}
				found = kept
			}
			for _, e := range found {
				if !seen[e] {
					seen[e] = true
					next = append(next, e)
				}
			}
		}
		cur = next
	}
	return cur
}

func matches(test string, e *gen.El) bool {
	switch test {
	case "*":
		return e.Kind == gen.Element
	case "text()":
		return e.Kind == gen.TextRun
	}
	return e.Kind == gen.Element && e.Name == test
}

func axis(s gen.XStep, c *gen.El) []*gen.El {
	var out []*gen.El
	switch s.Axis {
	case gen.XSelf:
		return []*gen.El{c}
	case gen.XParent:
		if c.Parent != nil {
			return []*gen.El{c.Parent}
		}
	case gen.XAttr:
		for _, a := range c.Attrs {
			if a.Name == s.Test {
				out = append(out, a)
			}
		}
	case gen.XChild:
		for i, k := range c.Kids {
			if i > 0 && k.Kind == gen.TextRun && !k.CDATA && strings.TrimSpace(k.Text) == "" {
				continue // the XPath library leaves out blank texts
			}
			if matches(s.Test, k) {
				out = append(out, k)
			}
		}
	case gen.XDesc:
		var rec func(e *gen.El)
		rec = func(e *gen.El) {
			for _, k := range e.Kids {
				if matches(s.Test, k) {
					out = append(out, k)
				}
				rec(k)
			}
		}
		rec(c)
	}
	return out
}

func holds(p gen.XPred, e *gen.El, pos, size int) bool {
	ok := false
	switch {
	case p.Index > 0:
		return pos == p.Index
	case p.Index < 0:
		return pos == size
	case p.Attr != "":
		for _, a := range e.Attrs {
			if a.Name == p.Attr && (p.Lit == nil || a.Text == *p.Lit) {
				ok = true
			}
		}
	default:
		for _, k := range e.Kids {
			if k.Kind == gen.Element && k.Name == p.Child && (p.Lit == nil || k.InnerText() == *p.Lit) {
				ok = true
			}
		}
	}
	return ok != p.Not
}

type xmlEvaluator struct{ ident string }

// XML evaluates a schema over an XML document.
func XML(root *gen.Node, ident string, doc *gen.El) (interface{}, error) {
	e := &xmlEvaluator{ident}
	return e.object(root, doc, true)
}

func (e *xmlEvaluator) eval(n *gen.Node, ctx *gen.El, item bool) (interface{}, error) {
	switch {
	case n.Type == "object" && !n.Free:
		return e.object(n, ctx, false)
	case n.Type == "array":
		return e.array(n, ctx)
	}
	if t := n.Transform(e.ident); t != nil {
		v, err := e.sources(t, FieldType(n), ctx)
		if err != nil {
			return nil, err
		}
		if _, nodes := v.([]*gen.El); v != nil && !nodes {
			return v, nil
		}
	} else if item {
		if v, ok := Convert(ctx.InnerText(), FieldType(n)); ok && v != nil {
			return v, nil
		}
	}
	if n.HasDefault && n.Default != nil {
		return gen.Copy(n.Default), nil
	}
	return nil, nil
}

func (e *xmlEvaluator) object(n *gen.Node, ctx *gen.El, root bool) (interface{}, error) {
	if t := n.Transform(e.ident); t != nil && !root {
		v, err := e.sources(t, "object", ctx)
		if err != nil {
			return nil, err
		}
		if v == nil {
			if n.HasDefault && n.Default != nil {
				return gen.Copy(n.Default), nil
			}
			return nil, nil
		}
		nodes, ok := v.([]*gen.El)
		if !ok {
			return nil, ErrTransform
		}
		ctx = nodes[0]
	}
	out := map[string]interface{}{}
	if n.HasDefault && !root {
		if m, ok := n.Default.(map[string]interface{}); ok {
			out = gen.Copy(m).(map[string]interface{})
		}
	}
	for _, p := range n.Props {
		v, err := e.eval(p.Node, ctx, false)
		if err != nil {
			return nil, err
		}
		if v != nil {
			out[p.Name] = v
		}
	}
	if len(out) == 0 {
		return nil, nil
	}
	return out, nil
}

func (e *xmlEvaluator) array(n *gen.Node, ctx *gen.El) (interface{}, error) {
	var items []interface{}
	have := false
	if t := n.Transform(e.ident); t != nil {
		v, err := e.sources(t, "array", ctx)
		if err != nil {
			return nil, err
		}
		switch a := v.(type) {
		case nil:
		case []*gen.El:
			have = true
			for _, x := range a {
				items = append(items, x)
			}
		case []interface{}:
			have, items = true, a
		default:
			have, items = true, []interface{}{v}
		}
	}
	if !have && n.HasDefault {
		items, _ = n.Default.([]interface{})
	}
	var out []interface{}
	for _, x := range items {
		el, ok := x.(*gen.El)
		if !ok {
			if n.Items.Type != "object" && n.Items.Type != "array" && n.Items.Transform(e.ident) == nil {
				y, ok := Convert(x, FieldType(n.Items))
				if !ok || y == nil {
					y = nil
					if n.Items.HasDefault {
						y = n.Items.Default
					}
				}
				x = y
			}
			if x != nil {
				out = append(out, gen.Copy(x))
			}
			continue
		}
		v, err := e.eval(n.Items, el, true)
		if err != nil {
			return nil, err
		}
		if v != nil {
			out = append(out, v)
		}
	}
	if len(out) == 0 {
		return nil, nil
	}
	return out, nil
}

func (e *xmlEvaluator) sources(t *gen.Transform, ftype string, ctx *gen.El) (interface{}, error) {
	order := t.From
	if t.Method == "last" {
		order = nil
		for i := len(t.From) - 1; i >= 0; i-- {
			order = append(order, t.From[i])
		}
	}
	var vals []interface{}
	for _, in := range order {
		v, err := xmlInstruction(in, ftype, ctx)
		if err != nil {
			return nil, err
		}
		if v == nil {
			continue
		}
		if t.Method != "concatenate" {
			return v, nil
		}
		vals = append(vals, v)
	}
	return Concat(vals, t.Delim)
}

func xmlInstruction(in gen.Instr, ftype string, ctx *gen.El) (interface{}, error) {
	if in.XPath == nil || in.XPath.Expr == nil {
		return nil, nil
	}
	found := XSelect(in.XPath.Expr, ctx)
	if len(found) == 0 {
		return nil, nil
	}
	var value interface{}
	nodes := ftype == "array" || ftype == "object"
	leaf := len(found) == 1 && !found[0].HasElement()
	switch {
	case nodes && (len(in.Ops) == 0 || !leaf):
		value = found
	case ftype == "string":
		parts := make([]string, len(found))
		for i, f := range found {
			parts[i] = f.InnerText()
		}
		value = strings.Join(parts, " ")
	default:
		v, ok := Convert(found[0].InnerText(), ftype)
		switch {
		case ok:
			value = v
		case len(in.Ops) > 0 && leaf:
			value = found[0].InnerText()
		case len(in.Ops) > 0:
			value = found
		}
	}
	if value == nil {
		return nil, nil
	}
	return Ops(in.Ops, value)
}

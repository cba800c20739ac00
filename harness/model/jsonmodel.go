// Package model has independent executable models of what the code under test should do.
package model

import (
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/gen"
)

// ErrTransform is returned when the whole transform must fail.
var ErrTransform = errors.New("transform fails")

// JSON evaluates the transform of a JSON document. The result is nil if there is no content at all.
func JSON(root *gen.Node, ident string, doc interface{}) (interface{}, error) {
	e := &evaluator{ident: ident}
	if root.Type == "array" {
		return e.array(root, doc, nil)
	}
	return e.object(root, doc, nil, true)
}

// Output gives the canonical JSON text of a result of a model.
func Output(v interface{}) []byte {
	raw, err := json.Marshal(v)
	if err != nil {
		return nil
	}
	return raw
}

type evaluator struct {
	ident string
}

type loc []interface{} // string keys and int indexes

func (l loc) with(x interface{}) loc { return append(append(loc{}, l...), x) }

// at reads the value at a location.
func at(v interface{}, l loc) (interface{}, bool) {
	for _, step := range l {
		switch s := step.(type) {
		case string:
			m, ok := v.(map[string]interface{})
			if !ok {
				return nil, false
			}
			if v, ok = m[s]; !ok {
				return nil, false
			}
		case int:
			a, ok := v.([]interface{})
			if !ok || s >= len(a) {
				return nil, false
			}
			v = a[s]
		}
	}
	return v, true
}

// overlay gives a view of v in which x is found at l.
func overlay(v interface{}, l loc, x interface{}) interface{} {
	if len(l) == 0 {
		return x
	}
	switch s := l[0].(type) {
	case string:
		old, _ := v.(map[string]interface{})
		m := map[string]interface{}{}
		for k, y := range old {
			m[k] = y
		}
		m[s] = overlay(old[s], l[1:], x)
		return m
	case int:
		old, _ := v.([]interface{})
		a := append([]interface{}{}, old...)
		for len(a) <= s {
			a = append(a, nil)
		}
		a[s] = overlay(a[s], l[1:], x)
		return a
	}
	return nil
}

func (e *evaluator) eval(n *gen.Node, view interface{}, l loc) (interface{}, error) {
	switch {
	case n.Type == "object" && !n.Free:
		return e.object(n, view, l, false)
	case n.Type == "array":
		return e.array(n, view, l)
	}
	return e.scalar(n, view, l)
}

// FieldType is the type values of a node are converted to.
func FieldType(n *gen.Node) string {
	if n.DateTime {
		return "date-time"
	}
	return n.Type
}

func (e *evaluator) scalar(n *gen.Node, view interface{}, l loc) (interface{}, error) {
	if t := n.Transform(e.ident); t != nil {
		v, err := e.sources(t, FieldType(n), view, l, true)
		if err != nil || v != nil {
			return v, err
		}
	}
	if raw, ok := at(view, l); ok && raw != nil {
		if v, ok := Convert(raw, FieldType(n)); ok && v != nil {
			return v, nil
		}
	}
	if n.HasDefault && n.Default != nil {
		return gen.Copy(n.Default), nil
	}
	return nil, nil
}

func (e *evaluator) object(n *gen.Node, view interface{}, l loc, root bool) (interface{}, error) {
	out := map[string]interface{}{}
	found := false
	if t := n.Transform(e.ident); t != nil && !root {
		v, err := e.sources(t, "object", view, l, false)
		if err != nil {
			return nil, err
		}
		if v != nil {
			m, ok := v.(map[string]interface{})
			if !ok {
				return nil, ErrTransform
			}
			found = true
			for k, x := range m {
				out[k] = x
			}
		}
	}
	if !found && n.HasDefault && !root {
		if m, ok := n.Default.(map[string]interface{}); ok {
			out = gen.Copy(m).(map[string]interface{})
		}
	}
	for _, p := range n.Props {
		v, err := e.eval(p.Node, view, l.with(p.Name))
		if err != nil {
			return nil, err
		}
		if v != nil {
			out[p.Name] = v
		}
	}
	if len(out) == 0 {
		return nil, nil
	}
	return out, nil
}

func (e *evaluator) array(n *gen.Node, view interface{}, l loc) (interface{}, error) {
	var items []interface{}
	have := false
	wrap := func(v interface{}) []interface{} {
		if a, ok := v.([]interface{}); ok {
			return a
		}
		return []interface{}{v}
	}
	if t := n.Transform(e.ident); t != nil && len(l) > 0 {
		v, err := e.sources(t, "array", view, l, false)
		if err != nil {
			return nil, err
		}
		if v != nil {
			items, have = wrap(v), true
		}
	}
	if !have {
		if v, ok := at(view, l); ok && v != nil {
			items, have = wrap(v), true
		}
	}
	if !have && n.HasDefault && len(l) > 0 {
		if a, ok := n.Default.([]interface{}); ok {
			items, have = a, true
		}
	}
	if !have {
		return nil, nil
	}
	view = overlay(view, l, items)
	var out []interface{}
	for i := range items {
		v, err := e.eval(n.Items, view, l.with(i))
		if err != nil {
			return nil, err
		}
		if v != nil {
			out = append(out, v)
		}
	}
	if len(out) == 0 {
		return nil, nil
	}
	return out, nil
}

// sources evaluates the instructions of a section.
func (e *evaluator) sources(t *gen.Transform, ftype string, view interface{}, l loc, scalar bool) (interface{}, error) {
	base := l
	if len(l) > 0 {
		_, item := l[len(l)-1].(int)
		if !(item && scalar) {
			for item { // an object or array which is an array item: relative to the parent of the array
				base = base[:len(base)-1]
				item = false
				if len(base) > 0 {
					_, item = base[len(base)-1].(int)
				}
			}
			if len(base) > 0 {
				base = base[:len(base)-1]
			}
		}
	}
	var vals []interface{}
	order := t.From
	if t.Method == "last" {
		order = nil
		for i := len(t.From) - 1; i >= 0; i-- {
			order = append(order, t.From[i])
		}
	}
	for _, in := range order {
		v, err := instruction(in, ftype, view, base)
		if err != nil {
			return nil, err
		}
		if t.Method != "concatenate" {
			if v != nil {
				return v, nil
			}
			continue
		}
		if v != nil {
			vals = append(vals, v)
		}
	}
	return Concat(vals, t.Delim)
}

// Concat joins values.
func Concat(vals []interface{}, delim string) (interface{}, error) {
	if len(vals) == 0 {
		return nil, nil
	}
	if len(vals) == 1 {
		return vals[0], nil
	}
	out := ""
	for _, v := range vals {
		s, ok := v.(string)
		if !ok {
			return nil, ErrTransform
		}
		if out != "" && s != "" {
			out += delim
		}
		out += s
	}
	return out, nil
}

func instruction(in gen.Instr, ftype string, view interface{}, base loc) (interface{}, error) {
	if in.Path == nil {
		return nil, nil
	}
	start := view
	if in.Path.Rel && len(in.Path.Segs) == 0 {
		return nil, nil
	}
	if in.Path.Rel {
		v, ok := at(view, base)
		if !ok {
			return nil, nil
		}
		start = v
	}
	raw, ok := Select(in.Path, start)
	if !ok || raw == nil {
		return nil, nil
	}
	v, ok := Convert(raw, ftype)
	if !ok {
		v = raw
	}
	if v == nil {
		return nil, nil
	}
	return Ops(in.Ops, v)
}

// Select evaluates a JSONPath, found is false if there is nothing at a definite path.
func Select(p *gen.Path, v interface{}) (interface{}, bool) {
	cur := []interface{}{v}
	multi := false
	for _, s := range p.Segs {
		var next []interface{}
		for _, x := range cur {
			switch s.Kind {
			case gen.Field, gen.Quoted:
				if m, ok := x.(map[string]interface{}); ok {
					if y, ok := m[s.Name]; ok {
						next = append(next, y)
					}
				}
			case gen.Index:
				if a, ok := x.([]interface{}); ok && s.I >= 0 && s.I < len(a) {
					next = append(next, a[s.I])
				}
			case gen.Wild, gen.DotWild:
				next = append(next, children(x)...)
			case gen.FilterEq, gen.FilterGt:
				for _, y := range children(x) {
					m, ok := y.(map[string]interface{})
					if !ok {
						continue
					}
					z, ok := m[s.Name]
					if !ok {
						continue
					}
					if s.Kind == gen.FilterEq && z == s.Lit {
						next = append(next, y)
					}
					if f, ok := z.(float64); s.Kind == gen.FilterGt && ok && f > s.Lit.(float64) {
						next = append(next, y)
					}
				}
			case gen.Range:
				if a, ok := x.([]interface{}); ok {
					for i := s.I; i < s.J && i < len(a); i++ {
						next = append(next, a[i])
					}
				}
			}
		}
		if s.Kind >= gen.Wild {
			multi = true
		}
		cur = next
		if !multi && len(cur) == 0 {
			return nil, false
		}
	}
	if multi {
		if cur == nil {
			cur = []interface{}{}
		}
		return cur, true
	}
	return cur[0], true
}

func children(x interface{}) []interface{} {
	switch t := x.(type) {
	case []interface{}:
		return t
	case map[string]interface{}:
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var out []interface{}
		for _, k := range keys {
			out = append(out, t[k])
		}
		return out
	}
	return nil
}

// Convert converts to a field type, ok is false if that is impossible. A nil result is no value.
func Convert(raw interface{}, ftype string) (interface{}, bool) {
	if raw == nil {
		return nil, true
	}
	if a, ok := raw.([]interface{}); ok {
		if len(a) == 0 {
			return nil, true
		}
		if ftype == "array" {
			if len(a) == 1 {
				if _, nested := a[0].([]interface{}); !nested {
					return a[0], true
				}
			}
			return raw, true
		}
		raw = a[0]
		if inner, ok := raw.([]interface{}); ok && len(inner) > 0 {
			return Convert(inner[0], ftype)
		}
		if raw == nil && (ftype == "number" || ftype == "integer" || ftype == "date-time") {
			return nil, false
		}
		if raw == nil {
			return nil, true
		}
	}
	whole := int64(0)
	switch t := raw.(type) {
	case int:
		whole, raw = int64(t), int64(t)
	case int64:
		whole = t
	}
	if _, ok := raw.(int64); ok {
		switch ftype {
		case "boolean":
			return whole > 0, true
		case "string":
			return strconv.FormatInt(whole, 10), true
		case "date-time":
			return writable(time.Unix(whole, 0).UTC())
		}
		return raw, true
	}
	switch ftype {
	case "boolean":
		switch t := raw.(type) {
		case bool:
			return t, true
		case float64:
			return t > 0, true
		case string:
			switch t {
			case "", "0", "f", "F", "false", "FALSE", "False":
				return false, true
			case "1", "t", "T", "true", "TRUE", "True":
				return true, true
			}
		}
		return nil, false
	case "number", "integer":
		switch t := raw.(type) {
		case bool:
			if t {
				return 1, true
			}
			return 0, true
		case float64:
			return t, true
		case string:
			if t == "" {
				return nil, true
			}
			return number(t)
		}
		return nil, false
	case "string":
		switch t := raw.(type) {
		case bool:
			if t {
				return "true", true
			}
			return "false", true
		case float64:
			return strconv.FormatFloat(t, 'f', -1, 64), true
		case string:
			return t, true
		}
		return nil, false
	case "date-time":
		switch t := raw.(type) {
		case float64:
			if math.Abs(t) > 1e18 {
				return nil, false
			}
			return writable(time.Unix(int64(t), 0).UTC())
		case string:
			if t == "" {
				return nil, true
			}
			ts, err := time.Parse(time.RFC3339, t)
			if err != nil {
				return nil, false
			}
			if ts.IsZero() {
				return nil, true
			}
			return writable(ts)
		}
		return nil, false
	}
	return raw, true
}

// writable refuses what RFC 3339 has no text for: years of more than four digits, zones of a day or more.
func writable(t time.Time) (interface{}, bool) {
	if _, zone := t.Zone(); t.Year() < 0 || t.Year() > 9999 || zone <= -86400 || zone >= 86400 {
		return nil, false
	}
	return t, true
}

func number(t string) (interface{}, bool) {
	if i, err := strconv.ParseInt(t, 10, 64); err == nil {
		return int(i), true
	}
	f, err := strconv.ParseFloat(t, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
		return nil, false
	}
	return f, true
}

// Ops applies operations in order.
func Ops(ops []gen.Op, v interface{}) (interface{}, error) {
	for _, op := range ops {
		var err error
		v, err = Op(op, v)
		if err != nil {
			return nil, err
		}
	}
	return v, nil
}

var tagRe = regexp.MustCompile(`<[^<>]*>`)

// Op applies one operation.
func Op(op gen.Op, v interface{}) (interface{}, error) {
	s, isString := v.(string)
	switch op.Type {
	case "duration":
		if a, ok := v.([]interface{}); ok && len(a) == 1 {
			v = a[0]
			s, isString = v.(string)
		}
		if v == nil {
			return 0, nil
		}
		if !isString {
			return nil, ErrTransform
		}
		parts := strings.Split(s, ":")
		if len(parts) != 2 && len(parts) != 3 {
			return nil, ErrTransform
		}
		total := 0
		for _, p := range parts {
			total *= 60
			if p == "" {
				continue
			}
			for _, c := range p {
				if c < '0' || c > '9' {
					return nil, ErrTransform
				}
			}
			n, err := strconv.Atoi(p)
			if err != nil {
				return nil, ErrTransform
			}
			total += n
		}
		return total, nil
	case "changeCase":
		if !isString {
			return nil, ErrTransform
		}
		if op.Arg("to") == "upper" {
			return strings.ToUpper(s), nil
		}
		return strings.ToLower(s), nil
	case "inverse":
		b, ok := v.(bool)
		if !ok {
			return nil, ErrTransform
		}
		return !b, nil
	case "valueExists":
		if nodes, ok := v.([]*gen.El); ok {
			return len(nodes) > 0, nil
		}
		if !isString {
			return nil, ErrTransform
		}
		return s != "", nil
	case "max":
		a, ok := v.([]interface{})
		if !ok || len(a) == 0 {
			return nil, ErrTransform
		}
		by := strings.TrimPrefix(op.Arg("by"), "@.")
		ret := strings.TrimPrefix(op.Arg("return"), "@.")
		best, bestAt := 0.0, -1
		for i, x := range a {
			m, ok := x.(map[string]interface{})
			if !ok {
				return nil, ErrTransform
			}
			f, ok := m[by].(float64)
			if !ok {
				return nil, ErrTransform
			}
			if bestAt < 0 || f > best {
				best, bestAt = f, i
			}
		}
		out, ok := a[bestAt].(map[string]interface{})[ret]
		if !ok {
			return nil, ErrTransform
		}
		return out, nil
	case "replace":
		if !isString {
			return nil, ErrTransform
		}
		re, err := regexp.Compile(op.Arg("regex"))
		if err != nil {
			return nil, ErrTransform
		}
		return re.ReplaceAllString(s, op.Arg("new")), nil
	case "split":
		if !isString {
			return nil, ErrTransform
		}
		out := []interface{}{}
		if s == "" {
			return out, nil
		}
		sep := op.Arg("on")
		if sep == "" {
			for _, c := range s {
				out = append(out, string(c))
			}
			return out, nil
		}
		for {
			i := strings.Index(s, sep)
			if i < 0 {
				return append(out, s), nil
			}
			out = append(out, s[:i])
			s = s[i+len(sep):]
		}
	case "timeParse":
		if !isString {
			return nil, ErrTransform
		}
		t, err := time.Parse(op.Arg("format"), s)
		if err != nil {
			return nil, ErrTransform
		}
		return t.Format(op.Arg("layout")), nil
	case "toCamelCase":
		if !isString {
			return nil, ErrTransform
		}
		parts := strings.Split(s, op.Arg("delimiter"))
		for i, p := range parts {
			if i == 0 {
				parts[i] = strings.ToLower(p)
			} else {
				parts[i] = strings.Title(p)
			}
		}
		return strings.Join(parts, ""), nil
	case "removeHTML":
		if !isString {
			return nil, ErrTransform
		}
		// for texts made of plain words, simple tags and entities
		t := strings.TrimSpace(tagRe.ReplaceAllString(strings.ReplaceAll(s, "&nbsp;", "\u00a0"), " "))
		t = strings.ReplaceAll(t, "  ", " ")
		return html.UnescapeString(t), nil
	case "convertToFloat64":
		switch t := v.(type) {
		case string:
			f, err := strconv.ParseFloat(t, 64)
			if err != nil {
				return nil, ErrTransform
			}
			return f, nil
		case int:
			return float64(t), nil
		case float64:
			return t, nil
		}
		return nil, ErrTransform
	case "convertToInt64":
		switch t := v.(type) {
		case string:
			i, err := strconv.ParseInt(t, 10, 64)
			if err != nil {
				return nil, ErrTransform
			}
			return i, nil
		case int:
			return int64(t), nil
		case int64:
			return t, nil
		case float64:
			return int64(t), nil
		}
		return nil, ErrTransform
	case "convertToBool":
		switch t := v.(type) {
		case bool:
			return t, nil
		case string:
			b, err := strconv.ParseBool(t)
			if err != nil {
				return nil, ErrTransform
			}
			return b, nil
		case []interface{}:
			return len(t) != 0, nil
		case int:
			return t != 0, nil
		case int64:
			return t != 0, nil
		case float64:
			return t != 0, nil
		}
		return nil, ErrTransform
	}
	return nil, fmt.Errorf("unknown op %q", op.Type)
}

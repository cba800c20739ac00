package model

import (
	"math"
	"reflect"
	"regexp"
	"time"
	"unicode/utf8"

	"verif/harness/gen"
)

var patterns = map[string]*regexp.Regexp{}

// Valid tells if a value conforms to a schema by the rules of JSON Schema.
func Valid(n *gen.Node, v interface{}) bool {
	if n.Ref != "" {
		return Valid(n.Target, v) // keys next to a $ref have no meaning in the drafts up to 7
	}
	if n.Type != "" && !(v == nil && n.Nullable) && !hasType(n.Type, v) {
		return false
	}
	for _, p := range n.AllOf {
		if !Valid(p, v) {
			return false
		}
	}
	if n.AnyOf != nil {
		ok := false
		for _, p := range n.AnyOf {
			ok = ok || Valid(p, v)
		}
		if !ok {
			return false
		}
	}
	if n.OneOf != nil {
		count := 0
		for _, p := range n.OneOf {
			if Valid(p, v) {
				count++
			}
		}
		if count != 1 {
			return false
		}
	}
	if n.Enum != nil {
		ok := false
		for _, e := range n.Enum {
			ok = ok || reflect.DeepEqual(e, v)
		}
		if !ok {
			return false
		}
	}
	if n.More != nil && !validMore(n.More, v) {
		return false
	}
	switch t := v.(type) {
	case map[string]interface{}:
		for _, r := range n.Required {
			if _, ok := t[r]; !ok {
				return false
			}
		}
		for k, x := range t {
			p := n.Prop(k)
			matches := false
			if n.More != nil && n.More.PatNode != nil && regexp.MustCompile(n.More.Pat).MatchString(k) {
				if matches = true; !Valid(n.More.PatNode, x) {
					return false
				}
			}
			if p == nil {
				if n.Closed && !matches {
					return false
				}
				continue
			}
			if !Valid(p, x) {
				return false
			}
		}
	case []interface{}:
		if n.MinItems != nil && len(t) < *n.MinItems || n.MaxItems != nil && len(t) > *n.MaxItems {
			return false
		}
		if n.Items != nil {
			for _, x := range t {
				if !Valid(n.Items, x) {
					return false
				}
			}
		}
	case string:
		l := utf8.RuneCountInString(t)
		if n.MinLen != nil && l < *n.MinLen || n.MaxLen != nil && l > *n.MaxLen {
			return false
		}
		if n.Pattern != "" {
			re := patterns[n.Pattern]
			if re == nil {
				re = regexp.MustCompile(n.Pattern)
				patterns[n.Pattern] = re
			}
			if !re.MatchString(t) {
				return false
			}
		}
		if n.DateTime {
			// the validation library also takes a date or a time alone for a date-time
			ok := false
			for _, f := range []string{time.RFC3339Nano, "2006-01-02", "15:04:05", "15:04:05Z07:00"} {
				if _, err := time.Parse(f, t); err == nil {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	case float64:
		if n.Min != nil && (t < *n.Min || n.ExMin && t == *n.Min) || n.Max != nil && t > *n.Max {
			return false
		}
		if n.Multiple > 0 && math.Mod(t, n.Multiple) != 0 {
			return false
		}
	}
	return true
}

func validMore(m *gen.More, v interface{}) bool {
	if m.Not != nil && Valid(m.Not, v) {
		return false
	}
	switch t := v.(type) {
	case map[string]interface{}:
		if m.MinProps != nil && len(t) < *m.MinProps || m.MaxProps != nil && len(t) > *m.MaxProps {
			return false
		}
		if len(m.Dep) > 0 {
			if _, ok := t[m.Dep[0]]; ok {
				for _, k := range m.Dep[1:] {
					if _, ok := t[k]; !ok {
						return false
					}
				}
			}
		}
	case []interface{}:
		for i := range t {
			for j := 0; m.Unique && j < i; j++ {
				if reflect.DeepEqual(t[i], t[j]) {
					return false
				}
			}
		}
	case float64:
		return m.Below == nil || t < *m.Below
	}
	return true
}

func hasType(typ string, v interface{}) bool {
	switch t := v.(type) {
	case nil:
		return typ == "null"
	case bool:
		return typ == "boolean"
	case string:
		return typ == "string"
	case float64:
		return typ == "number" || typ == "integer" && t == math.Trunc(t)
	case []interface{}:
		return typ == "array"
	case map[string]interface{}:
		return typ == "object"
	}
	return false
}

package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// Enlarge makes an array, a text or an object of v much larger than documents usually have them, so that what depends
// on sizes (indexes of several digits, buffers, limits) is seen. v itself may be changed.
func Enlarge(r *rand.Rand, v interface{}) interface{} {
	type spot struct {
		get func() interface{}
		set func(interface{})
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		var spots []spot
		var rec func(get func() interface{}, set func(interface{}))
		rec = func(get func() interface{}, set func(interface{})) {
			switch t := get().(type) {
			case map[string]interface{}:
				if Chance(r, 20) {
					spots = append(spots, spot{get, set})
				}
				for _, key := range Keys(t) {
					rec(func() interface{} { return t[key] }, func(n interface{}) { t[key] = n })
				}
			case []interface{}:
				if len(t) > 0 {
					spots = append(spots, spot{get, set}, spot{get, set})
				}
				for i := range t {
					rec(func() interface{} { return t[i] }, func(n interface{}) { t[i] = n })
				}
			case string:
				if Chance(r, 40) {
					spots = append(spots, spot{get, set})
				}
			}
		}
		rec(func() interface{} { return v }, func(n interface{}) { v = n })
		if len(spots) == 0 {
			return v
		}
		s := Pick(r, spots)
		switch t := s.get().(type) {
		case map[string]interface{}:
			for i := Pick(r, []int{9, 17, 40, 130}); i > 0; i-- {
				t[fmt.Sprintf("extra%d", i)] = Scalar(r)
			}
		case []interface{}:
			n := Pick(r, []int{11, 12, 17, 33, 65, 101, 130, 257, 1001})
			for n > 12 && n*Leaves(v) > 30000 {
				n /= 2
			}
			for i := len(t); i < n; i++ {
				t = append(t, vary(Copy(t[r.Intn(len(t))]), i))
			}
			s.set(t)
		case string:
			s.set(LongText(r, t))
		}
	}
	return v
}

// LongText makes a text longer than usual.
func LongText(r *rand.Rand, t string) string {
	n := Pick(r, []int{64, 100, 129, 257, 1025, 4097, 66000})
	var b strings.Builder
	b.WriteString(t)
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, " w%d", i)
		if i%7 == 0 {
			b.WriteString(t)
		}
	}
	return b.String()
}

// Leaves counts the values within v.
func Leaves(v interface{}) int {
	n := 1
	switch t := v.(type) {
	case map[string]interface{}:
		for _, x := range t {
			n += Leaves(x)
		}
	case []interface{}:
		for _, x := range t {
			n += Leaves(x)
		}
	}
	return n
}

// vary makes copies of one item differ.
func vary(v interface{}, i int) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		for _, k := range Keys(t) {
			t[k] = vary(t[k], i)
		}
	case []interface{}:
		for j := range t {
			t[j] = vary(t[j], i)
		}
	case float64:
		if t == float64(int(t)) && t < 1e6 && t > -1e6 && i%5 != 0 {
			return t + float64(i)
		}
	case string:
		if t != "" && i%3 == 1 && len(t) < 12 {
			return fmt.Sprintf("%s%d", t, i)
		}
	}
	return v
}

// Reshape puts values of other kinds at some places of v, made of what is there: objects of what was a list, lists of
// what was an object, objects or nested lists around a value, texts with doubled delimiters. v itself may be changed.
func Reshape(r *rand.Rand, v interface{}) interface{} {
	var rec func(v interface{}, depth int) interface{}
	left := 1 + r.Intn(3)
	rec = func(v interface{}, depth int) interface{} {
		if left > 0 && depth > 0 && Chance(r, 25) {
			left--
			return reshaped(r, v)
		}
		switch t := v.(type) {
		case map[string]interface{}:
			for _, k := range Keys(t) {
				t[k] = rec(t[k], depth+1)
			}
		case []interface{}:
			for i := range t {
				t[i] = rec(t[i], depth+1)
			}
		}
		return v
	}
	return rec(v, 0)
}

func reshaped(r *rand.Rand, v interface{}) interface{} {
	names := func(n int) []string {
		all := []string{"a", "b", "c", "id", "name", "#text", "zz", "M", "items", "n"}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		return all[:n]
	}
	switch t := v.(type) {
	case []interface{}:
		if len(t) == 0 {
			return map[string]interface{}{}
		}
		m := map[string]interface{}{}
		for i, n := range names(1 + r.Intn(5)) {
			m[n] = vary(Copy(t[i%len(t)]), i)
		}
		return m
	case map[string]interface{}:
		if Chance(r, 40) {
			m := map[string]interface{}{}
			for i, n := range names(1 + r.Intn(5)) {
				m[n] = vary(Copy(v), i)
			}
			return m
		}
		list := []interface{}{}
		for _, k := range Keys(t) {
			if t[k] != nil {
				list = append(list, t[k])
			}
		}
		return list
	}
	if v == nil {
		return v
	}
	switch r.Intn(6) {
	case 0:
		return []interface{}{v}
	case 1:
		return []interface{}{[]interface{}{v, v}, v}
	case 2:
		return []interface{}{[]interface{}{}}
	case 3:
		if s, ok := v.(string); ok {
			return s + Pick(r, []string{"--", ",,", "  ", "__", "::", "-", ","}) + s
		}
		return fmt.Sprint(v)
	}
	m := map[string]interface{}{}
	for i, n := range names(1 + r.Intn(4)) {
		m[n] = vary(v, i)
	}
	return m
}

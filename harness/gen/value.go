package gen

import "math/rand"

// Strings is the pool of texts, chosen so that conversions of every kind meet both success and failure.
var Strings = []string{"", "abc", "Hello World", "true", "false", "0", "1", "12", "-3", "3.5", "-0.25", "1e3", "007", "+5", "t", "F", "TRUE",
	"2020-01-02T03:04:05Z", "1969-12-31T23:59:59+02:00", "2021-06-07T08:09:10.123Z", "2020-13-01T00:00:00Z", "2020-01-02",
	"ünïcode ✓", "a,b,c", "x-y-z", "01:30", "1:02:03", "line\nbreak", "tab\t\"quote\"", "<b>bold</b> & more", "  spaced  ", "null", "9007199254740993",
	"123456789012345678901234567890", "NaN", "Inf", "0x10", "1_000", " 7 ", "yes", "T", "-", "."}

// Numbers is the pool of numbers.
var Numbers = []float64{0, 1, -1, 2, 3, 10, 42, -7, 0.5, -0.25, 3.14159, 1e6, 1e21, 1.5e-7, 1578000000, 2147483648, -2147483649, 9007199254740991, 123456789.125, 1e15}

// Scalar draws a scalar value.
func Scalar(r *rand.Rand) interface{} {
	switch r.Intn(7) {
	case 0:
		return r.Intn(2) == 0
	case 1, 2:
		return NumberVal(r)
	case 3:
		return nil
	}
	return StringVal(r)
}

// StringVal draws a text.
func StringVal(r *rand.Rand) string {
	if Chance(r, 70) {
		return Pick(r, Strings)
	}
	n := r.Intn(8)
	b := make([]rune, n)
	for i := range b {
		b[i] = Pick(r, []rune("abcXYZ 0123456789.-:,é☃\n\"\\/<>&"))
	}
	return string(b)
}

// NumberVal draws a number.
func NumberVal(r *rand.Rand) float64 {
	if Chance(r, 60) {
		return Pick(r, Numbers)
	}
	if Chance(r, 50) {
		return float64(r.Intn(2000) - 1000)
	}
	return float64(r.Intn(2000000)-1000000) / 64
}

// Value draws any value.
func Value(r *rand.Rand, depth int, names []string) interface{} {
	if depth <= 0 || Chance(r, 40) {
		return Scalar(r)
	}
	if Chance(r, 45) {
		n := r.Intn(4)
		s := make([]interface{}, 0, n)
		for i := 0; i < n; i++ {
			s = append(s, Value(r, depth-1, names))
		}
		return s
	}
	m := map[string]interface{}{}
	for i := r.Intn(4); i > 0; i-- {
		m[Pick(r, names)] = Value(r, depth-1, names)
	}
	return m
}

// Near draws a value for a schema: mostly matching, sometimes of a wrong type, null or absent (ok false).
func Near(r *rand.Rand, n *Node, wrongPct int) (v interface{}, ok bool) {
	switch x := r.Intn(100); {
	case x < 8:
		return nil, false
	case x < 12:
		return nil, true
	case x < 12+wrongPct:
		return Value(r, 2, Idents[:6]), true
	}
	switch n.Type {
	case "object":
		m := map[string]interface{}{}
		if n.Free {
			for i := r.Intn(3); i > 0; i-- {
				m[Pick(r, Idents)] = Value(r, 2, Idents)
			}
			return m, true
		}
		for _, p := range n.Props {
			if v, ok := Near(r, p.Node, wrongPct); ok {
				m[p.Name] = v
			}
		}
		if Chance(r, 40) {
			m[Pick(r, []string{"extra", "more", "zz", "data-y"})] = Value(r, 2, Idents)
		}
		return m, true
	case "array":
		k := r.Intn(5)
		s := make([]interface{}, 0, k)
		for i := 0; i < k; i++ {
			if n.Items == nil {
				s = append(s, Value(r, 1, Idents))
				continue
			}
			v, _ := Near(r, n.Items, wrongPct)
			s = append(s, v)
		}
		return s, true
	case "string":
		if n.DateTime {
			return Pick(r, []interface{}{"2020-01-02T03:04:05Z", "1969-12-31T23:59:59+02:00", "2021-06-07T08:09:10.120Z", 1578000000.0, 0.0, -5.0, "", "2020-01-02", "0001-01-01T00:00:00Z"}), true
		}
		return StringVal(r), true
	case "number":
		return NumberVal(r), true
	case "integer":
		return float64(r.Intn(20000) - 10000), true
	case "boolean":
		return r.Intn(2) == 0, true
	}
	return Value(r, 2, Idents), true
}

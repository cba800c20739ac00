package gproj

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"time"

	"verif/harness/gen"
)

// Raw is a number or other token which is rendered as it is.
type Raw = json.Number

// Doc draws a value which conforms to the node.
func Doc(r *rand.Rand, n *N, depth int) interface{} {
	if n.Null && gen.Chance(r, 20) {
		return nil
	}
	switch n.K {
	case "boolean":
		return r.Intn(2) == 0
	case "integer":
		switch r.Intn(5) {
		case 0:
			return gen.Pick(r, []Raw{"0", "1", "-1", "9223372036854775807", "-9223372036854775808", "9007199254740993", "4294967296", "-2147483649"})
		case 1:
			return Raw(strconv.FormatInt(int64(r.Uint64()), 10))
		}
		return Raw(strconv.Itoa(r.Intn(2001) - 1000))
	case "number":
		switch r.Intn(6) {
		case 0:
			return gen.Pick(r, []Raw{"0", "0.0", "-0", "1e3", "1E+2", "1.5e-7", "1e21", "123456789012345680000", "1.7976931348623157e308", "5e-324", "0.1", "100", "3.14159"})
		case 1:
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return Raw(strconv.FormatFloat(f, 'g', -1, 64))
			}
		}
		return Raw(strconv.FormatFloat(r.NormFloat64()*100, 'f', r.Intn(6), 64))
	case "string":
		return gen.StringVal(r)
	case "date-time":
		z := gen.Pick(r, []*time.Location{time.UTC, time.UTC, time.FixedZone("", 5*3600+1800), time.FixedZone("", -8*3600)})
		ns := gen.Pick(r, []int{0, 0, 0, 1000000, 123456789, 999999999, 500000000})
		if r.Intn(40) == 0 {
			return "0001-01-01T00:00:00Z"
		}
		return time.Date(1+r.Intn(9997), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), ns, z).Format(time.RFC3339Nano)
	case "array":
		a := []interface{}{}
		k := r.Intn(4)
		if depth > 3 {
			k = r.Intn(2)
		}
		if depth < 3 && r.Intn(60) == 0 {
			k = []int{12, 33, 120}[r.Intn(3)]
		}
		for ; k > 0; k-- {
			a = append(a, Doc(r, n.Items, depth+1))
		}
		return a
	case "object":
		if len(n.Props) == 0 {
			o := gen.Obj{}
			for i := r.Intn(4); i > 0; i-- {
				o = append(o, gen.Member{Key: fmt.Sprintf("%s%d", gen.Pick(r, []string{"k", "K ", "ü", "\"", ""}), i), Val: gen.StringVal(r)})
			}
			return o
		}
		return DocOf(r, n.Props, depth)
	}
	return gen.Value(r, 1, []string{"h"}) // graphql-hydration: anything
}

// DocOf draws an object with the given properties. Those Go does not see are left out.
func DocOf(r *rand.Rand, props []P, depth int) gen.Obj {
	o := gen.Obj{}
	full := gen.Pick(r, []int{0, 30, 60, 90, 100})
	for _, p := range props {
		if !p.N.visible() {
			continue
		}
		if p.Req || gen.Chance(r, full) {
			o = append(o, gen.Member{Key: p.Name, Val: Doc(r, p.N, depth+1)})
		}
	}
	r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

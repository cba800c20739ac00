package checks

import (
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/h"
)

// instant is a time and the seconds and nanoseconds it was made from.
type instant struct {
	sec, nano int64
	t         time.Time
}

// g07Instant draws an instant whose milliseconds fit an int64.
func g07Instant(r *rand.Rand) instant {
	const most = math.MaxInt64/1000 - 1
	var sec int64
	switch r.Intn(9) {
	case 0:
		sec = []int64{0, 0, 1, -1, -62135596800, 253402300799, 253402300800, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, most, -most, 9223372036, 9223372037, -9223372036, -9223372037, -9223372038}[r.Intn(19)]
	case 1:
		sec = r.Int63n(most) - r.Int63n(most)
	case 2:
		sec = r.Int63n(4e11) - 2e11
	case 3:
		sec = -r.Int63n(3e9)
	case 4:
		sec = r.Int63n(5) - 2
	case 5:
		sec = int64(1) << uint(r.Intn(53)) * int64(1-2*r.Intn(2))
	default:
		sec = r.Int63n(5e9)
	}
	var nano int64
	switch r.Intn(6) {
	case 0:
	case 1:
		nano = []int64{1, 499999, 500000, 999999, 1000000, 1000001, 999000000, 999500000, 999999999, 499999999, 500000000}[r.Intn(11)]
	case 2:
		nano = r.Int63n(1000) * 1e6
	case 3:
		nano = r.Int63n(1000)*1e6 + []int64{-1, 1, 500000}[r.Intn(3)]
		if nano < 0 {
			nano = 0
		}
	default:
		nano = r.Int63n(1e9)
	}
	t := time.Unix(sec, nano)
	switch r.Intn(6) {
	case 0:
		t = t.UTC()
	case 1:
		t = t.Local()
	default:
		t = t.In(time.FixedZone("zone", r.Intn(2*86399)-86399))
	}
	return instant{sec, nano, t}
}

func (i instant) String() string {
	return fmt.Sprintf("%d s + %d ns in %v", i.sec, i.nano, i.t.Location())
}

func (i instant) is(ms int64) bool {
	return millis(i.sec, i.nano).IsInt64() && millis(i.sec, i.nano).Int64() == ms
}

const g07Times = 400

func g07Run(c *h.Case) {
	r := c.R
	for k := 0; k < g07Times; k++ {
		i := g07Instant(r)
		before := i.t
		ms := generate.AvroTime(i.t)
		if !i.is(ms) {
			c.Fail("AvroTime gives other milliseconds", map[string]interface{}{"time": i.String(), "got": ms, "want": millis(i.sec, i.nano).String()})
			return
		}
		p := i.t
		if ms := generate.AvroOptionalTime(&p); !i.is(ms) {
			c.Fail("AvroOptionalTime gives other milliseconds", map[string]interface{}{"time": i.String(), "got": ms, "want": millis(i.sec, i.nano).String()})
			return
		}
		if p != before {
			c.Fail("AvroOptionalTime changes the time", map[string]interface{}{"time": i.String(), "got": p.String()})
			return
		}
		switch {
		case i.sec < 0 && i.nano%1e6 != 0:
			c.Count("times before 1970 with parts of a millisecond")
		case i.sec < 0:
			c.Count("times before 1970 in whole milliseconds")
		case i.nano%1e6 != 0:
			c.Count("times after 1970 with parts of a millisecond")
		default:
			c.Count("times after 1970 in whole milliseconds")
		}
		c.Eval(true, i.sec, i.nano)
	}
	// a time with a monotonic clock reading
	from := time.Now()
	ms := generate.AvroTime(from)
	if n := from.Round(0); ms != millis(n.Unix(), int64(n.Nanosecond())).Int64() {
		c.Fail("AvroTime gives other milliseconds", map[string]interface{}{"time": from.String(), "got": ms})
		return
	}
	c.Count("times with a monotonic reading")
	if got := generate.AvroOptionalTime(nil); got != 0 {
		c.Fail("AvroOptionalTime of nil is not zero", map[string]interface{}{"got": got})
		return
	}
	for k := 0; k < 12; k++ {
		n := []int{0, 1, 2, 3, 7, 40, 300}[r.Intn(7)]
		var is []instant
		times := make([]time.Time, 0, n+r.Intn(4))
		for j := 0; j < n; j++ {
			i := g07Instant(r)
			if j > 0 && r.Intn(5) == 0 {
				i = is[r.Intn(j)]
			}
			is = append(is, i)
			times = append(times, i.t)
		}
		if n == 0 && r.Intn(2) == 0 {
			times = nil
		}
		got := generate.AvroTimeSlice(times)
		ok := len(got) == n
		for j := 0; ok && j < n; j++ {
			ok = is[j].is(got[j]) && times[j] == is[j].t
		}
		if !ok {
			c.Fail("AvroTimeSlice does not give the milliseconds of each time in order", map[string]interface{}{"times": fmt.Sprint(is), "got": fmt.Sprint(got)})
			return
		}
		// what was given stays as it is with later calls
		keep := append([]int64{}, got...)
		generate.AvroTimeSlice(append([]time.Time{{}}, times...))

		var want []instant
		var ptrs []*time.Time
		share := r.Intn(4)
		for j := 0; j < n; j++ {
			if share == 0 || share < 3 && r.Intn(3) == 0 {
				ptrs = append(ptrs, nil)
				continue
			}
			t := times[j]
			ptrs = append(ptrs, &t)
			want = append(want, is[j])
		}
		opt := generate.AvroOptionalTimeSlice(ptrs)
		ok = len(opt) == len(want) && fmt.Sprint(keep) == fmt.Sprint(got)
		for j := 0; ok && j < len(want); j++ {
			ok = want[j].is(opt[j])
		}
		if !ok {
			c.Fail("AvroOptionalTimeSlice does not give the milliseconds of each time in order", map[string]interface{}{"nil times": n - len(want), "times": fmt.Sprint(want), "got": fmt.Sprint(opt)})
			return
		}
		c.Count("slices compared")
		if len(want) < n {
			c.Count("slices with nil times")
			if len(want) == 0 {
				c.Count("slices of only nil times")
			}
		}
		c.Eval(n > 0, fmt.Sprint(is), fmt.Sprint(want))
		if k == 5 && c.WantSample() {
			c.Sample(map[string]interface{}{"times": clip(fmt.Sprint(is)), "milliseconds": clip(fmt.Sprint(got))})
		}
	}
}

func init() {
	register(&h.Check{
		ID:          "G07",
		Rule:        fmt.Sprintf("a case is %d times and 12 slices in random zones, from the zero time to the ends of what an int64 of milliseconds holds; each conversion is compared with the rounded down milliseconds calculated from the seconds and nanoseconds with arbitrary precision", g07Times),
		Assumptions: []string{"the milliseconds fit an int64, that is some 292 million years around 1970"},
		Quick:       9000, Thorough: 20000,
		Run:  g07Run,
		Need: []string{"times before 1970 with parts of a millisecond", "times before 1970 in whole milliseconds", "times after 1970 with parts of a millisecond", "times with a monotonic reading", "slices compared", "slices with nil times", "slices of only nil times"},
	})
}

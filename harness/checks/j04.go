package checks

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verif/harness/gen"
	"verif/harness/h"
)

// cacheEvent is one event of the log of a cache: the start or end of a load or of a build.
type cacheEvent struct {
	seq   int64
	load  int // which load, also for builds: the load whose builder runs
	build int // -1 for loads
	end   bool
	key   string
	value int // of a successful end, 0 if failed
	err   string
}

func (e cacheEvent) String() string {
	s := fmt.Sprintf("%d load %d", e.seq, e.load)
	if e.build >= 0 {
		s += fmt.Sprintf(" build %d", e.build)
	}
	s += " of " + e.key
	switch {
	case !e.end:
		return s + " starts"
	case e.err != "":
		return s + " fails: " + e.err
	}
	return s + fmt.Sprintf(" gives %d", e.value)
}

type cacheLog struct {
	seq    int64
	mu     sync.Mutex
	events []cacheEvent
	builds int
	loads  int
}

func (l *cacheLog) add(e cacheEvent) {
	l.mu.Lock()
	l.seq++
	e.seq = l.seq
	l.events = append(l.events, e)
	l.mu.Unlock()
}

type anyCache interface {
	// load loads a value, which is an identity above zero.
	load(key string, build func() (int, error)) (int, error)
}

// cacheOf adapts a cache of some type.
type cacheOf[T any] struct {
	c    *jsonschema.Cache[T]
	to   func(int) T
	from func(T) int
}

func (c cacheOf[T]) load(key string, build func() (int, error)) (int, error) {
	v, err := c.c.Load(key, func() (T, error) {
		n, err := build()
		if err != nil && n == 0 {
			var zero T
			return zero, err
		}
		return c.to(n), err
	})
	if err != nil {
		return 0, err
	}
	return c.from(v), nil
}

type boxed struct{ n int }

func (b *boxed) String() string { return "boxed" }

func newCache(kind int) (anyCache, string) {
	switch kind {
	case 0:
		return cacheOf[*boxed]{new(jsonschema.Cache[*boxed]), func(n int) *boxed { return &boxed{n} }, func(b *boxed) int {
			if b == nil {
				return -1
			}
			return b.n
		}}, "pointers"
	case 1:
		return cacheOf[int]{new(jsonschema.Cache[int]), func(n int) int { return n }, func(n int) int { return n }}, "numbers"
	case 2:
		return cacheOf[fmt.Stringer]{new(jsonschema.Cache[fmt.Stringer]), func(n int) fmt.Stringer { return &boxed{n} }, func(s fmt.Stringer) int {
			if b, ok := s.(*boxed); ok && b != nil {
				return b.n
			}
			return -1
		}}, "interfaces"
	case 3:
		return cacheOf[[]int]{new(jsonschema.Cache[[]int]), func(n int) []int { return []int{n} }, func(s []int) int {
			if len(s) == 1 {
				return s[0]
			}
			return -1
		}}, "slices"
	}
	return cacheOf[func() int]{new(jsonschema.Cache[func() int]), func(n int) func() int { return func() int { return n } }, func(f func() int) int {
		if f == nil {
			return -1
		}
		return f()
	}}, "functions"
}

type errBuild struct{ build int }

func (e *errBuild) Error() string { return fmt.Sprintf("build %d failed", e.build) }

func init() {
	register(&h.Check{
		ID:    "J04",
		Rule:  "under the race detector, 2 to 10 goroutines load 1 to 5 keys of a Cache of pointers, numbers, interfaces, slices or functions, with builders of random duration which fail (also with a panic) at random and load other keys, without cycles; every start and end of loads and builds is logged, and an offline monitor checks the log: builds of a key never overlap, none starts after a success, a success is the value of the completed build of that key, and a failure is that of a build run by an overlapping load. A third of the cases hold a builder until loads of all other keys have finished; a cache of interfaces is asked for nil values. A quarter of the cases run without the log, so that its lock does not hide races, with builders that access plain memory. Non-trivial: a load got the outcome of another load's build, distinct by the order of the events",
		Quick: 24000, Thorough: 400000, Race: true, Procs: 4, Shards: 6, Hang: 20 * time.Second,
		Need: []string{"builds_failed", "builds_panicked", "builds_nested", "loads_shared_success", "loads_shared_failure", "loads_of_remembered", "rebuilt_after_failure", "held_builders", "kind_pointers", "kind_numbers", "kind_interfaces", "kind_slices", "kind_functions", "nil_values", "loads_without_log", "caches_of_many_keys", "caches_of_long_keys"},
		Run:  runCache,
	})
}

// cacheKeys gives six keys which are easily taken for each other.
func cacheKeys(r *rand.Rand) []string {
	long := strings.Repeat(gen.Pick(r, []string{"x", "/dir", "é"}), gen.Pick(r, []int{130, 300, 1000, 5000}))
	return gen.Pick(r, [][]string{
		{"", "a", "a|b", "a|b|true", "b", "\x00"},
		{"", "a", "a|b", "a|b|true", "b", "\x00"},
		{"a", "A", " a", "a ", "á", "a\u0301"},
		{"/b", "/a/../b", "/./b", "//b", "/b/", "b"},
		{"1", "01", "1.0", "+1", "\xff", "\ufffd"},
		{long, long + "1", "1" + long, long + "1" + long, long + "2" + long, long + long + "1"},
	})
}

// rawCache loads without a log, whose lock would order the goroutines: the race detector is the monitor of builds of a
// key which run at the same time and of values received before their build ended, both of which access plain memory.
func rawCache(c *h.Case) {
	r := c.R
	cache := new(jsonschema.Cache[*boxed])
	keys := []string{"a", "b", "c", "d", "e", "f", "g"}[:1+r.Intn(7)]
	if gen.Chance(r, 50) {
		keys = cacheKeys(r)[:1+r.Intn(6)]
	}
	many := gen.Chance(r, 4)
	if many { // none of them may be forgotten
		keys = nil
		for i := gen.Pick(r, []int{40, 150, 300, 1100, 2100}); i > 0; i-- {
			keys = append(keys, fmt.Sprint("key", i))
		}
		c.Count("caches_of_many_keys")
	}
	builds := make([]int, len(keys))
	fails := make([]int, len(keys)) // how many builds of the key fail at first
	for i := range fails {
		fails[i] = gen.Pick(r, []int{0, 0, 1, 3})
	}
	workers := 2 + r.Intn(8)
	if many {
		workers = 3
	}
	got := make([][]*boxed, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	yields := r.Intn(3)
	for g := 0; g < workers; g++ {
		got[g] = make([]*boxed, len(keys))
		wg.Add(1)
		order := append(r.Perm(len(keys)), r.Perm(len(keys))...)
		go func(g int) {
			defer wg.Done()
			<-start
			for _, k := range order {
				b, err := cache.Load(keys[k], func() (*boxed, error) {
					builds[k]++
					for i := 0; i < yields; i++ {
						runtime.Gosched()
					}
					if builds[k] <= fails[k] {
						return nil, errors.New("failed")
					}
					return &boxed{builds[k]}, nil
				})
				switch {
				case err != nil:
				case b == nil || b.n != fails[k]+1:
					c.Fail("a load gives a value which no build made", keys[k])
				case got[g][k] != nil && got[g][k] != b:
					c.Fail("two loads of a key give different values", keys[k])
				default:
					got[g][k] = b
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for k := range keys {
		var one *boxed
		for g := range got {
			if b := got[g][k]; b != nil && one != nil && b != one {
				c.Fail("two goroutines get different values of a key", keys[k])
			} else if b != nil {
				one = b
			}
		}
		if builds[k] > fails[k]+1 {
			c.Fail("a key is built again after a success", keys[k])
		}
	}
	c.Count("loads_without_log")
	c.Eval(false)
}

func runCache(c *h.Case) {
	r := c.R
	if gen.Chance(r, 25) {
		rawCache(c)
		return
	}
	cache, kind := newCache(r.Intn(5))
	c.Count("kind_" + kind)
	var keys []string
	alike := cacheKeys(r)
	for _, i := range r.Perm(6)[:1+r.Intn(5)] {
		keys = append(keys, alike[i])
	}
	if len(keys[0]) > 100 {
		c.Count("caches_of_long_keys")
	}
	sort.Strings(keys)
	log := &cacheLog{}
	failPct := gen.Pick(r, []int{0, 20, 50, 80})
	panicPct := gen.Pick(r, []int{0, 0, 20})
	slow := r.Intn(3)

	var load func(rng int64, key int, depth int)
	pause := func(rng int64) {
		switch n := rng % 7; {
		case slow == 0 || n < 2:
		case n < 5:
			for i := int64(0); i < n; i++ {
				runtime.Gosched()
			}
		case slow == 2:
			time.Sleep(time.Duration(rng%97) * time.Microsecond)
		}
	}
	next := func(rng int64) int64 { // a deterministic stream per call
		return int64((uint64(rng)*6364136223846793005 + 1442695040888963407) >> 1)
	}
	held := gen.Chance(r, 33) && len(keys) > 1
	var release chan struct{}
	heldKey := -1
	if held {
		release, heldKey = make(chan struct{}), r.Intn(len(keys))
		c.Count("held_builders")
	}
	var heldOnce, started = sync.Once{}, make(chan struct{})
	load = func(rng int64, key int, depth int) {
		log.mu.Lock()
		log.loads++
		id := log.loads
		log.mu.Unlock()
		k := keys[key]
		log.add(cacheEvent{load: id, build: -1, key: k})
		e := cacheEvent{load: id, build: -1, key: k, end: true}
		func() {
			defer func() {
				if p := recover(); p != nil {
					e.err = fmt.Sprint(p)
					if err, ok := p.(error); ok {
						var b *errBuild
						if errors.As(err, &b) {
							e.err = b.Error()
						}
					}
					if i := strings.Index(e.err, "\n"); i >= 0 {
						e.err = e.err[:i] // the stack follows
					}
				}
			}()
			v, err := cache.load(k, func() (int, error) {
				log.mu.Lock()
				log.builds++
				b := log.builds
				log.mu.Unlock()
				log.add(cacheEvent{load: id, build: b, key: k})
				rng := next(rng)
				if key == heldKey {
					heldOnce.Do(func() { close(started) })
					<-release
				}
				pause(rng)
				rng = next(rng)
				if depth < 3 && key+1 < len(keys) && rng%3 == 0 && !held {
					c.Count("builds_nested")
					load(next(rng), key+1+int(rng/3)%(len(keys)-key-1), depth+1)
				}
				pause(next(rng))
				e := cacheEvent{load: id, build: b, key: k, end: true}
				if int(next(next(rng))>>7%100) < failPct {
					err := &errBuild{b}
					e.err = err.Error()
					log.add(e)
					c.Count("builds_failed")
					if int(next(next(next(rng)))>>9%100) < panicPct {
						c.Count("builds_panicked")
						panic(err)
					}
					if rng%2 == 0 {
						return b, err // a value and an error
					}
					return 0, err
				}
				e.value = b
				log.add(e)
				return b, nil
			})
			e.value = v
			if err != nil {
				var b *errBuild
				e.err = "foreign error: " + err.Error()
				if errors.As(err, &b) {
					e.err = b.Error()
				}
			}
		}()
		log.add(e)
	}

	workers := 2 + r.Intn(9)
	if gen.Chance(r, 5) {
		workers = 40
	}
	plans := make([][]int, workers)
	seeds := make([]int64, workers)
	for g := range plans {
		seeds[g] = r.Int63()
		for n := 1 + r.Intn(6); n > 0; n-- {
			plans[g] = append(plans[g], r.Intn(len(keys)))
		}
	}
	start := make(chan struct{})
	var wg, free sync.WaitGroup
	var stuck int64
	for g := range plans {
		wg.Add(1)
		if held {
			// half of the goroutines load the held key, the others only different ones
			for i := range plans[g] {
				if g%2 == 0 && g > 0 {
					plans[g][i] = heldKey
				} else if plans[g][i] == heldKey || g == 0 {
					plans[g][i] = (heldKey + 1 + i%(len(keys)-1)) % len(keys)
				}
			}
			if g%2 == 1 || g == 0 {
				free.Add(1)
			}
		}
		go func(g int) {
			defer wg.Done()
			<-start
			if held && (g%2 == 1 || g == 0) {
				defer free.Done()
				<-started
			}
			rng := seeds[g]
			for _, k := range plans[g] {
				rng = next(rng)
				pause(rng)
				load(rng, k, 0)
			}
		}(g)
	}
	if held {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			load(seeds[0]^1, heldKey, 0)
		}()
	}
	close(start)
	if held {
		done := make(chan struct{})
		go func() { free.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(8 * time.Second):
			atomic.StoreInt64(&stuck, 1)
		}
		close(release)
	}
	wg.Wait()
	var lines []string
	for _, e := range log.events {
		lines = append(lines, e.String())
	}
	if stuck == 1 {
		c.Fail("loads of other keys wait for a builder of another key", lines)
		return
	}
	if what := checkCacheLog(c, log); what != "" {
		c.Fail(what, lines)
		return
	}
	var order []string
	shared := false
	own := map[int]bool{}
	for _, e := range log.events {
		order = append(order, fmt.Sprint(e.key, e.end, e.build >= 0, e.err != "", e.load))
		if e.build >= 0 {
			own[e.load] = true
		}
	}
	for _, e := range log.events {
		shared = shared || e.end && e.build < 0 && !own[e.load]
	}
	c.Eval(shared, order)
	if c.WantSample() {
		c.Sample(map[string]interface{}{"kind": kind, "events": lines})
	}

	// nil is a value too
	if kind == "interfaces" {
		nils, builds := new(jsonschema.Cache[fmt.Stringer]), 0
		for i := 0; i < 3; i++ {
			v, err := nils.Load("nil", func() (fmt.Stringer, error) { builds++; return nil, nil })
			if err != nil || v != nil || builds != 1 {
				c.Fail(fmt.Sprintf("load %d of a key whose build gives nil: %v, error %v, after %d builds", i, v, err, builds), nil)
				return
			}
		}
		c.Count("nil_values")
	}
}

// checkCacheLog is the offline monitor of the log of a cache.
func checkCacheLog(c *h.Case, log *cacheLog) string {
	type span struct{ start, end int64 }
	loads := map[int]span{}
	type outcome struct {
		key    string
		load   int
		failed bool
		end    int64
	}
	running := map[string]int{}   // the build which runs
	succeeded := map[string]int{} // the build which succeeded
	builds := map[int]outcome{}
	failures := map[string]int{}
	ran := map[int]bool{} // loads whose builder ran
	for _, e := range log.events {
		switch {
		case e.build < 0 && !e.end:
			loads[e.load] = span{start: e.seq}
		case e.build < 0:
			s := loads[e.load]
			s.end = e.seq
			loads[e.load] = s
		case !e.end:
			ran[e.load] = true
			if b := running[e.key]; b != 0 {
				return fmt.Sprintf("builds %d and %d of %q run at the same time", b, e.build, e.key)
			}
			if b := succeeded[e.key]; b != 0 {
				return fmt.Sprintf("%q is built again after build %d succeeded", e.key, b)
			}
			running[e.key] = e.build
			if failures[e.key] > 0 {
				c.Count("rebuilt_after_failure")
			}
		default:
			running[e.key] = 0
			builds[e.build] = outcome{e.key, e.load, e.err != "", e.seq}
			if e.err == "" {
				succeeded[e.key] = e.build
			} else {
				failures[e.key]++
			}
		}
	}
	for _, e := range log.events {
		if e.build >= 0 || !e.end {
			continue
		}
		if e.err == "" {
			b, ok := builds[e.value]
			switch {
			case !ok:
				return fmt.Sprintf("load %d of %q gives a value no build made", e.load, e.key)
			case b.key != e.key:
				return fmt.Sprintf("load %d of %q gives the value of %q", e.load, e.key, b.key)
			case b.failed:
				return fmt.Sprintf("load %d of %q gives the value of a failed build", e.load, e.key)
			case b.end > e.seq:
				return fmt.Sprintf("load %d of %q ends before its build does", e.load, e.key)
			}
			if !ran[e.load] {
				if b.end > loads[e.load].start {
					c.Count("loads_shared_success")
				} else {
					c.Count("loads_of_remembered")
				}
			}
			continue
		}
		var n int
		if _, err := fmt.Sscanf(e.err, "build %d failed", &n); err != nil {
			return fmt.Sprintf("load %d of %q fails without a failed build: %s", e.load, e.key, e.err)
		}
		b, ok := builds[n]
		switch {
		case !ok || !b.failed || b.key != e.key:
			return fmt.Sprintf("load %d of %q gets an error which is not of a build of it", e.load, e.key)
		case loads[b.load].end < loads[e.load].start:
			return fmt.Sprintf("load %d of %q gets the error of build %d, which load %d had finished before", e.load, e.key, n, b.load)
		}
		if b.load != e.load {
			c.Count("loads_shared_failure")
		}
	}
	return ""
}

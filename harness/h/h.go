// Package h is the harness shared by all checks: deterministic cases, supervised worker processes, evidence, replay
// files and known findings.
package h

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the description of how one property is decided.
type Check struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	// Level is the evidence level, "exploration" when empty.
	Level       string
	Assumptions []string
	Quick       int // number of cases in the quick tier
	Thorough    int // number of cases in the thorough tier
	Race        bool
	Shards      int                 // number of worker processes, 0 means 8
	Procs       int                 // GOMAXPROCS of each worker, 0 means 2
	Setup       func(*Worker) error // run once in each worker before its cases
	Run         func(*Case)
	Need        []string // counters that must be above zero, otherwise the run observed too little to decide anything
	Hang        time.Duration
	// Prepare is run once by the parent before the workers start, with a directory shared with them.
	Prepare func(p *Parent) error
	// Finish is run once by the parent after the workers ended.
	Finish func(p *Parent)
}

// Worker is one worker process.
type Worker struct {
	Check    *Check
	Dir      string // private scratch directory, removed afterwards
	Shared   string // scratch directory prepared by the parent
	Tier     string
	Seed     int64
	Shard    int
	mu       sync.Mutex
	counters map[string]int64
	hashes   map[uint64]bool
	samples  []interface{}
	viol     []Violation
	known    map[string]string
	evals    int64
	Data     interface{} // for the use of Setup
}

// Violation is one observed violation.
type Violation struct {
	Property string      `json:"property"`
	Case     int         `json:"case"`
	Seed     int64       `json:"seed"`
	Tier     string      `json:"tier"`
	What     string      `json:"what"`
	Detail   interface{} `json:"detail,omitempty"`
}

// Case is one generated case.
type Case struct {
	*Worker
	Idx    int
	R      *rand.Rand
	failed bool
}

type result struct {
	Evals    int64
	Counters map[string]int64
	Samples  []interface{}
	Viol     []Violation
	Known    map[string]string
}

// Count adds one to a counter of observed events.
func (w *Worker) Count(name string) { w.Add(name, 1) }

// Add adds n to a counter of observed events.
func (w *Worker) Add(name string, n int64) {
	w.mu.Lock()
	w.counters[name] += n
	w.mu.Unlock()
}

// Eval counts one evaluation and, if nontrivial, records its fingerprint.
func (w *Worker) Eval(nontrivial bool, fingerprint ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.evals++
	if !nontrivial {
		return
	}
	hs := fnv.New64a()
	for _, f := range fingerprint {
		switch v := f.(type) {
		case []byte:
			hs.Write(v)
		case string:
			hs.Write([]byte(v))
		default:
			fmt.Fprint(hs, v)
		}
		hs.Write([]byte{0})
	}
	w.hashes[hs.Sum64()] = true
}

// Sample keeps a few cases for the evidence file.
func (w *Worker) Sample(v interface{}) {
	w.mu.Lock()
	if len(w.samples) < 2 {
		w.samples = append(w.samples, v)
	}
	w.mu.Unlock()
}

// WantSample tells whether Sample still keeps something.
func (w *Worker) WantSample() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.samples) < 2
}

// Fail records a violation.
func (c *Case) Fail(what string, detail interface{}) {
	c.mu.Lock()
	c.failed = true
	if len(c.viol) < 8 {
		c.viol = append(c.viol, Violation{c.Check.ID, c.Idx, c.Seed, c.Tier, what, detail})
	}
	c.mu.Unlock()
}

// Failed tells whether this case has failed.
func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.failed
}

// Probe reports the outcome of a dedicated probe of a listed finding: broken tells if the probe fails. When the key is
// listed in the known findings this is a KNOWN-FINDING, otherwise a violation.
func (c *Case) Probe(key string, broken bool, what string, detail interface{}) {
	if !broken {
		return
	}
	if KnownFindings()[c.Check.ID+"/"+key] {
		c.mu.Lock()
		c.known[key] = what
		c.mu.Unlock()
		return
	}
	c.Fail(what, detail)
}

var knownOnce sync.Once
var knownMap map[string]bool

// KnownFindings reads the committed known findings.
func KnownFindings() map[string]bool {
	knownOnce.Do(func() {
		knownMap = map[string]bool{}
		f, err := os.Open(filepath.Join(VerifDir(), "known_findings.txt"))
		if err != nil {
			return
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			line := sc.Text()
			if !strings.HasPrefix(line, "finding: ") {
				continue
			}
			var prop, key string
			for _, word := range strings.Fields(line) {
				if strings.HasPrefix(word, "property=") {
					prop = word[len("property="):]
				}
				if strings.HasPrefix(word, "key=") {
					key = word[len("key="):]
				}
			}
			knownMap[prop+"/"+key] = true
		}
	})
	return knownMap
}

// VerifDir is the directory of the framework.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// RepoDir is the directory of the code under test.
func RepoDir() string {
	if d := os.Getenv("REPO_DIR"); d != "" {
		return d
	}
	return "/repo"
}

// Rand makes the random source of one case.
func Rand(seed int64, id string, idx int) *rand.Rand {
	hs := fnv.New64a()
	fmt.Fprintf(hs, "%d/%s/%d", seed, id, idx)
	return rand.New(rand.NewSource(int64(hs.Sum64())))
}

// Guard runs f and turns a panic into a violation.
func (c *Case) Guard(what string, detail func() interface{}, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			stack := string(debug.Stack())
			var d interface{}
			if detail != nil {
				d = detail()
			}
			c.Fail(fmt.Sprintf("%s: panic: %v", what, p), map[string]interface{}{"input": d, "stack": trimStack(stack)})
			ok = false
		}
	}()
	f()
	return true
}

func trimStack(s string) []string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/runtime/") {
			continue
		}
		out = append(out, strings.TrimSpace(l))
		if len(out) > 30 {
			break
		}
	}
	return out
}

// workerMain runs the cases of one shard from case number from up to total.
func workerMain(chk *Check, shared, dir string, shard, shards, from, total, only int, tier string, seed int64) {
	w := &Worker{Check: chk, Dir: dir, Shared: shared, Tier: tier, Seed: seed, Shard: shard,
		counters: map[string]int64{}, hashes: map[uint64]bool{}, known: map[string]string{}}
	procs := chk.Procs
	if procs == 0 {
		procs = 2
	}
	runtime.GOMAXPROCS(procs)
	debug.SetMaxStack(256 << 20)
	cur, err := os.Create(filepath.Join(dir, "cur"))
	if err != nil {
		fatal("worker: %v", err)
	}
	hang := chk.Hang
	if hang == 0 {
		hang = 150 * time.Second
	}
	var progress int64
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			if p := atomic.LoadInt64(&progress); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > hang {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Exit(97)
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				fmt.Fprintln(os.Stderr, "memory limit exceeded")
				os.Exit(98)
			}
		}
	}()
	if chk.Setup != nil {
		if err := chk.Setup(w); err != nil {
			fatal("setup: %v", err)
		}
	}
	for idx := shard; idx < total; idx += shards {
		if idx < from {
			continue
		}
		if only >= 0 && idx != only {
			continue
		}
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(idx+1))
		cur.WriteAt(b[:], 0)
		atomic.AddInt64(&progress, 1)
		c := &Case{Worker: w, Idx: idx, R: Rand(seed, chk.ID, idx)}
		c.Guard("unexpected", nil, func() { chk.Run(c) })
		if len(w.viol) >= 4 && os.Getenv("VH_ALL") == "" {
			break
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for i := range w.samples {
		if b, err := json.Marshal(w.samples[i]); err == nil && len(b) > 6000 {
			w.samples[i] = string(b[:6000]) + "..."
		}
	}
	out, err := json.Marshal(result{w.evals, w.counters, w.samples, w.viol, w.known})
	if err != nil {
		fatal("worker result: %v", err)
	}
	var hb bytes.Buffer
	for k := range w.hashes {
		binary.Write(&hb, binary.LittleEndian, k)
	}
	if err := os.WriteFile(filepath.Join(dir, "hashes"), hb.Bytes(), 0644); err != nil {
		fatal("worker: %v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "result.json"), out, 0644); err != nil {
		fatal("worker: %v", err)
	}
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
	os.Exit(2)
}

// Parent is the supervising process.
type Parent struct {
	Check    *Check
	Tmp      string // removed at the end
	Shared   string
	Tier     string
	Seed     int64
	Evals    int64
	Counters map[string]int64
	Hashes   map[uint64]bool
	Samples  []interface{}
	Viol     []Violation
	Known    map[string]string
	Extra    map[string]interface{} // additional coverage fields
	Only     int                    // the only case to run, or negative
}

// Fail records a violation found by the parent.
func (p *Parent) Fail(idx int, what string, detail interface{}) {
	p.Viol = append(p.Viol, Violation{p.Check.ID, idx, p.Seed, p.Tier, what, detail})
}

// Main is the entry point of the program.
func Main(checks map[string]*Check) {
	if len(os.Args) < 2 {
		fatal("usage: vh ID [case]")
	}
	chk := checks[os.Args[1]]
	if chk == nil {
		fatal("unknown check %q", os.Args[1])
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	total := chk.Quick
	if tier == "thorough" {
		total = chk.Thorough
	}
	shards := chk.Shards
	if shards == 0 {
		shards = 8
	}
	if len(os.Args) > 2 && os.Args[2] == "-worker" {
		shard, _ := strconv.Atoi(os.Args[5])
		only, _ := strconv.Atoi(os.Args[6])
		from, _ := strconv.Atoi(os.Args[7])
		to, _ := strconv.Atoi(os.Args[8])
		workerMain(chk, os.Args[3], os.Args[4], shard, shards, from, to, only, tier, seed)
		return
	}
	only := -1
	if len(os.Args) > 2 {
		n, err := strconv.Atoi(os.Args[2])
		if err != nil {
			fatal("bad case %q", os.Args[2])
		}
		only = n
	}
	os.Exit(parentMain(chk, tier, seed, total, shards, only))
}

// perProcess is the number of cases, of all shards, after which the worker processes are replaced by new ones.
const perProcess = 40000

func parentMain(chk *Check, tier string, seed int64, total, shards, only int) int {
	start := time.Now()
	tmp := os.Getenv("VH_TMP")
	if tmp == "" {
		var err error
		tmp, err = os.MkdirTemp("", "vh")
		if err != nil {
			fatal("%v", err)
		}
		defer os.RemoveAll(tmp)
	}
	p := &Parent{Check: chk, Tmp: tmp, Shared: filepath.Join(tmp, "shared"), Tier: tier, Seed: seed,
		Counters: map[string]int64{}, Hashes: map[uint64]bool{}, Known: map[string]string{}, Extra: map[string]interface{}{}, Only: only}
	if err := os.MkdirAll(p.Shared, 0755); err != nil {
		fatal("%v", err)
	}
	if chk.Prepare != nil {
		if err := chk.Prepare(p); err != nil {
			fatal("prepare: %v", err)
		}
	}
	if old, _ := filepath.Glob(filepath.Join(VerifDir(), "evidence", "replay", chk.ID+"-*.json")); only < 0 {
		for _, f := range old {
			os.Remove(f)
		}
	}
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := false
	for s := 0; s < shards; s++ {
		if only >= 0 && only%shards != s {
			continue
		}
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			// Loaded schemas stay in memory by design, so that a process runs only some of the cases.
			for from := 0; from < total; from += perProcess {
				dir := filepath.Join(tmp, fmt.Sprintf("w%d", s))
				if from > 0 {
					dir += fmt.Sprintf("-%d", from)
				}
				if err := os.MkdirAll(dir, 0755); err != nil {
					fatal("%v", err)
				}
				cmd := exec.Command(self, chk.ID, "-worker", p.Shared, dir, strconv.Itoa(s), strconv.Itoa(only), strconv.Itoa(from), strconv.Itoa(min(total, from+perProcess)))
				cmd.Env = append(os.Environ(), "TMPDIR="+dir,
					"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"))
				cmd.Dir = dir
				var errBuf tailBuffer
				cmd.Stderr = &errBuf
				cmd.Stdout = &errBuf
				runErr := cmd.Run()
				mu.Lock()
				p.collect(dir, runErr, errBuf.String(), &bad)
				stop := bad || len(p.Viol) > 0
				mu.Unlock()
				if stop {
					break
				}
			}
		}(s)
	}
	wg.Wait()
	if chk.Finish != nil {
		chk.Finish(p)
	}
	sort.SliceStable(p.Viol, func(i, j int) bool { return p.Viol[i].Case < p.Viol[j].Case })
	if bad && len(p.Viol) == 0 {
		return 2
	}

	for _, need := range chk.Need {
		if p.Counters[need] == 0 && len(p.Viol) == 0 && only < 0 {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE: nothing observed for %q\n", need)
			return 2
		}
	}

	evDir := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(evDir, 0755)
	level := chk.Level
	if level == "" {
		level = "exploration"
	}
	coverage := map[string]interface{}{
		"evaluations":         p.Evals,
		"distinct_nontrivial": len(p.Hashes),
		"rule":                chk.Rule,
		"samples":             p.Samples,
		"observed":            p.Counters,
	}
	for k, v := range p.Extra {
		coverage[k] = v
	}
	ev := map[string]interface{}{
		"property": chk.ID, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
		"assumptions": chk.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(p.Viol),
	}
	if len(p.Known) > 0 {
		ev["known_findings"] = p.Known
	}
	if only < 0 {
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fatal("evidence: %v", err)
		}
		if err := os.WriteFile(filepath.Join(evDir, chk.ID+".json"), append(b, '\n'), 0644); err != nil {
			fatal("evidence: %v", err)
		}
	}
	keys := make([]string, 0, len(p.Known))
	for k := range p.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", chk.ID, k, p.Known[k])
	}
	fmt.Printf("%s: %d evaluations, %d distinct nontrivial, %d violations, %.1fs\n", chk.ID, p.Evals, len(p.Hashes), len(p.Viol), time.Since(start).Seconds())
	if len(p.Viol) == 0 {
		return 0
	}
	rdir := filepath.Join(evDir, "replay")
	os.MkdirAll(rdir, 0755)
	for i, v := range p.Viol {
		if i >= 3 && os.Getenv("VH_ALL") == "" {
			break
		}
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", chk.ID, i))
		b, err := json.MarshalIndent(map[string]interface{}{
			"violation": v,
			"rerun":     fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s %d", seed, tier, chk.ID, v.Case),
		}, "", " ")
		if err != nil {
			b = []byte(fmt.Sprintf("%+v", v))
		}
		os.WriteFile(rp, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, rp)
		what := v.What
		if len(what) > 400 {
			what = strings.ToValidUTF8(what[:400], "")
		}
		fmt.Printf("  case %d: %s\n", v.Case, strings.ToValidUTF8(what, "?"))
	}
	return 1
}

func (p *Parent) collect(dir string, runErr error, stderr string, bad *bool) {
	curCase := -1
	if b, err := os.ReadFile(filepath.Join(dir, "cur")); err == nil && len(b) == 8 {
		curCase = int(binary.LittleEndian.Uint64(b)) - 1
	}
	if runErr != nil {
		code := -1
		if ee, ok := runErr.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		switch {
		case code == 97:
			p.Fail(curCase, "no progress: a call did not return", tail(stderr, 8000))
		case code == 98:
			p.Fail(curCase, "memory use grew without bound", nil)
		case curCase >= 0 && (strings.Contains(stderr, "fatal error: ") || strings.Contains(stderr, "panic: ") || strings.Contains(stderr, "runtime: ")):
			p.Fail(curCase, "the process crashed: "+firstCrashLine(stderr), head(stderr, 8000))
		default:
			fmt.Fprintf(os.Stderr, "worker failed: %v\n%s\n", runErr, tail(stderr, 4000))
			*bad = true
		}
		p.races(dir, curCase)
		return
	}
	p.races(dir, curCase)
	var r result
	b, err := os.ReadFile(filepath.Join(dir, "result.json"))
	if err == nil {
		dec := json.NewDecoder(bytes.NewReader(b))
		dec.UseNumber()
		err = dec.Decode(&r)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "worker result: %v\n%s\n", err, tail(stderr, 4000))
		*bad = true
		return
	}
	p.Evals += r.Evals
	for k, v := range r.Counters {
		p.Counters[k] += v
	}
	if len(p.Samples) < 4 {
		p.Samples = append(p.Samples, r.Samples...)
	}
	p.Viol = append(p.Viol, r.Viol...)
	for k, v := range r.Known {
		p.Known[k] = v
	}
	hb, _ := os.ReadFile(filepath.Join(dir, "hashes"))
	for i := 0; i+8 <= len(hb); i += 8 {
		p.Hashes[binary.LittleEndian.Uint64(hb[i:])] = true
	}
}

// races turns every distinct report of the race detector into a violation.
func (p *Parent) races(dir string, idx int) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, block := range strings.Split(string(b), "==================") {
			if !strings.Contains(block, "WARNING: DATA RACE") {
				continue
			}
			p.Counters["race_reports"]++
			key := raceKey(block)
			if seen[key] || len(seen) > 5 {
				continue
			}
			seen[key] = true
			p.Fail(idx, "data race: "+key, strings.Split(block, "\n"))
		}
	}
}

func raceKey(block string) string {
	var fns []string
	want := false
	for _, l := range strings.Split(block, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Previous") {
			want = true
			continue
		}
		if want && strings.HasPrefix(l, "  ") && strings.HasSuffix(t, ")") {
			fns = append(fns, t)
			want = false
		}
	}
	return strings.Join(fns, " / ")
}

func firstCrashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error: ") || strings.Contains(l, "panic: ") || strings.Contains(l, "runtime: ") {
			return l
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func head(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "")
	}
	return s
}

// tailBuffer keeps the beginning and the end of a long output.
type tailBuffer struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuffer) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(b)
	if len(t.head) < 1<<16 {
		k := 1<<16 - len(t.head)
		if k > len(b) {
			k = len(b)
		}
		t.head = append(t.head, b[:k]...)
		b = b[k:]
	}
	t.tail = append(t.tail, b...)
	if len(t.tail) > 1<<17 {
		t.tail = append([]byte{}, t.tail[len(t.tail)-1<<16:]...)
	}
	return n, nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.tail)
}

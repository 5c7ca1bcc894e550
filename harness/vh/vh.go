// Package vh is the shared monitor library of the verification harness:
// seeded case generation, violation recording with replay files, the
// known-findings list, and the evidence file.
package vh

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// Dir is the /verif directory.
func Dir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type violation struct {
	key, desc, replay string
}

// Run is one run of one property's check.
type Run struct {
	ID    string
	Seed  int64
	Tier  string
	Level string

	start     time.Time
	mu        sync.Mutex
	viol      []violation
	nviol     int
	firstViol time.Time
	known     map[string]string // key -> description
	seenKF    map[string]bool
	herr      []string
	evals     atomic.Int64
	cells     map[[16]byte]struct{}
	counts    map[string]int64
	sets      map[string]map[string]struct{}
	samples   []string
	rule      string
	assume    []string
	only      string // "stream#index" of a replayed case
	failN     int
}

// Start begins the check of property id.
func Start(id, level string) *Run {
	r := &Run{
		ID: id, Level: level, Seed: 1, Tier: "quick",
		start:  time.Now(),
		known:  map[string]string{},
		seenKF: map[string]bool{},
		cells:  map[[16]byte]struct{}{},
		counts: map[string]int64{},
		sets:   map[string]map[string]struct{}{},
		only:   os.Getenv("VERIF_CASE"),
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			r.Seed = n
		}
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		r.Tier = "thorough"
	}
	r.loadKnown()
	go r.watchMemory()
	return r
}

// maxMemory is far more than any check uses.
const maxMemory = 10 << 30

// watchMemory reports code that keeps allocating before the system runs out
// of memory and ends the check without an answer.
func (r *Run) watchMemory() {
	for {
		time.Sleep(100 * time.Millisecond)
		b, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			return
		}
		var size, rss int64
		fmt.Sscan(string(b), &size, &rss)
		if rss *= int64(os.Getpagesize()); rss < maxMemory {
			continue
		}
		st := Stacks()
		if SethFrame(st) {
			r.Violate("memory", "memory", fmt.Sprintf("the code under test uses %d MB of memory; goroutines:\n%s", rss>>20, st))
		} else {
			r.HarnessError("out of memory: %s", st)
		}
		r.Finish()
	}
}

// Output is what a program writes; programs that write endlessly are stopped.
type Output struct{ bytes.Buffer }

func (o *Output) Write(b []byte) (int, error) {
	if o.Len() > 64<<20 {
		return 0, errors.New("too much output")
	}
	return o.Buffer.Write(b)
}

// LimitData limits the memory of this process and its children, which must
// not run the race detector.
func LimitData() {
	syscall.Setrlimit(syscall.RLIMIT_DATA, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
}

// known findings are lines "known: property=<id> key=<key> <text>"
func (r *Run) loadKnown() {
	f, err := os.Open(filepath.Join(Dir(), "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		parts := strings.SplitN(s.Text(), " ", 4)
		if len(parts) == 4 && parts[0] == "known:" && parts[1] == "property="+r.ID && strings.HasPrefix(parts[2], "key=") {
			r.known[strings.TrimPrefix(parts[2], "key=")] = parts[3]
		}
	}
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Scale picks the number of cases for the tier.
func (r *Run) Scale(quick, thorough int) int {
	n := quick
	if r.Thorough() {
		n = thorough
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			n = int(float64(n) * f)
			if n < 1 {
				n = 1
			}
		}
	}
	return n
}

func (r *Run) Rule(s string)   { r.rule = s }
func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

// Eval counts n oracle evaluations.
func (r *Run) Eval(n int) { r.evals.Add(int64(n)) }

// Cell records a distinct non-trivial case by its signature.
func (r *Run) Cell(parts ...interface{}) {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	var k [16]byte
	copy(k[:], h[:])
	r.mu.Lock()
	r.cells[k] = struct{}{}
	r.mu.Unlock()
}

// Count adds to a named event counter reported in the evidence.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counts[name] += int64(n)
	r.mu.Unlock()
}

// Seen adds a value to a named set whose size is reported.
func (r *Run) Seen(set, value string) {
	r.mu.Lock()
	m := r.sets[set]
	if m == nil {
		m = map[string]struct{}{}
		r.sets[set] = m
	}
	if len(m) < 500000 {
		m[value] = struct{}{}
	}
	r.mu.Unlock()
}

// GetCount reads a counter.
func (r *Run) GetCount(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counts[name]
}

// Sample keeps up to 12 sample cases.
func (r *Run) Sample(format string, args ...interface{}) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// HarnessError records a failure of the harness itself (exit 2, no verdict).
func (r *Run) HarnessError(format string, args ...interface{}) {
	r.mu.Lock()
	if len(r.herr) < 20 {
		r.herr = append(r.herr, fmt.Sprintf(format, args...))
	}
	r.mu.Unlock()
}

// Violate records a violation. key identifies the failing call site or input
// class for the known-findings list.
func (r *Run) Violate(caseID, key, desc string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if d, ok := r.known[key]; ok {
		if !r.seenKF[key] {
			r.seenKF[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.ID, d, key)
		}
		r.counts["known_finding_hits"]++
		return
	}
	if r.nviol == 0 {
		r.firstViol = time.Now()
	}
	r.nviol++
	n := 0
	for _, v := range r.viol {
		if v.key == key {
			n++
		}
	}
	if n >= 2 || len(r.viol) >= 10 {
		return
	}
	dir := filepath.Join(Dir(), "replays", r.ID)
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-%d.json", r.Tier, r.Seed, len(r.viol)))
	if len(desc) > 20000 {
		desc = desc[:20000] + "..."
	}
	buf, _ := json.MarshalIndent(map[string]interface{}{
		"property": r.ID, "key": key, "case": caseID, "seed": r.Seed, "tier": r.Tier, "description": desc,
	}, "", " ")
	os.WriteFile(path, buf, 0644)
	r.viol = append(r.viol, violation{key, desc, path})
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
	short := desc
	if len(short) > 1500 {
		short = short[:1500] + "..."
	}
	fmt.Printf("  key=%s case=%s\n  %s\n", key, caseID, strings.Replace(short, "\n", "\n  ", -1))
}

func (r *Run) tooMany() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	// a run that has failed need not go on for long, in particular when
	// each failure is a command or case that hangs
	return r.nviol >= 50 || r.nviol > 0 && time.Since(r.firstViol) > 30*time.Second
}

// Finish writes the evidence and exits.
func (r *Run) Finish() {
	r.mu.Lock()
	cov := map[string]interface{}{
		"evaluations":         r.evals.Load(),
		"distinct_nontrivial": len(r.cells),
		"rule":                r.rule,
		"samples":             r.samples,
	}
	for k, v := range r.counts {
		cov[k] = v
	}
	for k, v := range r.sets {
		cov["distinct_"+k] = len(v)
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "assumptions": r.assume,
		"wall_s": time.Since(r.start).Seconds(), "violations": r.nviol,
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	if r.samples == nil {
		cov["samples"] = []string{}
	}
	if r.only == "" {
		buf, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(Dir(), "evidence"), 0755)
		path := filepath.Join(Dir(), "evidence", r.ID+".json")
		if p := os.Getenv("VERIF_EVIDENCE"); p != "" {
			path = p
		}
		if err := os.WriteFile(path, append(buf, '\n'), 0644); err != nil {
			fmt.Println("cannot write evidence:", err)
			os.Exit(2)
		}
	}
	nv, herr := r.nviol, r.herr
	var keys []string
	for k := range r.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s: evaluations=%d distinct=%d violations=%d wall=%.1fs\n", r.ID, r.Tier, r.evals.Load(), len(r.cells), nv, time.Since(r.start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %s=%d\n", k, r.counts[k])
	}
	for k, v := range r.sets {
		fmt.Printf("  distinct_%s=%d\n", k, len(v))
	}
	r.mu.Unlock()
	if nv > 0 {
		os.Exit(1)
	}
	if len(herr) > 0 {
		for _, e := range herr {
			fmt.Println("HARNESS-ERROR:", e)
		}
		os.Exit(2)
	}
	fmt.Println("VERIF-DONE", r.ID)
	if os.Getenv("VERIF_COV") != "" {
		return // let the testing package write its coverage profile
	}
	os.Exit(0)
}

// Case is one generated case.
type Case struct {
	*Run
	Name  string
	Index int
	Rng   *rand.Rand
	fails int
}

func (c *Case) ID() string { return fmt.Sprintf("%s#%d", c.Name, c.Index) }

// Fail records a violation in this case.
func (c *Case) Fail(key, format string, args ...interface{}) {
	c.fails++
	c.Run.Violate(c.ID(), key, fmt.Sprintf(format, args...))
}

// Failed says whether this case recorded a violation.
func (c *Case) Failed() bool { return c.fails > 0 }

func caseSeed(seed int64, name string, i int) int64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", seed, name, i)))
	return int64(new(big.Int).SetBytes(h[:8]).Uint64() >> 1)
}

// NewCase makes the case with the given stream name and index.
func (r *Run) NewCase(name string, i int) *Case {
	return &Case{Run: r, Name: name, Index: i, Rng: rand.New(rand.NewSource(caseSeed(r.Seed, name, i)))}
}

// SethFrame says whether a stack mentions code of the module under test.
func SethFrame(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/philhofer/seth") || strings.Contains(l, "philhofer/seth/") {
			return true
		}
	}
	return false
}

// Crashed tells whether what a process wrote to its standard error when it
// ended is a crash in the code under test.
func Crashed(stderr string) bool {
	i := -1
	for _, p := range []string{"panic: ", "fatal error: "} {
		if j := strings.Index(stderr, p); j >= 0 && (i < 0 || j < i) {
			i = j
		}
	}
	if i < 0 {
		return false
	}
	// the first goroutine of the dump is the one that crashed
	l := strings.SplitN(stderr[i:], "\n\ngoroutine ", 3)
	if len(l) > 2 {
		l = l[:2]
	}
	return SethFrame(strings.Join(l, "\n"))
}

// Guard runs f and reports a panic inside the code under test as a violation.
func (c *Case) Guard(key string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				// frames at and below the panic
				st = st[i:]
			}
			if SethFrame(st) {
				c.Fail(key, "panic: %v\n%s", e, st)
			} else {
				c.HarnessError("%s: panic outside the code under test: %v\n%s", c.ID(), e, st)
			}
		}
	}()
	f()
	return true
}

// Panics runs f and returns the panic value and stack, if any.
func Panics(f func()) (val interface{}, stack string) {
	defer func() {
		if e := recover(); e != nil {
			val = e
			stack = string(debug.Stack())
			if i := strings.Index(stack, "panic("); i >= 0 {
				stack = stack[i:]
			}
		}
	}()
	f()
	return nil, ""
}

// Cases runs n cases of a stream on the given number of workers.
func (r *Run) Cases(name string, n, workers int, f func(c *Case)) {
	r.CasesLimit(name, n, workers, 5*time.Minute, f)
}

// CasesLimit is Cases with a per-case limit of running time: a case that is
// still running when it expires is reported as a hang.
func (r *Run) CasesLimit(name string, n, workers int, limit time.Duration, f func(c *Case)) {
	if r.only != "" && !strings.HasPrefix(r.only, name+"#") {
		return
	}
	if workers <= 0 {
		workers = runtime.GOMAXPROCS(0)
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.tooMany() {
					return
				}
				c := r.NewCase(name, i)
				if r.only != "" && r.only != c.ID() {
					continue
				}
				tm := time.AfterFunc(limit, func() { r.hang(c.ID(), limit) })
				c.Guard("panic", func() { f(c) })
				tm.Stop()
			}
		}()
	}
	wg.Wait()
}

func (r *Run) hang(id string, limit time.Duration) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	st := string(buf)
	if SethFrame(st) {
		r.Violate(id, "hang", fmt.Sprintf("case still running after %v; goroutines:\n%s", limit, st))
	} else {
		r.HarnessError("case %s still running after %v\n%s", id, limit, st)
	}
	r.Finish()
}

// WithTimeout runs f; it reports false when f has not returned within d.
func WithTimeout(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// Stacks returns all goroutine stacks.
func Stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// T is a helper so that packages need not import testing for a bubble.
type T = testing.T

// ---- generators ----

// Bytes returns n random bytes.
func Bytes(g *rand.Rand, n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

// Big returns a random non-negative integer below 2^bits, biased to edges.
func Big(g *rand.Rand, bits int) *big.Int {
	one := big.NewInt(1)
	switch g.Intn(8) {
	case 0:
		return big.NewInt(int64(g.Intn(4)))
	case 1: // 2^k - {0,1,..}
		k := uint(g.Intn(bits + 1))
		v := new(big.Int).Lsh(one, k)
		v.Sub(v, big.NewInt(int64(g.Intn(3))))
		if v.Sign() < 0 || v.BitLen() > bits {
			v.SetInt64(1)
		}
		return v
	case 2:
		v := new(big.Int).Lsh(one, uint(bits))
		v.Sub(v, big.NewInt(int64(1+g.Intn(3))))
		if v.Sign() < 0 {
			v.SetInt64(0)
		}
		return v
	case 3:
		n := 1 + g.Intn(bits)
		return new(big.Int).Rand(g, new(big.Int).Lsh(one, uint(n)))
	case 4: // sparse bytes
		b := make([]byte, (bits+7)/8)
		for i := 0; i < 1+g.Intn(3); i++ {
			b[g.Intn(len(b))] = byte(g.Intn(256))
		}
		v := new(big.Int).SetBytes(b)
		if v.BitLen() > bits {
			v.SetInt64(2)
		}
		return v
	default:
		return new(big.Int).Rand(g, new(big.Int).Lsh(one, uint(bits)))
	}
}

// Package harness runs tg123/phabrik under generated and hostile workloads and decides its properties with
// monitors over what is observed.  See /verif/DESIGN.md.
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// Phase is one workload with its monitors.
type Phase struct {
	Prop string
	Name string
	Rule string
	Race bool // run from the -race build
	Run  func(c *Ctx)
}

var phases []*Phase

func register(prop, name, rule string, run func(c *Ctx)) {
	phases = append(phases, &Phase{Prop: prop, Name: name, Rule: rule, Run: run})
}

func registerRace(prop, name, rule string, run func(c *Ctx)) {
	phases = append(phases, &Phase{Prop: prop, Name: name, Rule: rule, Run: run, Race: true})
}

// Ctx collects what a phase observed.
type Ctx struct {
	T      *testing.T
	P      *Phase
	Tier   string
	Seed   uint64
	Only   int // replay a single case, -1: all
	Mute   bool
	out    string
	prog   *os.File
	start0 float64

	mu           sync.Mutex
	evals        int64
	distinct     map[uint64]struct{}
	counts       map[string]int64
	samples      []string
	violations   []string
	inconclusive []string

	caseNo   atomic.Int64
	caseSeq  atomic.Int64
	caseDesc atomic.Value
}

type stopPhase struct{}

// N picks a size by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

func (c *Ctx) rng(salt string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%s|%d", c.Seed, c.P.Prop, c.P.Name, salt, i)
	return rand.New(rand.NewPCG(h.Sum64(), uint64(i)*0x9e3779b97f4a7c15+1))
}

// Cases runs f for n case indices, each with its own PRNG.
func (c *Ctx) Cases(salt string, n int, f func(i int, r *rand.Rand)) {
	for i := 0; i < n; i++ {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		c.Begin(i, salt)
		f(i, c.rng(salt, i))
		c.End()
		c.mu.Lock()
		k := len(c.inconclusive)
		c.mu.Unlock()
		if k > 1 {
			panic(stopPhase{}) // no verdict; the next cases would wait for the clock as well
		}
	}
}

// Begin marks the start of a case for the watchdog and the crash report.
func (c *Ctx) Begin(i int, desc string) {
	c.caseNo.Store(int64(i))
	c.caseDesc.Store(desc)
	c.caseSeq.Add(1)
	if c.prog != nil {
		b := fmt.Sprintf("%-12d %-60.60s\n", i, desc)
		c.prog.WriteAt([]byte(b), 0)
	}
}

// End marks the case as finished (no case running).
func (c *Ctx) End() { c.caseSeq.Add(1) }

// Saw records one evaluated case; key identifies it for the distinct count ("" = trivial).
func (c *Ctx) Saw(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	c.distinct[h.Sum64()] = struct{}{}
}

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counts[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	if c.counts[name] < n {
		c.counts[name] = n
	}
	c.mu.Unlock()
}

func (c *Ctx) Get(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counts[name]
}

func (c *Ctx) Sample(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 6 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// Violation records a refuted property. It does not stop the case.
func (c *Ctx) Violation(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 8000 {
		s = s[:8000] + "..."
	}
	s = fmt.Sprintf("phase=%s case=%d (%v): %s", c.P.Name, c.caseNo.Load(), c.caseDesc.Load(), s)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Mute {
		c.counts["muted_functional_reports"]++
		return
	}
	if len(c.violations) < 20 {
		c.violations = append(c.violations, s)
		fmt.Fprintln(os.Stderr, "OBSERVED-VIOLATION "+s)
	}
}

func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations) > 0
}

// StopIfFailed ends the phase early once enough was found.
func (c *Ctx) StopIfFailed(n int) {
	c.mu.Lock()
	k := len(c.violations)
	c.mu.Unlock()
	if k >= n {
		panic(stopPhase{})
	}
}

func (c *Ctx) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.inconclusive = append(c.inconclusive, fmt.Sprintf(format, a...))
}

type report struct {
	Prop         string           `json:"prop"`
	Phase        string           `json:"phase"`
	Rule         string           `json:"rule"`
	Race         bool             `json:"race"`
	Evals        int64            `json:"evaluations"`
	Distinct     int              `json:"distinct"`
	Counts       map[string]int64 `json:"counts"`
	Samples      []string         `json:"samples"`
	Violations   []string         `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Wall         float64          `json:"wall"`
	Done         bool             `json:"done"`
}

func (c *Ctx) write(done bool) {
	c.mu.Lock()
	r := report{c.P.Prop, c.P.Name, c.P.Rule, c.P.Race, c.evals, len(c.distinct), c.counts, c.samples, c.violations, c.inconclusive, realSeconds() - c.start0, done}
	b, err := json.MarshalIndent(r, "", " ")
	c.mu.Unlock()
	if err != nil {
		panic(err)
	}
	if c.out != "" {
		if err := os.WriteFile(c.out, b, 0o644); err != nil {
			panic(err)
		}
	}
}

const libPath = "github.com/tg123/phabrik/"

// ---------------------------------------------------------------------------------------------------------
// watchdog: decides "stuck" logically (every goroutine blocked, several times in a row), "spinning" by CPU
// time consumed inside one case, and otherwise gives up as inconclusive.

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func allStacks() string {
	n := 1 << 20
	for {
		b := make([]byte, n)
		k := runtime.Stack(b, true)
		if k < n {
			return string(b[:k])
		}
		n *= 2
	}
}

type goroutine struct {
	id    string
	state string
	text  string
}

func parseStacks(s string) []goroutine {
	var gs []goroutine
	for _, blk := range strings.Split(s, "\n\n") {
		blk = strings.TrimSpace(blk)
		if !strings.HasPrefix(blk, "goroutine ") {
			continue
		}
		line, _, _ := strings.Cut(blk, "\n")
		rest := strings.TrimPrefix(line, "goroutine ")
		id, st, ok := strings.Cut(rest, " [")
		if !ok {
			continue
		}
		st, _, _ = strings.Cut(st, "]")
		st, _, _ = strings.Cut(st, ",")
		st = strings.TrimSuffix(st, " (durable)")
		st = strings.TrimSuffix(st, " (scan)")
		gs = append(gs, goroutine{id, st, blk})
	}
	return gs
}

func blockedState(st string) bool {
	switch st {
	case "chan receive", "chan send", "select", "select (no cases)", "chan receive (nil chan)", "chan send (nil chan)",
		"sync.Mutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Lock", "sync.Cond.Wait", "semacquire", "sync.WaitGroup.Wait",
		"synctest.Run", "synctest.Wait":
		return true
	}
	return false
}

// quietSnapshot reports whether every goroutine except the caller is blocked, with a key of the whole state.
func quietSnapshot() (bool, string, []goroutine) {
	gs := parseStacks(allStacks())
	var key strings.Builder
	quiet := true
	for i, g := range gs {
		if i == 0 {
			continue // the caller
		}
		if strings.Contains(g.text, "harness.(*Ctx).watchdog") {
			continue
		}
		head, _, _ := strings.Cut(g.text, "\n")
		// virtual time passes at once unless something in the bubble is stuck on a lock
		asleep := g.state == "sleep" && strings.Contains(head, "synctest bubble")
		if !blockedState(g.state) && !asleep {
			quiet = false
		}
		fmt.Fprintf(&key, "%s/%s;", g.id, g.state)
	}
	return quiet, key.String(), gs
}

func inLib(text string) bool {
	return strings.Contains(text, libPath)
}

func libGoroutines(gs []goroutine) []goroutine {
	var l []goroutine
	for _, g := range gs {
		if inLib(g.text) {
			l = append(l, g)
		}
	}
	return l
}

const (
	stuckPolls    = 16 // x 150 ms of complete quiescence
	spinCPU       = 45 * time.Second
	hopelessAfter = 240 * time.Second
)

func (c *Ctx) watchdog(stop chan struct{}) {
	var seq int64 = -1
	var since time.Time
	var cpu0 time.Duration
	quiet := 0
	lastKey := ""
	for {
		select {
		case <-stop:
			return
		case <-time.After(150 * time.Millisecond):
		}
		s := c.caseSeq.Load()
		if s != seq {
			seq, since, cpu0, quiet, lastKey = s, time.Now(), cpuTime(), 0, ""
			continue
		}
		if time.Since(since) < 2*time.Second {
			continue
		}
		q, key, gs := quietSnapshot()
		if q && key == lastKey {
			quiet++
		} else {
			quiet = 0
		}
		lastKey = key
		if quiet >= stuckPolls && c.caseSeq.Load() == seq {
			lib := libGoroutines(gs)
			var b strings.Builder
			for _, g := range gs {
				b.WriteString(g.text + "\n\n")
			}
			for _, g := range lib {
				if g.state == "sleep" {
					// asleep in the library, which virtual time would end if nothing waited for a lock: no verdict, and no way to go on
					c.Count("given_up_asleep", 1)
					c.write(true)
					os.Exit(0)
				}
			}
			if len(lib) > 0 {
				c.Violation("stuck: every goroutine is blocked for ever, %d of them in the library\n%s", len(lib), b.String())
				c.write(true)
				os.Exit(0)
			}
			c.Inconclusive("stuck without library frames:\n%s", b.String())
			c.write(true)
			os.Exit(0)
		}
		if cpuTime()-cpu0 > spinCPU {
			for _, g := range gs {
				if (g.state == "running" || g.state == "runnable") && inLib(g.text) {
					c.Violation("spinning: one case used more than %v of CPU time, in the library:\n%s", spinCPU, g.text)
					c.write(true)
					os.Exit(0)
				}
			}
		}
		if time.Since(since) > hopelessAfter {
			c.Inconclusive("case %d of %s made no progress for %v:\n%s", c.caseNo.Load(), c.P.Name, hopelessAfter, allStacks())
			c.write(true)
			os.Exit(0)
		}
	}
}

func (c *Ctx) runPhase() {
	stop := make(chan struct{})
	go c.watchdog(stop)
	defer close(stop)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopPhase); ok {
					return
				}
				st := string(debug.Stack())
				if se, ok := e.(setupError); ok {
					c.setupFailed(se, st)
					return
				}
				// a panic on a harness goroutine: the library's if the panicking frames are its own
				if panicInLib(st) {
					c.Violation("panic in library: %v\n%s", e, st)
					return
				}
				panic(fmt.Sprintf("harness panic: %v\n%s", e, st))
			}
		}()
		c.P.Run(c)
	}()
	c.write(true)
}

// setupError is a failure of the library in what every workload begins with: connecting, listening, making objects.
type setupError struct{ error }

func (c *Ctx) setupFailed(e setupError, stack string) {
	c.Violation("what the workload needs fails in sound surroundings: %v\n%s", e.error, stack)
}

// panicInLib: is the first non-runtime frame below the panic a library frame (or reflect/encoding called by it)?
func panicInLib(stack string) bool {
	_, below, ok := strings.Cut(stack, "panic(")
	if !ok {
		below = stack
	}
	for _, line := range strings.Split(below, "\n") {
		if strings.HasPrefix(line, "\t") || line == "" {
			continue
		}
		if strings.HasPrefix(line, libPath) {
			return true
		}
		if strings.HasPrefix(line, "phabverif") {
			return false
		}
	}
	return false
}

// catch runs f and returns a description of a panic raised in library code.
func catch(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopPhase); ok {
				panic(e)
			}
			if _, ok := e.(setupError); ok {
				panic(e)
			}
			st := string(debug.Stack())
			if !panicInLib(st) {
				panic(fmt.Sprintf("harness panic: %v\n%s", e, st))
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, st)
		}
	}()
	f()
	return ""
}

// realSeconds is the real time, also inside a synctest bubble.
func realSeconds() float64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return float64(tv.Sec) + float64(tv.Usec)/1e6
}

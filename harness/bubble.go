package harness

import (
	"context"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// Bubble runs f in a synctest bubble: virtual time, and synctest.Wait to reach quiescence. Goroutines that are
// left blocked when f returns are only counted (C28 judges leaks); f itself being blocked for ever is a violation.
func (c *Ctx) Bubble(f func()) {
	returned := false
	var rethrow any
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			if s := fmt.Sprint(e); strings.Contains(s, "deadlock: ") {
				if returned {
					c.Count("left_blocked", 1)
					if os.Getenv("VERIF_LEFT") != "" {
						for _, g := range parseStacks(allStacks()) {
							if strings.Contains(g.text, "synctest bubble") {
								fmt.Fprintln(os.Stderr, "LEFT", c.caseNo.Load(), g.text)
							}
						}
					}
					return
				}
				c.Stuck("the workload itself")
				return
			}
			panic(e)
		}()
		synctest.Test(c.T, func(t *testing.T) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stopPhase); ok {
						rethrow = e
						returned = true
						return
					}
					st := string(debug.Stack())
					if se, ok := e.(setupError); ok {
						c.setupFailed(se, st)
						c.write(true)
						os.Exit(0)
					}
					if panicInLib(st) {
						c.Violation("panic in library: %v\n%s", e, st)
						c.write(true)
						os.Exit(0)
					}
					fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", e, st)
					os.Exit(3)
				}
			}()
			f()
			returned = true
		})
	}()
	if rethrow != nil {
		panic(rethrow)
	}
}

// Stuck reports something that did not return at quiescence, with the library's blocked goroutines, and ends the
// phase (blocked goroutines cannot be removed).
func (c *Ctx) Stuck(what string) {
	gs := parseStacks(allStacks())
	lib := libGoroutines(gs)
	var b strings.Builder
	for i, g := range lib {
		if i < 12 {
			b.WriteString(g.text + "\n\n")
		}
	}
	if len(lib) == 0 {
		for _, g := range gs {
			b.WriteString(g.text + "\n\n")
		}
		c.Inconclusive("%s stuck without library frames:\n%s", what, b.String())
	} else {
		c.Violation("%s never returns; library goroutines:\n%s", what, b.String())
	}
	c.write(true)
	os.Exit(0)
}

// Op is a call running on its own goroutine.
type Op struct {
	name string
	mu   sync.Mutex
	done bool
	err  error
	val  any
	at   time.Time
	ch   chan struct{}
}

func Go(name string, f func() (any, error)) *Op {
	o := &Op{name: name, ch: make(chan struct{})}
	go func() {
		v, err := f()
		o.mu.Lock()
		o.done, o.err, o.val, o.at = true, err, v, time.Now()
		o.mu.Unlock()
		close(o.ch)
	}()
	return o
}

func (o *Op) Done() bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.done
}

// Get is for finished operations.
func (o *Op) Get() (any, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.val, o.err
}

func (o *Op) When() time.Time {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.at
}

// grace is the time a call may take that has nothing left to wait for, as a loop that backs off for a while does.
const grace = 2 * time.Second

// MustReturn: at quiescence, or after a moment, o has to be finished.
// soon reports whether a call has returned once nothing but a short delay is left to wait for.
func (o *Op) soon() bool {
	synctest.Wait()
	for i := 0; i < 20 && !o.Done(); i++ {
		time.Sleep(grace / 20)
	}
	synctest.Wait()
	return o.Done()
}

func (c *Ctx) MustReturn(o *Op, when string) bool {
	for i := 0; i < 20 && !o.Done(); i++ {
		time.Sleep(grace / 20)
	}
	if o.Done() {
		return true
	}
	c.Stuck(o.name + " " + when)
	return false
}

var bg = context.Background()

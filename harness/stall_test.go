package harness

import (
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand/v2"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/transport"
)

// A peer that does not read for a while: what is being written waits, and calls that end meanwhile must not harm it.

func init() {
	register("C10", "stalled", "requests and pings end while the peer does not read; what is being written still arrives whole and later requests succeed", stalled)
	register("C11", "stalled", "pings end while the peer does not read; what is being written still arrives whole and later pings succeed", stalled)
}

func stalled(c *Ctx) {
	thePKI()
	// one writer at a time, in virtual time: the call that ends is the one whose frame is stuck, or others wait for replies
	c.Cases("own", c.N(80, 1500), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			room := 500 + r.IntN(3000)
			a, b := Pipe(ConnOpts{Room: room}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{MessageCallback: func(transport.Conn, *transport.ByteArrayMessage) {}})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			// fill the room, so that the next frame is stuck somewhere
			before := a.SentLen()
			if before+200 > int64(room) {
				panic(setupError{errors.New("no room")})
			}
			cl.SendOneWay(reqMsg(0, nil))
			synctest.Wait()
			size := int(a.SentLen() - before)
			if left := room - int(a.SentLen()) - size - 40; left > 0 {
				cl.SendOneWay(reqMsg(0, make([]byte, left-r.IntN(min(left, 250)))))
			}
			ctx, cancel := context.WithTimeout(bg, time.Duration(1+r.IntN(5000))*time.Millisecond)
			defer cancel()
			var op *Op
			if i%2 == 0 {
				op = Go("stalled ping", func() (any, error) { d, err := cl.Ping(ctx); return d, err })
			} else {
				op = Go("stalled request", func() (any, error) { return cl.RequestReply(ctx, reqMsg(1, make([]byte, r.IntN(9000)))) })
			}
			time.Sleep(pick(r, append([]time.Duration{10 * time.Second, 31 * time.Second}, quietTimes...)))
			synctest.Wait()
			blocked := a.Blocked.Load() > 0
			NewWirePeer(b, func(p *WirePeer, m *WM) {
				switch {
				case m.isHeartbeat():
					p.echo(m)
				case m.Actor != 1 && m.Action != "req1" && m.ExpectsReply:
					p.Reply(m, &WM{Actor: 0x10000, Body: []byte("ok")})
				}
			})
			synctest.Wait()
			if blocked {
				c.Count("ended_while_written", 1)
			}
			if !c.MustReturn(op, "after its context ended and its peer read on") {
				return
			}
			c.afterStall(cl, w, fmt.Sprintf("case %d", i))
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
			c.Saw(fmt.Sprint(i))
		})
		c.StopIfFailed(3)
	})
	// others write meanwhile: in real time, as goroutines that wait for a lock do not count as waiting in virtual time
	c.Cases("others", c.N(60, 1000), func(i int, r *rand.Rand) {
		secure := i%3 == 2
		var ts *tlsSetup
		if secure {
			ts = newTLSSetup(r, i)
		}
		a, b := Pipe(ConnOpts{Room: 500 + r.IntN(9000)}, ConnOpts{})
		var mu sync.Mutex
		gate := make(chan int) // closed when the peer reads on
		passes := false
		stall := func() int {
			mu.Lock()
			p := passes
			mu.Unlock()
			if !p {
				<-gate
			}
			return 0
		}
		var cl *transport.Client
		var big []byte
		var bigGot int
		var bigWhole bool
		sum := [32]byte{}
		on := func(p *WirePeer, m *WM) {
			switch {
			case m.isHeartbeat():
				p.echo(m)
			case m.Action == "big":
				mu.Lock()
				bigGot++
				bigWhole = sha256.Sum256(m.Body) == sum
				mu.Unlock()
			case m.Action == "never":
			case m.Actor != 1 && m.ExpectsReply:
				p.Reply(m, &WM{Actor: 0x10000, Body: []byte("ok")})
			}
		}
		passes = true
		b.o.ReadChunk = stall
		if secure {
			tp := make(chan *TLSWirePeer, 1)
			go func() {
				tp <- NewTLSWirePeer(b, ts.server, on)
			}()
			cl = c.connect(a, transport.ClientConfig{Config: transport.Config{TLS: ts.client}})
			<-tp
		} else {
			NewWirePeer(b, on)
			cl = c.connect(a, transport.ClientConfig{})
		}
		w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
		pre := Go("first request", func() (any, error) { return cl.RequestReply(bg, reqMsg(7, nil)) })
		if !c.returns(pre, "before the peer stalls") {
			return
		}
		mu.Lock()
		passes = false
		mu.Unlock()
		big = make([]byte, 40000+r.IntN(400000))
		for k := range big {
			big[k] = byte(r.Uint32())
		}
		sum = sha256.Sum256(big)
		send := Go("big message", func() (any, error) {
			m := reqMsg(0, big)
			m.Headers.Action = "big"
			return nil, cl.SendOneWay(m)
		})
		var ops []*Op
		var cancels []context.CancelFunc
		n := 1 + r.IntN(6)
		for k := 0; k < n; k++ {
			d := time.Duration(r.IntN(8000)) * time.Microsecond
			var ctx context.Context
			var cancel context.CancelFunc
			if r.IntN(3) == 0 {
				ctx, cancel = context.WithCancel(bg)
				time.AfterFunc(d, cancel)
			} else {
				ctx, cancel = context.WithTimeout(bg, d)
			}
			cancels = append(cancels, cancel)
			if r.IntN(2) == 0 {
				ops = append(ops, Go("ping that ends meanwhile", func() (any, error) { d, err := cl.Ping(ctx); return d, err }))
			} else {
				ops = append(ops, Go("request that ends meanwhile", func() (any, error) {
					m := reqMsg(2, nil)
					m.Headers.Action = "never"
					return cl.RequestReply(ctx, m)
				}))
			}
			if r.IntN(2) == 0 {
				time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
			}
		}
		time.Sleep(10 * time.Millisecond)
		if !send.Done() {
			c.Count("stalled_sends", 1)
		}
		mu.Lock()
		passes = true
		mu.Unlock()
		close(gate)
		what := fmt.Sprintf("case %d, tls %v, %d calls ended while a message was being written", i, secure, n)
		if !c.returns(send, "after the peer read on") {
			return
		}
		if _, err := send.Get(); err != nil {
			c.Violation("%s: the message's send failed: %v", what, err)
		}
		for _, op := range ops {
			if !c.returns(op, "after its context ended and the peer read on") {
				return
			}
		}
		c.Count("calls_ended", int64(n))
		for k := 0; k < 2; k++ {
			op := Go("a later request", func() (any, error) { return cl.RequestReply(bg, reqMsg(3+k, nil)) })
			if !c.returns(op, what) {
				return
			}
			if _, err := op.Get(); err != nil {
				c.Violation("%s: a later request failed: %v", what, err)
			}
			op = Go("a later ping", func() (any, error) { d, err := cl.Ping(bg); return d, err })
			if !c.returns(op, what) {
				return
			}
			if _, err := op.Get(); err != nil {
				c.Violation("%s: a later ping failed: %v", what, err)
			}
		}
		mu.Lock()
		if bigGot != 1 || !bigWhole {
			c.Violation("%s: the message arrived %d times, whole %v", what, bigGot, bigWhole)
		}
		mu.Unlock()
		if w.Done() {
			_, err := w.Get()
			c.Violation("%s: the receive loop ended: %v", what, err)
		}
		for _, f := range cancels {
			f()
		}
		cl.Close()
		b.Close()
		c.returns(w, "after Close")
		c.Saw(fmt.Sprint("others", i))
		c.StopIfFailed(3)
	})
}

// afterStall: requests, pings and the receive loop work.
func (c *Ctx) afterStall(cl *transport.Client, w *Op, what string) {
	for k := 0; k < 2; k++ {
		op := Go("a later request", func() (any, error) { return cl.RequestReply(bg, reqMsg(3+k, nil)) })
		synctest.Wait()
		if !c.MustReturn(op, "after the stall") {
			return
		}
		if _, err := op.Get(); err != nil {
			c.Violation("%s: a request after the stall failed: %v", what, err)
		}
		op = Go("a later ping", func() (any, error) { d, err := cl.Ping(bg); return d, err })
		synctest.Wait()
		if !c.MustReturn(op, "after the stall") {
			return
		}
		if _, err := op.Get(); err != nil {
			c.Violation("%s: a ping after the stall failed: %v", what, err)
		}
	}
	if w.Done() {
		_, err := w.Get()
		c.Violation("%s: the receive loop ended: %v", what, err)
	}
}

// echo answers a heartbeat.
func (p *WirePeer) echo(m *WM) {
	p.Send(&WM{Actor: 1, HighPriority: true, Action: "HeartbeatResponse", Body: m.Body})
}

// returns is MustReturn in real time, on a machine that may be busy.
func (c *Ctx) returns(o *Op, when string) bool {
	select {
	case <-o.ch:
		return true
	case <-time.After(2 * time.Minute):
		c.Stuck(o.name + " " + when)
		return false
	}
}

package harness

// Joining: the neighbourhood query a node sends, and how it ends.

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/federation"
)

func init() {
	register("C22", "join", "joins whose neighbourhood query is answered, answered strangely, late or never", c22join)
}

type timeRange struct{ Begin, End int64 }

type gwGap struct {
	Range    federation.NodeIdRange
	Interval timeRange
}

type gwTicket struct {
	VoteId     federation.NodeID
	ExpireTime int64
	Gaps       []gwGap
}

type gwLease struct {
	Tickets  []gwTicket
	Delta    int64
	BaseTime int64
}

func c22join(c *Ctx) {
	thePKI()
	const action = "NeighborhoodQueryRequest"
	modes := []string{"lease", "garbage", "empty", "error", "other reply", "late", "ctx", "deadline", "close", "no partners", "lost", "dial fails", "twice"}
	n := len(modes) * c.N(12, 120)
	c.Cases("join", n, func(i int, r *rand.Rand) {
		mode := modes[i%len(modes)]
		c.Bubble(func() {
			var mu sync.Mutex
			var got []fedMsg
			rr := rand.New(rand.NewPCG(r.Uint64(), 5))
			reply := func(h fedMsg) {
				rep := &WM{Actor: 2, Action: "NeighborhoodQueryReply"}
				switch mode {
				case "garbage":
					rep.Body = garbage(rr)
				case "empty":
				case "error":
					rep.Err = -2147017000
				default:
					l := &gwLease{Delta: rr.Int64(), BaseTime: rr.Int64()}
					for k := rr.IntN(4); k > 0; k-- {
						t := gwTicket{VoteId: genNodeID(rr), ExpireTime: rr.Int64()}
						for q := rr.IntN(3); q > 0; q-- {
							t.Gaps = append(t.Gaps, gwGap{federation.NodeIdRange{Begin: genNodeID(rr), End: genNodeID(rr)}, timeRange{rr.Int64(), rr.Int64()}})
						}
						l.Tickets = append(l.Tickets, t)
					}
					rep.Body = RefEncode(l, RefOpts{})
					if rr.IntN(3) == 0 {
						rep.Body = rep.Body[:rr.IntN(len(rep.Body)+1)]
					}
				}
				h.p.Reply(h.m, rep)
			}
			f := fedSetup(c, r, i, func(n *fedNode, p *WirePeer, m *WM) {
				if m.Action != action {
					return
				}
				mu.Lock()
				got = append(got, fedMsg{m, p, time.Now()})
				mu.Unlock()
				switch mode {
				case "lease", "garbage", "empty", "error", "twice":
					reply(fedMsg{m, p, time.Now()})
				}
			})
			w := f.w
			self := w.self.Id
			if mode == "no partners" {
				w.stop()
				w = newFedWorld(c, w.self)
				w.start([]federation.SeedNodeInfo{{Id: self, Address: "self"}})
			}
			want := f.closest(self)
			if mode == "dial fails" {
				w.nodes[want].l.Close()
			}
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			if mode == "deadline" {
				var c2 context.CancelFunc
				ctx, c2 = context.WithTimeout(ctx, time.Duration(1+r.IntN(100000))*time.Millisecond)
				defer c2()
			}
			times := 1
			if mode == "twice" {
				times = 2 + r.IntN(3)
			}
			joined := func(o *Op) {
				c.MustReturn(o, "("+mode+")")
				o.Get() // whatever it says
			}
			arrived := func(n int) {
				what := fmt.Sprintf("join (%s, self %v)", mode, self)
				at := w.arrived(action)
				total := 0
				for _, l := range at {
					total += len(l)
				}
				if total != n || len(at[want]) != n {
					c.Violation("%s: %d neighbourhood queries at %v, want %d at %v", what, total, keysOf(at), n, want)
					return
				}
				for _, m := range at[want] {
					w.checkAddressing(m, f.known[want], true, f.known, action, what)
				}
				c.Count("queries", int64(n))
			}
			for k := 1; k <= times; k++ {
				o := Go("Join", func() (any, error) { return nil, w.node.Join(ctx) })
				synctest.Wait()
				switch mode {
				case "lease", "garbage", "empty", "error", "twice":
					arrived(k)
				case "no partners", "dial fails":
					if w.nodes[want] != nil && len(w.arrived(action)) != 0 {
						c.Violation("%s: queries arrived: %v", mode, keysOf(w.arrived(action)))
					}
				case "other reply":
					arrived(1)
					time.Sleep(time.Duration(r.IntN(1000)) * time.Second)
					mu.Lock()
					h := got[0]
					mu.Unlock()
					h.p.Reply(&WM{Id: h.p.NextId()}, &WM{Actor: 2, Action: "NeighborhoodQueryReply"})
					synctest.Wait()
					if o.Done() {
						c.Violation("the join ends before its query was answered")
					}
					reply(h)
				case "late":
					arrived(1)
					for q := r.IntN(4); q >= 0; q-- {
						time.Sleep(pick(r, quietTimes))
						synctest.Wait()
						if o.Done() {
							c.Violation("the join ends before its query was answered")
							break
						}
					}
					mu.Lock()
					h := got[0]
					mu.Unlock()
					reply(h)
				case "ctx":
					arrived(1)
					cancel()
				case "deadline":
					arrived(1)
					time.Sleep(100 * time.Second)
				case "close":
					arrived(1)
					w.node.Close()
				case "lost":
					arrived(1)
					mu.Lock()
					h := got[0]
					mu.Unlock()
					h.p.C.Close()
					synctest.Wait()
					cancel()
				}
				synctest.Wait()
				joined(o)
			}
			c.Count("joins", int64(times))
			c.Count(mode, 1)
			c.Saw(fmt.Sprintf("%d/%s/%d", i, mode, len(f.known)))
			w.stop()
		})
		c.StopIfFailed(3)
	})
	for _, m := range modes {
		c.reached(m)
	}
}

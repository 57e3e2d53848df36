package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

// C27: storms of the exported operations of one object on many goroutines, under the race detector. What the
// operations return is other phases' business; these only keep the goroutines busy and the objects shared.

func init() {
	registerRace("C27", "connection", "sends, requests, pings, callback changes and closes on both ends of library connections, plain and TLS, by many goroutines", c27connection)
	registerRace("C27", "peer", "the same on a client whose peer sends replies, heartbeats, strays and refusals", c27peer)
	registerRace("C27", "server", "servers with many clients, callback changes, replies from callbacks, and closing", c27server)
	registerRace("C27", "piper", "pipers with many clients at once, filters that rewrite messages, and ends that close", c27piper)
	registerRace("C27", "naming", "naming clients used by many goroutines while notifications arrive", c27naming)
	registerRace("C27", "federation", "site nodes that bootstrap, discover, route, send and are read while partners announce themselves", c27federation)
	registerRace("C27", "lease", "lease agents and sessions: establish, ping, read, close, while pongs arrive", c27lease)
	registerRace("C27", "values", "request tables, id generators, GUIDs, and marshalling of shared values and types", c27values)
}

type stormOp func(r *rand.Rand)

// storm runs n operations on each of g goroutines, which start at the same moment. One in three goroutines repeats
// a single operation, as others would order its accesses with those of the rest.
func storm(r *rand.Rand, g, n int, ops ...stormOp) *Op {
	seed := r.Uint64()
	return Go("storm", func() (any, error) {
		gate := make(chan struct{})
		var wg sync.WaitGroup
		for k := 0; k < g; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, uint64(k)))
				ops := ops
				if k%3 == 0 {
					at := r.IntN(len(ops))
					ops = ops[at : at+1]
				}
				<-gate
				for q := 0; q < n; q++ {
					ops[r.IntN(len(ops))](r)
					if r.IntN(4) == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		close(gate)
		wg.Wait()
		return nil, nil
	})
}

func (c *Ctx) stormEnds(o *Op) {
	for k := 0; k < 100 && !o.Done(); k++ {
		time.Sleep(time.Minute)
		synctest.Wait()
	}
	c.MustReturn(o, "")
}

func shortCtx(r *rand.Rand) (context.Context, context.CancelFunc) {
	return context.WithTimeout(bg, time.Duration(r.IntN(2000))*time.Microsecond)
}

func stormMsg(r *rand.Rand) *transport.Message {
	m := &transport.Message{}
	m.Headers.Actor = transport.MessageActorTypeGenericTestActor
	m.Headers.Action = pick(r, []string{"echo", "one way", "back"})
	m.Headers.SetCustomHeader(transport.MessageHeaderIdType(0x9101), &HwHeader{A: r.Int32(), S: "storm"})
	m.Headers.SetCustomHeader(transport.MessageHeaderIdType(0x1234), &strObj{"storm"})
	b := genBytes(r, r.IntN(200))
	m.Body = b
	return m
}

// onStorm answers requests, and writes over everything it was given.
func onStorm(n *atomic.Int64) transport.MessageCallback {
	return func(cn transport.Conn, m *transport.ByteArrayMessage) {
		n.Add(1)
		if m.Headers.ExpectsReply {
			rep := &transport.Message{Body: append([]byte(nil), m.Body...)}
			rep.Headers.Actor, rep.Headers.RelatesTo = m.Headers.Actor, m.Headers.Id
			cn.SendOneWay(rep)
		} else if m.Headers.Action == "back" {
			ctx, cancel := context.WithTimeout(bg, time.Millisecond)
			actor := m.Headers.Actor
			go func() {
				defer cancel()
				cn.RequestReply(ctx, &transport.Message{Headers: transport.MessageHeaders{Actor: actor}})
				cn.Ping(ctx)
			}()
		}
		for k := range m.Body {
			m.Body[k] = 0xee
		}
		m.Headers = transport.MessageHeaders{}
	}
}

// connOps are the things one may do to a connection at any time.
func connOps(cl func() transport.Conn, set func(transport.MessageCallback), n *atomic.Int64) []stormOp {
	return []stormOp{
		func(r *rand.Rand) {
			m := stormMsg(r)
			cl().SendOneWay(m)
			if b := m.Body.([]byte); len(b) > 0 {
				b[0]++ // it was sent, it is ours again
			}
		},
		func(r *rand.Rand) {
			ctx, cancel := shortCtx(r)
			defer cancel()
			if m, err := cl().RequestReply(ctx, stormMsg(r)); err == nil {
				for k := range m.Body {
					m.Body[k]++
				}
				m.Headers.Action = "mine"
			}
		},
		func(r *rand.Rand) {
			ctx, cancel := shortCtx(r)
			defer cancel()
			cl().Ping(ctx)
		},
		func(r *rand.Rand) {
			if r.IntN(3) == 0 {
				set(nil)
			} else {
				set(onStorm(n))
			}
		},
	}
}

// reached: a workload in which nothing arrived shows nothing.
func (c *Ctx) reached(count string) {
	if c.Get(count) == 0 && !c.Failed() {
		c.Inconclusive("nothing observed: %s", count)
	}
}

func c27connection(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(60, 900), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var scfg transport.ServerConfig
			var ccfg transport.ClientConfig
			if i%3 == 2 {
				t := newTLSSetup(r, r.IntN(12))
				scfg.TLS, ccfg.TLS = t.server, t.client
			}
			var n atomic.Int64
			var sconn atomic.Value
			scfg.MessageCallback = func(cn transport.Conn, m *transport.ByteArrayMessage) {
				sconn.Store(&cn)
				onStorm(&n)(cn, m)
			}
			l := NewListener(nil)
			srv, _ := transport.Listen(l, scfg)
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			a, b, err := l.Dial(raceWrite(r.Uint64()), raceWrite(r.Uint64()))
			if err != nil {
				panic(setupError{err})
			}
			ccfg.MessageCallback = onStorm(&n)
			cl, err := transport.Connect(a, ccfg)
			if err != nil {
				c.Violation("connect: %v", err)
				return
			}
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			hello := stormMsg(r)
			cl.SendOneWay(hello)
			synctest.Wait()
			left := int64(20 + r.IntN(100))
			var cnt atomic.Int64
			closing := i%2 == 0
			end := pick(r, []func(){func() { cl.Close() }, func() { b.Close() }, func() { a.FailReads(errors.New("reset")) }, func() { l.Close(); a.Close() }})
			ops := connOps(func() transport.Conn { return cl }, cl.SetMessageCallback, &n)
			// the server's end of it
			if s, ok := sconn.Load().(*transport.Conn); ok {
				ops = append(ops, connOps(func() transport.Conn { return *s }, srv.SetMessageCallback, &n)...)
			}
			ops = append(ops, func(r *rand.Rand) {
				if closing && cnt.Add(1) == left/8 {
					end()
				}
			})
			st := storm(r, 3+r.IntN(6), 20, ops...)
			c.stormEnds(st)
			c.Count("delivered", n.Load())
			c.Saw(fmt.Sprintf("tls %v closing %v %d", ccfg.TLS != nil, closing, n.Load()/20))
			go cl.Close()
			cl.Close()
			srv.Close()
			synctest.Wait()
			a.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(3)
	})
	c.reached("delivered")
}

func c27peer(c *Ctx) {
	c.Cases("run", c.N(80, 1200), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(raceWrite(r.Uint64()), ConnOpts{})
			var n atomic.Int64
			cl := c.connect(a, transport.ClientConfig{MessageCallback: onStorm(&n)})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			var mu sync.Mutex
			pr := rand.New(rand.NewPCG(r.Uint64(), 1))
			refuse := i%3 == 1
			seen := 0
			limit := 10 + r.IntN(60)
			p := newWirePeer(b, func(p *WirePeer, m *WM) {
				mu.Lock()
				seen++
				k, at := pr.IntN(8), seen
				tick := pr.Int64()
				mu.Unlock()
				switch {
				case m.isHeartbeat():
					if k < 6 {
						p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: m.Body})
					}
				case m.ExpectsReply:
					if k < 6 {
						p.Reply(m, &WM{Actor: m.Actor, Body: []byte("answer")})
					}
					if k == 1 {
						p.Reply(m, &WM{Actor: m.Actor, Body: []byte("again")})
					}
				}
				if k == 3 {
					p.Send(hbResp(tick))
					p.Send(&WM{Actor: 1, Action: "HeartbeatRequest", Body: RefEncode(&i64Obj{tick}, RefOpts{})})
				}
				if k == 4 {
					p.Send(&WM{Actor: 0x10000, Action: "stray", RelatesTo: p.NextId(), Body: []byte("stray")})
				}
				if refuse && at == limit {
					p.Send(&WM{Actor: 29, Action: "ConnectionAuth", Err: -5, Body: RefEncode(&strObj{"no"}, RefOpts{})})
				}
			}, frameOpt{})
			p.SendInit()
			st := storm(r, 3+r.IntN(6), 20, connOps(func() transport.Conn { return cl }, cl.SetMessageCallback, &n)...)
			if r.IntN(3) == 0 {
				Go("Close", func() (any, error) {
					nap(time.Duration(r.IntN(2000)) * time.Microsecond)
					return nil, cl.Close()
				})
			}
			c.stormEnds(st)
			c.Count("delivered", n.Load())
			c.Saw(fmt.Sprint(i%3, n.Load()/10))
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
	c.reached("delivered")
}

func c27server(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(40, 600), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var scfg transport.ServerConfig
			var ccfg transport.ClientConfig
			if i%3 == 2 {
				t := newTLSSetup(r, r.IntN(12))
				scfg.TLS, ccfg.TLS = t.server, t.client
			}
			var n atomic.Int64
			scfg.MessageCallback = onStorm(&n)
			l := NewListener(nil)
			srv, _ := transport.Listen(l, scfg)
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			var mu sync.Mutex
			var closers []func()
			var cnt atomic.Int64
			stop := int64(5 + r.IntN(40))
			dial := func(r *rand.Rand) {
				a, b, err := l.Dial(raceWrite(r.Uint64()), raceWrite(r.Uint64()))
				if err != nil {
					return
				}
				mu.Lock()
				closers = append(closers, func() { a.Close(); b.Close() })
				mu.Unlock()
				cl, err := transport.Connect(a, ccfg)
				if err != nil {
					a.Close()
					return
				}
				go cl.Wait()
				for k := r.IntN(6); k > 0; k-- {
					ctx, cancel := shortCtx(r)
					cl.RequestReply(ctx, stormMsg(r))
					cl.SendOneWay(stormMsg(r))
					cancel()
				}
				if r.IntN(2) == 0 {
					cl.Close()
				}
			}
			st := storm(r, 4+r.IntN(5), 8, dial, dial, dial, func(r *rand.Rand) {
				srv.SetMessageCallback(onStorm(&n))
			}, func(r *rand.Rand) {
				srv.SetMessageCallback(onStorm(&n))
				nap(50 * time.Microsecond)
			}, func(r *rand.Rand) {
				srv.Addr()
				if cnt.Add(1) == stop {
					srv.Close()
				}
			})
			c.stormEnds(st)
			srv.Close()
			for _, f := range closers {
				f()
			}
			synctest.Wait()
			c.MustReturn(sv, "after Close")
			c.Count("delivered", n.Load())
			c.Count("connections", int64(len(closers)))
			c.Saw(fmt.Sprint(i%3, len(closers)))
		})
		c.StopIfFailed(3)
	})
	c.reached("delivered")
}

func c27piper(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(40, 600), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var fn atomic.Int64
			var kept sync.Map
			g := newPiperRig(c, r, i, func(src, dst net.Conn, m *transport.ByteArrayMessage) *transport.Message {
				k := fn.Add(1)
				kept.Store(k, m) // filters may keep what they see
				switch k % 5 {
				case 0:
					return nil
				case 1:
					b := append([]byte(nil), m.Body...)
					for q := range m.Body {
						m.Body[q] = 0
					}
					return &transport.Message{Headers: m.Headers, Body: b}
				}
				return &transport.Message{Headers: m.Headers, Body: m.Body}
			})
			g.upAuto = func(p *WirePeer, m *WM) {
				if m.ExpectsReply {
					p.Reply(m, &WM{Actor: m.Actor, Body: m.Body})
				}
			}
			var mu sync.Mutex
			var clients []*pipedClient
			st := storm(r, 3+r.IntN(4), 3, func(r *rand.Rand) {
				mu.Lock()
				p := g.connect()
				clients = append(clients, p)
				mu.Unlock()
				p.peer.SendInit()
				for k := 1 + r.IntN(10); k > 0; k-- {
					m := pipedWM(r, "storm", k, 300)
					m.ExpectsReply = r.IntN(2) == 0
					p.peer.Send(m)
				}
				if r.IntN(3) == 0 {
					p.raw.Close()
				} else if u := g.upstream(p); u != nil {
					u.peer.Send(pipedWM(r, "back", 1, 100))
					if r.IntN(2) == 0 {
						u.raw.Close()
					}
				}
			})
			c.stormEnds(st)
			synctest.Wait()
			mu.Lock()
			l := append([]*pipedClient(nil), clients...)
			mu.Unlock()
			g.close(l)
			c.Count("filtered", fn.Load())
			c.Saw(fmt.Sprint(i%4, fn.Load()/10))
		})
		c.StopIfFailed(3)
	})
	c.reached("filtered")
}

func c27naming(c *Ctx) {
	c.Cases("run", c.N(50, 700), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var mu sync.Mutex
			pr := rand.New(rand.NewPCG(r.Uint64(), 1))
			page := uint64(0)
			var notified atomic.Int64
			var ready atomic.Bool // the handler is set
			g, nc, cl, w, a := newGateway(c, r, func(g *gateway, m *WM) {
				mu.Lock()
				defer mu.Unlock()
				if ks := kindsFor[m.Action]; ks != nil {
					kind := ansOK
					if pr.IntN(5) == 0 {
						kind = pick(pr, ks)
					}
					x := genAnswer(pr, m.Action, kind)
					g.p.Reply(m, &WM{Actor: gwActor, Action: x.action, Body: x.body})
				}
				if ready.Load() && m.Action != "ServiceNotificationReply" && pr.IntN(2) == 0 {
					sn := gwNotification{}
					fillAny(pr, &sn, 2)
					page++
					sn.Page.Page = page
					g.p.Send(&WM{Id: g.p.NextId(), Actor: gwActor, Action: "ServiceNotificationRequest", ExpectsReply: true, Body: RefEncode(&gwNotify{&sn}, RefOpts{})})
				}
			})
			if i%2 == 0 {
				if _, err := nc.Ping(bg); err != nil {
					c.Count("failed_first_pings", 1)
				}
			}
			nc.OnServiceNotification = func(sn *naming.ServiceNotification) {
				notified.Add(1)
				sn.Generation = naming.GenerationNumber{}
				sn.Versions = nil
				sn.Partitions = nil
				if notified.Load()%5 == 0 {
					go func() {
						ctx, cancel := context.WithTimeout(bg, time.Millisecond)
						defer cancel()
						nc.Ping(ctx)
					}()
				}
			}
			ready.Store(true)
			call := func(f func(ctx context.Context)) stormOp {
				return func(r *rand.Rand) {
					ctx, cancel := shortCtx(r)
					defer cancel()
					f(ctx)
				}
			}
			stop := int64(5 + r.IntN(60))
			var cnt atomic.Int64
			st := storm(r, 3+r.IntN(5), 15,
				call(func(ctx context.Context) { nc.Ping(ctx) }),
				call(func(ctx context.Context) { nc.GetApplicationList(ctx, "") }),
				call(func(ctx context.Context) { nc.GetApplicationList(ctx, "fabric:/x") }),
				call(func(ctx context.Context) {
					nc.RegisterFilter(ctx, common.Uri{Scheme: "fabric", Path: "/x"}, true, false)
				}),
				func(r *rand.Rand) {
					if i%3 == 0 && cnt.Add(1) == stop/5 {
						cl.Close()
					}
				})
			c.stormEnds(st)
			cl.Close()
			g.p.C.Close()
			a.Close()
			synctest.Wait()
			c.MustReturn(w, "after close")
			c.Count("notified", notified.Load())
			c.Saw(fmt.Sprint(i%3, notified.Load()/10))
		})
		c.StopIfFailed(3)
	})
	c.reached("notified")
}

func c27federation(c *Ctx) {
	c.Cases("run", c.N(60, 900), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			self := federation.NodeInstance{Id: genNodeID(r), InstanceId: 9}
			w := newFedWorld(c, self)
			ids := genIds(r, 2+r.IntN(4), self.Id)
			var mu sync.Mutex
			pr := rand.New(rand.NewPCG(r.Uint64(), 1))
			info := func(r *rand.Rand) []fnPartner {
				var l []fnPartner
				for k := 1 + r.IntN(4); k > 0; k-- {
					id := pick(r, ids)
					x := genInfo(r, id, "storm")
					if x.Instance.Instance > 100 {
						x.Instance.Instance = 5
					}
					x.Address = w.nodes[id].addr()
					l = append(l, x)
				}
				return l
			}
			var seeds []federation.SeedNodeInfo
			var got atomic.Int64
			for _, id := range ids {
				n := w.newNode(id, func(n *fedNode, p *WirePeer, m *WM) {
					got.Add(1)
					mu.Lock()
					k := pr.IntN(6)
					l := info(pr)
					mu.Unlock()
					if k < 4 {
						w.announce(p, l...)
					}
					if m.ExpectsReply && k != 1 {
						p.Reply(m, &WM{Actor: 2, Action: "answer"})
					}
					if k == 5 {
						p.C.Close()
					}
				})
				seeds = append(seeds, federation.SeedNodeInfo{Id: id, Address: n.addr()})
			}
			w.start(seeds)
			var peers []*WirePeer
			for k := 1 + r.IntN(3); k > 0; k-- {
				peers = append(peers, w.in(nil))
			}
			some := []stormOp{
				func(r *rand.Rand) { w.announce(pick(r, peers), info(r)...) },
				func(r *rand.Rand) {
					for _, p := range w.node.KnownPartnerNodes(allPartners) {
						p.Instance.InstanceId++
					}
				},
				func(r *rand.Rand) {
					ctx, cancel := shortCtx(r)
					defer cancel()
					m := stormMsg(r)
					m.Headers.Actor = 2
					w.node.Route(ctx, pick(r, ids), m)
				},
				func(r *rand.Rand) {
					m := stormMsg(r)
					m.Headers.Actor = 2
					w.node.SendOneWay(pick(r, ids), m)
				},
				func(r *rand.Rand) {
					ctx, cancel := shortCtx(r)
					defer cancel()
					w.node.Bootstrap(ctx)
				},
				func(r *rand.Rand) {
					ctx, cancel := shortCtx(r)
					defer cancel()
					w.node.Discover(ctx)
				},
			}
			stop := int64(2 + r.IntN(20))
			var cnt atomic.Int64
			st := storm(r, 3+r.IntN(5), 10, append(some, func(r *rand.Rand) {
				if i%2 == 0 && cnt.Add(1) == stop/2 {
					w.node.Close()
				}
			})...)
			c.stormEnds(st)
			go w.node.Close()
			w.stop()
			c.Count("node_messages", got.Load())
			c.Saw(fmt.Sprint(len(ids), i%2, got.Load()/10))
		})
		c.StopIfFailed(3)
	})
	c.reached("node_messages")
}

func c27lease(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(80, 1200), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%4 == 3)
			seed := atomic.Uint64{}
			seed.Store(r.Uint64())
			w.opts = func() ConnOpts { return raceWrite(seed.Add(1)) }
			w.start()
			var mu sync.Mutex // guards pr (used by w.r in msg as well)
			w.r = rand.New(rand.NewPCG(r.Uint64(), 2))
			var peers []*ltPeer
			for k := 1 + r.IntN(2); k > 0; k-- {
				p := w.newPeer(fmt.Sprintf("p%d.test", k), uint16(k))
				in, err := w.dial()
				if err != nil {
					panic(setupError{err})
				}
				p.in = in
				p.on = func(p *ltPeer, n int) {
					mu.Lock()
					b := ltDataFrame(p.msg(3, int64(n)).encode(w.r))
					mu.Unlock()
					in.send(b)
				}
				peers = append(peers, p)
			}
			var sm sync.Mutex
			var ss []lease.Session
			any := func(r *rand.Rand) lease.Session {
				sm.Lock()
				defer sm.Unlock()
				if len(ss) == 0 {
					return nil
				}
				return pick(r, ss)
			}
			est := func(r *rand.Rand) {
				if s, err := establish(w.agent, pick(r, peers).addr()); err == nil {
					sm.Lock()
					ss = append(ss, s)
					sm.Unlock()
				}
			}
			est(r)
			with := func(f func(r *rand.Rand, s lease.Session)) stormOp {
				return func(r *rand.Rand) {
					if s := any(r); s != nil {
						f(r, s)
					}
				}
			}
			ping := with(func(r *rand.Rand, s lease.Session) {
				ctx, cancel := shortCtx(r)
				defer cancel()
				if s.Ping(ctx) == nil {
					c.Count("pings", 1)
				}
			})
			read := with(func(r *rand.Rand, s lease.Session) { s.LastPongTime(); s.Meta() })
			stop := int64(2 + r.IntN(20))
			var cnt atomic.Int64
			st := storm(r, 3+r.IntN(5), 15, est, ping, ping, ping, read, read,
				with(func(r *rand.Rand, s lease.Session) {
					if r.IntN(3) == 0 {
						s.Close()
					}
				}),
				with(func(r *rand.Rand, s lease.Session) {
					ctx, cancel := shortCtx(r)
					defer cancel()
					lease.PingLoop(ctx, s, 200*time.Microsecond)
				}),
				func(r *rand.Rand) {
					w.agent.Addr()
					w.agent.Find("x")
					if i%2 == 0 && cnt.Add(1) == stop/2 {
						w.agent.Close()
					}
				})
			c.stormEnds(st)
			go w.agent.Close()
			w.stop()
			c.Saw(fmt.Sprint(i%4, len(ss)))
		})
		c.StopIfFailed(3)
	})
	c.reached("pings")
}

type stormInner struct {
	A int64
	S string
	L []string
	N federation.NodeID
}

type stormShared struct {
	I  stormInner
	P  *stormInner
	L  []stormInner
	M  map[string]int64
	G  serialization.GUID
	R  federation.NodeIdRange
	F  float64
	PL []*stormInner
}

func c27values(c *Ctx) {
	c.Cases("run", c.N(60, 900), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			shared := &stormShared{}
			fillAny(r, shared, 3)
			enc, err := serialization.Marshal(shared)
			if err != nil {
				c.Violation("Marshal: %v", err)
				return
			}
			gen, err := transport.NewMessageIdGenerator()
			if err != nil {
				panic(setupError{err})
			}
			var table transport.RequestTable
			var mu sync.Mutex
			var ids []transport.MessageId
			rng := federation.NodeIdRange{Begin: genNodeID(r), End: genNodeID(r)}
			id := genNodeID(r)
			st := storm(r, 4+r.IntN(5), 25,
				func(r *rand.Rand) { serialization.Marshal(shared) },
				func(r *rand.Rand) {
					var v stormShared
					if err := serialization.Unmarshal(enc, &v); err != nil {
						c.Violation("Unmarshal: %v", err)
						return
					}
					v.I.S, v.L, v.G = "mine", nil, serialization.GUID{}
					if v.P != nil {
						v.P.A++
					}
					for k := range v.I.L {
						v.I.L[k] = "mine"
					}
				},
				func(r *rand.Rand) { serialization.NewGuidV4(); serialization.MustNewGuidV4() },
				func(r *rand.Rand) { rng.Contains(id); _ = id.String(); federation.NodeIDFromV4Generator("N_1") },
				func(r *rand.Rand) {
					m := stormMsg(r)
					m.Headers.Id = gen.Next()
					p := table.Put(m)
					mu.Lock()
					ids = append(ids, m.Headers.Id)
					mu.Unlock()
					ctx, cancel := shortCtx(r)
					defer cancel()
					switch r.IntN(4) {
					case 0:
						p.Close()
					case 1:
						go p.Close()
						p.Wait(ctx)
					default:
						p.Wait(ctx)
					}
				},
				func(r *rand.Rand) {
					mu.Lock()
					var x transport.MessageId
					if len(ids) > 0 {
						x = ids[len(ids)-1-r.IntN(min(len(ids), 5))]
					}
					mu.Unlock()
					m := &transport.ByteArrayMessage{}
					m.Headers.RelatesTo = x
					if table.Feed(m) {
						c.Count("fed", 1)
					}
				},
				func(r *rand.Rand) {
					if r.IntN(10) == 0 {
						table.Close()
					}
				})
			c.stormEnds(st)
			table.Close()
			c.Saw(fmt.Sprint(i, len(ids)))
		})
		c.StopIfFailed(3)
	})
	c.reached("fed")
}

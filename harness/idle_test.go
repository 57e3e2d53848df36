package harness

import (
	"context"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/transport"
)

// Time: connections that are quiet for minutes, hours and weeks of virtual time, answers that take as long, and a
// trickle of traffic for days. Nothing in the properties expires by itself.

func init() {
	for p, what := range map[string]string{
		"C08": "messages sent after quiet times of minutes to weeks, plain and TLS",
		"C09": "replies that take minutes to weeks",
		"C10": "requests that wait minutes to weeks, until cancelled, closed or their deadline; and a request after that",
		"C11": "echoes that take minutes to weeks, and pings and heartbeats after quiet times",
		"C12": "TLS connections that are quiet for minutes to weeks",
		"C15": "refused connections stay failed for weeks; accepted ones are usable after as long",
	} {
		register(p, "idle", what, func(c *Ctx) { idleClient(c, p) })
	}
	register("C05", "slow", "frames that take minutes to weeks to be read by the peer, or to arrive from it, piece by piece", func(c *Ctx) { slowPeer(c, false) })
	register("C12", "slow", "the same over TLS: records that stop half-way for minutes to weeks", func(c *Ctx) { slowPeer(c, true) })
	register("C13", "idle", "piper sessions that are quiet for minutes to weeks, or trickle", c13idle)
	register("C16", "idle", "naming calls answered after minutes to weeks, and after quiet times", c16idle)
	register("C17", "idle", "notifications and filters after quiet times, filters confirmed after weeks", c17idle)
	register("C20", "idle", "what a node knows after minutes to weeks without news", c20idle)
	register("C21", "idle", "messages after quiet times, routed requests answered after weeks", c21idle)
	register("C22", "idle", "announcements and votes that take minutes to weeks", c22idle)
	register("C24", "idle", "pongs that take minutes to weeks, ping loops that run for days", c24idle)
	register("C25", "idle", "agents, sessions and their connections after quiet times", c25idle)
	register("C31", "idle", "servers and pipers that are quiet for minutes to weeks, callbacks that answer after as long", c31idle)
}

var quietTimes = []time.Duration{90 * time.Second, 11 * time.Minute, 61 * time.Minute, 25 * time.Hour, 45 * 24 * time.Hour}

// wait lets a duration pass; a trickle calls f each tenth of it.
func pass(d time.Duration, f func(k int)) {
	if f == nil {
		time.Sleep(d)
		synctest.Wait()
		return
	}
	for k := 0; k < 10; k++ {
		time.Sleep(d / 10)
		f(k)
		synctest.Wait()
	}
}

// pending: op must not have returned.
func (c *Ctx) pending(o *Op, what string) bool {
	if !o.Done() {
		return true
	}
	v, err := o.Get()
	c.Violation("%s %s returned %v, %v before its answer came", o.name, what, v, err)
	return false
}

func (c *Ctx) succeeds(o *Op, what string) (any, bool) {
	synctest.Wait()
	if !c.MustReturn(o, what) {
		return nil, false
	}
	v, err := o.Get()
	if err != nil {
		c.Violation("%s %s: %v", o.name, what, err)
		return nil, false
	}
	return v, true
}

func idleClient(c *Ctx, prop string) {
	thePKI()
	c.Cases("run", c.N(8, 60), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{}, ConnOpts{})
			var mu sync.Mutex
			held := map[string]*WM{}
			var beats []*WM
			var resp []string
			on := func(p *WirePeer, m *WM) {
				mu.Lock()
				defer mu.Unlock()
				switch {
				case m.isHeartbeat():
					beats = append(beats, m)
				case m.Actor == 1 && m.Action == "HeartbeatResponse":
					resp = append(resp, string(m.Body))
				case m.Action == "now":
					p.Reply(m, &WM{Actor: 0x10000, Body: m.Body})
				case m.Actor != 1:
					held[m.Action] = m
				}
			}
			var p *WirePeer
			cfg := transport.Config{}
			if secure := prop == "C12" || i%4 == 3; secure {
				t := newTLSSetup(r, i)
				cfg.TLS = t.client
				p = NewTLSWirePeer(b, t.server, on).WirePeer
			} else {
				p = NewWirePeer(b, on)
			}
			var in inbox
			var cl *transport.Client
			co := Go("Connect", func() (any, error) {
				x, err := transport.Connect(a, transport.ClientConfig{Config: cfg, MessageCallback: in.cb})
				cl = x
				return nil, err
			})
			if _, ok := c.succeeds(co, "with a good peer"); !ok {
				return
			}
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			p.SendInit()
			take := func(action string) *WM {
				synctest.Wait()
				mu.Lock()
				defer mu.Unlock()
				m := held[action]
				delete(held, action)
				return m
			}
			request := func(ctx context.Context, action string) *Op {
				m := reqMsg(0, []byte(action))
				m.Headers.Action = action
				return Go("request", func() (any, error) { return cl.RequestReply(ctx, m) })
			}
			now := func(what string) bool {
				_, ok := c.succeeds(request(bg, "now"), what)
				return ok
			}
			for k, d := range quietTimes {
				what := fmt.Sprintf("after %v", d)
				var trickle func(int)
				if i%2 == 1 && !w.Done() {
					trickle = func(j int) {
						switch j % 3 {
						case 0:
							now(fmt.Sprint("in a trickle of ", d))
						case 1:
							p.Send(&WM{Actor: 0x10000, Action: "trickle"})
						}
					}
				}
				switch prop {
				case "C08", "C12":
					pass(d, trickle)
					in.clear()
					for j := 0; j < 3; j++ {
						m := reqMsg(j, []byte("up"))
						m.Headers.Action = fmt.Sprintf("up %d %d", k, j)
						if err := cl.SendOneWay(m); err != nil {
							c.Violation("send %s: %v", what, err)
						}
						if g := take(m.Headers.Action); g == nil || string(g.Body) != "up" {
							c.Violation("a message sent %s did not arrive", what)
						}
						p.Send(&WM{Actor: 0x10000, Action: fmt.Sprint("down ", k, j), Body: []byte("down")})
						synctest.Wait()
						if g := in.got(); len(g) != j+1 || g[j].Action != fmt.Sprint("down ", k, j) || string(g[j].Body) != "down" {
							c.Violation("a message to the client %s did not arrive (%d of %d there)", what, len(g), j+1)
						}
					}
					now(what)
				case "C09":
					var ops []*Op
					for j := 0; j < 4; j++ {
						ops = append(ops, request(bg, fmt.Sprintf("late %d", j)))
					}
					pass(d, trickle)
					for _, j := range r.Perm(4) {
						if !c.pending(ops[j], what) {
							continue
						}
						m := take(fmt.Sprintf("late %d", j))
						p.Reply(m, &WM{Actor: 0x10000, Body: []byte(fmt.Sprint("reply ", j))})
						if v, ok := c.succeeds(ops[j], "answered "+what); ok && string(v.(*transport.ByteArrayMessage).Body) != fmt.Sprint("reply ", j) {
							c.Violation("request %d got another answer %s: %q", j, what, v.(*transport.ByteArrayMessage).Body)
						}
					}
				case "C10":
					ctx, cancel := context.WithCancel(bg)
					one := request(ctx, "one")
					dctx, dcancel := context.WithTimeout(bg, d+time.Minute)
					two := request(dctx, "two")
					start := time.Now()
					pass(d, trickle)
					c.pending(one, what)
					c.pending(two, what)
					cancel()
					synctest.Wait()
					c.MustReturn(one, "after its context was cancelled")
					time.Sleep(2 * time.Minute)
					synctest.Wait()
					if c.MustReturn(two, "after its deadline") {
						if x := two.When().Sub(start); x < d+time.Minute || x > d+time.Minute+grace {
							c.Violation("a request with a deadline in %v ended after %v", d+time.Minute, x)
						}
					}
					dcancel()
					now(what)
				case "C11":
					ping := Go("Ping", func() (any, error) { x, err := cl.Ping(bg); return x, err })
					pctx, pcancel := context.WithTimeout(bg, d+time.Minute)
					pong := Go("Ping with a deadline", func() (any, error) { x, err := cl.Ping(pctx); return x, err })
					start := time.Now()
					synctest.Wait()
					mu.Lock()
					l := beats
					beats = nil
					mu.Unlock()
					pass(d, trickle)
					c.pending(ping, what)
					c.pending(pong, what)
					time.Sleep(2 * time.Minute)
					synctest.Wait()
					if c.MustReturn(pong, "after its deadline") {
						if x := pong.When().Sub(start); x < d+time.Minute || x > d+time.Minute+grace {
							c.Violation("a ping with a deadline in %v ended after %v", d+time.Minute, x)
						}
					}
					pcancel()
					for _, m := range l {
						p.echo(m)
					}
					c.succeeds(ping, "echoed "+what)
					body := string(RefEncode(&hbBody{int64(k)}, RefOpts{}))
					p.Send(&WM{Actor: 1, Action: "HeartbeatRequest", Body: []byte(body)})
					synctest.Wait()
					mu.Lock()
					if len(resp) != 1 || resp[0] != body {
						c.Violation("a heartbeat request %s is answered by %d responses", what, len(resp))
					}
					resp = nil
					mu.Unlock()
					dcl := Go("Ping", func() (any, error) { x, err := cl.Ping(bg); return x, err })
					synctest.Wait()
					mu.Lock()
					for _, m := range beats {
						p.echo(m)
					}
					beats = nil
					mu.Unlock()
					c.succeeds(dcl, what)
				case "C15":
					pass(d, trickle)
					if k < len(quietTimes)-2-i%2 {
						p.Send(&WM{Actor: 29, Action: "ConnectionAuth"})
						now(what)
						break
					}
					if !w.Done() {
						p.Send(&WM{Actor: 29, Action: "ConnectionAuth", Err: 1234567, Body: RefEncode(&struct{ Message string }{"no entry"}, RefOpts{})})
						synctest.Wait()
						c.MustReturn(w, "after a refusal "+what)
						break
					}
					op := request(bg, "refused")
					synctest.Wait()
					if c.MustReturn(op, "on a refused connection "+what) {
						if _, err := op.Get(); err == nil || !strings.Contains(err.Error(), "1234567") || !strings.Contains(err.Error(), "no entry") {
							c.Violation("a request on a connection that was refused returns %v %s", err, what)
						}
					}
				}
				if prop != "C15" && w.Done() {
					_, err := w.Get()
					c.Violation("the receive loop ended %s: %v", what, err)
				}
				c.StopIfFailed(2)
				c.Count("quiet_times", 1)
			}
			if prop == "C10" {
				last := request(bg, "last")
				pass(45*24*time.Hour, nil)
				c.pending(last, "after weeks")
				if i%2 == 0 {
					cl.Close()
				} else {
					b.Close()
				}
				synctest.Wait()
				if c.MustReturn(last, "after the connection closed") {
					if _, err := last.Get(); err == nil {
						c.Violation("a request succeeds without an answer")
					}
				}
			}
			c.Saw(fmt.Sprint(i))
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c13idle(c *Ctx) {
	thePKI()
	c.Cases("run", 4*c.N(2, 10), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			g := newPiperRig(c, r, i, nil)
			var open []*pipedClient
			n := 0
			talk := func(what string) {
				n++
				for k, p := range open {
					u := g.upstream(p)
					if u == nil {
						c.Violation("%s: session %d has no upstream", what, k)
						return
					}
					up, down := fmt.Sprintf("up %d %d", n, k), fmt.Sprintf("down %d %d", n, k)
					p.peer.Send(&WM{Actor: 0x10000, Action: up})
					u.peer.Send(&WM{Actor: 0x10000, Action: down})
					synctest.Wait()
					for _, x := range []struct {
						p    *WirePeer
						want string
					}{{u.peer, up}, {p.peer, down}} {
						l := x.p.GotApp()
						if len(l) != n || l[n-1].Action != x.want {
							c.Violation("%s: session %d: %q is not the message %d that arrived (%d did)", what, k, x.want, n, len(l))
						}
					}
				}
			}
			for k := 0; k < 3; k++ {
				p := g.connect()
				open = append(open, p)
				p.peer.SendInit()
			}
			synctest.Wait()
			talk("at first")
			for k, d := range quietTimes {
				var trickle func(int)
				if i/4%2 == 1 {
					trickle = func(j int) {
						if j%2 == k%2 {
							talk(fmt.Sprintf("%s, in a trickle of %v", g.desc(), d))
						}
					}
				}
				pass(d, trickle)
				talk(fmt.Sprintf("%s, after %v", g.desc(), d))
				if c.Failed() {
					break
				}
				c.Count("quiet_times", 1)
			}
			if g.serve.Done() {
				_, err := g.serve.Get()
				c.Violation("%s: the piper stopped: %v", g.desc(), err)
			}
			c.Saw(g.desc() + fmt.Sprint(i))
			g.close(open)
		})
		c.StopIfFailed(2)
	})
}

func c16idle(c *Ctx) {
	c.Cases("run", c.N(6, 40), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var mu sync.Mutex
			var waiting []*WM
			g, nc, cl, w, _ := newGateway(c, r, func(g *gateway, m *WM) {
				mu.Lock()
				defer mu.Unlock()
				waiting = append(waiting, m)
			})
			k := uint64(0)
			answer := func() {
				synctest.Wait()
				mu.Lock()
				l := waiting
				waiting = nil
				mu.Unlock()
				for _, m := range l {
					switch m.Action {
					case "PingRequest":
						g.p.Reply(m, &WM{Actor: gwActor, Action: "PingRequest", Body: RefEncode(&gwPingReply{gwDescription{Address: fmt.Sprint("address ", k), NodeName: "n", Instance: gwInstance{genNodeID(r), k}}}, RefOpts{})})
					case "QueryRequest":
						g.p.Reply(m, &WM{Actor: gwActor, Action: "QueryReply", Body: RefEncode(&gwQueryReply{Result: &gwAppList{List: make([]gwApp, k)}}, RefOpts{})})
					default:
						g.p.Reply(m, &WM{Actor: gwActor, Action: m.Action})
					}
				}
				synctest.Wait()
			}
			calls := func(ctx context.Context) []*Op {
				return []*Op{
					Go("Ping", func() (any, error) { return nc.Ping(ctx) }),
					Go("GetApplicationList", func() (any, error) { return nc.GetApplicationList(ctx, "fabric:/x") }),
					Go("RegisterFilter", func() (any, error) { return nc.RegisterFilter(ctx, genUri(rand.New(rand.NewPCG(1, 1))), false, false) }),
				}
			}
			check := func(ops []*Op, what string) {
				for _, o := range ops {
					v, ok := c.succeeds(o, what)
					if !ok {
						continue
					}
					switch x := v.(type) {
					case *naming.GatewayDescription:
						if x.Address != fmt.Sprint("address ", k) {
							c.Violation("Ping %s returned %+v", what, x)
						}
					case []naming.ApplicationQueryResult:
						if len(x) != int(k) {
							c.Violation("GetApplicationList %s returned %d applications of %d", what, len(x), k)
						}
					}
				}
			}
			for _, d := range quietTimes {
				k++
				what := fmt.Sprintf("after %v", d)
				ops := calls(bg)
				synctest.Wait()
				dctx, cancel := context.WithTimeout(bg, d+time.Minute)
				start := time.Now()
				var ended []*Op
				if i%2 == 0 {
					ended = calls(dctx)
				}
				pass(d, nil)
				for _, o := range append(append([]*Op(nil), ops...), ended...) {
					c.pending(o, what)
				}
				time.Sleep(2 * time.Minute)
				synctest.Wait()
				for _, o := range ended {
					if c.MustReturn(o, "after its deadline") {
						if _, err := o.Get(); err == nil {
							c.Violation("%s succeeded without an answer", o.name)
						}
						if x := o.When().Sub(start); x < d+time.Minute || x > d+time.Minute+grace {
							c.Violation("%s with a deadline in %v ended after %v", o.name, d+time.Minute, x)
						}
					}
				}
				cancel()
				answer()
				answer() // the filter, after the announcement
				check(ops, "answered "+what)
				pass(d, nil)
				ops = calls(bg)
				answer()
				answer()
				check(ops, "made "+what+" without traffic")
				c.StopIfFailed(2)
				c.Count("quiet_times", 2)
			}
			c.Saw(fmt.Sprint(i))
			cl.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c17idle(c *Ctx) {
	c.Cases("run", c.N(6, 40), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var mu sync.Mutex
			acks := map[string]int{}
			calls := map[uint64]int{}
			var waiting []*WM
			g, nc, cl, w, _ := newGateway(c, r, func(g *gateway, m *WM) {
				mu.Lock()
				defer mu.Unlock()
				if m.Action == "ServiceNotificationReply" {
					if m.Err == 0 {
						acks[m.RelatesTo.String()]++
					}
				} else if m.ExpectsReply {
					waiting = append(waiting, m)
				}
			})
			nc.OnServiceNotification = func(sn *naming.ServiceNotification) {
				mu.Lock()
				calls[sn.NotificationPageId.PageIndex]++
				mu.Unlock()
			}
			answer := func() {
				synctest.Wait()
				mu.Lock()
				l := waiting
				waiting = nil
				mu.Unlock()
				for _, m := range l {
					g.p.Reply(m, &WM{Actor: gwActor, Action: m.Action})
				}
				synctest.Wait()
			}
			seen := map[uint64]bool{}
			n := uint64(0)
			for _, d := range quietTimes {
				what := fmt.Sprintf("after %v", d)
				op := Go("RegisterFilter", func() (any, error) { return nc.RegisterFilter(bg, genUri(rand.New(rand.NewPCG(1, 2))), true, false) })
				pass(d, nil)
				c.pending(op, what)
				answer()
				if i%2 == 0 {
					pass(d, nil)
					c.pending(op, what+" twice")
				}
				answer()
				if v, ok := c.succeeds(op, "answered "+what); ok {
					if seen[v.(uint64)] {
						c.Violation("filter id %d given twice", v)
					}
					seen[v.(uint64)] = true
				}
				for k := 0; k < 3; k++ {
					n++
					id := g.p.NextId()
					sn := gwNotification{}
					fillAny(r, &sn, 2)
					sn.Page.Page = n
					g.p.Send(&WM{Id: id, Actor: gwActor, Action: "ServiceNotificationRequest", ExpectsReply: true, Body: RefEncode(&gwNotify{&sn}, RefOpts{})})
					synctest.Wait()
					mu.Lock()
					if acks[id.String()] != 1 || calls[n] != 1 {
						c.Violation("notification %s: acknowledged %d times, handed over %d times", what, acks[id.String()], calls[n])
					}
					mu.Unlock()
				}
				c.StopIfFailed(2)
				c.Count("quiet_times", 1)
			}
			c.Saw(fmt.Sprint(i))
			cl.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(2)
	})
}

// fedIdle starts a node with some partners.
func fedIdle(c *Ctx, r *rand.Rand, on func(n *fedNode, p *WirePeer, m *WM)) (*fedWorld, *WirePeer, []federation.NodeID, map[federation.NodeID]fnPartner) {
	self := federation.NodeInstance{Id: genNodeID(r), InstanceId: 5}
	w := newFedWorld(c, self)
	ids := genIds(r, 4, self.Id)
	known := map[federation.NodeID]fnPartner{}
	for _, id := range ids {
		known[id] = fnPartner{Instance: gwInstance{id, 1 + r.Uint64N(100)}, Phase: int64(1 + r.IntN(3)), Address: w.newNode(id, on).addr()}
	}
	w.start([]federation.SeedNodeInfo{{Id: ids[0], Address: w.nodes[ids[0]].addr()}})
	p := w.in(nil)
	for _, id := range ids {
		w.announce(p, known[id])
	}
	synctest.Wait()
	return w, p, ids, known
}

func (w *fedWorld) knows(known map[federation.NodeID]fnPartner, what string) {
	seen := map[federation.NodeID]int{}
	for _, p := range w.node.KnownPartnerNodes(allPartners) {
		seen[p.Instance.Id]++
		x, ok := known[p.Instance.Id]
		if x.Flags = 0; !ok || diffAny(partnerOf(p), x) != "" {
			w.c.Violation("%s the node holds %+v, the newest that arrived is %+v", what, p, x)
		}
	}
	for id := range known {
		if seen[id] != 1 {
			w.c.Violation("%s the node knows partner %v %d times", what, id, seen[id])
		}
	}
}

func c20idle(c *Ctx) {
	c.Cases("run", c.N(6, 40), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w, p, ids, known := fedIdle(c, r, nil)
			w.knows(known, "at first")
			for _, d := range quietTimes {
				what := fmt.Sprintf("after %v without news", d)
				old := known[ids[r.IntN(len(ids))]]
				pass(d, nil)
				w.knows(known, what)
				// one newer, and one older that has to stay without effect
				id := ids[r.IntN(len(ids))]
				x := known[id]
				x.Instance.Instance += 1 + r.Uint64N(5)
				known[id] = x
				w.announce(p, x)
				if old.Instance.Instance--; old.Instance.Instance > 0 {
					w.announce(p, old)
				}
				synctest.Wait()
				w.knows(known, what+", then news,")
				c.StopIfFailed(2)
				c.Count("quiet_times", 1)
			}
			c.Saw(fmt.Sprint(i))
			w.stop()
			c.MustReturn(w.serve, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c21idle(c *Ctx) {
	c.Cases("run", c.N(6, 40), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var mu sync.Mutex
			type wait struct {
				p *WirePeer
				m *WM
			}
			var waiting []wait
			w, _, ids, known := fedIdle(c, r, func(n *fedNode, p *WirePeer, m *WM) {
				if m.ExpectsReply {
					mu.Lock()
					waiting = append(waiting, wait{p, m})
					mu.Unlock()
				}
			})
			f := &fedPlan{w: w, known: known, ids: ids}
			n := 0
			for _, d := range quietTimes {
				what := fmt.Sprintf("after %v", d)
				for _, id := range ids {
					n++
					a := fmt.Sprint("one way ", n)
					op := Go("SendOneWay", func() (any, error) { return nil, w.node.SendOneWay(id, fedMsgOf(a)) })
					if _, ok := c.succeeds(op, what); !ok {
						continue
					}
					count := 0
					for _, m := range w.nodes[id].got() {
						if m.m.Action == a {
							count++
						}
					}
					if count != 1 {
						c.Violation("a message %s arrived %d times", what, count)
					}
				}
				target := genTarget(r, ids, w.self.Id)
				n++
				a := fmt.Sprint("routed ", n)
				op := Go("Route", func() (any, error) { return w.node.Route(bg, target, fedMsgOf(a)) })
				dctx, cancel := context.WithTimeout(bg, d+time.Minute)
				start := time.Now()
				late := Go("Route with a deadline", func() (any, error) { return w.node.Route(dctx, target, fedMsgOf("never")) })
				pass(d, nil)
				c.pending(op, what)
				c.pending(late, what)
				time.Sleep(2 * time.Minute)
				synctest.Wait()
				if c.MustReturn(late, "after its deadline") {
					if x := late.When().Sub(start); x < d+time.Minute || x > d+time.Minute+grace {
						c.Violation("a route with a deadline in %v ended after %v", d+time.Minute, x)
					}
				}
				cancel()
				mu.Lock()
				l := waiting
				waiting = nil
				mu.Unlock()
				for _, x := range l {
					x.p.Reply(x.m, &WM{Actor: 2, Body: []byte("re " + x.m.Action)})
				}
				if v, ok := c.succeeds(op, "answered "+what); ok && string(v.(*transport.ByteArrayMessage).Body) != "re "+a {
					c.Violation("Route answered %s returned %q", what, v.(*transport.ByteArrayMessage).Body)
				}
				if got := w.nodes[f.closest(target)].got(); len(got) == 0 {
					c.Violation("a routed message %s did not go to the closest partner", what)
				}
				c.StopIfFailed(2)
				c.Count("quiet_times", 1)
			}
			c.Saw(fmt.Sprint(i))
			w.stop()
			c.MustReturn(w.serve, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c22idle(c *Ctx) {
	quiet := quietTimes[:4] // a node that bootstraps asks again each second
	c.Cases("run", len(quiet)*c.N(2, 10), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			d := quiet[i%len(quiet)]
			what := fmt.Sprintf("after %v", d)
			self := federation.NodeInstance{Id: genNodeID(r), InstanceId: 5}
			w := newFedWorld(c, self)
			ids := genIds(r, 3, self.Id)
			var mu sync.Mutex
			mute := true
			pings := 0
			info := map[federation.NodeID]fnPartner{}
			for _, id := range ids {
				nd := w.newNode(id, func(n *fedNode, p *WirePeer, m *WM) {
					mu.Lock()
					defer mu.Unlock()
					pings++
					if mute {
						return
					}
					w.announce(p, info[id])
				})
				info[id] = fnPartner{Instance: gwInstance{id, 7}, Phase: 1, Address: nd.addr()}
			}
			w.start([]federation.SeedNodeInfo{{Id: ids[0], Address: w.nodes[ids[0]].addr()}})
			p := w.in(nil)
			ctx, cancel := context.WithTimeout(bg, 2*d)
			defer cancel()
			op := Go("Bootstrap", func() (any, error) { return nil, w.node.Bootstrap(ctx) })
			if i%2 == 0 {
				time.Sleep(d)
				synctest.Wait()
				c.pending(op, what)
				// not routing: does not count
				w.announce(p, info[ids[1]])
				time.Sleep(time.Minute / 2)
				synctest.Wait()
				c.pending(op, what+", although nobody routes,")
				x := info[ids[1+i/2%2]]
				x.Phase = 3
				mu.Lock()
				info[x.Instance.Id] = x
				mu.Unlock()
				w.announce(p, x)
				time.Sleep(5 * time.Second)
				c.succeeds(op, "once a routing partner announced itself "+what)
			} else {
				time.Sleep(2*d + grace)
				synctest.Wait()
				if c.MustReturn(op, "after its deadline") {
					if _, err := op.Get(); err == nil {
						c.Violation("Bootstrap succeeds although nobody announced itself")
					}
				}
			}
			mu.Lock()
			mute = false
			mu.Unlock()
			// after as long without traffic, discovery finds who is there
			pass(d, nil)
			w.announce(p, info[ids[1]], info[ids[2]])
			synctest.Wait()
			dis := Go("Discover", func() (any, error) { return w.node.Discover(bg) })
			time.Sleep(time.Minute)
			if v, ok := c.succeeds(dis, what); ok {
				seen := map[federation.NodeID]int{}
				for _, x := range v.([]federation.PartnerNodeInfo) {
					seen[x.Instance.Id]++
				}
				for _, id := range ids {
					if seen[id] != 1 {
						c.Violation("Discover %s returned node %v %d times", what, id, seen[id])
					}
				}
			}
			c.Count("quiet_times", 2)
			c.Saw(fmt.Sprint(i))
			w.stop()
			c.MustReturn(w.serve, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c24idle(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(6, 40), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%3 == 2)
			w.start()
			p := w.newPeer("p.test", 7)
			s := w.establish(p)
			if s == nil {
				return
			}
			n := int64(0)
			for _, d := range quietTimes {
				what := fmt.Sprintf("after %v", d)
				for round := 0; round < 2; round++ {
					before := len(p.got())
					op := Go("Ping", func() (any, error) { return nil, s.Ping(bg) })
					dctx, cancel := context.WithTimeout(bg, d+time.Minute)
					start := time.Now()
					late := Go("Ping with a deadline", func() (any, error) { return nil, s.Ping(dctx) })
					pass(d, nil)
					c.pending(op, what)
					c.pending(late, what)
					if len(p.got()) != before+2 {
						c.Violation("%d messages arrived of 2 pings %s", len(p.got())-before, what)
					}
					if round == 0 {
						time.Sleep(2 * time.Minute)
						synctest.Wait()
						if c.MustReturn(late, "after its deadline") {
							if _, err := late.Get(); err == nil {
								c.Violation("a ping without a pong succeeded")
							}
							if x := late.When().Sub(start); x < d+time.Minute || x > d+time.Minute+grace {
								c.Violation("a ping with a deadline in %v ended after %v", d+time.Minute, x)
							}
						}
					}
					n++
					p.pong(n)
					at := time.Now()
					c.succeeds(op, "answered "+what)
					if round == 1 {
						c.succeeds(late, "answered "+what)
					}
					cancel()
					if x := s.LastPongTime(); x.Sub(at).Abs() > grace {
						c.Violation("the last pong came at %v, its time is %v", at, x)
					}
					pass(d, nil)
				}
				c.StopIfFailed(2)
				c.Count("quiet_times", 2)
			}
			// a loop, for days
			before := len(p.got())
			interval := pick(r, []time.Duration{time.Second * 7, time.Minute, 20 * time.Minute})
			lctx, cancel := context.WithCancel(bg)
			loop := Go("PingLoop", func() (any, error) { return nil, lease.PingLoop(lctx, s, interval) })
			rounds := 400
			for k := 0; k < rounds; k++ {
				time.Sleep(2 * interval)
				if k%50 > 30 {
					n++
					p.pong(n)
				}
			}
			synctest.Wait()
			c.pending(loop, "although its context did not end")
			if got := len(p.got()) - before; got < rounds*2/3 || got > 2*rounds*3/2 {
				c.Violation("a ping loop of %v put %d pings on the wire in %v", interval, got, time.Duration(2*rounds)*interval)
			}
			cancel()
			synctest.Wait()
			c.MustReturn(loop, "after its context ended")
			c.Saw(fmt.Sprint(i))
			w.stop()
		})
		c.StopIfFailed(2)
	})
}

func c25idle(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(6, 40), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%3 == 2)
			w.start()
			p, q := w.newPeer("p.test", 7), w.newPeer("q.test", 8)
			s, t := w.establish(p), w.establish(q)
			if s == nil || t == nil {
				return
			}
			for k, d := range quietTimes {
				what := fmt.Sprintf("after %v", d)
				pass(d, nil)
				for x, peer := range []*ltPeer{p, q} {
					sess := []any{s, t}[x].(interface{ Ping(context.Context) error })
					op := Go("Ping", func() (any, error) { return nil, sess.Ping(bg) })
					synctest.Wait()
					peer.pong(3)
					c.succeeds(op, what+" without traffic")
				}
				// failing and new ones among it
				if in, err := w.dial(); err != nil {
					c.Violation("the agent does not accept connections %s: %v", what, err)
				} else {
					in.send([]byte("garbage that is no frame"))
				}
				o := w.newPeer(fmt.Sprintf("o%d.test", k), uint16(100+k))
				if u := w.establish(o); u != nil {
					op := Go("Ping of a new session", func() (any, error) { return nil, u.Ping(bg) })
					synctest.Wait()
					o.pong(3)
					c.succeeds(op, what)
				}
				if w.wait.Done() {
					_, err := w.wait.Get()
					c.Violation("the agent stopped %s: %v", what, err)
				}
				c.StopIfFailed(2)
				c.Count("quiet_times", 1)
			}
			// closed after weeks
			ops := []*Op{Go("Ping", func() (any, error) { return nil, s.Ping(bg) }), Go("Ping", func() (any, error) { return nil, t.Ping(bg) })}
			pass(quietTimes[len(quietTimes)-1], nil)
			cl := Go("Close", func() (any, error) { return nil, w.agent.Close() })
			synctest.Wait()
			c.MustReturn(cl, "")
			for _, o := range ops {
				if c.MustReturn(o, "after the agent closed") {
					if _, err := o.Get(); err == nil {
						c.Violation("a ping without a pong succeeds")
					}
				}
			}
			pass(time.Hour, nil)
			if _, err := w.agent.Establish(p.addr()); err == nil {
				c.Violation("a session is established after Close")
			}
			c.Saw(fmt.Sprint(i))
			w.stop()
		})
		c.StopIfFailed(2)
	})
}

func c31idle(c *Ctx) {
	thePKI()
	c.Cases("run", 4*c.N(2, 10), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var t *tlsSetup
			var scfg, ccfg transport.Config
			if i%2 == 1 {
				t = newTLSSetup(r, i)
				scfg.TLS, ccfg.TLS = t.server, t.client
			}
			l := NewListener(nil)
			var mu sync.Mutex
			type later struct {
				cn transport.Conn
				id transport.MessageId
			}
			var laters []later
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				switch m.Headers.Action {
				case "block":
					time.Sleep(30 * 24 * time.Hour)
				case "later":
					mu.Lock()
					laters = append(laters, later{cn, m.Headers.Id})
					mu.Unlock()
					return
				}
				echoCallback(cn, m)
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			type peer struct {
				cl *transport.Client
				w  *Op
			}
			var ps []peer
			add := func(what string) bool {
				cl, w := c.openGood(l, ccfg, what)
				if cl == nil {
					return false
				}
				ps = append(ps, peer{cl, w})
				return true
			}
			if !add("at first") || !add("at first") {
				return
			}
			ask := func(cl *transport.Client, action string) *Op {
				m := reqMsg(0, []byte(action))
				m.Headers.Action = action
				return Go("request", func() (any, error) { return cl.RequestReply(bg, m) })
			}
			block := ask(ps[0].cl, "block")
			closed := false
			for k, d := range quietTimes {
				what := fmt.Sprintf("after %v", d)
				late := ask(ps[0].cl, "later")
				var trickle func(int)
				if i/2%2 == 1 {
					trickle = func(j int) {
						if j%3 == 0 {
							c.goodTalk(ps[j%len(ps)].cl, j, fmt.Sprintf("in a trickle of %v", d))
						}
					}
				}
				l.Inject(tempErr{"again"})
				pass(d, trickle)
				for j, p := range ps {
					c.goodTalk(p.cl, j, what)
				}
				c.pending(late, what)
				mu.Lock()
				x := laters
				laters = nil
				mu.Unlock()
				for _, y := range x {
					m := &transport.Message{Body: []byte("late")}
					m.Headers.Actor, m.Headers.RelatesTo = transport.MessageActorTypeGenericTestActor, y.id
					op := Go("answer", func() (any, error) { return nil, y.cn.SendOneWay(m) })
					c.succeeds(op, what)
				}
				c.succeeds(late, "answered "+what)
				if !closed {
					if sv.Done() {
						_, err := sv.Get()
						c.Violation("the server stopped %s: %v", what, err)
					} else if !add(what) {
						break
					}
				}
				if k == 3 && i/4%2 == 1 {
					closed = true
					srv.Close()
					synctest.Wait()
					c.MustReturn(sv, "after Close")
				}
				c.StopIfFailed(2)
				c.Count("quiet_times", 1)
			}
			c.succeeds(block, "whose callback took a month")
			c.Saw(fmt.Sprint(i))
			for _, p := range ps {
				p.cl.Close()
			}
			srv.Close()
			synctest.Wait()
			for _, p := range ps {
				c.MustReturn(p.w, "after Close")
			}
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(2)
	})
}

// slowPeer: what is sent arrives however long the peer takes to read it, and what the peer sends is delivered however
// long it takes over it. One sender, as waiting for a lock stops virtual time.
func slowPeer(c *Ctx, secure bool) {
	thePKI()
	c.Cases("run", c.N(40, 400), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			pr := rand.New(rand.NewPCG(r.Uint64(), 4))
			var mu sync.Mutex
			pauses := 0
			quiet := func() time.Duration {
				mu.Lock()
				defer mu.Unlock()
				if pauses == 0 || pr.IntN(6) > 0 {
					return 0
				}
				pauses--
				return pick(pr, quietTimes)
			}
			a, b := Pipe(ConnOpts{Room: 200 + r.IntN(4000)}, ConnOpts{})
			a.o.ReadChunk = func() int {
				if d := quiet(); d > 0 && secure {
					c.Count("pauses", 1)
					time.Sleep(d)
					return 1
				}
				mu.Lock()
				defer mu.Unlock()
				return 1 + pr.IntN(3000)
			}
			b.o.ReadChunk = func() int {
				if d := quiet(); d > 0 {
					c.Count("pauses", 1)
					time.Sleep(d)
				}
				mu.Lock()
				defer mu.Unlock()
				return 1 + pr.IntN(3000)
			}
			var p *WirePeer
			var in inbox
			cfg := transport.ClientConfig{MessageCallback: in.cb}
			ready := make(chan int)
			if secure {
				t := newTLSSetup(r, i)
				cfg.TLS = t.client
				go func() {
					p = NewTLSWirePeer(b, t.server, nil).WirePeer
					close(ready)
				}()
			} else {
				p = NewWirePeer(b, nil)
				close(ready)
			}
			cl := c.connect(a, cfg)
			<-ready
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			synctest.Wait()
			mu.Lock()
			pauses = 1 + pr.IntN(4)
			mu.Unlock()
			var want []*WM
			for k := 1 + r.IntN(6); k > 0; k-- {
				m := genWM(r, 20000)
				msg := m.toMessage(r)
				ctx, cancel := context.WithTimeout(bg, 400*24*time.Hour)
				op := Go("a send to a slow reader", func() (any, error) { return nil, cl.SendOneWay(msg) })
				select {
				case <-op.ch:
				case <-ctx.Done():
				}
				cancel()
				if !c.MustReturn(op, "although the peer reads on") {
					return
				}
				if _, err := op.Get(); err != nil {
					c.Violation("a send to a slow reader: %v", err)
					return
				}
				want = append(want, m)
			}
			time.Sleep(400 * 24 * time.Hour)
			synctest.Wait()
			got := p.GotApp()
			if len(got) != len(want) {
				c.Violation("%d messages reached a slow reader, %d were sent", len(got), len(want))
				return
			}
			for j := range got {
				if d := diffWM(want[j], got[j]); d != "" {
					c.Violation("message %d to a slow reader: %s", j, d)
				}
			}
			// the other way
			mu.Lock()
			pauses = 4
			mu.Unlock()
			var out []*WM
			var stream []byte
			for k := 1 + r.IntN(6); k > 0; k-- {
				m := genWM(r, 9000)
				if m.Id == (transport.MessageId{}) {
					m.Id = p.NextId()
				}
				out = append(out, m)
				stream = append(stream, m.encode(p.Opt)...)
			}
			if secure {
				// each read of the library may get a part of a record, and wait for the rest
				for len(stream) > 0 {
					n := min(len(stream), 1+r.IntN(4000))
					p.SendRaw(stream[:n])
					stream = stream[n:]
				}
			} else {
				for len(stream) > 0 {
					n := min(len(stream), 1+r.IntN(6000))
					p.SendRaw(stream[:n])
					stream = stream[n:]
					time.Sleep(pick(r, quietTimes))
					c.Count("pauses", 1)
				}
			}
			time.Sleep(400 * 24 * time.Hour)
			synctest.Wait()
			if w.Done() {
				_, err := w.Get()
				c.Violation("the receive loop ended while its peer was slow: %v", err)
			}
			l := in.got()
			if len(l) != len(out) {
				c.Violation("%d messages of a slow peer delivered, %d sent", len(l), len(out))
			} else {
				for j := range l {
					if d := diffCommon(out[j].delivered(), l[j]); d != "" {
						c.Violation("message %d of a slow peer: %s", j, d)
					}
				}
			}
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
			c.Count("messages", int64(len(out)+len(want)))
			c.Saw(fmt.Sprint(secure, i))
		})
		c.StopIfFailed(3)
	})
	c.reached("messages")
	c.reached("pauses")
}

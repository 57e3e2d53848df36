package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"slices"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

// Long histories on one object: thousands of operations, most of which fail, are abandoned or never end, after and
// among which an ordinary one still has to work. What is bounded, leaks or wraps round shows only here.

func init() {
	register("C07", "many", "hundreds of failing and stalled connections to one server, piper or lease agent, which still serves a good one", c07many)
	register("C08", "many", "a hundred thousand messages of several senders on one connection", c08many)
	register("C14", "many", "millions of ids of one generator; a hundred thousand messages of one connection", c14many)
	register("C09", "many", "thousands of requests outstanding on one connection, answered in any order", c09many)
	register("C10", "many", "thousands of requests abandoned on one connection, then an ordinary one", c10many)
	register("C11", "many", "thousands of pings abandoned, outstanding and answered, and heartbeats, on one connection", c11many)
	register("C13", "many", "hundreds of sessions of one piper, at once and one after the other, failing and good", c13many)
	register("C16", "many", "hundreds of naming calls abandoned, failed and at once, then ordinary ones; results stay as they were", c16many)
	register("C17", "many", "hundreds of notifications and filters on one client, with callbacks that take long", c17many)
	register("C21", "many", "a node with hundreds of partners; thousands of routed requests abandoned, then ordinary ones", c21many)
	register("C22", "many", "discovery of clusters of hundreds of nodes", c22many)
	register("C24", "many", "thousands of pings of one session unanswered or at once, then ordinary ones", c24many)
	register("C25", "many", "hundreds of sessions of one agent, at once and one after the other", c25many)
	register("C31", "many", "hundreds of connections of one server or piper at once, and hundreds of callbacks that do not return", c31many)
}

func c07many(c *Ctx) {
	thePKI()
	kinds := []string{"server", "tls server", "piper", "tls piper", "agent", "tls agent"}
	c.Cases("run", len(kinds)*c.N(2, 12), func(i int, r *rand.Rand) {
		kind := kinds[i%len(kinds)]
		n := c.N(1200, 4000)
		c.Bubble(func() {
			var t *tlsSetup
			var scfg, ccfg transport.Config
			if kind[:3] == "tls" {
				t = newTLSSetup(r, i)
				scfg.TLS, ccfg.TLS = t.server, t.client
			}
			var l *Listener
			var serve *Op
			var stop func()
			refuse := false
			var held []net.Conn
			var mu sync.Mutex
			var lw *leaseWorld
			switch kind {
			case "server", "tls server":
				l = NewListener(nil)
				srv, _ := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: echoCallback})
				serve = Go("Serve", func() (any, error) { return nil, srv.Serve() })
				stop = func() { srv.Close() }
			case "piper", "tls piper":
				l = NewListener(nil)
				k := 0
				piper, err := transport.NewPiper(l, transport.PiperConfig{Config: scfg, FindUpstream: func(*transport.MessageHeaders, net.Conn) (net.Conn, transport.Config, error) {
					mu.Lock()
					defer mu.Unlock()
					k++
					if refuse && k%3 == 0 {
						return nil, transport.Config{}, errors.New("no upstream")
					}
					a, b := Pipe(ConnOpts{}, ConnOpts{})
					if refuse && k%3 == 1 {
						b.Close()
						return a, transport.Config{}, nil
					}
					held = append(held, b)
					newWirePeer(b, func(p *WirePeer, m *WM) {
						if m.ExpectsReply {
							p.Reply(m, &WM{Actor: m.Actor, Body: m.Body})
						}
					}, frameOpt{})
					return a, transport.Config{}, nil
				}})
				if err != nil {
					panic(setupError{err})
				}
				serve = Go("Serve", func() (any, error) { return nil, piper.Serve() })
				stop = func() { l.Close() }
			default:
				lw = newLeaseWorld(c, r, t != nil)
				lw.start()
				l, serve, stop = lw.l, lw.wait, func() { lw.agent.Close() }
			}
			check := func(k int, what string) bool {
				if lw != nil {
					p := lw.newPeer(fmt.Sprintf("p%d.test", k), 7)
					s := lw.establish(p)
					if s == nil {
						return false
					}
					op := Go("Ping", func() (any, error) { return nil, s.Ping(bg) })
					synctest.Wait()
					p.pong(9)
					synctest.Wait()
					if !op.soon() {
						c.Violation("%s: a ping that was answered over a new connection does not return", what)
						c.StopIfFailed(1)
						return false
					}
					if _, err := op.Get(); err != nil {
						c.Violation("%s: ping: %v", what, err)
					}
					return !c.Failed()
				}
				cl, w := c.openGood(l, ccfg, what)
				if cl == nil {
					return false
				}
				c.goodTalk(cl, k, what)
				cl.Close()
				synctest.Wait()
				c.MustReturn(w, "after Close")
				return !c.Failed()
			}
			if !check(0, "at first") {
				return
			}
			for x, how := range []string{"closed at once", "closed after the first message", "broken first frame", "broken later frame", "stalled before the first byte", "stalled in a frame", "stalled after the first message", "upstream fails"} {
				what := fmt.Sprintf("%s after %d connections: %s", kind, n, how)
				mu.Lock()
				refuse = how == "upstream fails"
				mu.Unlock()
				var conns []net.Conn
				for k := 0; k < n; k++ {
					a, _, err := l.Dial(ConnOpts{}, ConnOpts{})
					if err != nil {
						c.Violation("%s: the listener is closed", what)
						return
					}
					conns = append(conns, a)
					good := (&WM{Id: genMsgId(r), Actor: 0x10000, Body: []byte("x")}).encode(frameOpt{})
					if lw != nil {
						good = ltDataFrame((&ltMsg{Type: 2, Host: "nobody", Port: 3}).encode(r))
					}
					bad := append([]byte(nil), good...)
					bad[0] ^= 0x7f
					switch how {
					case "closed at once":
						a.Close()
					case "closed after the first message":
						a.Write(good)
						a.Close()
					case "broken first frame":
						a.Write(bad)
					case "broken later frame":
						a.Write(good)
						a.Write(bad)
					case "stalled in a frame":
						a.Write(good[:3+k%8])
					case "stalled after the first message", "upstream fails":
						a.Write(good)
					}
					if k%50 == 0 {
						synctest.Wait()
					}
				}
				synctest.Wait()
				mu.Lock()
				refuse = false
				mu.Unlock()
				if !check(x+1, what) {
					return
				}
				if serve.Done() {
					_, err := serve.Get()
					c.Violation("%s: serving ended: %v", what, err)
					return
				}
				for _, a := range conns {
					a.Close()
				}
				mu.Lock()
				for _, b := range held {
					b.Close()
				}
				held = nil
				mu.Unlock()
				synctest.Wait()
				c.Count("connections", int64(n))
				c.Saw(fmt.Sprint(i, how))
			}
			stop()
			synctest.Wait()
			c.MustReturn(serve, "after Close")
			if lw != nil {
				lw.stop()
			}
		})
		c.StopIfFailed(2)
	})
}

func c09many(c *Ctx) {
	c.Cases("run", c.N(3, 20), func(i int, r *rand.Rand) {
		n := c.N(5000, 20000)
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			p := NewWirePeer(b, nil)
			ops := make([]*Op, n)
			for k := range ops {
				ops[k] = Go("RequestReply", func() (any, error) { return cl.RequestReply(bg, reqMsg(k, []byte(fmt.Sprint(k)))) })
			}
			synctest.Wait()
			got := p.GotApp()
			if len(got) != n {
				c.Violation("%d requests made at once, %d arrived", n, len(got))
				return
			}
			for _, k := range r.Perm(n) {
				if ops[k].Done() {
					_, err := ops[k].Get()
					c.Violation("a request ended before it was answered: %v", err)
					return
				}
			}
			for _, k := range r.Perm(n) {
				p.Reply(got[k], &WM{Actor: 0x10000, Body: append([]byte("re "), got[k].Body...)})
			}
			synctest.Wait()
			for k, o := range ops {
				if !c.MustReturn(o, "although answered") {
					return
				}
				v, err := o.Get()
				if err != nil {
					c.Violation("request %d of %d: %v", k, n, err)
				} else if s := string(v.(*transport.ByteArrayMessage).Body); s != fmt.Sprintf("re %d", k) {
					c.Violation("request %d of %d got %q", k, n, s)
				}
				c.StopIfFailed(3)
			}
			c.Count("requests", int64(n))
			c.Saw(fmt.Sprint(i))
			cl.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
	})
}

// endedCtx gives contexts that end in one way or another; fire ends those that need it.
func endedCtx(k int) (ctx context.Context, fire func()) {
	switch k % 3 {
	case 0:
		ctx, cancel := context.WithCancel(bg)
		cancel()
		return ctx, cancel
	case 1:
		ctx, cancel := context.WithCancel(bg)
		return ctx, cancel
	}
	ctx, cancel := context.WithTimeout(bg, time.Millisecond*time.Duration(1+k%7))
	return ctx, func() { time.Sleep(10 * time.Millisecond); cancel() }
}

// abandon makes n calls whose contexts end, some at a time.
func (c *Ctx) abandon(n int, what string, call func(ctx context.Context, k int) error) bool {
	const batch = 250
	for k := 0; k < n; k += batch {
		var ops []*Op
		var fires []func()
		for j := k; j < k+batch; j++ {
			ctx, fire := endedCtx(j)
			fires = append(fires, fire)
			ops = append(ops, Go(what, func() (any, error) { return nil, call(ctx, j) }))
		}
		synctest.Wait()
		for _, f := range fires[:3] {
			f()
		}
		for _, f := range fires[3:] {
			go f()
		}
		time.Sleep(20 * time.Millisecond)
		synctest.Wait()
		for _, o := range ops {
			if !c.MustReturn(o, "after its context ended") {
				return false
			}
			if _, err := o.Get(); err == nil {
				c.Violation("%s succeeds without an answer", what)
				return false
			}
		}
	}
	c.Count("abandoned", int64(n))
	return true
}

func c10many(c *Ctx) {
	c.Cases("run", c.N(3, 15), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			var mu sync.Mutex
			var late []*WM
			p := NewWirePeer(b, func(p *WirePeer, m *WM) {
				if m.Action == "req-1" {
					p.Reply(m, &WM{Actor: 0x10000, Body: m.Body})
				} else if isApp(m) {
					mu.Lock()
					late = append(late, m)
					mu.Unlock()
				}
			})
			check := func(what string) bool {
				op := Go("a request "+what, func() (any, error) { return cl.RequestReply(bg, reqMsg(-1, []byte(what))) })
				synctest.Wait()
				if !c.MustReturn(op, "although answered") {
					return false
				}
				v, err := op.Get()
				if err != nil || string(v.(*transport.ByteArrayMessage).Body) != what {
					c.Violation("request %s: %v", what, err)
					return false
				}
				return true
			}
			if !c.abandon(c.N(5000, 30000), "RequestReply", func(ctx context.Context, k int) error {
				_, err := cl.RequestReply(ctx, reqMsg(k, nil))
				return err
			}) {
				return
			}
			if !check("after thousands that were cancelled") {
				return
			}
			mu.Lock()
			l := late
			mu.Unlock()
			for _, m := range l {
				p.Reply(m, &WM{Actor: 0x10000, Body: []byte("late")})
			}
			synctest.Wait()
			if !check("after thousands of late replies") {
				return
			}
			// all that wait end together
			var ops []*Op
			for k := 0; k < c.N(3000, 20000); k++ {
				ops = append(ops, Go("RequestReply", func() (any, error) { return cl.RequestReply(bg, reqMsg(k, nil)) }))
			}
			synctest.Wait()
			if i%2 == 0 {
				cl.Close()
			} else {
				b.Close()
			}
			synctest.Wait()
			for _, o := range ops {
				if !c.MustReturn(o, "after the connection closed") {
					return
				}
				if _, err := o.Get(); err == nil {
					c.Violation("request succeeds without an answer")
					return
				}
			}
			c.Saw(fmt.Sprint(i))
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c11many(c *Ctx) {
	c.Cases("run", c.N(3, 15), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			var mu sync.Mutex
			mode := "mute"
			var late []*WM
			resp := map[string]int{}
			p := NewWirePeer(b, func(p *WirePeer, m *WM) {
				mu.Lock()
				defer mu.Unlock()
				switch {
				case m.Actor == 1 && m.Action == "HeartbeatResponse":
					resp[string(m.Body)]++
				case m.isHeartbeat() && mode == "echo":
					p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: m.Body})
				case m.isHeartbeat():
					late = append(late, m)
				}
			})
			ping := func(what string) bool {
				mu.Lock()
				mode = "echo"
				mu.Unlock()
				op := Go("a ping "+what, func() (any, error) { _, err := cl.Ping(bg); return nil, err })
				synctest.Wait()
				if !c.MustReturn(op, "although echoed") {
					return false
				}
				if _, err := op.Get(); err != nil {
					c.Violation("ping %s: %v", what, err)
					return false
				}
				return true
			}
			if !c.abandon(c.N(4000, 20000), "Ping", func(ctx context.Context, k int) error { _, err := cl.Ping(ctx); return err }) {
				return
			}
			if !ping("after thousands that were not answered") {
				return
			}
			mu.Lock()
			l := late
			late, mode = nil, "mute"
			mu.Unlock()
			for _, m := range l {
				p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: m.Body})
			}
			synctest.Wait()
			if !ping("after thousands of late echoes") {
				return
			}
			mu.Lock()
			mode = "mute"
			mu.Unlock()
			n := c.N(3000, 15000)
			ops := make([]*Op, n)
			for k := range ops {
				ops[k] = Go("Ping", func() (any, error) { _, err := cl.Ping(bg); return nil, err })
			}
			synctest.Wait()
			mu.Lock()
			l = late
			mu.Unlock()
			if len(l) != n {
				c.Violation("%d pings at once, %d heartbeat requests arrived", n, len(l))
				return
			}
			for _, k := range r.Perm(n) {
				p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: l[k].Body})
			}
			synctest.Wait()
			for _, o := range ops {
				if !c.MustReturn(o, "although echoed") {
					return
				}
				if _, err := o.Get(); err != nil {
					c.Violation("one of %d pings at once: %v", n, err)
					return
				}
			}
			for k := 0; k < n; k++ {
				p.Send(&WM{Actor: 1, Action: "HeartbeatRequest", Body: RefEncode(&hbBody{int64(k)}, RefOpts{})})
			}
			synctest.Wait()
			mu.Lock()
			for k := 0; k < n; k++ {
				if x := resp[string(RefEncode(&hbBody{int64(k)}, RefOpts{}))]; x != 1 {
					c.Violation("heartbeat request %d of %d is answered %d times", k, n, x)
					break
				}
			}
			mu.Unlock()
			c.Count("pings", int64(n))
			c.Saw(fmt.Sprint(i))
			cl.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c13many(c *Ctx) {
	thePKI()
	c.Cases("run", 4*c.N(1, 6), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			n := c.N(1200, 3000)
			if i%4 != 0 {
				n /= 10
			}
			g := newPiperRig(c, r, i, nil)
			g.opts = func() ConnOpts { return ConnOpts{} }
			talk := func(p *pipedClient, k int, what string) bool {
				up := fmt.Sprintf("to upstream %d", k)
				down := fmt.Sprintf("to client %d", k)
				p.peer.Send(&WM{Actor: 0x10000, Action: up})
				synctest.Wait()
				u := g.upstream(p)
				if u == nil {
					c.Violation("%s: session %d has no upstream", what, k)
					return false
				}
				u.peer.Send(&WM{Actor: 0x10000, Action: down})
				synctest.Wait()
				for _, x := range []struct {
					p    *WirePeer
					want string
				}{{u.peer, up}, {p.peer, down}} {
					var seen []string
					for _, m := range x.p.GotApp() {
						seen = append(seen, m.Action)
					}
					if fmt.Sprint(seen) != fmt.Sprint([]string{x.want}) {
						c.Violation("%s: session %d: %q arrived, want %q", what, k, seen, x.want)
						return false
					}
				}
				return true
			}
			var open []*pipedClient
			for k := 0; k < n; k++ {
				p := g.connect()
				open = append(open, p)
				p.peer.SendInit()
				if k%20 == 0 {
					synctest.Wait()
				}
			}
			synctest.Wait()
			what := g.desc() + ", sessions at once"
			for k, p := range open {
				if !talk(p, k, what) {
					g.close(open)
					return
				}
			}
			for k, p := range open {
				if k%2 == 0 {
					p.raw.Close()
				} else {
					g.upstream(p).raw.Close()
				}
			}
			synctest.Wait()
			// failing ones
			g.mu.Lock()
			g.refuse = func(n int) error { return errors.New("no upstream") }
			g.mu.Unlock()
			for k := 0; k < n; k++ {
				p := g.connect()
				p.peer.SendInit()
				open = append(open, p)
				if k%2 == 0 {
					p.raw.Close()
				}
			}
			synctest.Wait()
			g.mu.Lock()
			g.refuse = nil
			g.mu.Unlock()
			for k := 0; k < n/2; k++ {
				p := g.connect()
				p.peer.SendInit()
				synctest.Wait()
				if !talk(p, k, g.desc()+", one session after another") {
					break
				}
				p.raw.Close()
				synctest.Wait()
			}
			c.Count("sessions", int64(2*n+n/2))
			c.Saw(g.desc() + fmt.Sprint(i))
			g.close(open)
		})
		c.StopIfFailed(2)
	})
}

func c16many(c *Ctx) {
	c.Cases("run", c.N(3, 15), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var mu sync.Mutex
			mode := "mute"
			var waiting []*WM
			k := uint64(0)
			sent := map[string]gwDescription{} // by relates-to
			apps := map[string][]gwApp{}
			answer := func(g *gateway, m *WM) {
				k++
				switch m.Action {
				case "PingRequest":
					d := gwDescription{Address: fmt.Sprint("address ", k), NodeName: fmt.Sprint("name ", k), Instance: gwInstance{genNodeID(r), k}}
					sent[m.Id.String()] = d
					g.p.Reply(m, &WM{Actor: gwActor, Action: "PingRequest", Body: RefEncode(&gwPingReply{d}, RefOpts{})})
				case "QueryRequest":
					var l gwAppList
					for j := uint64(0); j <= k%4; j++ {
						var x gwApp
						fillAny(r, &x, 2)
						l.List = append(l.List, x)
					}
					apps[m.Id.String()] = l.List
					g.p.Reply(m, &WM{Actor: gwActor, Action: "QueryReply", Body: RefEncode(&gwQueryReply{Result: &l}, RefOpts{})})
				default:
					g.p.Reply(m, &WM{Actor: gwActor, Action: m.Action})
				}
			}
			g, nc, cl, w, _ := newGateway(c, r, func(g *gateway, m *WM) {
				mu.Lock()
				defer mu.Unlock()
				switch mode {
				case "mute":
				case "fail":
					g.p.Reply(m, &WM{Actor: gwActor, Action: "ClientOperationFailure", Body: RefEncode(&gwFailure{7}, RefOpts{})})
				case "hold":
					waiting = append(waiting, m)
				default:
					answer(g, m)
				}
			})
			set := func(m string) { mu.Lock(); mode = m; mu.Unlock() }
			call := func(ctx context.Context, k int) (any, error) {
				switch k % 3 {
				case 0:
					return nc.Ping(ctx)
				case 1:
					return nc.GetApplicationList(ctx, "fabric:/x")
				}
				return nc.RegisterFilter(ctx, genUri(rand.New(rand.NewPCG(uint64(k), 1))), false, false)
			}
			if !c.abandon(c.N(1000, 10000), "naming call", func(ctx context.Context, k int) error { _, err := call(ctx, k); return err }) {
				return
			}
			set("fail")
			for k := 0; k < c.N(600, 6000); k++ {
				op := Go("naming call", func() (any, error) { return call(bg, k) })
				synctest.Wait()
				if !c.MustReturn(op, "although answered") {
					return
				}
				if _, err := op.Get(); err == nil {
					c.Violation("a call that failed at the gateway succeeds")
				}
			}
			set("answer")
			// results are the caller's: they stay whatever is returned later
			type kept struct {
				d    *naming.GatewayDescription
				dWas gwDescription
				l    []naming.ApplicationQueryResult
				lWas []gwApp
			}
			var ks []kept
			ids := map[uint64]bool{}
			for k := 0; k < c.N(600, 6000); k++ {
				op := Go("naming call", func() (any, error) { return call(bg, k) })
				synctest.Wait()
				if !c.MustReturn(op, "although answered") {
					return
				}
				v, err := op.Get()
				if err != nil {
					c.Violation("call after %d that failed: %v", k, err)
					return
				}
				mu.Lock()
				id := g.in[len(g.in)-1].Id.String()
				switch x := v.(type) {
				case *naming.GatewayDescription:
					ks = append(ks, kept{d: x, dWas: sent[id]})
				case []naming.ApplicationQueryResult:
					ks = append(ks, kept{l: x, lWas: apps[id]})
				case uint64:
					if ids[x] {
						c.Violation("filter id %d given twice", x)
					}
					ids[x] = true
				}
				mu.Unlock()
			}
			for k, x := range ks {
				if x.d != nil {
					if d := diffAny(x.dWas, descOf(x.d)); d != "" {
						c.Violation("ping result %d is not, or no longer, what the gateway sent: %s", k, d)
					}
				} else if d := diffAny(x.lWas, appsOf(x.l)); d != "" {
					c.Violation("application list %d is not, or no longer, what the gateway sent: %s", k, d)
				}
				c.StopIfFailed(2)
			}
			// many at once
			set("hold")
			var ops []*Op
			n := c.N(900, 6000)
			for k := 0; k < n; k++ {
				k := k - k%3 + k%2
				ops = append(ops, Go("naming call", func() (any, error) { return call(bg, k) }))
			}
			synctest.Wait()
			mu.Lock()
			if len(waiting) != n {
				c.Violation("%d calls at once put %d requests on the wire", n, len(waiting))
			}
			for _, k := range r.Perm(len(waiting)) {
				answer(g, waiting[k])
			}
			mu.Unlock()
			synctest.Wait()
			for _, o := range ops {
				if !c.MustReturn(o, "although answered") {
					return
				}
				if _, err := o.Get(); err != nil {
					c.Violation("one of %d calls at once: %v", n, err)
					break
				}
			}
			c.Count("calls", int64(n))
			c.Saw(fmt.Sprint(i))
			cl.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c17many(c *Ctx) {
	c.Cases("run", c.N(4, 20), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var mu sync.Mutex
			acks := map[string]int{}
			calls := map[uint64]int{}
			release := make(chan struct{})
			g, nc, cl, w, _ := newGateway(c, r, func(g *gateway, m *WM) {
				if m.Action == "ServiceNotificationReply" {
					mu.Lock()
					acks[m.RelatesTo.String()]++
					mu.Unlock()
				} else if m.ExpectsReply {
					g.p.Reply(m, &WM{Actor: gwActor, Action: m.Action})
				}
			})
			var all []*naming.ServiceNotification
			nc.OnServiceNotification = func(sn *naming.ServiceNotification) {
				mu.Lock()
				if sn != nil {
					calls[sn.NotificationPageId.PageIndex]++
					all = append(all, sn)
				}
				mu.Unlock()
				switch i % 3 {
				case 1:
					<-release
				case 2:
					time.Sleep(time.Hour)
				}
			}
			n := c.N(1500, 8000)
			var ids []string
			was := map[uint64]*gwNotification{}
			for k := 0; k < n; k++ {
				id := g.p.NextId()
				ids = append(ids, id.String())
				sn := gwNotification{}
				if k%10 == 0 {
					fillAny(r, &sn, 2)
				}
				sn.Page.Page = uint64(k)
				was[uint64(k)] = &sn
				g.p.Send(&WM{Id: id, Actor: gwActor, Action: "ServiceNotificationRequest", ExpectsReply: true, Body: RefEncode(&gwNotify{&sn}, RefOpts{})})
				if k%4 == 3 { // the same content in another request
					id := g.p.NextId()
					ids = append(ids, id.String())
					was[uint64(k)] = &sn
					g.p.Send(&WM{Id: id, Actor: gwActor, Action: "ServiceNotificationRequest", ExpectsReply: true, Body: RefEncode(&gwNotify{&sn}, RefOpts{})})
				}
			}
			synctest.Wait()
			mu.Lock()
			for k := 0; k < n; k++ {
				want := 1
				if k%4 == 3 {
					want = 2
				}
				if x := calls[uint64(k)]; x != want {
					c.Violation("notification %d of %d handed over %d times, sent %d times", k, n, x, want)
					break
				}
			}
			for k, id := range ids {
				if acks[id] != 1 {
					c.Violation("request %d of %d acknowledged %d times", k, len(ids), acks[id])
					break
				}
			}
			for _, sn := range all {
				if d := diffAny(was[sn.NotificationPageId.PageIndex], notificationOf(sn)); d != "" {
					c.Violation("a notification is not, or no longer, what was sent: %s", d)
					break
				}
			}
			mu.Unlock()
			// filters, while callbacks still run
			seen := map[uint64]bool{}
			for k := 0; k < c.N(300, 3000); k++ {
				op := Go("RegisterFilter", func() (any, error) { return nc.RegisterFilter(bg, genUri(r), k%2 == 0, false) })
				synctest.Wait()
				if !c.MustReturn(op, "although answered") {
					return
				}
				v, err := op.Get()
				if err != nil {
					c.Violation("filter %d: %v", k, err)
					break
				}
				if seen[v.(uint64)] {
					c.Violation("filter id %d given twice", v)
				}
				seen[v.(uint64)] = true
			}
			c.Count("notifications", int64(len(ids)))
			c.Saw(fmt.Sprint(i))
			close(release)
			cl.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c21many(c *Ctx) {
	c.Cases("run", c.N(2, 16), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			self := federation.NodeInstance{Id: genNodeID(r), InstanceId: 5}
			w := newFedWorld(c, self)
			n, abandoned := c.N(300, 1000), 0
			if i%2 == 1 {
				n, abandoned = 5, c.N(3000, 10000)
			}
			ids := genIds(r, n, self.Id)
			known := map[federation.NodeID]fnPartner{}
			f := &fedPlan{w: w, known: known, ids: ids}
			on := func(n *fedNode, p *WirePeer, m *WM) {
				if m.ExpectsReply && m.Action != "mute" {
					p.Reply(m, &WM{Actor: 2, Body: append([]byte("re "), m.Action...)})
				}
			}
			for _, id := range ids {
				known[id] = fnPartner{Instance: gwInstance{id, 1 + r.Uint64N(100)}, Phase: 3, Address: w.newNode(id, on).addr()}
			}
			w.start([]federation.SeedNodeInfo{{Id: ids[0], Address: w.nodes[ids[0]].addr()}})
			p := w.in(nil)
			for _, id := range ids {
				w.announce(p, known[id])
			}
			synctest.Wait()
			for round := 0; round < 2; round++ {
				for k, id := range ids {
					a := fmt.Sprintf("one way %d %d", round, k)
					if err := w.node.SendOneWay(id, fedMsgOf(a)); err != nil {
						c.Violation("message %d of %d partners: %v", k, n, err)
						w.stop()
						return
					}
					synctest.Wait()
					count := 0
					for _, m := range w.nodes[id].got() {
						if m.m.Action == a {
							count++
						}
					}
					if count != 1 {
						c.Violation("a message to one of %d partners arrived %d times there", n, count)
						w.stop()
						return
					}
				}
				for k := 0; k < 100; k++ {
					target := genTarget(r, ids, self.Id)
					a := fmt.Sprintf("routed %d %d", round, k)
					op := Go("Route", func() (any, error) { return w.node.Route(bg, target, fedMsgOf(a)) })
					synctest.Wait()
					if !c.MustReturn(op, "although answered") {
						return
					}
					if v, err := op.Get(); err != nil || string(v.(*transport.ByteArrayMessage).Body) != "re "+a {
						c.Violation("route %q: %v, %v", a, v, err)
					}
					if got := w.nodes[f.closest(target)].got(); len(got) == 0 || got[len(got)-1].m.Action != a {
						c.Violation("%q did not go to the closest of %d partners", a, n)
					}
					c.StopIfFailed(2)
				}
				if round == 0 && !c.abandon(abandoned, "Route", func(ctx context.Context, k int) error {
					_, err := w.node.Route(ctx, ids[k%5], &transport.Message{Headers: transport.MessageHeaders{Actor: transport.MessageActorTypeFederation, Action: "mute"}})
					return err
				}) {
					return
				}
			}
			c.Saw(fmt.Sprint(i))
			w.stop()
			c.MustReturn(w.serve, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c22many(c *Ctx) {
	c.Cases("run", c.N(3, 15), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			self := federation.NodeInstance{Id: genNodeID(r), InstanceId: 5}
			w := newFedWorld(c, self)
			n := c.N(220, 500)
			ids := genIds(r, n, self.Id)
			pinged := map[federation.NodeID]int{}
			var mu sync.Mutex
			info := map[federation.NodeID]fnPartner{}
			for k, id := range ids {
				nd := w.newNode(id, func(n *fedNode, p *WirePeer, m *WM) {
					mu.Lock()
					pinged[id]++
					mu.Unlock()
					l := []fnPartner{info[id]}
					// the first one knows about all, or each knows some
					for q, x := range ids {
						if (i%2 == 0 && k == 0) || (i%2 == 1 && q/40 == k) {
							l = append(l, info[x])
						}
					}
					w.announce(p, l...)
				})
				info[id] = fnPartner{Instance: gwInstance{id, 1 + r.Uint64N(1000)}, Phase: 3, Address: nd.addr()}
			}
			w.start([]federation.SeedNodeInfo{{Id: ids[0], Address: w.nodes[ids[0]].addr()}})
			synctest.Wait()
			op := Go("Discover", func() (any, error) { return w.node.Discover(bg) })
			time.Sleep(time.Minute)
			synctest.Wait()
			if !c.MustReturn(op, fmt.Sprintf("a minute after it began, in a cluster of %d nodes", n)) {
				return
			}
			v, err := op.Get()
			if err != nil {
				c.Violation("Discover: %v", err)
				return
			}
			seen := map[federation.NodeID]int{}
			for _, p := range v.([]federation.PartnerNodeInfo) {
				seen[p.Instance.Id]++
				if x, ok := info[p.Instance.Id]; !ok || x.Instance.Instance != p.Instance.InstanceId || x.Address != p.Address {
					c.Violation("discovered %+v, which is not a node", p)
				}
			}
			for k, id := range ids {
				if seen[id] != 1 {
					c.Violation("node %d of %d was discovered %d times", k, n, seen[id])
				}
				if pinged[id] == 0 {
					c.Violation("node %d of %d was not pinged", k, n)
				}
				c.StopIfFailed(2)
			}
			c.Count("nodes", int64(n))
			c.Saw(fmt.Sprint(i))
			w.stop()
			c.MustReturn(w.serve, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c24many(c *Ctx) {
	c.Cases("run", c.N(4, 20), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%4 == 3)
			w.start()
			p := w.newPeer("p.test", 7)
			s := w.establish(p)
			if s == nil {
				return
			}
			ping := func(what string) bool {
				op := Go("a ping "+what, func() (any, error) { return nil, s.Ping(bg) })
				synctest.Wait()
				p.pong(3)
				synctest.Wait()
				if !c.MustReturn(op, "although answered") {
					return false
				}
				if _, err := op.Get(); err != nil {
					c.Violation("ping %s: %v", what, err)
					return false
				}
				return true
			}
			n := c.N(3000, 15000)
			if !c.abandon(n, "Ping", func(ctx context.Context, k int) error { return s.Ping(ctx) }) || !ping("after thousands that were not answered") {
				return
			}
			for k := 0; k < n; k++ {
				p.pong(int64(k))
			}
			synctest.Wait()
			before := len(p.got())
			ops := make([]*Op, n)
			for k := range ops {
				ops[k] = Go("Ping", func() (any, error) { return nil, s.Ping(bg) })
			}
			synctest.Wait()
			if got := len(p.got()) - before; got != n {
				c.Violation("%d pings at once put %d messages on the wire", n, got)
				return
			}
			for _, o := range ops {
				if o.Done() {
					_, err := o.Get()
					c.Violation("a ping returned before a pong arrived, after pongs for earlier ones: %v", err)
					return
				}
			}
			if i%2 == 0 {
				p.pong(5)
			} else {
				s.Close()
			}
			synctest.Wait()
			for _, o := range ops {
				if !c.MustReturn(o, "after the pong or Close") {
					return
				}
				if _, err := o.Get(); (err == nil) != (i%2 == 0) {
					c.Violation("one of %d pings at once: %v", n, err)
					return
				}
			}
			c.Count("pings", int64(2*n))
			c.Saw(fmt.Sprint(i))
			w.stop()
		})
		c.StopIfFailed(2)
	})
}

func c25many(c *Ctx) {
	c.Cases("run", c.N(3, 15), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, false)
			down := false
			w.onD = func(addr string) error {
				if down {
					return errors.New("unreachable")
				}
				return nil
			}
			w.start()
			n := c.N(1500, 5000)
			ping := func(p *ltPeer, s lease.Session, what string) bool {
				op := Go("a ping "+what, func() (any, error) { return nil, s.Ping(bg) })
				synctest.Wait()
				p.pong(3)
				synctest.Wait()
				if !c.MustReturn(op, "although answered") {
					return false
				}
				if _, err := op.Get(); err != nil {
					c.Violation("ping %s: %v", what, err)
					return false
				}
				return true
			}
			// one address, again and again, and failing
			p := w.newPeer("p.test", 7)
			for k := 0; k < n; k++ {
				s := w.establish(p)
				if s == nil {
					return
				}
				if k%10 == 0 && !ping(p, s, "after many sessions to its address") {
					return
				}
				if k%3 == 0 {
					s.Close()
				}
				down = true
				if _, err := w.agent.Establish(p.addr()); err == nil {
					c.Violation("a session is established without a connection")
				}
				down = false
			}
			var ps []*ltPeer
			var ss []lease.Session
			for k := 0; k < n; k++ {
				q := w.newPeer(fmt.Sprintf("q%d.test", k), uint16(k))
				s := w.establish(q)
				if s == nil {
					return
				}
				ps, ss = append(ps, q), append(ss, s)
			}
			for k, s := range ss {
				if !ping(ps[k], s, fmt.Sprintf("of one of %d sessions", n)) {
					return
				}
			}
			var ops []*Op
			for k, s := range ss {
				if k%2 == 0 {
					s.Close()
				} else {
					ops = append(ops, Go("Ping", func() (any, error) { return nil, s.Ping(bg) }))
				}
			}
			synctest.Wait()
			cl := Go("Close", func() (any, error) { return nil, w.agent.Close() })
			synctest.Wait()
			c.MustReturn(cl, "")
			for _, o := range ops {
				if !c.MustReturn(o, "after the agent closed") {
					return
				}
				if _, err := o.Get(); err == nil {
					c.Violation("a ping succeeds although the agent was closed")
				}
			}
			if _, err := w.agent.Establish(p.addr()); err == nil {
				c.Violation("a session is established after Close")
			}
			c.Count("sessions", int64(2*n))
			c.Saw(fmt.Sprint(i))
			w.stop()
		})
		c.StopIfFailed(2)
	})
}

func c31many(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(4, 20), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			n := c.N(1200, 3000)
			var t *tlsSetup
			var scfg, ccfg transport.Config
			if i%4 == 3 {
				n /= 3
				t = newTLSSetup(r, i)
				scfg.TLS, ccfg.TLS = t.server, t.client
			}
			l := NewListener(nil)
			gate := make(chan struct{})
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				if m.Headers.Action == "block" {
					<-gate
				}
				echoCallback(cn, m)
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			type peer struct {
				cl *transport.Client
				w  *Op
			}
			var ps []peer
			var blocked []*Op
			for k := 0; k < n; k++ {
				if k%5 == 0 {
					l.Inject(tempErr{"again"})
				}
				cl, w := c.openGood(l, ccfg, fmt.Sprintf("with %d connections open", k))
				if cl == nil {
					return
				}
				ps = append(ps, peer{cl, w})
				for j := 0; j < 4; j++ {
					m := reqMsg(0, []byte("slow"))
					m.Headers.Action = "block"
					blocked = append(blocked, Go("request whose callback takes long", func() (any, error) { return cl.RequestReply(bg, m) }))
				}
			}
			// a server may wait a while after each temporary error
			time.Sleep(time.Duration(n/5)*time.Second + grace)
			synctest.Wait()
			if i%2 == 1 {
				srv.Close()
				synctest.Wait()
				c.MustReturn(sv, "after Close")
			}
			for k, p := range ps {
				c.goodTalk(p.cl, k, fmt.Sprintf("%d connections at once, callbacks blocked", n))
				c.StopIfFailed(1)
			}
			close(gate)
			synctest.Wait()
			for _, o := range blocked {
				if !c.MustReturn(o, "after its callback went on") {
					return
				}
				if _, err := o.Get(); err != nil {
					c.Violation("request whose callback took long: %v", err)
					break
				}
			}
			c.Count("connections", int64(n))
			c.Saw(fmt.Sprint(i))
			for _, p := range ps {
				p.cl.Close()
			}
			srv.Close()
			synctest.Wait()
			for _, p := range ps {
				c.MustReturn(p.w, "after Close")
			}
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(2)
	})
}

// c14many: millions of ids of one generator, and the ids of a connection that sends a hundred thousand messages.
func c14many(c *Ctx) {
	c.Cases("generator", c.N(2, 4), func(i int, r *rand.Rand) {
		gen, err := transport.NewMessageIdGenerator()
		if err != nil {
			c.Violation("NewMessageIdGenerator: %v", err)
			return
		}
		workers := []int{1, 4}[i%2]
		per := c.N(5000000, 30000000) / workers
		parts := make([]map[serialization.GUID][]uint32, workers)
		var wg sync.WaitGroup
		for t := range parts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				m := map[serialization.GUID][]uint32{}
				var g serialization.GUID
				var l []uint32
				for k := 0; k < per; k++ {
					id := gen.Next()
					if id.Id != g {
						if l != nil {
							m[g] = l
						}
						g, l = id.Id, m[id.Id]
					}
					l = append(l, id.Index)
				}
				m[g] = l
				parts[t] = m
			}()
		}
		wg.Wait()
		all := map[serialization.GUID][]uint32{}
		for _, m := range parts {
			for g, l := range m {
				all[g] = append(all[g], l...)
			}
		}
		for g, l := range all {
			slices.Sort(l)
			for k := 1; k < len(l); k++ {
				if l[k] == l[k-1] {
					c.Violation("id %v:%d was given twice among %d ids of one generator, %d goroutines", g, l[k], workers*per, workers)
					break
				}
			}
			if g == (serialization.GUID{}) && len(l) > 0 && l[0] == 0 {
				c.Violation("an empty id among %d of one generator", workers*per)
			}
		}
		c.Count("ids", int64(workers*per))
		c.Max("most_ids_of_a_generator", int64(workers*per))
		c.Saw(fmt.Sprint("generator", i))
		c.StopIfFailed(1)
	})
	c.Cases("connection", c.N(2, 4), func(i int, r *rand.Rand) {
		n := c.N(70000, 400000)
		a, b := Pipe(ConnOpts{Record: true}, ConnOpts{})
		NewWirePeer(b, func(p *WirePeer, m *WM) {
			switch {
			case m.isHeartbeat():
				p.echo(m)
			case m.ExpectsReply:
				p.Reply(m, &WM{Actor: 0x10000})
			}
		})
		cl, err := transport.Connect(a, transport.ClientConfig{})
		if err != nil {
			c.Violation("connect: %v", err)
			return
		}
		go cl.Wait()
		var wg sync.WaitGroup
		for s := 0; s < 4; s++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for q := 0; q < n/4; q++ {
					switch {
					case s == 1 && q%3 == 0:
						cl.RequestReply(bg, reqMsg(q, nil))
					case s == 2 && q%3 == 0:
						cl.Ping(bg)
					default:
						cl.SendOneWay(reqMsg(q, nil))
					}
				}
			}()
		}
		wg.Wait()
		log := newIdLog(c)
		log.stream(a.Sent(), "one connection")
		if log.n < int64(n) {
			c.Violation("%d messages were sent, %d arrived", n, log.n)
		}
		c.Count("messages", log.n)
		c.Saw(fmt.Sprint("connection", i))
		cl.Close()
		b.Close()
		c.StopIfFailed(1)
	})
}

// c08many: a hundred thousand messages of several senders on one connection.
func c08many(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(3, 9), func(i int, r *rand.Rand) {
		n := c.N(70000, 300000)
		senders := []int{1, 3, 8}[i%3]
		opt := ConnOpts{Room: 1 << 20}
		a, b := Pipe(opt, ConnOpts{})
		var loads []*WM
		var mu sync.Mutex
		on := func(p *WirePeer, m *WM) {
			mu.Lock()
			defer mu.Unlock()
			if m.isHeartbeat() {
				p.echo(m)
				return
			}
			if m.Actor != 1 {
				loads = append(loads, m)
			}
		}
		cfg := transport.Config{}
		var ended func() error
		if i%3 == 1 {
			t := newTLSSetup(r, i)
			cfg.TLS = t.client
			go NewTLSWirePeer(b, t.server, on)
		} else {
			p := NewWirePeer(b, on)
			ended = func() error {
				p.mu.Lock()
				defer p.mu.Unlock()
				return p.err
			}
		}
		cl := c.connect(a, transport.ClientConfig{Config: cfg})
		go cl.Wait()
		var log sentLog
		var wg sync.WaitGroup
		for s := 0; s < senders; s++ {
			seed := r.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := rand.New(rand.NewPCG(seed, 1))
				for q := 0; q < n/senders; q++ {
					m := loadMsg(s, q, 24+rr.IntN(40))
					if err := cl.SendOneWay(m); err != nil {
						c.Violation("%d senders, message %d: %v", senders, q, err)
						return
					}
					log.add(s, q)
				}
			}()
		}
		wg.Wait()
		if c.Failed() {
			c.StopIfFailed(1)
		}
		// the echo of a ping tells that what was sent before arrived
		ping := Go("Ping", func() (any, error) { d, err := cl.Ping(bg); return d, err })
		if !c.returns(ping, fmt.Sprintf("after %d messages", n)) {
			return
		}
		if ended != nil && ended() != nil {
			c.Violation("the peer could not read on: %v", ended())
		}
		mu.Lock()
		c.checkLoads(loads, &log, true, true, fmt.Sprintf("%d senders, %d messages", senders, n))
		mu.Unlock()
		c.Max("most_messages_of_a_connection", int64(n))
		c.Saw(fmt.Sprint(i))
		cl.Close()
		b.Close()
		c.StopIfFailed(1)
	})
}

package harness

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C28", "connections", "connections of both roles ended in every way with requests, pings, heartbeats, callbacks and blocked writers in flight", c28connections)
	register("C28", "setup", "accepted and dialled connections whose set-up is broken off or refused at every point", c28setup)
	register("C28", "piper", "piper sessions ended in every way with traffic and blocked writers in flight, and sessions that never start", c28piper)
	register("C28", "nodes", "site nodes closed with connections, dials, routed requests and discovery under way", c28nodes)
	register("C28", "leases", "lease agents and sessions closed with pings and incoming connections under way", c28leases)
	register("C28", "tcp", "dialling over real TCP: refused handshakes, closed nodes and agents", c28tcp)
}

// left returns what library code is still running, apart from n goroutines per expected function.
func leftBehind(expect ...string) []goroutine {
	var l []goroutine
	for _, g := range libGoroutines(parseStacks(allStacks())) {
		ok := false
		for _, e := range expect {
			if strings.Contains(g.text, e) {
				ok = true
			}
		}
		if !ok {
			l = append(l, g)
		}
	}
	return l
}

// noneLeft is the goroutine half of the oracle, at quiescence.
func (c *Ctx) noneLeft(what string, expect ...string) {
	l := leftBehind(expect...)
	c.Count("goroutine_checks", 1)
	if len(l) > 0 {
		t := ""
		for k, g := range l {
			if k < 3 {
				t += g.text + "\n\n"
			}
		}
		c.Violation("%s: %d library goroutines stay behind\n%s", what, len(l), t)
		c.write(true)
		c.StopIfFailed(1)
	}
}

func (c *Ctx) socketClosed(x *Conn, what string) {
	c.Count("socket_checks", 1)
	if !x.IsClosed() {
		c.Violation("%s: the socket stays open", what)
	}
}

// flow waits in virtual time, or in real time for workloads in which goroutines wait for locks.
type flow struct{ real bool }

func (f flow) bubble(c *Ctx, run func()) {
	if f.real {
		run()
	} else {
		c.Bubble(run)
	}
}

func (f flow) until(cond func() bool) {
	if !f.real {
		synctest.Wait()
		if !cond() {
			settle()
		}
		return
	}
	for t := time.Now(); !cond(); time.Sleep(200 * time.Microsecond) {
		if d := time.Since(t); d > 20*time.Second {
			if quiet, _, _ := quietSnapshot(); quiet || d > 100*time.Second {
				return
			}
		}
	}
}

// settle lets everything happen that happens by itself, also what waits for a few seconds.
func settle() {
	synctest.Wait()
	time.Sleep(time.Minute)
	synctest.Wait()
}

var endWays = []string{"local close", "local close twice", "peer closes", "peer half closes", "reset", "garbage", "bad header section", "unauthorized", "write fails then peer closes", "close in callback"}

func c28connections(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(900, 20000), func(i int, r *rand.Rand) {
		way := endWays[i%len(endWays)]
		server := (i/len(endWays))%2 == 1
		useTLS := (i/len(endWays)/2)%3 == 2
		stalled := r.IntN(2) == 0
		if way == "unauthorized" && server {
			server = false
		}
		what := fmt.Sprintf("%s (server %v, tls %v, peer stalled %v)", way, server, useTLS, stalled)
		fl := flow{real: stalled}
		fl.bubble(c, func() {
			var setup *tlsSetup
			if useTLS {
				setup = newTLSSetup(r, r.IntN(12))
			}
			var failWrites, stall atomic.Bool
			gate := make(chan struct{})
			lo := ConnOpts{RandYield: r.Uint64() | 1, BeforeWrite: func(*Conn, []byte) (int, error) {
				if failWrites.Load() {
					return 0, errors.New("injected write error")
				}
				return 0, nil
			}}
			if r.IntN(2) == 0 {
				lo.ReadChunk = chunker(rand.New(rand.NewPCG(r.Uint64(), 1)))
			}
			if stalled {
				lo.Room = 100 + r.IntN(5000)
				lo.CloseErr = syscall.ECONNRESET
			}
			on := func(p *WirePeer, m *WM) {
				if stall.Load() {
					<-gate
				}
			}
			var closeIt atomic.Bool
			var cbs atomic.Int64
			var ops []*Op
			var mu sync.Mutex
			started := func(o *Op) {
				mu.Lock()
				ops = append(ops, o)
				mu.Unlock()
			}
			short := context.Background()
			use := func(cn transport.Conn, k int) {
				switch k % 3 {
				case 0:
					started(Go("request", func() (any, error) { return cn.RequestReply(short, stormMsg(rand.New(rand.NewPCG(uint64(k), 1)))) }))
				case 1:
					started(Go("ping", func() (any, error) { return cn.Ping(short) }))
				case 2:
					started(Go("sender", func() (any, error) {
						r := rand.New(rand.NewPCG(uint64(k), 1))
						for q := 0; q < 200; q++ {
							if err := cn.SendOneWay(stormMsg(r)); err != nil {
								return nil, err
							}
						}
						return nil, nil
					}))
				}
			}
			var conn atomic.Value
			cb := func(cn transport.Conn, m *transport.ByteArrayMessage) {
				cbs.Add(1)
				conn.Store(&cn)
				if closeIt.Load() {
					cn.Close()
					return
				}
				if m.Headers.Action == "ask back" {
					use(cn, int(cbs.Load()))
				}
			}
			var lib, raw *Conn
			var p *WirePeer
			var w *Op
			var l *Listener
			var cl *transport.Client
			expect := []string{}
			newPeer := func(conn *Conn) *WirePeer {
				if setup == nil {
					return newWirePeer(conn, on, frameOpt{})
				}
				if server {
					return newTLSPeer(conn, setup.client, false, on, nil).WirePeer
				}
				return newTLSPeer(conn, setup.server, true, on, nil).WirePeer
			}
			if server {
				l = NewListener(nil)
				scfg := transport.ServerConfig{MessageCallback: cb}
				if setup != nil {
					scfg.TLS = setup.server
				}
				srv, _ := transport.Listen(l, scfg)
				w = Go("Serve", func() (any, error) { return nil, srv.Serve() })
				a, b, err := l.Dial(ConnOpts{}, lo)
				if err != nil {
					panic(setupError{err})
				}
				raw, lib = a, b
				p = newPeer(raw)
				p.SendInit()
				p.Send(&WM{Actor: 0x10000, Action: "hello"})
				fl.until(func() bool { return conn.Load() != nil })
				expect = []string{"transport.(*Server).Serve("}
			} else {
				lib, raw = Pipe(lo, ConnOpts{})
				p = newPeer(raw)
				ccfg := transport.ClientConfig{MessageCallback: cb}
				if setup != nil {
					ccfg.TLS = setup.client
				}
				op := Go("Connect", func() (any, error) {
					var err error
					cl, err = transport.Connect(lib, ccfg)
					return nil, err
				})
				fl.until(op.Done)
				c.MustReturn(op, what)
				if cl == nil {
					_, err := op.Get()
					c.Violation("%s: connect: %v", what, err)
					return
				}
				p.SendInit()
				var cn transport.Conn = cl
				conn.Store(&cn)
				w = Go("Wait", func() (any, error) { return nil, cl.Wait() })
			}
			v, ok := conn.Load().(*transport.Conn)
			if !ok {
				c.Violation("%s: the server did not call back", what)
				raw.Close()
				l.Close()
				return
			}
			cn := *v
			// things in flight
			stall.Store(stalled)
			n := 1 + r.IntN(6)
			for k := 0; k < n; k++ {
				use(cn, r.IntN(100))
			}
			for k := r.IntN(6); k > 0; k-- {
				switch r.IntN(4) {
				case 0:
					p.Send(&WM{Actor: 1, Action: "HeartbeatRequest", Body: RefEncode(&i64Obj{r.Int64()}, RefOpts{})})
				case 1:
					p.Send(&WM{Actor: 0x10000, Action: "ask back"})
				case 2:
					p.Send(hbResp(r.Int64()))
				case 3:
					// a message that breaks off
					m := (&WM{Id: p.NextId(), Actor: 0x10000, Action: "cut", Body: genBytes(r, 100)}).encode(p.Opt)
					if way != "garbage" && way != "unauthorized" && way != "bad header section" && way != "close in callback" && k == 1 {
						p.SendRaw(m[:r.IntN(len(m))])
					}
				}
			}
			if r.IntN(4) > 0 {
				if fl.real {
					time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
				} else {
					synctest.Wait()
				}
			}
			if stalled && lib.Blocked.Load() > 0 {
				c.Count("writers_blocked_at_end", 1)
			}
			switch way {
			case "local close":
				started(Go("Close", func() (any, error) { return nil, cn.Close() }))
			case "local close twice":
				for k := 0; k < 3; k++ {
					started(Go("Close", func() (any, error) { return nil, cn.Close() }))
				}
			case "peer closes":
				raw.Close()
			case "peer half closes":
				raw.CloseWrite()
			case "reset":
				lib.FailReads(errors.New("connection reset by peer"))
			case "garbage":
				p.SendRaw(make([]byte, 64))
			case "bad header section":
				p.SendRaw(buildFrame([]byte{1, 2, 3}, []byte("x"), p.Opt))
			case "unauthorized":
				p.Send(&WM{Actor: 29, Action: "ConnectionAuth", Err: -5, Body: RefEncode(&strObj{"no"}, RefOpts{})})
			case "write fails then peer closes":
				failWrites.Store(true)
				use(cn, r.IntN(100))
				raw.Close()
			case "close in callback":
				closeIt.Store(true)
				p.Send(&WM{Actor: 0x10000, Action: "bye"})
			}
			flying := func() []*Op {
				mu.Lock()
				defer mu.Unlock()
				return append([]*Op(nil), ops...)
			}
			fl.until(func() bool {
				for _, o := range flying() {
					if !o.Done() {
						return false
					}
				}
				return lib.IsClosed() && (server || w.Done()) && len(leftBehind(expect...)) == 0
			})
			c.socketClosed(lib, what)
			if !server {
				c.MustReturn(w, "after "+what)
			}
			all := flying()
			for _, o := range all {
				c.MustReturn(o, "after "+what)
			}
			c.noneLeft(what, expect...)
			c.Count(strings.ReplaceAll(way, " ", "_"), 1)
			c.Saw(fmt.Sprint(what, n, len(all), lib.Writes.Load()))
			close(gate)
			raw.Close()
			lib.Close()
			if l != nil {
				l.Close()
			}
			fl.until(w.Done)
			c.MustReturn(w, "after everything was closed")
		})
		c.StopIfFailed(3)
	})
}

func c28setup(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(900, 20000), func(i int, r *rand.Rand) {
		server := i%2 == 0
		useTLS := i%5 != 0
		c.Bubble(func() {
			s := newTLSSetup(r, i/2)
			kind := pick(r, []string{"cut by peer", "garbage", "write fails", "certificate refused", "nothing", "half close", "plain message"})
			var sent atomic.Int64
			stop := int64(r.IntN(12))
			lo := ConnOpts{RandYield: r.Uint64() | 1}
			if i%3 == 0 {
				lo.CloseErr = syscall.ECONNRESET
			}
			if kind == "write fails" {
				lo.BeforeWrite = func(*Conn, []byte) (int, error) {
					if sent.Add(1) > stop {
						return r.IntN(20), errors.New("injected write error")
					}
					return 0, nil
				}
			}
			po := ConnOpts{}
			cut := int64(r.IntN(4000))
			var pipeEnd *Conn
			var done atomic.Int64
			if kind == "cut by peer" || kind == "half close" {
				po.BeforeWrite = func(x *Conn, p []byte) (int, error) {
					if left := cut - done.Add(int64(len(p))) + int64(len(p)); left < int64(len(p)) {
						return int(max(left, 0)), errors.New("cut")
					}
					return 0, nil
				}
				po.AfterWrite = func(x *Conn, p []byte) {
					if done.Load() >= cut {
						if kind == "half close" {
							x.CloseWrite()
						} else {
							x.Close()
						}
					}
				}
			}
			if kind == "certificate refused" {
				if server {
					s.server.ClientAuth, s.client.Certificates, s.client.MaxVersion = tls.RequireAnyClientCert, nil, pick(r, []uint16{tls.VersionTLS12, tls.VersionTLS13})
					s.server.MaxVersion, s.server.MinVersion, s.client.MinVersion = 0, 0, 0
				} else {
					s.client.RootCAs, s.client.InsecureSkipVerify, s.client.ServerName = nil, false, "nobody.test"
				}
			}
			what := fmt.Sprintf("%s (server %v, tls %v, cut %d, %s)", kind, server, useTLS, cut, s.desc)
			dial := func(lib *Conn) {
				pipeEnd = lib.peer
				switch {
				case kind == "garbage":
					pipeEnd.Write(genBytes(r, r.IntN(300)))
					pipeEnd.Close()
				case kind == "nothing":
					pipeEnd.Close()
				case kind == "plain message" || !useTLS:
					p := newWirePeer(pipeEnd, nil, frameOpt{})
					p.SendInit()
					p.Send(&WM{Actor: 0x10000, Action: "hello"})
				case server:
					p := newTLSPeer(pipeEnd, s.client, false, nil, nil)
					Go("hello", func() (any, error) { p.SendInit(); return nil, nil })
				default:
					p := newTLSPeer(pipeEnd, s.server, true, nil, nil)
					Go("hello", func() (any, error) { p.SendInit(); return nil, nil })
				}
			}
			if server {
				l := NewListener(nil)
				var scfg transport.ServerConfig
				if useTLS {
					scfg.TLS = s.server
				}
				srv, _ := transport.Listen(l, scfg)
				sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
				_, b, err := l.Dial(po, lo)
				if err != nil {
					panic(setupError{err})
				}
				dial(b)
				settle()
				// whatever it was, it has failed, or ends now
				if !b.IsClosed() {
					c.Count("still_open", 1)
					pipeEnd.Close()
					settle()
				} else {
					c.Count("failed", 1)
				}
				c.socketClosed(b, what)
				c.noneLeft(what, "transport.(*Server).Serve(")
				l.Close()
				synctest.Wait()
				c.MustReturn(sv, "after its listener was closed")
			} else {
				lib, _ := Pipe(lo, po)
				dial(lib)
				var ccfg transport.ClientConfig
				if useTLS {
					ccfg.TLS = s.client
				}
				var cl *transport.Client
				op := Go("Connect", func() (any, error) {
					x, err := transport.Connect(lib, ccfg)
					cl = x
					return nil, err
				})
				settle()
				if !op.Done() {
					c.Count("still_open", 1)
					pipeEnd.Close()
					settle()
				}
				c.MustReturn(op, "after the peer closed")
				if _, err := op.Get(); err == nil {
					c.Count("succeeded", 1)
					w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
					synctest.Wait()
					pipeEnd.Close()
					synctest.Wait()
					c.MustReturn(w, "after the peer closed")
					c.socketClosed(lib, what)
				} else {
					c.Count("failed", 1)
				}
				c.noneLeft(what)
				lib.Close()
			}
			pipeEnd.Close()
			c.Saw(what)
			c.noneLeft(what + ", all closed")
		})
		c.StopIfFailed(3)
	})
}

func c28piper(c *Ctx) {
	thePKI()
	ways := []string{"client closes", "client half closes", "client resets", "upstream closes", "upstream half closes", "upstream resets", "client sends garbage", "upstream sends garbage", "upstream refused", "upstream gone at once", "client gone at once", "first frame is garbage", "writes to upstream fail", "writes to client fail"}
	c.Cases("run", c.N(500, 12000), func(i int, r *rand.Rand) {
		way := ways[i%len(ways)]
		c.Bubble(func() {
			g := newPiperRig(c, r, i/len(ways), piperFilter)
			what := way + ", " + g.desc()
			base := g.opts
			room := 0
			if r.IntN(2) == 0 && g.up == nil && g.down == nil {
				room = 200 + r.IntN(4000) // less than the flight a tls server sends without reading would block
			}
			var fail atomic.Bool
			g.opts = func() ConnOpts {
				o := base()
				o.Room = room
				o.BeforeWrite = func(*Conn, []byte) (int, error) {
					if fail.Load() {
						return 0, errors.New("injected write error")
					}
					return 0, nil
				}
				return o
			}
			if way == "upstream refused" {
				g.refuse = func(int) error { return errors.New("no such upstream") }
			}
			if way == "first frame is garbage" {
				a, b, err := g.l.Dial(g.opts(), g.opts())
				if err != nil {
					panic(setupError{err})
				}
				go func() {
					a.Write(genBytes(r, 5+r.IntN(200)))
					if r.IntN(2) == 0 {
						a.Close()
					}
				}()
				settle()
				if !b.IsClosed() {
					a.Close()
					settle()
				}
				c.socketClosed(b, what)
				c.noneLeft(what, "transport.(*Piper).Serve(")
				a.Close()
				g.close(nil)
				c.noneLeft(what)
				return
			}
			cl := g.connect()
			var senders []*Op
			flood := func(p *WirePeer, who string) {
				s := r.Uint64()
				senders = append(senders, Go("flood of the "+who, func() (any, error) {
					r := rand.New(rand.NewPCG(s, 2))
					for k := 0; k < 30; k++ {
						if err := p.Send(pipedWM(r, who, k, 500)); err != nil {
							return nil, err
						}
					}
					return nil, nil
				}))
			}
			if way == "client gone at once" {
				go func() {
					cl.peer.Send(pipedWM(r, "client", 0, 100))
				}()
				for k := r.IntN(2000); k > 0 && k%7 != 0; k-- {
					nap(time.Microsecond)
				}
				cl.raw.Close()
			} else {
				flood(cl.peer, "client")
			}
			if way == "upstream gone at once" {
				for q := 0; q < 200 && g.upstream(cl) == nil; q++ {
					nap(20 * time.Microsecond)
				}
				if u := g.upstream(cl); u != nil {
					u.raw.Close()
				}
			}
			synctest.Wait()
			u := g.upstream(cl)
			if u != nil {
				flood(u.peer, "upstream")
				if strings.HasPrefix(way, "writes") || r.IntN(2) == 0 {
					synctest.Wait()
				}
			}
			switch way {
			case "client closes":
				cl.raw.Close()
			case "client half closes":
				cl.raw.CloseWrite()
			case "client resets":
				cl.lib.FailReads(errors.New("connection reset by peer"))
			case "client sends garbage":
				cl.raw.Write(make([]byte, 64))
			}
			if u != nil {
				switch way {
				case "upstream closes", "upstream gone at once":
					u.raw.Close()
				case "upstream half closes":
					u.raw.CloseWrite()
				case "upstream resets":
					u.lib.FailReads(errors.New("connection reset by peer"))
				case "upstream sends garbage":
					u.raw.Write(make([]byte, 64))
				case "writes to upstream fail":
					fail.Store(true)
					cl.raw.o.BeforeWrite = nil
					cl.peer.Send(&WM{Id: genMsgId(r), Actor: 5, Action: "keep x"})
				case "writes to client fail":
					fail.Store(true)
					u.raw.o.BeforeWrite = nil
					u.peer.Send(&WM{Id: genMsgId(r), Actor: 5, Action: "keep x"})
				}
			}
			settle()
			fail.Store(false)
			c.socketClosed(cl.lib, what+": client's side")
			if u != nil {
				c.socketClosed(u.lib, what+": upstream's side")
				c.Count("sessions", 1)
			}
			c.noneLeft(what, "transport.(*Piper).Serve(")
			cl.raw.Close()
			if u != nil {
				u.raw.Close()
			}
			synctest.Wait()
			for _, o := range senders {
				c.MustReturn(o, what)
			}
			c.Count(strings.ReplaceAll(way, " ", "_"), 1)
			c.Saw(fmt.Sprint(what, room))
			g.close([]*pipedClient{cl})
			c.noneLeft(what + ", piper closed")
		})
		c.StopIfFailed(3)
	})
}

func c28nodes(c *Ctx) {
	c.Cases("run", c.N(400, 10000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			ids := genIds(r, 4+r.IntN(4), federation.NodeID{})
			self := federation.NodeInstance{Id: ids[0], InstanceId: uint64(1 + r.IntN(1000))}
			w := newFedWorld(c, self)
			var seeds []federation.SeedNodeInfo
			var nodes []*fedNode
			answer := r.IntN(3)
			for _, id := range ids[1:] {
				n := w.newNode(id, func(n *fedNode, p *WirePeer, m *WM) {
					if m.ExpectsReply && answer == 2 {
						p.Reply(m, &WM{Actor: m.Actor})
					}
				})
				nodes = append(nodes, n)
				seeds = append(seeds, federation.SeedNodeInfo{Id: id, Address: n.addr()})
			}
			w.start(seeds)
			slow := r.IntN(3) == 0
			if slow {
				w.onDial = func(addr string) error {
					nap(time.Duration(addr[len(addr)-1]-'0') * 50 * time.Microsecond)
					return nil
				}
			}
			lp := w.f.Listen(nil)
			var ops []*Op
			var desc []string
			ctx, cancel := context.WithCancel(bg)
			in := w.in(nil)
			for k := 3 + r.IntN(8); k > 0; k-- {
				n := pick(r, nodes)
				switch r.IntN(6) {
				case 0, 1:
					desc = append(desc, "send")
					ops = append(ops, Go("SendOneWay", func() (any, error) { return nil, w.node.SendOneWay(n.id, fedMsgOf("one way")) }))
				case 2:
					desc = append(desc, "route")
					ops = append(ops, Go("Route", func() (any, error) { return w.node.Route(bg, n.id, fedMsgOf("route")) }))
				case 3:
					desc = append(desc, "discover")
					ops = append(ops, Go("Discover", func() (any, error) { return w.node.Discover(ctx) }))
				case 4:
					desc = append(desc, "peer ends")
					synctest.Wait()
					if p := n.lastPeer(); p != nil {
						p.C.Close()
					}
				case 5:
					desc = append(desc, "lease")
					ops = append(ops, Go("Establish", func() (any, error) { return establish(w.agent, lp.addr.String()) }))
				}
				if r.IntN(3) == 0 {
					synctest.Wait()
					// a lost connection is given up
					for _, n := range nodes {
						n.mu.Lock()
						for _, p := range n.peers {
							if x, ok := p.C.(*Conn); ok && x.IsClosed() {
								c.socketClosed(x.peer, fmt.Sprintf("a lost connection of the node (%v)", desc))
							}
						}
						n.mu.Unlock()
					}
				}
			}
			if r.IntN(2) == 0 {
				synctest.Wait()
			}
			var closers []*Op
			for k := 1 + r.IntN(2); k > 0; k-- {
				closers = append(closers, Go("Close", func() (any, error) { return nil, w.node.Close() }))
			}
			if r.IntN(2) == 0 {
				ops = append(ops, Go("SendOneWay after Close", func() (any, error) { return nil, w.node.SendOneWay(nodes[0].id, fedMsgOf("late")) }))
			}
			cancel()
			settle()
			what := fmt.Sprintf("node closed, slow dials %v, %v", slow, desc)
			for _, o := range append(ops, closers...) {
				c.MustReturn(o, "after "+what)
			}
			w.mu.Lock()
			ends := append([]*Conn(nil), w.ends...)
			w.mu.Unlock()
			for k, e := range ends {
				c.socketClosed(e, fmt.Sprintf("connection %d of %d, %s", k, len(ends), what))
			}
			in.C.Close()
			settle()
			c.MustReturn(w.serve, "after "+what)
			c.noneLeft(what)
			c.Count("dialled", int64(len(ends)))
			c.Saw(fmt.Sprint(desc))
			w.stop()
			lp.Close()
		})
		c.StopIfFailed(3)
	})
}

func c28leases(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(400, 10000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%4 == 3)
			w.start()
			var peers []*ltPeer
			for k := 1 + r.IntN(3); k > 0; k-- {
				peers = append(peers, w.newPeer(fmt.Sprintf("p%d.test", k), uint16(k)))
			}
			var desc []string
			type sess struct {
				s   lease.Session
				end *Conn
			}
			var all []sess
			var ops []*Op
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			for k := 4 + r.IntN(8); k > 0 && !c.Failed(); k-- {
				switch r.IntN(7) {
				case 0, 1:
					desc = append(desc, "establish")
					s := w.establish(pick(r, peers))
					if s == nil {
						return
					}
					all = append(all, sess{s, w.ends[len(w.ends)-1]})
				case 2, 3:
					if len(all) > 0 {
						s := pick(r, all).s
						desc = append(desc, "ping")
						ops = append(ops, Go("Ping", func() (any, error) { return nil, s.Ping(bg) }))
					}
				case 4:
					if len(all) > 0 {
						s := pick(r, all).s
						desc = append(desc, "loop")
						ops = append(ops, Go("PingLoop", func() (any, error) { return nil, lease.PingLoop(ctx, s, 10*time.Second) }))
					}
				case 5:
					if len(all) > 0 {
						s := pick(r, all)
						desc = append(desc, "close")
						op := Go("Close of a session", func() (any, error) { return nil, s.s.Close() })
						settle()
						c.MustReturn(op, "")
						c.socketClosed(s.end, fmt.Sprintf("session closed, %v", desc))
					}
				case 6:
					desc = append(desc, "incoming")
					in, err := w.dial()
					if err != nil {
						c.Violation("the agent does not listen: %v", err)
						return
					}
					lib := in.raw.peer
					go func() { in.send(genBytes(r, 40)) }()
					synctest.Wait()
					switch r.IntN(3) {
					case 0:
						in.raw.Close()
					case 1:
						in.raw.CloseWrite()
					case 2:
						lib.FailReads(errors.New("connection reset by peer"))
					}
					settle()
					c.socketClosed(lib, fmt.Sprintf("incoming connection ended, %v", desc))
				}
			}
			if r.IntN(2) == 0 {
				synctest.Wait()
			}
			op := Go("Close of the agent", func() (any, error) { return nil, w.agent.Close() })
			synctest.Wait()
			c.MustReturn(op, "")
			cancel()
			settle()
			what := fmt.Sprintf("agent closed, %v", desc)
			for _, o := range ops {
				c.MustReturn(o, "after "+what)
			}
			for k, e := range w.ends {
				c.socketClosed(e, fmt.Sprintf("session connection %d of %d, %s", k, len(w.ends), what))
			}
			w.stop()
			settle()
			c.noneLeft(what)
			c.Count("sessions", int64(len(all)))
			c.Saw(fmt.Sprint(desc))
		})
		c.StopIfFailed(3)
	})
}

// peerEnds waits in real time until the peer has ended the connection.
func (c *Ctx) peerEnds(x net.Conn, what string) {
	x.SetReadDeadline(time.Now().Add(40 * time.Second))
	b := make([]byte, 4096)
	for {
		_, err := x.Read(b)
		if err == nil {
			continue
		}
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			c.Violation("%s: the socket stays open", what)
		}
		break
	}
	c.Count("socket_checks", 1)
	x.Close()
}

func c28tcp(c *Ctx) {
	thePKI()
	// a finalizer would close what the library forgot
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	defer l.Close()
	c.Cases("run", c.N(60, 600), func(i int, r *rand.Rand) {
		accept := func() (net.Conn, bool) {
			l.(*net.TCPListener).SetDeadline(time.Now().Add(30 * time.Second))
			x, err := l.Accept()
			if err != nil {
				c.Inconclusive("accept: %v", err)
				return nil, false
			}
			return x, true
		}
		kind := []string{"refused certificate", "garbage", "closed", "alert", "good", "node", "agent"}[i%7]
		c.Saw(fmt.Sprint(i))
		switch kind {
		case "node":
			self := genIds(r, 2, federation.NodeID{})
			sl := NewListener(nil)
			srv, _ := transport.Listen(sl, transport.ServerConfig{})
			cfg := lease.AgentConfig{AppId: "verif"}
			cfg.SetDefault()
			ag, _ := lease.NewAgent(cfg, NewListener(nil), lease.TcpDialer)
			nc := federation.SiteNodeConfig{TransportServer: srv, LeaseAgent: ag, Instance: federation.NodeInstance{Id: self[0], InstanceId: 5},
				SeedNodes: []federation.SeedNodeInfo{{Id: self[1], Address: l.Addr().String()}}}
			s := newTLSSetup(r, i)
			useTLS := i%2 == 0
			if useTLS {
				nc.ClientTLS = s.client
			}
			node, err := federation.NewSiteNode(nc)
			if err != nil {
				panic(setupError{err})
			}
			op := Go("SendOneWay", func() (any, error) { return nil, node.SendOneWay(self[1], fedMsgOf("hello")) })
			x, ok := accept()
			if !ok {
				return
			}
			var p *WirePeer
			if useTLS {
				p = newTLSPeer(x, s.server, true, nil, nil).WirePeer
			} else {
				p = newWirePeer(x, nil, frameOpt{})
			}
			go p.SendInit()
			if p.RecvApp() == nil {
				_, err := p.Ended()
				c.Violation("a node's message over tcp does not arrive: %v", err)
			}
			<-op.ch
			node.Close()
			select {
			case <-p.endCh(40 * time.Second):
			case <-time.After(41 * time.Second):
			}
			if done, _ := p.Ended(); !done {
				c.Violation("a node that was closed leaves its connection open (tls %v)", useTLS)
			}
			x.Close()
		case "agent":
			cfg := lease.AgentConfig{AppId: "verif"}
			cfg.SetDefault()
			ag, err := lease.NewTcpListeningAgent(cfg, "127.0.0.1:0")
			if err != nil {
				c.Inconclusive("agent: %v", err)
				return
			}
			w := Go("Wait", func() (any, error) { return nil, ag.Wait() })
			s, err := establish(ag, l.Addr().String())
			if err != nil {
				c.Violation("Establish over tcp: %v", err)
				ag.Close()
				return
			}
			x, ok := accept()
			if !ok {
				return
			}
			if i%2 == 0 {
				s.Close()
				c.peerEnds(x, "a lease session that was closed")
				ag.Close()
			} else {
				ag.Close()
				c.peerEnds(x, "the session of an agent that was closed")
			}
			<-w.ch
		default:
			s := newTLSSetup(r, i)
			if kind == "refused certificate" {
				s.client.RootCAs, s.client.InsecureSkipVerify, s.client.ServerName = nil, false, "nobody.test"
			}
			var cl *transport.Client
			op := Go("DialTCP", func() (any, error) {
				x, err := transport.DialTCP(l.Addr().String(), transport.ClientConfig{Config: transport.Config{TLS: s.client}})
				cl = x
				return nil, err
			})
			x, ok := accept()
			if !ok {
				return
			}
			switch kind {
			case "garbage":
				x.Write(genBytes(r, 200))
				x.(*net.TCPConn).CloseWrite()
			case "closed":
				x.(*net.TCPConn).CloseWrite()
			case "alert":
				x.Write((&WM{Actor: 35, Id: genMsgId(r), Body: []byte{21, 3, 3, 0, 2, 2, 40}}).encode(frameOpt{Mask: 1, NoHCRC: true}))
			default:
				p := newTLSPeer(x, s.server, true, nil, nil)
				go p.SendInit()
			}
			<-op.ch
			_, err := op.Get()
			if kind == "good" {
				if err != nil {
					c.Violation("DialTCP: %v", err)
					x.Close()
					return
				}
				w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
				cl.Close()
				<-w.ch
			} else if err == nil {
				c.Violation("DialTCP succeeds although the handshake failed (%s)", kind)
				cl.Close()
			}
			c.Count(strings.ReplaceAll(kind, " ", "_"), 1)
			c.peerEnds(x, "DialTCP: "+kind+", "+s.desc)
		}
		c.StopIfFailed(3)
	})
}

// endCh is closed when the peer's stream has ended, or after d.
func (p *WirePeer) endCh(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		for t := time.Now(); time.Since(t) < d; time.Sleep(time.Millisecond) {
			if done, _ := p.Ended(); done {
				return
			}
		}
	}()
	return ch
}

package harness

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"sync"
	"testing/synctest"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/transport"
)

// C31: servers, pipers and nodes serve until they are stopped.

func init() {
	register("C31", "server", "accepts, temporary accept errors, callbacks that take long, callback changes, answers from callbacks and later, then every way to stop", c31server)
	register("C31", "piper", "pipers with temporary accept errors and sessions that go on after the listener ended", c31piper)
	register("C31", "node", "site nodes whose transport server or lease agent stops, or that are closed, before and while serving", c31node)
}

var errForGood = errors.New("accept failed for good")

// stopWays end a serving loop.
var stopWays = []string{"close", "close twice", "close at once from many", "listener closed", "accept fails for good", "close before serving"}

// serveEnds judges that a Serve call returned with an error.
func (c *Ctx) serveEnds(serve *Op, way, what string) {
	if !c.MustReturn(serve, "after "+what) {
		return
	}
	_, err := serve.Get()
	if err == nil {
		c.Violation("%s: Serve returns no error", what)
	} else if way == "accept fails for good" && !errors.Is(err, errForGood) {
		c.Violation("%s: Serve returns %v instead of what failed", what, err)
	}
	c.Count("stopped", 1)
}

func c31server(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(700, 15000), func(i int, r *rand.Rand) {
		way := stopWays[i%len(stopWays)]
		c.Bubble(func() {
			type seen struct {
				cb     int
				conn   transport.Conn
				action string
				body   string
			}
			var mu sync.Mutex
			var log []seen
			gate := make(chan struct{})
			callback := func(n int) transport.MessageCallback {
				return func(cn transport.Conn, m *transport.ByteArrayMessage) {
					mu.Lock()
					log = append(log, seen{n, cn, m.Headers.Action, string(m.Body)})
					mu.Unlock()
					if m.Headers.Action[0] == 'b' {
						<-gate // takes as long as it takes
					}
					if m.Headers.ExpectsReply {
						reply := &transport.Message{Body: append([]byte(fmt.Sprintf("by %d: ", n)), m.Body...)}
						reply.Headers.Actor, reply.Headers.RelatesTo = m.Headers.Actor, m.Headers.Id
						cn.SendOneWay(reply)
					}
				}
			}
			l := NewListener(nil)
			cfg := transport.ServerConfig{Config: transport.Config{GenerateFrameBodyCRC: i%2 == 0}}
			cur := r.IntN(2)
			if cur == 1 {
				cfg.MessageCallback = callback(1)
			}
			var setup *tlsSetup
			if (i/len(stopWays))%3 == 2 {
				setup = newTLSSetup(r, i)
				cfg.TLS = setup.server
			}
			srv, err := transport.Listen(l, cfg)
			if err != nil {
				panic(setupError{err})
			}
			if srv.Addr() != l.addr {
				c.Violation("the server's address is %v, its listener's %v", srv.Addr(), l.addr)
			}
			what := fmt.Sprintf("%s (tls %v)", way, setup != nil)
			if way == "close before serving" {
				srv.Close()
				if !l.closedForGood() {
					c.Violation("%s: the listener stays open", what)
				}
				c.serveEnds(Go("Serve", func() (any, error) { return nil, srv.Serve() }), way, what)
				return
			}
			serve := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			type peer struct {
				p       *WirePeer
				raw     *Conn
				lib     *Conn
				cn      transport.Conn
				replies map[transport.MessageId]string
				pushed  []string
				ended   bool
			}
			var peers []*peer
			live := func() []*peer {
				var x []*peer
				for _, p := range peers {
					if !p.ended {
						x = append(x, p)
					}
				}
				return x
			}
			open := func() *peer {
				if !l.Ready() {
					c.Violation("%s: the server does not accept any more", what)
					return nil
				}
				raw, lib, err := l.Dial(ConnOpts{}, ConnOpts{RandYield: r.Uint64() | 1})
				if err != nil {
					c.Violation("%s: the listener is closed", what)
					return nil
				}
				x := &peer{raw: raw, lib: lib, replies: map[transport.MessageId]string{}}
				if setup != nil {
					x.p = newTLSPeer(raw, setup.client, false, nil, nil).WirePeer
				} else {
					x.p = newWirePeer(raw, nil, frameOpt{BCRC: true})
				}
				peers = append(peers, x)
				op := Go("send", func() (any, error) { return nil, x.p.SendInit() })
				synctest.Wait()
				if !op.Done() || len(x.p.Got()) == 0 {
					settle()
				}
				if !op.Done() || len(x.p.Got()) == 0 {
					c.Violation("%s: connection %d is not served", what, len(peers))
					return nil
				}
				c.Count("accepted", 1)
				return x
			}
			expect := map[string]int{} // action: callback
			sender := map[string]*peer{}
			seq := 0
			say := func(x *peer, kind string) {
				seq++
				m := decorate(r, &WM{Actor: pick(r, []int64{2, 5, 0x10000}), Action: fmt.Sprintf("%s %d", kind, seq), Body: []byte(fmt.Sprintf("body %d of %d", seq, r.Uint32())), ExpectsReply: r.IntN(2) == 0})
				m.RelatesTo = transport.MessageId{}
				if err := x.p.Send(m); err != nil {
					c.Violation("%s: sending to the server: %v", what, err)
					return
				}
				if cur != 0 {
					expect[m.Action] = cur
					sender[m.Action] = x
					if m.ExpectsReply {
						x.replies[m.Id] = fmt.Sprintf("by %d: %s", cur, m.Body)
					}
				}
				c.Count("messages", 1)
			}
			next := cur
			for k := 10 + r.IntN(25); k > 0 && !c.Failed(); k-- {
				ps := live()
				switch x := r.IntN(12); {
				case len(ps) == 0 || x == 0:
					open()
				case x < 6:
					say(pick(r, ps), "message")
				case x == 6:
					say(pick(r, ps), "blocking")
				case x == 7:
					for n := 1 + r.IntN(3); n > 0; n-- {
						l.Inject(tempErr{"temporary accept error"})
					}
					c.Count("accept_errors", 1)
				case x == 8:
					synctest.Wait()
					if r.IntN(6) == 0 {
						cur = 0
						srv.SetMessageCallback(nil)
					} else {
						next++
						cur = next
						srv.SetMessageCallback(callback(next))
					}
				case x == 9:
					synctest.Wait()
					p := pick(r, ps)
					p.raw.Close()
					p.ended = true
				case x == 10:
					synctest.Wait()
					mu.Lock()
					var s *seen
					if len(log) > 0 {
						e := log[r.IntN(len(log))]
						s = &e
					}
					mu.Unlock()
					if s == nil || sender[s.action] == nil || sender[s.action].ended {
						break
					}
					seq++
					a := fmt.Sprintf("pushed %d", seq)
					m := &transport.Message{Body: []byte(a)}
					m.Headers.Actor, m.Headers.Action = 5, a
					if err := s.conn.SendOneWay(m); err != nil {
						c.Violation("%s: sending on the connection given to a callback: %v", what, err)
					}
					sender[s.action].pushed = append(sender[s.action].pushed, a)
				default:
					synctest.Wait()
				}
			}
			check := func(when string) {
				synctest.Wait()
				mu.Lock()
				defer mu.Unlock()
				got := map[string]int{}
				conns := map[*peer]transport.Conn{}
				for _, s := range log {
					got[s.action]++
					x := sender[s.action]
					if want, ok := expect[s.action]; !ok {
						c.Violation("%s, %s: callback %d got %q, sent while there was none", what, when, s.cb, s.action)
					} else if want != s.cb {
						c.Violation("%s, %s: callback %d got %q, sent when callback %d was set", what, when, s.cb, s.action, want)
					} else if o, ok := conns[x]; ok && o != s.conn {
						c.Violation("%s, %s: messages of one connection come with different connections", what, when)
					} else {
						conns[x] = s.conn
					}
				}
				for a := range expect {
					if got[a] != 1 {
						c.Violation("%s, %s: %q reached the callback %d times", what, when, a, got[a])
					}
				}
			}
			check("callbacks still running")
			close(gate)
			check("callbacks done")
			replies := func(when string) {
				for n, x := range peers {
					if x.ended {
						continue
					}
					left := map[transport.MessageId]string{}
					for k, v := range x.replies {
						left[k] = v
					}
					push := map[string]int{}
					for _, a := range x.pushed {
						push[a]++
					}
					for _, m := range x.p.GotApp() {
						if m.Action != "" {
							push[m.Action]--
							if push[m.Action] != 0 || m.Action != string(m.Body) {
								c.Violation("%s, %s: connection %d got %v", what, when, n, m)
							}
							delete(push, m.Action)
							continue
						}
						if w, ok := left[m.RelatesTo]; !ok || w != string(m.Body) {
							c.Violation("%s, %s: connection %d got the answer %q to its %v, wanted %q", what, when, n, m.Body, m.RelatesTo, w)
						}
						delete(left, m.RelatesTo)
					}
					if len(left)+len(push) > 0 {
						c.Violation("%s, %s: connection %d misses answers %v and %v", what, when, n, left, push)
					}
					c.Count("answers", int64(len(x.replies)))
				}
			}
			replies("before the end")
			if len(live()) == 0 && !c.Failed() {
				open()
			}
			if !l.Ready() {
				c.Violation("%s: the server does not accept any more", what)
			}
			if serve.Done() {
				_, err := serve.Get()
				c.Violation("%s: Serve ends too early: %v", what, err)
			}
			switch way {
			case "close", "close twice":
				srv.Close()
				if way == "close twice" {
					if m := catch(func() { srv.Close() }); m != "" {
						c.Violation("closing a server twice panics: %s", m)
					}
				}
			case "close at once from many":
				for k := 0; k < 4; k++ {
					c.MustReturn(Go("Close", func() (any, error) { srv.Close(); return nil, nil }), what)
				}
			case "listener closed":
				l.Close()
			case "accept fails for good":
				l.Inject(errForGood)
			}
			c.serveEnds(serve, way, what)
			if way != "accept fails for good" && !l.closedForGood() {
				c.Violation("%s: the listener stays open", what)
			}
			// what was accepted goes on
			for _, x := range live() {
				say(x, "message after the end")
			}
			check("after the end")
			replies("after the end")
			c.Saw(fmt.Sprintf("%s %v", what, seq))
			for _, x := range peers {
				x.raw.Close()
			}
			settle()
			l.Close()
		})
		c.StopIfFailed(3)
	})
}

// closedForGood: nothing can be dialled any more.
func (l *Listener) closedForGood() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.shut
}

func c31piper(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(300, 6000), func(i int, r *rand.Rand) {
		way := []string{"listener closed", "accept fails for good"}[i%2]
		c.Bubble(func() {
			l := NewListener(nil)
			var mu sync.Mutex
			ups := map[string]*WirePeer{}
			var raws []*Conn
			piper, err := transport.NewPiper(l, transport.PiperConfig{FindUpstream: func(h *transport.MessageHeaders, cn net.Conn) (net.Conn, transport.Config, error) {
				a, b := Pipe(ConnOpts{}, ConnOpts{})
				mu.Lock()
				ups[cn.RemoteAddr().String()] = newWirePeer(b, nil, frameOpt{})
				raws = append(raws, b)
				mu.Unlock()
				return a, transport.Config{}, nil
			}})
			if err != nil {
				panic(setupError{err})
			}
			serve := Go("Serve", func() (any, error) { return nil, piper.Serve() })
			what := "piper, " + way
			type sess struct {
				p    *WirePeer
				raw  *Conn
				up   *WirePeer
				sent int
			}
			var all []*sess
			say := func(s *sess) {
				s.sent++
				if err := s.p.Send(&WM{Actor: 5, Action: fmt.Sprintf("up %d", s.sent)}); err != nil {
					c.Violation("%s: %v", what, err)
				}
				if err := s.up.Send(&WM{Actor: 5, Action: fmt.Sprintf("down %d", s.sent)}); err != nil {
					c.Violation("%s: %v", what, err)
				}
			}
			for k := 5 + r.IntN(12); k > 0 && !c.Failed(); k-- {
				switch x := r.IntN(4); {
				case len(all) == 0 || x == 0:
					if !l.Ready() {
						c.Violation("%s: the piper does not accept any more", what)
						return
					}
					raw, _, err := l.Dial(ConnOpts{}, ConnOpts{})
					if err != nil {
						c.Violation("%s: the listener is closed", what)
						return
					}
					s := &sess{p: newWirePeer(raw, nil, frameOpt{}), raw: raw}
					s.p.SendInit()
					settle()
					mu.Lock()
					s.up = ups[raw.LocalAddr().String()]
					mu.Unlock()
					if s.up == nil {
						c.Violation("%s: connection %d is not served", what, len(all))
						return
					}
					all = append(all, s)
				case x == 1:
					l.Inject(tempErr{"temporary accept error"})
					c.Count("accept_errors", 1)
				default:
					say(pick(r, all))
				}
			}
			l.Ready()
			if serve.Done() {
				_, err := serve.Get()
				c.Violation("%s: Serve ends too early: %v", what, err)
			}
			if way == "listener closed" {
				l.Close()
			} else {
				l.Inject(errForGood)
			}
			c.serveEnds(serve, way, what)
			for _, s := range all {
				say(s)
			}
			settle()
			for n, s := range all {
				u, d := s.up.GotApp(), s.p.GotApp()
				if len(u) != s.sent || len(d) != s.sent {
					c.Violation("%s: session %d passed %d and %d of %d messages", what, n, len(u), len(d), s.sent)
					continue
				}
				for k := range u {
					if u[k].Action != fmt.Sprintf("up %d", k+1) || d[k].Action != fmt.Sprintf("down %d", k+1) {
						c.Violation("%s: session %d passed %q and %q as message %d", what, n, u[k].Action, d[k].Action, k+1)
					}
				}
				c.Count("messages", int64(2*s.sent))
			}
			c.Saw(fmt.Sprintf("%s %d", what, len(all)))
			for _, s := range all {
				s.raw.Close()
			}
			mu.Lock()
			for _, x := range raws {
				x.Close()
			}
			mu.Unlock()
			settle()
			l.Close()
		})
		c.StopIfFailed(3)
	})
}

func c31node(c *Ctx) {
	ways := []string{"close", "close twice", "close before serving", "transport listener closed", "transport accept fails for good", "lease listener closed", "transport server closed", "lease agent closed"}
	c.Cases("run", c.N(400, 8000), func(i int, r *rand.Rand) {
		way := ways[i%len(ways)]
		c.Bubble(func() {
			ids := genIds(r, 3, federation.NodeID{})
			w := newFedWorld(c, federation.NodeInstance{Id: ids[0], InstanceId: uint64(1 + r.IntN(100))})
			w.serveNode = true
			n := w.newNode(ids[1], nil)
			what := "site node, " + way
			w.beforeServe = func() {
				if way == "close before serving" {
					w.node.Close()
				}
			}
			w.start([]federation.SeedNodeInfo{{Id: n.id, Address: n.addr()}})
			if way != "close before serving" {
				for k := r.IntN(4); k > 0; k-- {
					w.srvL.Inject(tempErr{"temporary accept error"})
				}
				if r.IntN(2) == 0 {
					w.leaseL.Inject(tempErr{"temporary accept error"})
				}
				if !w.srvL.Ready() || !w.leaseL.Ready() {
					c.Violation("%s: the node does not accept connections on both of its listeners", what)
					w.stop()
					return
				}
				// partner information and lease traffic are both served
				in := w.in(nil)
				x := genInfo(r, ids[2], "told")
				w.announce(in, x)
				raw, _, err := w.leaseL.Dial(ConnOpts{Record: true}, ConnOpts{Record: true})
				if err != nil {
					panic(setupError{err})
				}
				settle()
				known := w.node.KnownPartnerNodes(func(p federation.PartnerNodeInfo) bool { return p.Instance.Id == ids[2] })
				if len(known) != 1 {
					c.Violation("%s: a node that announced itself is not known", what)
				}
				if raw.in.wtotal == 0 {
					c.Violation("%s: a lease connection gets no connect frame", what)
				}
				raw.Close()
				if w.serve.Done() {
					_, err := w.serve.Get()
					c.Violation("%s: Serve ends too early: %v", what, err)
				}
				if r.IntN(2) == 0 {
					c.MustReturn(Go("SendOneWay", func() (any, error) { return nil, w.node.SendOneWay(n.id, fedMsgOf("x")) }), what)
				}
			}
			switch way {
			case "close", "close twice":
				c.MustReturn(Go("Close", func() (any, error) { return nil, w.node.Close() }), what)
			case "transport listener closed":
				w.srvL.Close()
			case "transport accept fails for good":
				w.srvL.Inject(errForGood)
			case "lease listener closed":
				w.leaseL.Close()
			case "transport server closed":
				w.srv.Close()
			case "lease agent closed":
				w.agent.Close()
			}
			c.serveEnds(w.serve, map[string]string{"transport accept fails for good": "accept fails for good"}[way], what)
			var again []*Op
			for k := 1 + r.IntN(2); k > 0; k-- {
				again = append(again, Go("Close again", func() (any, error) {
					if m := catch(func() { w.node.Close() }); m != "" {
						return nil, errors.New(m)
					}
					return nil, nil
				}))
			}
			settle()
			for _, o := range again {
				if c.MustReturn(o, what) {
					if _, err := o.Get(); err != nil {
						c.Violation("%s: closing again panics: %v", what, err)
					}
				}
			}
			if !w.srvL.closedForGood() || !w.leaseL.closedForGood() {
				c.Violation("%s: the closed node still listens (transport %v, lease %v)", what, !w.srvL.closedForGood(), !w.leaseL.closedForGood())
			}
			for _, x := range w.clients {
				x.Close()
			}
			settle()
			c.noneLeft(what)
			w.stop()
			c.Saw(what)
		})
		c.StopIfFailed(3)
	})
}

package harness

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C13", "traffic", "sequences both ways against the filter's decisions, TLS on either side, several clients", c13traffic)
	register("C13", "library", "library clients and servers through a piper: requests, replies, heartbeats", c13library)
	register("C13", "ends", "either side ends after sending, in every way; upstream unreachable", c13ends)
	register("C14", "wire", "ids of everything on the wire: init, handshake, heartbeats, requests, one-way, replies", c14wire)
	register("C14", "generators", "generators used concurrently beside connections", c14generators)
}

// verdicts a filter takes by the message's action
const (
	vKeep, vDrop, vRewrite, vBody, vHeader, vEmpty, vStruct = "keep", "drop", "rewrite", "body", "header", "empty", "struct"
)

func filterOf(m *WM) string {
	for _, v := range []string{vDrop, vRewrite, vBody, vHeader, vEmpty, vStruct} {
		if strings.HasPrefix(m.Action, v+" ") {
			return v
		}
	}
	return vKeep
}

// applyFilter is what the filter makes of a message on the way.
func applyFilter(m *WM) *WM {
	w := *m.delivered()
	switch filterOf(m) {
	case vDrop:
		return nil
	case vRewrite:
		w.Action = "rewritten " + m.Action
		w.RelatesTo = transport.MessageId{Index: 4711}
		w.Actor = 5
	case vBody:
		w.Body = []byte("new body of " + m.Action)
	case vEmpty:
		w.Body = nil
	case vStruct:
		w.Body = RefEncode(&strObj{m.Action}, RefOpts{})
	case vHeader:
		w.Custom = append(append([]RawHeader(nil), w.Custom...), RawHeader{0x9000, []byte("added by the filter")})
		w.HighPriority = !w.HighPriority
	}
	return &w
}

func piperFilter(src, dst net.Conn, m *transport.ByteArrayMessage) *transport.Message {
	w := &WM{Action: m.Headers.Action}
	n := &transport.Message{Headers: m.Headers, Body: m.Body}
	switch filterOf(w) {
	case vDrop:
		return nil
	case vRewrite:
		n.Headers.Action = "rewritten " + m.Headers.Action
		n.Headers.RelatesTo = transport.MessageId{Index: 4711}
		n.Headers.Actor = 5
	case vBody:
		n.Body = []byte("new body of " + m.Headers.Action)
	case vEmpty:
		n.Body = nil
	case vStruct:
		n.Body = &strObj{m.Headers.Action}
	case vHeader:
		n.Headers.AppendCustomHeader(0x9000, []byte("added by the filter"))
		n.Headers.HighPriority = !n.Headers.HighPriority
	}
	return n
}

func pipedWM(r *rand.Rand, who string, k, max int) *WM {
	m := genWM(r, max)
	m.Id = genMsgId(r)
	m.Action = fmt.Sprintf("%s %s %d", pick(r, []string{vKeep, vKeep, vKeep, vDrop, vRewrite, vBody, vHeader, vEmpty, vStruct}), who, k)
	return m
}

type upstreamEnd struct {
	lib  *Conn // the piper's end
	peer *WirePeer
	raw  *Conn
	key  string

	first *transport.MessageHeaders // as FindUpstream got them
}

// headersOnly is a message as it arrives, without its body.
func (m *WM) headersOnly() *WM {
	w := *m.delivered()
	w.Body = nil
	return &w
}

// piperRig runs a piper whose clients and upstreams are independent wire peers.
type piperRig struct {
	c        *Ctx
	l        *Listener
	serve    *Op
	down, up *tlsSetup
	mu       sync.Mutex
	ups      map[string]*upstreamEnd // by client address
	refuse   func(n int) error
	opts     func() ConnOpts
	calls    int
	r        *rand.Rand
	upAuto   func(p *WirePeer, m *WM)
	cfg      transport.Config
	ucfg     transport.Config
}

// sums: the checksums a peer generates, at least those that are checked.
func sums(cfg transport.Config, seed uint64) frameOpt {
	return frameOpt{BCRC: cfg.CheckFrameBodyCRC || seed%2 == 0, NoHCRC: cfg.DisableCheckFrameHeaderCRC && seed%3 > 0}
}

func newPiperRig(c *Ctx, r *rand.Rand, i int, filter transport.MessageTransformer) *piperRig {
	g := &piperRig{c: c, l: NewListener(nil), ups: map[string]*upstreamEnd{}, r: r}
	g.cfg, g.ucfg = genConfig(r), genConfig(r)
	if i%2 == 1 {
		g.down = newTLSSetup(r, i/2)
		g.cfg.TLS = g.down.server
	}
	if (i/2)%2 == 1 {
		g.up = newTLSSetup(r, i/4)
		g.ucfg.TLS = g.up.client
	}
	var seeds atomic.Uint64
	seeds.Store(r.Uint64())
	g.opts = func() ConnOpts {
		seed := seeds.Add(1)
		return ConnOpts{ReadChunk: chunker(rand.New(rand.NewPCG(seed, 1))), RandYield: seed | 1}
	}
	piper, err := transport.NewPiper(g.l, transport.PiperConfig{Config: g.cfg, Filter: filter, FindUpstream: func(h *transport.MessageHeaders, cn net.Conn) (net.Conn, transport.Config, error) {
		g.mu.Lock()
		defer g.mu.Unlock()
		g.calls++
		if g.down != nil {
			// who the client is decides in some pipers where it may go
			t, ok := cn.(interface{ ConnectionState() tls.ConnectionState })
			if !ok {
				c.Violation("piper with TLS (%s): the upstream is looked up without the TLS connection, with a %T", g.down.desc, cn)
			} else if st := t.ConnectionState(); !st.HandshakeComplete || (g.down.clientAuth && len(g.down.client.Certificates) > 0 && len(st.PeerCertificates) == 0) {
				c.Violation("piper with TLS (%s): the upstream is looked up before the client is known (handshake complete %v, %d certificates)", g.down.desc, st.HandshakeComplete, len(st.PeerCertificates))
			}
			c.Count("secure_lookups", 1)
		}
		if g.refuse != nil {
			if err := g.refuse(g.calls); err != nil {
				return nil, transport.Config{}, err
			}
		}
		a, b := Pipe(g.opts(), g.opts())
		u := &upstreamEnd{lib: a, raw: b, key: cn.RemoteAddr().String(), first: h}
		if g.up != nil {
			t := newTLSPeer(b, g.up.server, true, g.upAuto, nil)
			u.peer = t.WirePeer
		} else {
			u.peer = newWirePeer(b, g.upAuto, sums(g.ucfg, seeds.Add(1)))
		}
		g.ups[u.key] = u
		return a, g.ucfg, nil
	}})
	if err != nil {
		panic(setupError{err})
	}
	g.serve = Go("piper Serve", func() (any, error) { return nil, piper.Serve() })
	return g
}

type pipedClient struct {
	peer *WirePeer
	raw  *Conn
	lib  *Conn // the piper's end
	key  string
}

func (g *piperRig) connect() *pipedClient {
	a, b, err := g.l.Dial(g.opts(), g.opts())
	if err != nil {
		panic(setupError{err})
	}
	p := &pipedClient{raw: a, lib: b, key: a.LocalAddr().String()}
	if g.down != nil {
		p.peer = newTLSPeer(a, g.down.client, false, nil, nil).WirePeer
	} else {
		p.peer = newWirePeer(a, nil, sums(g.cfg, uint64(len(p.key))+uint64(p.key[len(p.key)-1])))
	}
	return p
}

func (g *piperRig) upstream(p *pipedClient) *upstreamEnd {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.ups[p.key]
}

func (g *piperRig) upstreamOf(client string) *upstreamEnd {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.ups[client]
}

func (g *piperRig) desc() string {
	s := "plain client, "
	if g.down != nil {
		s = "client " + g.down.desc + ", "
	}
	if g.up != nil {
		return s + "upstream " + g.up.desc
	}
	return s + "plain upstream"
}

func (g *piperRig) close(clients []*pipedClient) {
	g.l.Close()
	for _, p := range clients {
		p.raw.Close()
		p.lib.Close()
	}
	g.mu.Lock()
	for _, u := range g.ups {
		u.raw.Close()
		u.lib.Close()
	}
	g.mu.Unlock()
	synctest.Wait()
	g.c.MustReturn(g.serve, "after its listener closed")
}

// comparePiped: got, without the piper's own init message in front, is what want became.
func (c *Ctx) comparePiped(got, want []*WM, what string) {
	if len(got) == 0 {
		c.Violation("%s: not even an init message arrived", what)
		return
	}
	if got[0].Actor != int64(transport.MessageActorTypeTransport) {
		c.Violation("%s: the piper's init message is not the first", what)
		return
	}
	got = got[1:]
	for k := 0; k < len(got) && k < len(want); k++ {
		if d := diffCommon(want[k], got[k]); d != "" {
			c.Violation("%s: message %d (%q): %s", what, k, want[k].Action, d)
			return
		}
	}
	if len(got) != len(want) {
		c.Violation("%s: %d messages arrived, want %d", what, len(got), len(want))
	}
}

func filtered(l []*WM, filter bool, first bool) []*WM {
	var o []*WM
	for i, m := range l {
		w := m.delivered()
		if filter && !(first && i == 0) {
			w = applyFilter(m)
		}
		if w != nil {
			o = append(o, w)
		}
	}
	return o
}

func c13traffic(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(400, 10000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var f transport.MessageTransformer
			if r.IntN(4) > 0 {
				f = piperFilter
			}
			// which way a message goes is what the filter is told
			var g *piperRig
			var wrong atomic.Pointer[string]
			if f != nil {
				f = func(src, dst net.Conn, m *transport.ByteArrayMessage) *transport.Message {
					from, to := src.RemoteAddr().String(), dst.LocalAddr().String()
					what := ""
					switch {
					case strings.Contains(m.Headers.Action, "client "):
						if u := g.upstreamOf(from); u == nil || u.lib.LocalAddr().String() != to {
							what = "a message of a client"
						}
					case strings.Contains(m.Headers.Action, "upstream "):
						if u := g.upstreamOf(dst.RemoteAddr().String()); u == nil || u.lib.LocalAddr().String() != src.LocalAddr().String() {
							what = "a message of an upstream"
						}
					}
					if what != "" {
						what = fmt.Sprintf("%s (%q) is filtered as one from %v to %v", what, m.Headers.Action, from, dst.RemoteAddr())
						wrong.Store(&what)
					}
					return piperFilter(src, dst, m)
				}
			}
			g = newPiperRig(c, r, i, f)
			n := 1 + r.IntN(4)
			max := pick(r, []int{100, 5000, 40000})
			var cs []*pipedClient
			sentUp, sentDown := make([][]*WM, n), make([][]*WM, n)
			send := func(p *WirePeer, who string, l *[]*WM, max int) {
				m := pipedWM(r, who, len(*l), max)
				if len(*l) == 0 {
					m.Action = "first of " + who
					if r.IntN(2) == 0 {
						m.Actor, m.Action = 1, ""
					}
				} else if r.IntN(12) == 0 {
					m = &WM{Id: genMsgId(r), Actor: 1, Action: pick(r, []string{"HeartbeatRequest", "HeartbeatResponse"}), Body: genBytes(r, 20), HighPriority: true}
				}
				*l = append(*l, m)
				p.Send(m)
			}
			for k := 0; k < n; k++ {
				p := g.connect()
				cs = append(cs, p)
				send(p.peer, fmt.Sprintf("client %d", k), &sentUp[k], 1000)
				if r.IntN(2) == 0 {
					synctest.Wait()
				}
			}
			synctest.Wait()
			ok := true
			for k, p := range cs {
				if g.upstream(p) == nil {
					c.Violation("no upstream for client %d (%s)", k, g.desc())
					ok = false
				}
			}
			for x := r.IntN(30); x > 0 && ok; x-- {
				k := r.IntN(n)
				if r.IntN(2) == 0 {
					send(cs[k].peer, fmt.Sprintf("client %d", k), &sentUp[k], max)
				} else {
					send(g.upstream(cs[k]).peer, fmt.Sprintf("upstream %d", k), &sentDown[k], max)
				}
				if r.IntN(6) == 0 {
					synctest.Wait()
				}
			}
			synctest.Wait()
			if e := wrong.Load(); e != nil {
				c.Violation("%s (%s)", *e, g.desc())
			}
			for k, p := range cs {
				if !ok {
					break
				}
				if u := g.upstream(p); g.down == nil {
					if d := diffCommon(sentUp[k][0].headersOnly(), bamWM(&transport.ByteArrayMessage{Headers: *u.first})); d != "" {
						c.Violation("FindUpstream is not given the headers of the client's first message: %s", d)
					}
				}
				what := fmt.Sprintf("client %d of %d (%s)", k, n, g.desc())
				// the first message of a secure connection is the handshake, which stays with the piper
				c.comparePiped(g.upstream(p).peer.Got(), filtered(sentUp[k], f != nil, g.down == nil), "to the upstream of "+what)
				c.comparePiped(p.peer.Got(), filtered(sentDown[k], f != nil, false), "to "+what)
				c.Count("messages", int64(len(sentUp[k])+len(sentDown[k])))
			}
			c.Saw(fmt.Sprint(i, n))
			g.close(cs)
		})
		c.StopIfFailed(3)
	})
}

func c13library(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(60, 1500), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var ucfg, pcfg, ccfg transport.Config
			pu := transport.Config{}
			if i%2 == 1 {
				t := newTLSSetup(r, i/2)
				pcfg.TLS, ccfg.TLS = t.server, t.client
			}
			if (i/2)%2 == 1 {
				t := newTLSSetup(r, i/4)
				ucfg.TLS, pu.TLS = t.server, t.client
			}
			ul := NewListener(nil)
			var atServer inbox
			usrv, _ := transport.Listen(ul, transport.ServerConfig{Config: ucfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				atServer.cb(cn, m)
				echoCallback(cn, m)
			}})
			us := Go("upstream Serve", func() (any, error) { return nil, usrv.Serve() })
			pl := NewListener(nil)
			var drops atomic.Int64
			piper, _ := transport.NewPiper(pl, transport.PiperConfig{Config: pcfg,
				Filter: func(src, dst net.Conn, m *transport.ByteArrayMessage) *transport.Message {
					if strings.HasPrefix(m.Headers.Action, "drop") {
						drops.Add(1)
						return nil
					}
					return &transport.Message{Headers: m.Headers, Body: m.Body}
				},
				FindUpstream: func(*transport.MessageHeaders, net.Conn) (net.Conn, transport.Config, error) {
					a, _, err := ul.Dial(ConnOpts{RandYield: 77}, ConnOpts{RandYield: 5})
					return a, pu, err
				}})
			ps := Go("piper Serve", func() (any, error) { return nil, piper.Serve() })
			n := 1 + r.IntN(5)
			var cls []*transport.Client
			var ws []*Op
			for k := 0; k < n; k++ {
				a, _, _ := pl.Dial(ConnOpts{RandYield: r.Uint64() | 1}, ConnOpts{RandYield: r.Uint64() | 1})
				cl, err := transport.Connect(a, transport.ClientConfig{Config: ccfg})
				if err != nil {
					c.Violation("connect through a piper: %v", err)
					continue
				}
				cls = append(cls, cl)
				ws = append(ws, Go("Wait", func() (any, error) { return nil, cl.Wait() }))
			}
			type ask struct {
				op   *Op
				body string
			}
			var asks []ask
			wantDrop := 0
			for k, cl := range cls {
				for x := 1 + r.IntN(8); x > 0; x-- {
					body := fmt.Sprintf("%d/%d", k, x)
					switch r.IntN(6) {
					case 0:
						if err := cl.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "drop me"}, Body: []byte(body)}); err != nil {
							c.Violation("send: %v", err)
						}
						wantDrop++
					case 1:
						asks = append(asks, ask{Go("ping", func() (any, error) { return cl.Ping(context.Background()) }), ""})
					default:
						asks = append(asks, ask{Go("request "+body, func() (any, error) { return cl.RequestReply(context.Background(), reqMsg(x, []byte(body))) }), body})
					}
				}
			}
			synctest.Wait()
			for _, a := range asks {
				if !c.MustReturn(a.op, "through a piper") {
					return
				}
				v, err := a.op.Get()
				if err != nil {
					c.Violation("%s through a piper: %v", a.op.name, err)
				} else if a.body != "" && string(v.(*transport.ByteArrayMessage).Body) != a.body {
					c.Violation("%s got %q", a.op.name, v.(*transport.ByteArrayMessage).Body)
				}
			}
			if int(drops.Load()) != wantDrop {
				c.Violation("filter dropped %d, want %d", drops.Load(), wantDrop)
			}
			for _, m := range atServer.got() {
				if m.Action == "drop me" {
					c.Violation("dropped message reached the server")
				}
			}
			c.Count("asked", int64(len(asks)))
			c.Saw(fmt.Sprint(i, len(asks)))
			for _, cl := range cls {
				cl.Close()
			}
			pl.Close()
			usrv.Close()
			synctest.Wait()
			for _, w := range ws {
				c.MustReturn(w, "after Close")
			}
			c.MustReturn(ps, "after Close")
			c.MustReturn(us, "after Close")
		})
		c.StopIfFailed(3)
	})
}

func c13ends(c *Ctx) {
	thePKI()
	ways := []string{"client closes", "client half closes", "client resets", "upstream closes", "upstream half closes", "upstream resets", "client sends garbage", "upstream sends garbage", "upstream refused", "upstream handshake fails", "write to client fails", "write to upstream fails"}
	c.Cases("run", c.N(360, 8000), func(i int, r *rand.Rand) {
		way := ways[i%len(ways)]
		c.Bubble(func() {
			f := transport.MessageTransformer(piperFilter)
			g := newPiperRig(c, r, i/len(ways), f)
			var clientFail, upFail atomic.Bool
			base := g.opts
			switch way {
			case "write to client fails":
				g.opts = func() ConnOpts {
					o := base()
					o.BeforeWrite = func(*Conn, []byte) (int, error) {
						if clientFail.Load() {
							return 0, errors.New("injected write error")
						}
						return 0, nil
					}
					return o
				}
			case "write to upstream fails":
				g.opts = func() ConnOpts {
					o := base()
					o.BeforeWrite = func(*Conn, []byte) (int, error) {
						if upFail.Load() {
							return 0, errors.New("injected write error")
						}
						return 0, nil
					}
					return o
				}
			}
			// another client, which must not notice
			other := g.connect()
			var oUp, oDown []*WM
			osend := func(p *WirePeer, who string, l *[]*WM) {
				m := pipedWM(r, who, len(*l), 300)
				if len(*l) == 0 {
					m.Action = "first"
				}
				*l = append(*l, m)
				p.Send(m)
			}
			osend(other.peer, "other", &oUp)
			synctest.Wait()
			if g.upstream(other) == nil {
				c.Violation("no upstream for a client (%s)", g.desc())
				g.close([]*pipedClient{other})
				return
			}
			cl := g.connect()
			switch way {
			case "upstream refused":
				g.mu.Lock()
				g.refuse = func(int) error { return errors.New("no such upstream") }
				g.mu.Unlock()
			case "upstream handshake fails":
				g.mu.Lock()
				g.upAuto = nil
				s := newTLSSetup(r, i)
				s.client.RootCAs, s.client.InsecureSkipVerify, s.client.ServerName = nil, false, "nobody.test"
				g.ucfg.TLS = s.client
				g.up = s
				g.mu.Unlock()
			}
			var up, down []*WM
			osend(cl.peer, "client", &up)
			synctest.Wait()
			u := g.upstream(cl)
			if way == "upstream refused" || way == "upstream handshake fails" {
				if !cl.lib.IsClosed() {
					c.Violation("%s: the client's connection is not closed (%s)", way, g.desc())
				}
				if u != nil && !u.lib.IsClosed() {
					c.Violation("%s: the upstream's connection is not closed (%s)", way, g.desc())
				}
			} else if u == nil {
				c.Violation("no upstream (%s)", g.desc())
			} else {
				// talk both ways, settle, then one side sends its last messages and ends
				for k := r.IntN(5); k > 0; k-- {
					if r.IntN(2) == 0 {
						osend(cl.peer, "client", &up)
					} else {
						osend(u.peer, "upstream", &down)
					}
				}
				synctest.Wait()
				last := r.IntN(6)
				fromClient := strings.HasPrefix(way, "client")
				for k := 0; k < last; k++ {
					if fromClient {
						osend(cl.peer, "client", &up)
					} else if strings.HasPrefix(way, "upstream") {
						osend(u.peer, "upstream", &down)
					}
				}
				garbage := make([]byte, 64)
				switch way {
				case "client closes":
					cl.raw.Close()
				case "client half closes":
					cl.raw.CloseWrite()
				case "client resets":
					cl.lib.FailReads(errors.New("connection reset by peer"))
				case "upstream closes":
					u.raw.Close()
				case "upstream half closes":
					u.raw.CloseWrite()
				case "upstream resets":
					u.lib.FailReads(errors.New("connection reset by peer"))
				case "client sends garbage":
					cl.peer.SendRaw(garbage)
				case "upstream sends garbage":
					u.peer.SendRaw(garbage)
				case "write to client fails":
					clientFail.Store(true)
					u.raw.o.BeforeWrite = nil
					u.peer.Send(&WM{Id: genMsgId(r), Actor: 5, Action: "keep x"})
				case "write to upstream fails":
					upFail.Store(true)
					cl.raw.o.BeforeWrite = nil
					cl.peer.Send(&WM{Id: genMsgId(r), Actor: 5, Action: "keep x"})
				}
				synctest.Wait()
				clientFail.Store(false)
				upFail.Store(false)
				if !cl.lib.IsClosed() {
					c.Violation("%s: the client's connection is left open (%s)", way, g.desc())
				}
				if !u.lib.IsClosed() {
					c.Violation("%s: the upstream's connection is left open (%s)", way, g.desc())
				}
				what := way + " after " + fmt.Sprint(last) + " more messages, " + g.desc()
				if fromClient {
					c.comparePiped(u.peer.Got(), filtered(up, true, g.down == nil), what+": to the upstream")
				} else if strings.HasPrefix(way, "upstream") {
					c.comparePiped(cl.peer.Got(), filtered(down, true, false), what+": to the client")
				}
				if fromClient {
					if done, _ := u.peer.Ended(); !done {
						c.Violation("%s: the upstream does not see the end", what)
					}
				} else if strings.HasPrefix(way, "upstream") {
					if done, _ := cl.peer.Ended(); !done {
						c.Violation("%s: the client does not see the end", what)
					}
				}
			}
			// the other session lives on
			ou := g.upstream(other)
			for k := 0; k < 3; k++ {
				osend(other.peer, "other", &oUp)
				osend(ou.peer, "other upstream", &oDown)
			}
			synctest.Wait()
			c.comparePiped(ou.peer.Got(), filtered(oUp, true, g.down == nil), "other client after "+way)
			c.comparePiped(other.peer.Got(), filtered(oDown, true, false), "to the other client after "+way)
			if g.serve.Done() {
				c.Violation("the piper stopped serving after %s", way)
			}
			c.Count(strings.ReplaceAll(way, " ", "_"), 1)
			c.Saw(fmt.Sprint(i))
			g.close([]*pipedClient{other, cl})
		})
		c.StopIfFailed(3)
	})
}

// ---------------------------------------------------------------------------------------------------------
// C14

// idLog collects every automatic id of the process.
type idLog struct {
	c    *Ctx
	mu   sync.Mutex
	seen map[transport.MessageId]string
	own  map[transport.MessageId]bool // chosen by the workload
	n    int64
}

func newIdLog(c *Ctx) *idLog {
	return &idLog{c: c, seen: map[transport.MessageId]string{}, own: map[transport.MessageId]bool{}}
}

func (l *idLog) add(id transport.MessageId, where string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.own[id] {
		return
	}
	l.n++
	if id == (transport.MessageId{}) {
		l.c.Violation("%s has an empty id", where)
		return
	}
	if at, dup := l.seen[id]; dup {
		l.c.Violation("id %v of %s was already given to %s", id, where, at)
	}
	l.seen[id] = where
}

// frames of a plain or TLS handshake part of a recorded stream
func (l *idLog) stream(b []byte, where string) {
	for k := 0; ; k++ {
		f, rest, ok, err := cutFrame(b)
		if err != nil || !ok {
			return
		}
		m, err := parseWM(f)
		if err != nil {
			return
		}
		l.add(m.Id, fmt.Sprintf("%s, frame %d (actor %d %q)", where, k, m.Actor, m.Action))
		b = rest
	}
}

func c14wire(c *Ctx) {
	thePKI()
	log := newIdLog(c)
	c.Cases("run", c.N(60, 1200), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var scfg, ccfg transport.Config
			if i%3 == 2 {
				t := newTLSSetup(r, i/3)
				scfg.TLS, ccfg.TLS = t.server, t.client
			}
			var got []*WM
			var gmu sync.Mutex
			note := func(m *transport.ByteArrayMessage) {
				gmu.Lock()
				got = append(got, bamWM(m))
				gmu.Unlock()
			}
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				note(m)
				echoCallback(cn, m)
				cn.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "more"}})
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			n := 1 + r.IntN(4)
			var cls []*transport.Client
			var raw []*Conn
			own := map[string]transport.MessageId{}
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				o := raceWrite(r.Uint64())
				o.Record = true
				a, b, _ := l.Dial(o, ConnOpts{Record: true, RandYield: r.Uint64() | 1})
				cl, err := transport.Connect(a, transport.ClientConfig{Config: ccfg, MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) { note(m) }})
				if err != nil {
					c.Violation("connect: %v", err)
					continue
				}
				cls = append(cls, cl)
				raw = append(raw, a, b)
				go cl.Wait()
				for s := 0; s < 3; s++ {
					// some of the messages carry ids of their own
					var msgs []*transport.Message
					for q := 0; q < 4; q++ {
						m := reqMsg(q, nil)
						m.Headers.Action = fmt.Sprintf("%d/%d/%d/%d", i, k, s, q)
						if r.IntN(3) == 0 {
							id := genMsgId(r)
							log.mu.Lock()
							for log.own[id] || log.seen[id] != "" {
								id = genMsgId(r)
							}
							log.own[id] = true
							log.mu.Unlock()
							m.Headers.Id = id
							own[m.Headers.Action] = id
						}
						msgs = append(msgs, m)
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						for q, m := range msgs {
							switch q % 4 {
							case 0:
								cl.RequestReply(bg, m)
							case 1:
								cl.Ping(bg)
								cl.SendOneWay(m)
							default:
								cl.SendOneWay(m)
							}
						}
					}()
				}
			}
			wg.Wait()
			synctest.Wait()
			for k, x := range raw {
				if scfg.TLS == nil {
					log.stream(x.Sent(), fmt.Sprintf("connection %d of run %d", k, i))
				} else {
					log.stream(x.Sent(), fmt.Sprintf("handshake %d of run %d", k, i))
				}
			}
			gmu.Lock()
			for _, m := range got {
				if scfg.TLS != nil {
					log.add(m.Id, fmt.Sprintf("message %q of run %d", m.Action, i))
				}
				if id, ok := own[m.Action]; ok && id != m.Id {
					c.Violation("message sent with id %v arrived with %v", id, m.Id)
				}
			}
			if want := len(cls) * 12; len(got) < want {
				c.Violation("%d of %d messages arrived", len(got), want)
			}
			gmu.Unlock()
			c.Saw(fmt.Sprint(i))
			for _, cl := range cls {
				cl.Close()
			}
			srv.Close()
			synctest.Wait()
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(3)
	})
	c.Count("ids", log.n)
}

func c14generators(c *Ctx) {
	log := newIdLog(c)
	c.Cases("run", c.N(20, 300), func(i int, r *rand.Rand) {
		var wg sync.WaitGroup
		for g := 0; g < 20; g++ {
			gen, err := transport.NewMessageIdGenerator()
			if err != nil {
				c.Violation("NewMessageIdGenerator: %v", err)
				return
			}
			for t := 0; t < 4; t++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					l := make([]transport.MessageId, 300)
					for k := range l {
						l[k] = gen.Next()
					}
					for k := range l {
						log.add(l[k], fmt.Sprintf("generator %d.%d call %d", i, g, k))
					}
				}()
			}
		}
		wg.Wait()
		// connections, too, are generators
		for k := 0; k < 30; k++ {
			a, b := Pipe(ConnOpts{Record: true}, ConnOpts{})
			cl, err := transport.Connect(a, transport.ClientConfig{})
			if err != nil {
				c.Violation("connect: %v", err)
				continue
			}
			for q := 0; q < 5; q++ {
				cl.SendOneWay(reqMsg(q, nil))
			}
			log.stream(a.Sent(), fmt.Sprintf("client %d.%d", i, k))
			cl.Close()
			b.Close()
		}
		c.Saw(fmt.Sprint(i))
		c.StopIfFailed(3)
	})
	c.Count("ids", log.n)
}

package harness

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C12", "wire", "library client and server, the recorded wire taken apart", c12wire)
	register("C12", "client", "library client against an independent TLS peer", c12client)
	register("C12", "server", "library server against an independent TLS peer", c12server)
	register("C12", "certificates", "certificates, versions and names that have to be refused", c12certs)
	register("C12", "failing", "handshakes that break off at every write and every byte", c12failing)
	register("C12", "last", "messages sent just before the close, arriving together with the close_notify", c12last)
	register("C12", "resume", "session resumption over many connections", c12resume)
}

// wireSecure takes one direction of a recorded TLS connection apart: handshake frames, then raw records.
func (c *Ctx) wireSecure(b []byte, what string) (frames int) {
	var hand []byte
	first := true
	for {
		f, rest, ok, err := cutFrame(b)
		if err != nil || !ok {
			break
		}
		m, err := parseWM(f)
		if err != nil || m.Actor != int64(transport.MessageActorTypeSecurityContext) || len(m.Body) == 0 {
			break
		}
		if m.Id == (transport.MessageId{}) {
			c.Violation("%s: handshake message without an id", what)
		}
		if f.Mask != 1 {
			c.Violation("%s: handshake frame with security mask %d", what, f.Mask)
		}
		var nego [][]byte
		for _, h := range m.Custom {
			if h.Id == hNego {
				nego = append(nego, h.Data)
			}
		}
		if first {
			if len(nego) != 1 {
				c.Violation("%s: first frame carries %d negotiation headers", what, len(nego))
			} else {
				var n negoHeader
				if err := RefDecode(nego[0], &n); err != nil || !n.X509ExtraFramingEnabled || !n.FramingProtectionEnabled {
					c.Violation("%s: negotiation header %x (%v)", what, nego[0], err)
				}
			}
		}
		first = false
		hand = append(hand, m.Body...)
		b = rest
		frames++
	}
	if frames == 0 {
		c.Violation("%s: does not begin with a handshake frame: %s", what, hx(b))
		return
	}
	c.records(hand, what+" (framed)", false)
	c.records(b, what, true)
	return
}

// records checks a stream of TLS records.
func (c *Ctx) records(b []byte, what string, app bool) {
	for len(b) > 0 {
		if len(b) < 5 || b[0] < 20 || b[0] > 23 || b[1] != 3 || b[2] > 4 {
			c.Violation("%s: not a TLS record: %s", what, hx(b))
			return
		}
		if app && b[0] == 20 {
			c.Violation("%s: handshake record outside a frame", what)
		}
		n := 5 + int(b[3])<<8 + int(b[4])
		if n > len(b) {
			c.Violation("%s: TLS record of %d bytes breaks off at %d", what, n, len(b))
			return
		}
		b = b[n:]
	}
}

// secrets are the recognizable parts of a message.
func noPlaintext(c *Ctx, wire []byte, msgs []*WM, what string) {
	for _, m := range msgs {
		if len(m.Body) >= 16 && bytes.Contains(wire, m.Body[:16]) {
			c.Violation("%s: body in clear on the wire: %s", what, hx(m.Body[:16]))
		}
		if u := utf16le(m.Action); len(u) >= 12 && bytes.Contains(wire, u) {
			c.Violation("%s: action %q in clear on the wire", what, m.Action)
		}
		for _, h := range m.Custom {
			if len(h.Data) >= 20 && bytes.Contains(wire, h.Data) {
				c.Violation("%s: header %#x in clear on the wire", what, h.Id)
			}
		}
	}
}

func utf16le(s string) []byte {
	var b []byte
	for _, x := range s {
		if x > 0xffff {
			return nil
		}
		b = append(b, byte(x), byte(x>>8))
	}
	return b
}

// randomBody keeps bodies recognizable.
func secretWM(r *rand.Rand, i, max int) *WM {
	m := genWM(r, max)
	m.Id = transport.MessageId{}
	if len(m.Body) < 16 {
		m.Body = make([]byte, 16+r.IntN(50))
	}
	for i := 0; i < len(m.Body); i++ {
		m.Body[i] = byte(r.Uint32())
	}
	m.Action = fmt.Sprintf("secret action %d of %x", i, r.Uint32())
	return m
}

func plainToMessage(m *WM) *transport.Message {
	msg := &transport.Message{Body: m.Body}
	h := &msg.Headers
	h.Id, h.RelatesTo = m.Id, m.RelatesTo
	h.Actor, h.Action = transport.MessageActorType(m.Actor), m.Action
	h.ExpectsReply, h.HighPriority, h.Idempotent = m.ExpectsReply, m.HighPriority, m.Idempotent
	h.ErrorCode, h.HasFaultBody, h.RetryCount = transport.FabricErrorCode(m.Err), m.HasFault, m.Retry
	for _, x := range m.Custom {
		h.AppendCustomHeader(transport.MessageHeaderIdType(x.Id), append([]byte(nil), x.Data...))
	}
	return msg
}

func chunkOpt(r *rand.Rand) ConnOpts {
	o := ConnOpts{ReadChunk: chunker(r), Record: true}
	if r.IntN(3) == 0 {
		o.RandYield = r.Uint64() | 1
	}
	return o
}

func (c *Ctx) sameOrder(want, got []*WM, what string) {
	if len(want) != len(got) {
		c.Violation("%s: %d of %d messages arrived", what, len(got), len(want))
		return
	}
	for i := range want {
		if d := diffWM(want[i], got[i]); d != "" {
			c.Violation("%s: message %d of %d: %s", what, i, len(want), d)
		}
	}
}

func (c *Ctx) sameSet(want, got []*WM, what string) {
	if len(want) != len(got) {
		c.Violation("%s: %d of %d messages arrived", what, len(got), len(want))
		return
	}
	by := map[string]*WM{}
	for _, g := range got {
		by[g.Action] = g
	}
	for i, w := range want {
		if by[w.Action] == nil {
			c.Violation("%s: message %d did not arrive", what, i)
		} else if d := diffWM(w, by[w.Action]); d != "" {
			c.Violation("%s: message %d: %s", what, i, d)
		}
	}
}

func c12wire(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(72, 1500), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			t := newTLSSetup(r, i)
			var atServer, atClient inbox
			var cmu sync.Mutex
			var back transport.Conn
			// checksums are of no use inside TLS; settings for them change nothing
			ccfg, scfg := genConfig(r), genConfig(r)
			ccfg.TLS, scfg.TLS = t.client, t.server
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				atServer.cb(cn, m)
				cmu.Lock()
				back = cn
				cmu.Unlock()
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			a, b, _ := l.Dial(chunkOpt(r), chunkOpt(r))
			cl, err := transport.Connect(a, transport.ClientConfig{Config: ccfg, MessageCallback: atClient.cb})
			if err != nil {
				c.Violation("connect (%s): %v", t.desc, err)
				srv.Close()
				a.Close()
				b.Close()
				return
			}
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			var up, down []*WM
			max := pick(r, []int{100, 20000, 70000})
			send := func(conn transport.Conn, l *[]*WM) {
				for k := 1 + r.IntN(5); k > 0; k-- {
					m := secretWM(r, len(*l), max)
					if err := conn.SendOneWay(plainToMessage(m)); err != nil {
						c.Violation("send (%s): %v", t.desc, err)
					}
					*l = append(*l, m)
					c.Saw(wmKey(m))
				}
			}
			for round := 1 + r.IntN(3); round > 0; round-- {
				send(cl, &up)
				if r.IntN(2) == 0 {
					synctest.Wait()
				}
				synctest.Wait()
				cmu.Lock()
				sc := back
				cmu.Unlock()
				if sc == nil {
					c.Violation("nothing arrived at the server (%s)", t.desc)
					break
				}
				send(sc, &down)
			}
			synctest.Wait()
			c.sameSet(up, atServer.got(), "to the server, "+t.desc)
			c.sameOrder(deliveredAll(down), atClient.got(), "to the client, "+t.desc)
			ca, sb := a.Sent(), b.Sent()
			c.Count("frames", int64(c.wireSecure(ca, "client's bytes, "+t.desc)+c.wireSecure(sb, "server's bytes, "+t.desc)))
			all := append(append([]*WM(nil), up...), down...)
			noPlaintext(c, ca, all, "client's bytes")
			noPlaintext(c, sb, all, "server's bytes")
			c.Count(t.desc[:10], 1)
			cl.Close()
			srv.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
			c.MustReturn(sv, "after Close")
			b.Close()
		})
		c.StopIfFailed(3)
	})
}

func deliveredAll(l []*WM) []*WM {
	var o []*WM
	for _, m := range l {
		o = append(o, m.delivered())
	}
	return o
}

// c12client: the peer is ours, so handshake frames may be cut into pieces, and what is inside TLS is seen.
func c12client(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(60, 1500), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			t := newTLSSetup(r, i)
			var in inbox
			a, b := Pipe(chunkOpt(r), chunkOpt(r))
			split, extra := pick(r, []int{0, 40, 7, 300, 4000}), []RawHeader(nil)
			if split > 0 {
				// frames are for what the client needs to finish: a ticket in a frame of its own would come too late
				t.server.SessionTicketsDisabled = true
			}
			if r.IntN(3) == 0 {
				extra = []RawHeader{{0x1234, genBytes(r, 30)}}
			}
			p := newTLSPeer(b, t.server, true, nil, func(s *secureEnd) { s.Split, s.Extra = split, extra })
			cfg := genConfig(r)
			cfg.TLS = t.client
			cl, err := transport.Connect(a, transport.ClientConfig{Config: cfg, MessageCallback: in.cb})
			if err != nil {
				c.Violation("connect to an independent peer (%s): %v", t.desc, err)
				a.Close()
				b.Close()
				return
			}
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			var up, down []*WM
			for k := 1 + r.IntN(4); k > 0; k-- {
				m := secretWM(r, k, 40000)
				if err := cl.SendOneWay(plainToMessage(m)); err != nil {
					c.Violation("send: %v", err)
				}
				up = append(up, m)
				n := secretWM(r, k, 40000)
				p.Send(n)
				down = append(down, n)
				c.Saw(wmKey(m) + wmKey(n))
			}
			synctest.Wait()
			if done, err := p.Ended(); done {
				c.Violation("inside TLS: %v (%s)", err, t.desc)
			}
			got := p.Got()
			if len(got) == 0 || isApp(got[0]) {
				c.Violation("no init message first inside TLS")
			}
			c.sameOrder(up, p.GotApp(), "to the peer, "+t.desc)
			c.sameOrder(deliveredAll(down), in.got(), "from the peer, "+t.desc)
			c.wireSecure(a.Sent(), "client's bytes, "+t.desc)
			noPlaintext(c, a.Sent(), up, "client's bytes")
			cl.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
			b.Close()
		})
		c.StopIfFailed(3)
	})
}

func c12server(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(60, 1500), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			t := newTLSSetup(r, i)
			var in inbox
			var cmu sync.Mutex
			conns := map[transport.Conn]int{}
			cfg := genConfig(r)
			cfg.TLS = t.server
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: cfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				in.cb(cn, m)
				cmu.Lock()
				conns[cn]++
				cmu.Unlock()
				reply := &transport.Message{Body: m.Body}
				reply.Headers.Actor, reply.Headers.Action, reply.Headers.RelatesTo = m.Headers.Actor, m.Headers.Action+" back", m.Headers.Id
				if err := cn.SendOneWay(reply); err != nil {
					c.Violation("reply: %v", err)
				}
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			var all []*WM
			n := 1 + r.IntN(4)
			var peers []*TLSWirePeer
			var srvEnds []*Conn
			sent := make([][]*WM, n)
			for k := 0; k < n; k++ {
				a, b, _ := l.Dial(chunkOpt(r), chunkOpt(r))
				split := pick(r, []int{0, 0, 50, 3000})
				p := newTLSPeer(a, t.client, false, nil, func(s *secureEnd) { s.Split = split })
				peers = append(peers, p)
				srvEnds = append(srvEnds, b)
			}
			for k, p := range peers {
				for x := 1 + r.IntN(3); x > 0; x-- {
					m := secretWM(r, len(all), 30000)
					p.Send(m)
					all = append(all, m)
					sent[k] = append(sent[k], m)
					c.Saw(wmKey(m))
				}
			}
			synctest.Wait()
			c.sameSet(deliveredAll(all), in.got(), "at the server, "+t.desc)
			for k, p := range peers {
				if done, err := p.Ended(); done {
					c.Violation("connection %d (%s): %v", k, t.desc, err)
				}
				got := p.GotApp()
				if len(got) != len(sent[k]) {
					c.Violation("connection %d got %d of %d replies", k, len(got), len(sent[k]))
				}
				for _, m := range sent[k] {
					ok := false
					for _, g := range got {
						ok = ok || g.RelatesTo == m.Id && bytes.Equal(g.Body, m.Body) && g.Action == m.Action+" back"
					}
					if !ok {
						c.Violation("connection %d: reply is missing or mixed up", k)
					}
				}
				c.wireSecure(srvEnds[k].Sent(), "server's bytes, "+t.desc)
				noPlaintext(c, srvEnds[k].Sent(), sent[k], "server's bytes")
				p.C.Close()
			}
			srv.Close()
			synctest.Wait()
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(3)
	})
}

// c12certs: who must not get through, does not.
func c12certs(c *Ctx) {
	p := thePKI()
	type bad struct {
		name   string
		refuse string // the side that refuses
		set    func(r *rand.Rand, cl, sv *tls.Config)
	}
	errNo := errors.New("refused by callback")
	bads := []bad{
		{"server certificate of another authority", "client", func(r *rand.Rand, cl, sv *tls.Config) { sv.Certificates = []tls.Certificate{p.srvOther} }},
		{"expired server certificate", "client", func(r *rand.Rand, cl, sv *tls.Config) { sv.Certificates = []tls.Certificate{p.srvExpired} }},
		{"server certificate for another name", "client", func(r *rand.Rand, cl, sv *tls.Config) { sv.Certificates = []tls.Certificate{p.srvWrongName} }},
		{"client verifies with a callback", "client", func(r *rand.Rand, cl, sv *tls.Config) {
			cl.InsecureSkipVerify = r.IntN(2) == 0
			cl.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return errNo }
		}},
		{"client verifies the connection", "client", func(r *rand.Rand, cl, sv *tls.Config) {
			cl.VerifyConnection = func(tls.ConnectionState) error { return errNo }
		}},
		{"client without roots", "client", func(r *rand.Rand, cl, sv *tls.Config) { cl.RootCAs = x509.NewCertPool() }},
		{"no client certificate", "server", func(r *rand.Rand, cl, sv *tls.Config) {
			cl.Certificates = nil
			sv.ClientAuth = pick(r, []tls.ClientAuthType{tls.RequireAnyClientCert, tls.RequireAndVerifyClientCert})
		}},
		{"client certificate of another authority", "server", func(r *rand.Rand, cl, sv *tls.Config) {
			// presented whatever the server asks for
			cl.Certificates = nil
			cl.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &p.cliOther, nil }
			sv.ClientAuth = pick(r, []tls.ClientAuthType{tls.VerifyClientCertIfGiven, tls.RequireAndVerifyClientCert})
		}},
		{"expired client certificate", "server", func(r *rand.Rand, cl, sv *tls.Config) {
			cl.Certificates = []tls.Certificate{p.cliExpired}
			sv.ClientAuth = pick(r, []tls.ClientAuthType{tls.VerifyClientCertIfGiven, tls.RequireAndVerifyClientCert})
		}},
		{"client certificate for servers", "server", func(r *rand.Rand, cl, sv *tls.Config) {
			cl.Certificates = []tls.Certificate{p.cliWrongUsage}
			sv.ClientAuth = tls.RequireAndVerifyClientCert
		}},
		{"server verifies with a callback", "server", func(r *rand.Rand, cl, sv *tls.Config) {
			cl.Certificates = p.cli[:1]
			sv.ClientAuth = tls.RequireAnyClientCert
			sv.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return errNo }
		}},
		{"no version in common", "both", func(r *rand.Rand, cl, sv *tls.Config) {
			cl.MinVersion, cl.MaxVersion = tls.VersionTLS13, tls.VersionTLS13
			sv.MinVersion, sv.MaxVersion = tls.VersionTLS12, tls.VersionTLS12
		}},
		{"no certificate at the server", "both", func(r *rand.Rand, cl, sv *tls.Config) { sv.Certificates = nil }},
	}
	c.Cases("run", c.N(13*10, 13*200), func(i int, r *rand.Rand) {
		bd := bads[i%len(bads)]
		c.Bubble(func() {
			t := newTLSSetup(r, i/len(bads))
			t.client.RootCAs, t.client.ServerName, t.client.InsecureSkipVerify = p.pool, serverName, false
			bd.set(r, t.client, t.server)
			what := bd.name + " (" + t.desc + ")"
			var atServer, atClient inbox
			var calls atomic.Int64
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: transport.Config{TLS: t.server}, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				calls.Add(1)
				atServer.cb(cn, m)
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			a, b, _ := l.Dial(chunkOpt(r), chunkOpt(r))
			var cl *transport.Client
			co := Go("Connect", func() (any, error) {
				x, err := transport.Connect(a, transport.ClientConfig{Config: transport.Config{TLS: t.client}, MessageCallback: atClient.cb})
				cl = x
				return nil, err
			})
			synctest.Wait()
			if !co.soon() && bd.refuse != "client" {
				// a peer that refused has to end the connection
				c.Stuck("Connect: " + what)
			}
			c.MustReturn(co, "with "+what)
			_, err := co.Get()
			if bd.refuse != "server" && err == nil {
				c.Violation("connected in spite of %s", what)
			}
			if err == nil && bd.refuse == "server" {
				// with 1.3 the client learns of it afterwards
				w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
				for k := 0; k < 3; k++ {
					cl.SendOneWay(plainToMessage(secretWM(r, k, 100)))
				}
				synctest.Wait()
				if c.MustReturn(w, "although the server refused: "+what) {
					if _, err := w.Get(); err == nil {
						c.Violation("receive loop ended without an error although the server refused: %s", what)
					}
				}
				if err := cl.SendOneWay(plainToMessage(secretWM(r, 9, 100))); err == nil {
					c.Violation("send succeeded after %s", what)
				}
			}
			synctest.Wait()
			if calls.Load() > 0 {
				c.Violation("message delivered to the server in spite of %s", what)
			}
			if len(atClient.got()) > 0 {
				c.Violation("message delivered to the client in spite of %s", what)
			}
			c.Saw(fmt.Sprint(i))
			c.Count(bd.refuse+" refuses", 1)
			a.Close()
			b.Close()
			srv.Close()
			synctest.Wait()
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(3)
	})
}

// c12failing: every write of the handshake fails in turn; the peer's handshake is cut at bytes; peers that are not TLS.
func c12failing(c *Ctx) {
	thePKI()
	c.Cases("write", c.N(48, 900), func(i int, r *rand.Rand) {
		t := newTLSSetup(r, i)
		for k := 0; k < 40; k++ {
			failed, connected := false, false
			c.Bubble(func() {
				var n atomic.Int64
				part := r.IntN(3)
				a, b := Pipe(ConnOpts{BeforeWrite: func(_ *Conn, p []byte) (int, error) {
					if n.Add(1) > int64(k) {
						switch part {
						case 0:
							return 0, errors.New("injected write error")
						case 1:
							return len(p) / 2, errors.New("injected write error")
						}
						return len(p), errors.New("injected write error")
					}
					return 0, nil
				}}, ConnOpts{})
				NewTLSWirePeer(b, t.server, nil)
				co := Go("Connect", func() (any, error) {
					return transport.Connect(a, transport.ClientConfig{Config: transport.Config{TLS: t.client}})
				})
				synctest.Wait()
				if !co.soon() {
					c.Violation("write %d of the set-up fails and Connect waits on (%s)", k, t.desc)
					a.Close()
					b.Close()
					synctest.Wait()
					c.MustReturn(co, "after Close")
					return
				}
				_, err := co.Get()
				failed = n.Load() > int64(k)
				connected = err == nil
				if failed && connected {
					c.Violation("write %d of the set-up failed and Connect reports success (%s)", k, t.desc)
				}
				a.Close()
				b.Close()
			})
			c.Saw(fmt.Sprint(i, k))
			c.Count("failed_writes", 1)
			if !failed {
				if !connected {
					c.Violation("Connect without failures failed (%s)", t.desc)
				}
				break
			}
		}
		c.StopIfFailed(3)
	})
	c.Cases("read", c.N(16, 300), func(i int, r *rand.Rand) {
		t := newTLSSetup(r, i)
		total := 1 << 20
		for cut, k := 0, 0; cut < total && k < 400; k++ {
			c.Bubble(func() {
				// the server's bytes pass through a relay that stops at cut
				a, b := Pipe(ConnOpts{}, ConnOpts{})
				x, y := Pipe(ConnOpts{Record: true}, ConnOpts{Record: true})
				p := NewTLSWirePeer(y, t.server, nil)
				_ = p
				go io.Copy(x, b)
				end := pick(r, []int{0, 1})
				go func() {
					io.CopyN(b, x, int64(cut))
					if b.SentLen() < int64(cut) {
						return
					}
					if end == 0 {
						b.CloseWrite()
					} else {
						a.FailReads(errors.New("connection reset by peer"))
					}
				}()
				co := Go("Connect", func() (any, error) {
					return transport.Connect(a, transport.ClientConfig{Config: transport.Config{TLS: t.client}})
				})
				synctest.Wait()
				if !co.soon() {
					c.Violation("the peer's handshake breaks off at byte %d and Connect waits on (%s)", cut, t.desc)
				} else if _, err := co.Get(); err == nil {
					total = min(total, cut) // enough for the whole handshake
				}
				a.Close()
				b.Close()
				x.Close()
				y.Close()
				synctest.Wait()
				c.MustReturn(co, "after Close")
			})
			c.Saw(fmt.Sprint("read", i, cut))
			c.Count("cuts", 1)
			cut += 1 + r.IntN(40)
		}
		if total == 1<<20 {
			c.Count("huge_handshakes", 1)
		}
		c.StopIfFailed(3)
	})
	// a plain peer, a peer that answers garbage, a silent peer
	c.Cases("alien", c.N(60, 600), func(i int, r *rand.Rand) {
		t := newTLSSetup(r, i)
		c.Bubble(func() {
			a, b := Pipe(chunkOpt(r), ConnOpts{})
			p := NewWirePeer(b, nil)
			how := i % 5
			switch how {
			case 0:
				p.SendInit()
			case 1:
				p.SendRaw(genBytes(r, 300))
				b.CloseWrite()
			case 2: // garbage inside handshake frames
				for k := 0; k < 3; k++ {
					p.Send(&WM{Actor: 35, Body: genBytes(r, 1+r.IntN(300))})
				}
				b.CloseWrite()
			case 3: // an alert
				p.Send(&WM{Actor: 35, Body: []byte{21, 3, 3, 0, 2, 2, 40}})
			case 4: // an unframed hello
				p.SendRaw(append([]byte{22, 3, 3, 0, 80, 2, 0, 0, 76, 3, 3}, genBytes(r, 200)...))
				b.CloseWrite()
			}
			co := Go("Connect", func() (any, error) {
				return transport.Connect(a, transport.ClientConfig{Config: transport.Config{TLS: t.client}})
			})
			synctest.Wait()
			if !co.soon() && how != 0 {
				c.Violation("Connect waits on a broken handshake, kind %d (%s)", how, t.desc)
			}
			if co.Done() {
				if _, err := co.Get(); err == nil {
					c.Violation("connected with TLS to a peer that does not speak it, kind %d", how)
				}
			}
			for _, m := range p.Got() {
				if m.Actor != int64(transport.MessageActorTypeSecurityContext) {
					c.Violation("message of actor %d sent before the handshake finished", m.Actor)
				}
			}
			c.Saw(fmt.Sprint("alien", i))
			a.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(co, "after Close")
		})
		c.StopIfFailed(3)
	})
}

func c12resume(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(24, 400), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			t := newTLSSetup(r, i%6) // with a session cache
			t.server.SessionTicketsDisabled = false
			var resumed atomic.Int64
			t.server.VerifyConnection = func(s tls.ConnectionState) error {
				if s.DidResume {
					resumed.Add(1)
				}
				return nil
			}
			var in inbox
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: transport.Config{TLS: t.server}, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				in.cb(cn, m)
				cn.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: m.Headers.Actor, RelatesTo: m.Headers.Id}, Body: m.Body})
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			for k := 0; k < 5; k++ {
				a, b, _ := l.Dial(chunkOpt(r), chunkOpt(r))
				cl, err := transport.Connect(a, transport.ClientConfig{Config: transport.Config{TLS: t.client}})
				if err != nil {
					c.Violation("connection %d with a session cache (%s): %v", k, t.desc, err)
					break
				}
				w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
				m := secretWM(r, k, 30000)
				op := Go("request", func() (any, error) { return cl.RequestReply(bg, plainToMessage(m)) })
				synctest.Wait()
				if !op.soon() {
					_, werr := w.Get()
					c.Violation("request on connection %d with a session cache got no reply (%s): %v", k, t.desc, werr)
				} else if v, err := op.Get(); err != nil {
					c.Violation("request on connection %d with a session cache (%s): %v", k, t.desc, err)
				} else if !bytes.Equal(v.(*transport.ByteArrayMessage).Body, m.Body) {
					c.Violation("reply on connection %d differs (%s)", k, t.desc)
				}
				c.wireSecure(a.Sent(), "client's bytes, "+t.desc)
				c.wireSecure(b.Sent(), "server's bytes, "+t.desc)
				noPlaintext(c, a.Sent(), []*WM{m}, "client's bytes")
				cl.Close()
				time.Sleep(time.Second)
				synctest.Wait()
				c.MustReturn(op, "after Close")
				c.MustReturn(w, "after Close")
				b.Close()
				c.Saw(fmt.Sprint(i, k))
			}
			c.Count("resumed", resumed.Load())
			srv.Close()
			synctest.Wait()
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(3)
	})
}

// c12last: what was sent before an orderly close arrives, also when the end of the stream comes with it.
func c12last(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(72, 2000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			t := newTLSSetup(r, i)
			var atServer, atClient inbox
			var cmu sync.Mutex
			var back transport.Conn
			ccfg, scfg := genConfig(r), genConfig(r)
			ccfg.TLS, scfg.TLS = t.client, t.server
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				atServer.cb(cn, m)
				cmu.Lock()
				back = cn
				cmu.Unlock()
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			co, so := ConnOpts{Record: true}, ConnOpts{Record: true}
			if r.IntN(2) == 0 {
				co.EOFWithData, so.EOFWithData = true, true
			}
			a, b, _ := l.Dial(co, so)
			cl, err := transport.Connect(a, transport.ClientConfig{Config: ccfg, MessageCallback: atClient.cb})
			if err != nil {
				c.Violation("connect (%s): %v", t.desc, err)
				srv.Close()
				a.Close()
				b.Close()
				return
			}
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			first := secretWM(r, 0, 50)
			if err := cl.SendOneWay(plainToMessage(first)); err != nil {
				c.Violation("send: %v", err)
			}
			synctest.Wait()
			cmu.Lock()
			sc := back
			cmu.Unlock()
			if sc == nil {
				c.Violation("nothing arrived at the server (%s)", t.desc)
			} else {
				var up, down []*WM
				from := i / 12 % 2
				conn, end, l := transport.Conn(cl), a, &up
				if from == 1 {
					conn, end, l = sc, b, &down
				}
				max := pick(r, []int{0, 60, 400, 5000, 40000})
				end.Hold()
				for k := 1 + r.IntN(4); k > 0; k-- {
					m := secretWM(r, k, max+1)
					if err := conn.SendOneWay(plainToMessage(m)); err != nil {
						c.Violation("send (%s): %v", t.desc, err)
					}
					*l = append(*l, m)
					c.Saw(wmKey(m))
				}
				conn.Close()
				synctest.Wait()
				c.sameSet(append([]*WM{first}, up...), atServer.got(), "to the server before the close, "+t.desc)
				c.sameOrder(deliveredAll(down), atClient.got(), "to the client before the close, "+t.desc)
				c.Count([]string{"client_closes", "server_closes"}[from], 1)
			}
			cl.Close()
			srv.Close()
			a.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(3)
	})
}

package harness

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand/v2"
	"net"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C07", "server", "hostile clients of a plain server beside a good one", func(c *Ctx) { c07server(c, false) })
	register("C07", "tlsserver", "hostile clients of a TLS server, before, during and after the handshake", func(c *Ctx) { c07server(c, true) })
	register("C07", "client", "clients facing hostile servers", c07client)
	register("C07", "piper", "hostile clients and upstreams of a piper beside a good session", c07piper)
	register("C07", "flood", "hundreds of thousands of small frames of every kind at every stage, with a small stack", c07flood)
	register("C07", "accept", "temporary accept errors and many stalled connections", c07accept)
}

// hostileStream makes what a hostile peer sends on a plain connection.
func hostileStream(r *rand.Rand) (b []byte, kind string) {
	o := frameOpt{BCRC: true}
	crcs := func(f []byte) []byte {
		if len(f) < frameHdr {
			return f
		}
		binary.LittleEndian.PutUint32(f[8:], crc32.ChecksumIEEE(f[frameHdr:]))
		h := append([]byte(nil), f[:frameHdr]...)
		h[5] = 0
		binary.LittleEndian.PutUint32(h[8:], 0)
		f[5] = refCRC8(h)
		return f
	}
	switch r.IntN(13) {
	case 0:
		return genBytes(r, r.IntN(2000)), "random"
	case 1:
		for k := 1 + r.IntN(4); k > 0; k-- {
			f := smallWM(r, k).encode(o)
			for n := 1 + r.IntN(5); n > 0; n-- {
				switch r.IntN(4) {
				case 0:
					f[r.IntN(len(f))] ^= 1 << r.IntN(8)
				case 1:
					f[r.IntN(len(f))] = pick(r, []byte{0, 1, 0x7f, 0x80, 0xff})
				case 2:
					x := r.IntN(len(f))
					f = append(f[:x], f[min(len(f), x+1+r.IntN(4)):]...)
				case 3:
					x := r.IntN(len(f))
					f = append(f[:x:x], append(genBytes(r, 1+r.IntN(4)), f[x:]...)...)
				}
				if len(f) == 0 {
					f = []byte{1}
				}
			}
			if r.IntN(2) == 0 {
				f = crcs(f)
			}
			b = append(b, f...)
		}
		return b, "mutated"
	case 2, 3: // lengths that lie
		f := smallWM(r, 1).encode(o)
		binary.LittleEndian.PutUint32(f, pick(r, []uint32{0, 1, 4, 8, 11, 12, 13, 20, 1 << 20, 3 << 20, 8 << 20, 1 << 24, 40 << 20, 100 << 20, 300 << 20, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 11, 1<<32 - 13, 1<<32 - 1, uint32(len(f)) + 1, uint32(len(f)) - 1}))
		if r.IntN(2) == 0 {
			binary.LittleEndian.PutUint16(f[6:], pick(r, []uint16{0, 1, 3, 4, 100, 0x7fff, 0x8000, 0xffff}))
		}
		f = crcs(f)
		for k := r.IntN(3); k > 0; k-- {
			f = append(f, make([]byte, r.IntN(pick(r, []int{100, 5000, 60000})))...)
		}
		return f, "lengths"
	case 4: // header sections that lie
		for k := 1 + r.IntN(3); k > 0; k-- {
			var s []byte
			for n := 1 + r.IntN(8); n > 0; n-- {
				id := pick(r, append([]uint16{hId, hRelates, hActor, hAction, hExpects, hFault, hRetry, hPriority, hIdem, hNego, hInvalid}, typedIDs...))
				s = binary.LittleEndian.AppendUint16(s, id)
				d := genBytes(r, r.IntN(60))
				l := len(d)
				if r.IntN(3) == 0 {
					l = r.IntN(0x10000)
				}
				s = binary.LittleEndian.AppendUint16(s, uint16(l))
				s = append(s, d...)
			}
			b = append(b, buildFrame(s, genBytes(r, 30), o)...)
		}
		return b, "headers"
	case 5, 6: // typed headers whose contents lie
		for k := 1 + r.IntN(4); k > 0; k-- {
			id := pick(r, append([]uint16{hId, hRelates, hActor, hAction, hExpects, hFault, hRetry, hPriority, hIdem}, typedIDs...))
			var p any
			switch id {
			case hId, hRelates:
				p = &transport.MessageId{Index: 77}
			case hActor:
				p = &i64Obj{5}
			case hAction:
				p = &strObj{"some action"}
			case hFault:
				p = &faultObj{4, true}
			case hRetry:
				p = &i32Obj{5}
			case hExpects, hPriority, hIdem:
				p = &boolObj{true}
			default:
				p = newTyped(id)
				fill(r, reflect.ValueOf(p).Elem(), 3)
			}
			d := RefEncode(p, RefOpts{
				CountLie: func(n uint64) uint64 {
					if r.IntN(2) == 0 {
						return pick(r, []uint64{1, 1000, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1})
					}
					return n
				},
				ObjSize: func(n uint32) uint32 {
					if r.IntN(3) == 0 {
						return pick(r, []uint32{0, 1, 9, 10, 11, n - 1, n + 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1})
					}
					return n
				},
				MetaLie: func(x byte) byte {
					if r.IntN(6) == 0 {
						return byte(r.Uint32())
					}
					return x
				},
			})
			b = append(b, buildFrame(appendHeader((&WM{Actor: 5, Id: genMsgId(r)}).headerSection(), id, d), genBytes(r, 30), o)...)
		}
		return b, "typed headers"
	case 7:
		for k := 1 + r.IntN(10); k > 0; k-- {
			m := &WM{Id: genMsgId(r), Actor: 1, Action: pick(r, []string{"HeartbeatRequest", "HeartbeatResponse", "", "x"}), Body: genBytes(r, r.IntN(50))}
			if r.IntN(3) == 0 {
				m.Body = RefEncode(&hbBody{genInt(r, 64)}, RefOpts{})
			}
			b = append(b, m.encode(o)...)
		}
		return b, "heartbeats"
	case 8:
		m := &WM{Id: genMsgId(r), Actor: 29, Action: "ConnectionAuth", Err: genInt(r, 64), Body: genBytes(r, r.IntN(50))}
		if r.IntN(2) == 0 {
			m.Body = RefEncode(&strObj{"denied"}, RefOpts{CountLie: func(uint64) uint64 { return 1<<31 - 1 }})
		}
		b = append(b, m.encode(o)...)
		b = append(b, smallWM(r, 2).encode(o)...)
		return b, "authorization"
	case 9:
		for k := r.IntN(40); k >= 0; k-- {
			b = append(b, buildFrame(nil, nil, o)...)
		}
		return b, "empty frames"
	case 10:
		for k := 1 + r.IntN(3); k > 0; k-- {
			b = append(b, (&WM{Id: genMsgId(r), Actor: 35, Body: append([]byte{22, 3, byte(r.IntN(5)), 0, byte(r.IntN(200))}, genBytes(r, r.IntN(200))...)}).encode(frameOpt{Mask: 1})...)
		}
		return b, "handshake garbage"
	case 11:
		hello := clientHello(r)
		for n := r.IntN(4); n > 0; n-- {
			hello[r.IntN(len(hello))] ^= 1 << r.IntN(8)
		}
		if r.IntN(3) == 0 {
			return append(hello, genBytes(r, 50)...), "raw hello"
		}
		b = (&WM{Id: genMsgId(r), Actor: pick(r, []int64{35, 35, 5}), Body: hello}).encode(frameOpt{Mask: 1})
		for k := r.IntN(3); k > 0; k-- {
			b = append(b, (&WM{Id: genMsgId(r), Actor: 35, Body: genBytes(r, r.IntN(500))}).encode(frameOpt{Mask: 1})...)
		}
		return b, "framed hello"
	}
	for k := 1 + r.IntN(4); k > 0; k-- {
		b = append(b, smallWM(r, k).encode(o)...)
	}
	return b[:len(b)-r.IntN(min(len(b), 100))], "cut"
}

// clientHello records a genuine hello.
func clientHello(r *rand.Rand) []byte {
	a, b := Pipe(ConnOpts{}, ConnOpts{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		tls.Client(a, &tls.Config{InsecureSkipVerify: true, MaxVersion: pick(r, []uint16{tls.VersionTLS12, tls.VersionTLS13})}).Handshake()
	}()
	buf := make([]byte, 8192)
	n, _ := b.Read(buf)
	b.Close()
	<-done
	return buf[:n]
}

// allocMeter bounds what happens between two calls by the bytes a peer sent.
type allocMeter struct {
	base  uint64
	last  uint64
	bytes uint64
	fixed uint64
}

func newMeter() *allocMeter {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return &allocMeter{base: m.TotalAlloc, last: m.TotalAlloc}
}

func (a *allocMeter) check(c *Ctx, what string) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	used := m.TotalAlloc - a.base
	limit := 3<<20 + a.fixed + 100*a.bytes
	c.Max("most_bytes_allocated", int64(used))
	if used > limit {
		c.Violation("%s: %d bytes from hostile peers made the process allocate %d (limit %d)", what, a.bytes, used, limit)
	}
}

// step checks what one peer that sent n bytes caused since the last step.
func (a *allocMeter) step(c *Ctx, n int, fixed uint64, what string) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	used := m.TotalAlloc - a.last
	a.last = m.TotalAlloc
	limit := 3<<20 + fixed + 100*uint64(n)
	c.Max("most_bytes_allocated_for_one_peer", int64(used))
	if used > limit {
		c.Violation("%s: %d bytes from a hostile peer made the process allocate %d (limit %d)", what, n, used, limit)
	}
}

// endConn ends or leaves a hostile connection.
func endConn(r *rand.Rand, a *Conn) string {
	switch r.IntN(4) {
	case 0:
		a.Close()
		return "close"
	case 1:
		a.CloseWrite()
		return "half close"
	case 2:
		a.peer.FailReads(errors.New("connection reset by peer"))
		return "reset"
	}
	return "stall"
}

// goodTalk: a request over a connection that has nothing to do with the hostile ones.
func (c *Ctx) goodTalk(cl *transport.Client, n int, what string) {
	body := []byte(fmt.Sprintf("good %d", n))
	op := Go("request of a good connection", func() (any, error) { return cl.RequestReply(bg, reqMsg(n, body)) })
	synctest.Wait()
	if !op.soon() {
		c.Violation("%s: a good connection gets no answer any more", what)
		return
	}
	v, err := op.Get()
	if err != nil {
		c.Violation("%s: request on a good connection: %v", what, err)
	} else if b := v.(*transport.ByteArrayMessage).Body; !bytes.Equal(b, body) {
		c.Violation("%s: good connection got %q for %q", what, b, body)
	}
}

func echoCallback(cn transport.Conn, m *transport.ByteArrayMessage) {
	if m.Headers.ExpectsReply {
		reply := &transport.Message{Body: m.Body}
		reply.Headers.Actor, reply.Headers.RelatesTo = m.Headers.Actor, m.Headers.Id
		cn.SendOneWay(reply)
	}
}

// openGood connects a client that has nothing to do with the hostile peers.
func (c *Ctx) openGood(l *Listener, cfg transport.Config, what string) (*transport.Client, *Op) {
	a, _, err := l.Dial(ConnOpts{}, ConnOpts{})
	if err != nil {
		c.Violation("%s: the listener is closed", what)
		return nil, nil
	}
	var cl *transport.Client
	co := Go("connect of a good client", func() (any, error) {
		x, err := transport.Connect(a, transport.ClientConfig{Config: cfg})
		cl = x
		return nil, err
	})
	synctest.Wait()
	if !co.soon() {
		c.Violation("%s: a good connection is not accepted", what)
		a.Close()
		return nil, nil
	}
	if _, err := co.Get(); err != nil {
		c.Violation("%s: a good connection fails: %v", what, err)
		a.Close()
		return nil, nil
	}
	return cl, Go("Wait of a good client", func() (any, error) { return nil, cl.Wait() })
}

func c07server(c *Ctx, useTLS bool) {
	thePKI()
	n := c.N(2500, 60000)
	if useTLS {
		n = c.N(700, 15000)
	}
	c.Cases("run", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			scfg, ccfg := genConfig(r), transport.Config{GenerateFrameBodyCRC: true}
			ccfg.DisableCheckFrameHeaderCRC = scfg.DisableGenerateFrameHeaderCRC
			var t *tlsSetup
			if useTLS {
				t = newTLSSetup(r, i)
				scfg.TLS, ccfg.TLS = t.server, t.client
			}
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: echoCallback})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			good, gw := c.openGood(l, ccfg, "at first")
			if good == nil {
				return
			}
			c.goodTalk(good, 0, "at first")
			m := newMeter()
			desc := ""
			var conns []*Conn
			for k := 1 + r.IntN(6); k > 0; k-- {
				a, _, err := l.Dial(ConnOpts{}, ConnOpts{ReadChunk: chunker(r)})
				if err != nil {
					c.Violation("listener closed after %s", desc)
					break
				}
				conns = append(conns, a)
				b, kind := hostileStream(r)
				m.bytes += uint64(len(b))
				m.fixed += 512 << 10
				if useTLS && r.IntN(2) == 0 {
					// inside TLS
					p := NewTLSWireClient(a, t.client, nil)
					kind = "in TLS: " + kind
					m.fixed += 2 << 20
					Go("hostile write", func() (any, error) { return nil, p.SendRaw(b) })
					synctest.Wait()
				} else {
					if useTLS {
						m.fixed += 1 << 20
					}
					a.Write(b)
				}
				c.Count(kind, 1)
				desc += kind + " " + endConn(r, a) + "; "
				if r.IntN(3) == 0 {
					synctest.Wait()
				}
			}
			synctest.Wait()
			m.check(c, desc)
			c.goodTalk(good, 1, desc)
			other, ow := c.openGood(l, ccfg, desc)
			if other != nil {
				c.goodTalk(other, 2, "new connection after "+desc)
				other.Close()
			}
			if sv.Done() {
				_, err := sv.Get()
				c.Violation("Serve ended after %s: %v", desc, err)
			}
			c.Saw(fmt.Sprint(i, desc))
			good.Close()
			srv.Close()
			for _, a := range conns {
				a.Close()
			}
			synctest.Wait()
			c.MustReturn(gw, "after Close")
			if ow != nil {
				c.MustReturn(ow, "after Close")
			}
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(3)
	})
}

func c07client(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(4000, 100000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			cfg := genConfig(r)
			useTLS := i%3 == 0
			var t *tlsSetup
			if useTLS {
				t = newTLSSetup(r, i/3)
				cfg.TLS = t.client
			}
			inside := useTLS && r.IntN(2) == 0
			a, b := Pipe(ConnOpts{ReadChunk: chunker(r)}, ConnOpts{})
			m := newMeter()
			data, kind := hostileStream(r)
			m.bytes = uint64(len(data))
			if useTLS {
				m.fixed = 4 << 20
			}
			var send func([]byte) error
			if inside {
				p := NewTLSWirePeer(b, t.server, nil)
				send = p.SendRaw
				kind = "in TLS: " + kind
			} else {
				p := NewWirePeer(b, nil)
				send = p.SendRaw
			}
			early := r.IntN(2) == 0
			if early || useTLS {
				Go("hostile write", func() (any, error) { return nil, send(data) })
			}
			var cl *transport.Client
			co := Go("Connect", func() (any, error) {
				x, err := transport.Connect(a, transport.ClientConfig{Config: cfg, MessageCallback: echoCallback})
				cl = x
				return nil, err
			})
			synctest.Wait()
			desc := kind
			var ops []*Op
			if co.Done() && cl != nil {
				ops = append(ops, Go("Wait", func() (any, error) { return nil, cl.Wait() }))
				ops = append(ops, Go("request", func() (any, error) { return cl.RequestReply(bg, reqMsg(0, nil)) }))
				ops = append(ops, Go("ping", func() (any, error) { return cl.Ping(bg) }))
				synctest.Wait()
				if !(early || useTLS) {
					send(data)
				}
			}
			synctest.Wait()
			desc += " " + endConn(r, b)
			synctest.Wait()
			m.check(c, desc)
			c.Count(kind, 1)
			c.Saw(fmt.Sprint(i, desc))
			a.Close()
			b.Close()
			if cl != nil {
				cl.Close()
			}
			synctest.Wait()
			c.MustReturn(co, "after the connection was closed")
			for _, o := range ops {
				c.MustReturn(o, "after Close, "+desc)
			}
		})
		c.StopIfFailed(3)
	})
}

func c07piper(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(1500, 40000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			// a good upstream server
			ul := NewListener(nil)
			usrv, _ := transport.Listen(ul, transport.ServerConfig{MessageCallback: echoCallback})
			us := Go("upstream Serve", func() (any, error) { return nil, usrv.Serve() })
			cfg := genConfig(r)
			ccfg := transport.Config{GenerateFrameBodyCRC: true, DisableCheckFrameHeaderCRC: cfg.DisableGenerateFrameHeaderCRC}
			var t *tlsSetup
			useTLS := i%2 == 0
			if useTLS {
				t = newTLSSetup(r, i/2)
				cfg.TLS, ccfg.TLS = t.server, t.client
			}
			var mu sync.Mutex
			hostileUp := map[net.Addr]func(*Conn){}
			var conns []*Conn
			pl := NewListener(nil)
			piper, _ := transport.NewPiper(pl, transport.PiperConfig{Config: cfg, FindUpstream: func(h *transport.MessageHeaders, cn net.Conn) (net.Conn, transport.Config, error) {
				mu.Lock()
				f := hostileUp[cn.RemoteAddr()]
				mu.Unlock()
				if f != nil {
					a, b := Pipe(ConnOpts{}, ConnOpts{})
					mu.Lock()
					conns = append(conns, b)
					mu.Unlock()
					f(b)
					return a, transport.Config{}, nil
				}
				a, _, err := ul.Dial(ConnOpts{}, ConnOpts{})
				return a, transport.Config{}, err
			}})
			ps := Go("piper Serve", func() (any, error) { return nil, piper.Serve() })
			good, gw := c.openGood(pl, ccfg, "at first")
			if good == nil {
				return
			}
			c.goodTalk(good, 0, "at first")
			m := newMeter()
			desc := ""
			for k := 1 + r.IntN(5); k > 0; k-- {
				b, kind := hostileStream(r)
				m.bytes += uint64(len(b)) * 2
				m.fixed += 1 << 20
				if useTLS {
					m.fixed += 2 << 20
				}
				if r.IntN(2) == 0 {
					// a hostile upstream of an otherwise good client
					kind = "upstream " + kind
					a, srvEnd, err := pl.Dial(ConnOpts{}, ConnOpts{})
					if err != nil {
						c.Violation("piper's listener closed")
						break
					}
					mu.Lock()
					conns = append(conns, a)
					rr := rand.New(rand.NewPCG(r.Uint64(), 3))
					hostileUp[srvEnd.RemoteAddr()] = func(b2 *Conn) {
						b2.Write(b)
						endConn(rr, b2)
					}
					mu.Unlock()
					co := Go("victim", func() (any, error) {
						x, err := transport.Connect(a, transport.ClientConfig{Config: ccfg})
						if err == nil {
							go x.Wait()
							x.SendOneWay(reqMsg(1, nil))
						}
						return nil, err
					})
					synctest.Wait()
					if !co.soon() {
						c.Violation("a client of the piper cannot connect")
					}
				} else {
					a, _, err := pl.Dial(ConnOpts{}, ConnOpts{ReadChunk: chunker(r)})
					if err != nil {
						c.Violation("piper's listener closed")
						break
					}
					mu.Lock()
					conns = append(conns, a)
					mu.Unlock()
					if useTLS && r.IntN(2) == 0 {
						p := NewTLSWireClient(a, t.client, nil)
						kind = "in TLS: " + kind
						Go("hostile write", func() (any, error) { return nil, p.SendRaw(b) })
						synctest.Wait()
					} else {
						a.Write(b)
					}
					kind += " " + endConn(r, a)
				}
				desc += kind + "; "
				c.Count(kind, 1)
				synctest.Wait()
			}
			m.check(c, "piper: "+desc)
			c.goodTalk(good, 1, "piper: "+desc)
			other, ow := c.openGood(pl, ccfg, "piper: "+desc)
			if other != nil {
				c.goodTalk(other, 2, "new connection through the piper after "+desc)
				other.Close()
			}
			if ps.Done() {
				_, err := ps.Get()
				c.Violation("piper's Serve ended after %s: %v", desc, err)
			}
			c.Saw(fmt.Sprint(i, desc))
			good.Close()
			pl.Close()
			usrv.Close()
			mu.Lock()
			for _, a := range conns {
				a.Close()
			}
			mu.Unlock()
			synctest.Wait()
			c.MustReturn(gw, "after Close")
			if ow != nil {
				c.MustReturn(ow, "after Close")
			}
			c.MustReturn(ps, "after the listener closed")
			c.MustReturn(us, "after Close")
		})
		c.StopIfFailed(3)
	})
}

// c07flood: whatever is called again for each frame must not pile up.
func c07flood(c *Ctx) {
	debug.SetMaxStack(6 << 20)
	thePKI()
	c.Cases("run", c.N(36, 200), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			stage := []string{"plain server", "TLS server before the handshake", "TLS server", "plain client", "client during its handshake", "TLS client"}[i%6]
			var one []byte
			kind := []string{"bare frame", "empty message", "handshake message without body", "transport message", "heartbeat response", "stray reply"}[(i/6)%6]
			switch kind {
			case "bare frame":
				one = buildFrame(nil, nil, frameOpt{})
			case "empty message":
				one = (&WM{Id: genMsgId(r), Actor: 5}).encode(frameOpt{})
			case "handshake message without body":
				one = (&WM{Id: genMsgId(r), Actor: 35}).encode(frameOpt{Mask: 1})
			case "transport message":
				one = (&WM{Id: genMsgId(r), Actor: 1}).encode(frameOpt{})
			case "heartbeat response":
				one = (&WM{Id: genMsgId(r), Actor: 1, Action: "HeartbeatResponse", Body: RefEncode(&hbBody{1}, RefOpts{})}).encode(frameOpt{})
			case "stray reply":
				one = (&WM{Id: genMsgId(r), Actor: 29, RelatesTo: genMsgId(r)}).encode(frameOpt{})
			}
			n := 40000
			if len(one) < 20 || kind == "handshake message without body" {
				n = 80000
			}
			data := bytes.Repeat(one, n)
			var t *tlsSetup
			var scfg, ccfg transport.Config
			if i%6 != 0 && i%6 != 3 {
				t = newTLSSetup(r, i)
				scfg.TLS, ccfg.TLS = t.server, t.client
			}
			what := fmt.Sprintf("flood of %d frames (%s) to a %s", n, kind, stage)
			var got atomic.Int64
			count := func(transport.Conn, *transport.ByteArrayMessage) { got.Add(1) }
			if i%6 < 3 {
				l := NewListener(nil)
				srv, _ := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
					count(cn, m)
					echoCallback(cn, m)
				}})
				sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
				good, gw := c.openGood(l, ccfg, "at first")
				if good == nil {
					return
				}
				a, _, _ := l.Dial(ConnOpts{}, ConnOpts{})
				send := func(b []byte) error { _, err := a.Write(b); return err }
				if stage == "TLS server" {
					send = NewTLSWireClient(a, t.client, nil).SendRaw
				} else {
					go io.Copy(io.Discard, a)
				}
				fl := Go("flood", func() (any, error) { return nil, send(data) })
				synctest.Wait()
				c.goodTalk(good, 1, what)
				a.Close()
				c.MustReturn(fl, "after Close")
				good.Close()
				srv.Close()
				synctest.Wait()
				c.MustReturn(gw, "after Close")
				c.MustReturn(sv, "after Close")
			} else {
				a, b := Pipe(ConnOpts{}, ConnOpts{})
				send := func(p []byte) error { _, err := b.Write(p); return err }
				if stage == "TLS client" {
					send = NewTLSWirePeer(b, t.server, nil).SendRaw
				} else {
					go io.Copy(io.Discard, b)
				}
				fl := Go("flood", func() (any, error) { return nil, send(data) })
				var cl *transport.Client
				co := Go("Connect", func() (any, error) {
					x, err := transport.Connect(a, transport.ClientConfig{Config: ccfg, MessageCallback: count})
					cl = x
					if err == nil {
						return nil, x.Wait()
					}
					return nil, err
				})
				synctest.Wait()
				b.Close()
				if cl != nil {
					cl.Close()
				}
				a.Close()
				synctest.Wait()
				c.MustReturn(fl, "after Close")
				c.MustReturn(co, "after Close")
			}
			c.Count("delivered", got.Load())
			c.Count("frames", int64(n))
			c.Saw(fmt.Sprint(stage, kind, i))
		})
		c.StopIfFailed(1)
	})
}

func c07accept(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(80, 1500), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			scfg, ccfg := transport.Config{}, transport.Config{}
			if i%2 == 0 {
				t := newTLSSetup(r, i/2)
				scfg.TLS, ccfg.TLS = t.server, t.client
			}
			front := NewListener(nil)
			usePiper := i%4 >= 2
			var sv *Op
			ul := NewListener(nil)
			usrv, _ := transport.Listen(ul, transport.ServerConfig{MessageCallback: echoCallback})
			us := Go("upstream Serve", func() (any, error) { return nil, usrv.Serve() })
			var blocked []chan struct{}
			if usePiper {
				first := true
				piper, _ := transport.NewPiper(front, transport.PiperConfig{Config: scfg, FindUpstream: func(*transport.MessageHeaders, net.Conn) (net.Conn, transport.Config, error) {
					if first {
						// looking for the upstream may take long
						first = false
						ch := make(chan struct{})
						blocked = append(blocked, ch)
						<-ch
					}
					a, _, err := ul.Dial(ConnOpts{}, ConnOpts{})
					return a, transport.Config{}, err
				}})
				sv = Go("piper Serve", func() (any, error) { return nil, piper.Serve() })
				a, _, _ := front.Dial(ConnOpts{}, ConnOpts{})
				co := Go("Connect", func() (any, error) { return transport.Connect(a, transport.ClientConfig{Config: ccfg}) })
				synctest.Wait()
				_ = co
			} else {
				srv, _ := transport.Listen(front, transport.ServerConfig{Config: scfg, MessageCallback: echoCallback})
				sv = Go("Serve", func() (any, error) { return nil, srv.Serve() })
			}
			var stalled []*Conn
			hello := clientHello(r)
			for k := r.IntN(60); k >= 0; k-- {
				switch r.IntN(3) {
				case 0:
					front.Inject(tempErr{"too many open files"})
				default:
					a, _, _ := front.Dial(ConnOpts{}, ConnOpts{})
					switch r.IntN(3) {
					case 0:
						a.Write([]byte{1, 2, 3})
					case 1:
						a.Write((&WM{Id: genMsgId(r), Actor: 35, Body: hello}).encode(frameOpt{Mask: 1}))
					}
					stalled = append(stalled, a)
				}
				if r.IntN(4) == 0 {
					synctest.Wait()
				}
			}
			front.Ready()
			time.Sleep(time.Second)
			synctest.Wait()
			if sv.Done() {
				_, err := sv.Get()
				c.Violation("Serve (piper %v) ended: %v", usePiper, err)
			} else if g, gw := c.openGood(front, ccfg, fmt.Sprintf("after temporary accept errors and %d stalled connections (piper %v)", len(stalled), usePiper)); g != nil {
				c.goodTalk(g, 1, "after stalled connections")
				g.Close()
				synctest.Wait()
				c.MustReturn(gw, "after Close")
			}
			c.Saw(fmt.Sprint(i, len(stalled)))
			for _, ch := range blocked {
				close(ch)
			}
			front.Close()
			usrv.Close()
			for _, a := range stalled {
				a.Close()
			}
			synctest.Wait()
			c.MustReturn(sv, "after Close")
			c.MustReturn(us, "after Close")
		})
		c.StopIfFailed(3)
	})
}

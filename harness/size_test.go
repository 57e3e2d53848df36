package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"
	"testing/synctest"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

// Size: messages of many megabytes, thousands of headers, lists of thousands of entries, long texts. Nothing in the
// properties has an upper bound but those of the format.

func init() {
	register("C01", "sizes", "texts, byte strings, lists and maps of up to millions of entries, structures of hundreds of fields", c01sizes)
	register("C05", "sizes", "bodies of up to 64 MB and headers by the thousand, to and from the wire", c05sizes)
	register("C06", "sizes", "frames of many megabytes damaged or cut anywhere", c06sizes)
	register("C08", "sizes", "concurrent senders of messages of many megabytes", c08sizes)
	register("C09", "sizes", "requests and replies of many megabytes at the same time as small ones", c09sizes)
	register("C12", "sizes", "messages of many megabytes through TLS", c12sizes)
	register("C13", "sizes", "messages of many megabytes and with thousands of headers through a piper", c13sizes)
	register("C16", "sizes", "application lists of thousands of entries, long names", c16sizes)
	register("C17", "sizes", "notifications of thousands of partitions", c17sizes)
	register("C20", "sizes", "hundreds of partners announced in one message, long addresses", c20sizes)
	register("C21", "sizes", "large messages sent and routed to nodes, and their replies", c21sizes)
	register("C23", "sizes", "lease messages of up to megabytes, frame sizes around powers of two", func(c *Ctx) { leaseSizes(c) })
	register("C24", "sizes", "pings answered by pongs of up to megabytes", func(c *Ctx) { leaseSizes(c) })
}

// bulk is n bytes that differ everywhere.
func bulk(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	x := r.Uint64()
	for i := 0; i+8 <= n; i += 8 {
		x = x*6364136223846793005 + 1442695040888963407
		binary.LittleEndian.PutUint64(b[i:], x^x>>29)
	}
	return b
}

// bulkSizes: around the limits an implementation may be tempted to set.
func (c *Ctx) bulkSizes() []int {
	l := []int{1<<16 - 13, 1<<16 + 1, 1<<20 - 12, 1<<20 + 1, 1<<22 + 3, 1<<24 + 5, 1<<26 + 7}
	if c.Tier == "thorough" {
		l = append(l, 1<<25-12, 100000007, 1<<27+1)
	}
	return l
}

// crowd: many headers, of one type or of as many types, that together fill the header section to its end.
func crowd(r *rand.Rand, kind int) (l []RawHeader) {
	room := 65535 - 200
	switch kind {
	case 0: // empty ones
		for ; room >= 4; room -= 4 {
			l = append(l, RawHeader{Id: 0x1234})
		}
	case 1: // of one type
		for k := 0; room >= 8; k++ {
			l = append(l, RawHeader{0x9000, binary.LittleEndian.AppendUint32(nil, uint32(k))})
			room -= 8
		}
	case 2: // of thousands of types
		for k := 0; room >= 8; k++ {
			l = append(l, RawHeader{uint16(0x2000 + k%0x5000), binary.LittleEndian.AppendUint32(nil, uint32(k))})
			room -= 8
		}
	case 3: // one long one
		l = append(l, RawHeader{0x1234, genBytes(r, room-4)})
	case 4: // typed ones
		for room >= 100 {
			id := pick(r, typedIDs)
			v := newTyped(id)
			fill(r, reflect.ValueOf(v).Elem(), 1)
			d := RefEncode(v, RefOpts{})
			if room -= 4 + len(d); room < 0 {
				break
			}
			l = append(l, RawHeader{id, d})
		}
	case 5: // 300 of some types
		for k := 0; k < 300; k++ {
			l = append(l, RawHeader{uint16(0x1234 + k%3), genBytes(r, k%60)})
		}
	}
	return l
}

// crowdWM is bamWM for the headers crowd makes.
func crowdWM(bam *transport.ByteArrayMessage) *WM {
	m := bamWM(bam)
	for id := uint16(0x2000); id < 0x7000; id++ {
		for _, v := range bam.Headers.GetCustomHeaders(transport.MessageHeaderIdType(id)) {
			if b, ok := v.([]byte); ok {
				m.Custom = append(m.Custom, RawHeader{id, b})
			} else {
				m.Custom = append(m.Custom, RawHeader{id, []byte(fmt.Sprintf("%T", v))})
			}
		}
	}
	for _, id := range []uint16{0x1235, 0x1236} {
		for _, v := range bam.Headers.GetCustomHeaders(transport.MessageHeaderIdType(id)) {
			m.Custom = append(m.Custom, RawHeader{id, v.([]byte)})
		}
	}
	return m
}

func c05sizes(c *Ctx) {
	thePKI()
	sizes := c.bulkSizes()
	const crowds = 6
	c.Cases("run", (len(sizes)+2*crowds)*2, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			viaServer := i%2 == 1
			var body []byte
			var custom []RawHeader
			what := ""
			if k := i / 2; k < len(sizes) {
				body = bulk(r, sizes[k])
				what = fmt.Sprintf("body of %d bytes", len(body))
				if k%2 == 0 {
					custom = []RawHeader{{0x1234, genBytes(r, 50)}}
				}
			} else {
				k -= len(sizes)
				custom = crowd(r, k%crowds)
				if k < crowds {
					body = genBytes(r, 30)
				} // else nothing after the header section
				what = fmt.Sprintf("%d headers (%d) and a body of %d bytes", len(custom), k, len(body))
			}
			cfg := genConfig(r)
			cfg.CheckFrameBodyCRC, cfg.GenerateFrameBodyCRC = r.IntN(3) == 0, r.IntN(3) == 0
			var mu sync.Mutex
			var in []*WM
			var conn transport.Conn
			cb := func(cn transport.Conn, m *transport.ByteArrayMessage) {
				w := crowdWM(m)
				mu.Lock()
				in = append(in, w)
				conn = cn
				mu.Unlock()
			}
			var p *WirePeer
			var stop func()
			if viaServer {
				l := NewListener(nil)
				srv, _ := transport.Listen(l, transport.ServerConfig{Config: cfg, MessageCallback: cb})
				sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
				a, _, err := l.Dial(ConnOpts{}, ConnOpts{})
				if err != nil {
					panic(setupError{err})
				}
				p = newWirePeer(a, nil, frameOpt{BCRC: true})
				stop = func() { srv.Close(); a.Close(); synctest.Wait(); c.MustReturn(sv, "after Close") }
			} else {
				a, b := Pipe(ConnOpts{}, ConnOpts{})
				cl := c.connect(a, transport.ClientConfig{Config: cfg, MessageCallback: cb})
				w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
				p = newWirePeer(b, nil, frameOpt{BCRC: true})
				conn = cl
				stop = func() { b.Close(); cl.Close(); synctest.Wait(); c.MustReturn(w, "after Close") }
			}
			p.SendInit()
			m := &WM{Id: p.NextId(), Actor: 0x10000, Action: "big", Custom: custom, Body: body}
			after := &WM{Id: p.NextId(), Actor: 0x10000, Action: "after", Body: []byte("after")}
			p.Send(m)
			synctest.Wait()
			p.Send(after)
			synctest.Wait()
			mu.Lock()
			got := in
			cn := conn
			mu.Unlock()
			if !viaServer && len(got) > 0 && got[0].Actor == 1 {
				got = got[1:]
			}
			if len(got) != 2 {
				c.Violation("a message with a %s and one after it: %d delivered", what, len(got))
			} else {
				for k, w := range []*WM{m, after} {
					if d := diffCommon(w.delivered(), got[k]); d != "" {
						c.Violation("received message %d, the first with a %s: %s", k, what, d)
					}
				}
			}
			if cn != nil {
				for k, w := range []*WM{m, after} {
					msg := w.toMessage(r)
					msg.Headers.Id = transport.MessageId{}
					if err := cn.SendOneWay(msg); err != nil {
						c.Violation("sending message %d, the first with a %s: %v", k, what, err)
					}
				}
				synctest.Wait()
				sent := p.GotApp()
				if len(sent) != 2 {
					c.Violation("sent a message with a %s and one after it: %d on the wire", what, len(sent))
				} else {
					for k, w := range []*WM{m, after} {
						x := *w
						x.Id = sent[k].Id
						if d := diffCommon(&x, sent[k]); d != "" {
							c.Violation("sent message %d, the first with a %s: %s", k, what, d)
						}
						c.checkMasks(sent[k], cfg, false)
					}
				}
			}
			c.Max("largest_body", int64(len(body)))
			c.Max("most_headers", int64(len(custom)))
			c.Saw(fmt.Sprint(what, viaServer))
			stop()
		})
		c.StopIfFailed(3)
	})
}

func c06sizes(c *Ctx) {
	c.Cases("run", c.N(16, 120), func(i int, r *rand.Rand) {
		cfg := transport.Config{CheckFrameBodyCRC: true, GenerateFrameBodyCRC: true}
		good, next := smallWM(r, 0), smallWM(r, 2)
		bad := smallWM(r, 1)
		bad.Body = bulk(r, []int{70000, 1<<20 + 9, 1<<22 + 1, 1<<24 + 77}[i%4]-r.IntN(1000))
		f := bad.encode(frameOpt{BCRC: true})
		srv := i%8 >= 4
		what := ""
		at := frameHdr + r.IntN(len(f)-frameHdr)
		switch i / 8 % 3 {
		case 0:
			at = len(f) - 1 - r.IntN(len(f)/4)
		case 1:
			at = len(f) - 1 - r.IntN(1000)
		}
		rest := next.encode(frameOpt{BCRC: true})
		if i%2 == 0 {
			f[at] ^= 1 << r.IntN(8)
			what = fmt.Sprintf("frame of %d bytes damaged at %d", len(f), at)
		} else {
			what = fmt.Sprintf("frame of %d bytes cut at %d", len(f), at)
			f, rest = f[:at], nil
		}
		stream := append(append(good.encode(frameOpt{BCRC: true}), f...), rest...)
		run := c.deliver(cfg, srv, nil, stream, 0)
		c.expectExactly(run, []*WM{good}, srv, what)
		c.Max("largest_frame", int64(len(f)))
		c.Saw(what)
		c.StopIfFailed(3)
	})
}

func c08sizes(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(4, 24), func(i int, r *rand.Rand) {
		a, b := Pipe(raceWrite(r.Uint64()), ConnOpts{})
		var mu sync.Mutex
		var loads []*WM
		on := func(p *WirePeer, m *WM) {
			mu.Lock()
			defer mu.Unlock()
			if m.isHeartbeat() {
				p.echo(m)
			} else if m.Actor != 1 {
				loads = append(loads, m)
			}
		}
		cfg := transport.Config{GenerateFrameBodyCRC: i%4 < 2}
		if i%2 == 1 {
			t := newTLSSetup(r, i)
			cfg.TLS = t.client
			go NewTLSWirePeer(b, t.server, on)
		} else {
			NewWirePeer(b, on)
		}
		cl := c.connect(a, transport.ClientConfig{Config: cfg})
		go cl.Wait()
		var log sentLog
		var wg sync.WaitGroup
		for s := 0; s < 6; s++ {
			seed := r.Uint64()
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				rr := rand.New(rand.NewPCG(seed, 1))
				for q := 0; q < 5; q++ {
					size := rr.IntN(200)
					if s < 3 {
						size = 1 + rr.IntN([]int{70000, 1 << 20, 1<<22 + 100}[s])
					}
					if err := cl.SendOneWay(loadMsg(s, q, size)); err != nil {
						c.Violation("a message of %d bytes among others: %v", size, err)
						return
					}
					log.add(s, q)
				}
			}(s)
		}
		wg.Wait()
		ping := Go("Ping", func() (any, error) { d, err := cl.Ping(bg); return d, err })
		if !c.returns(ping, "after large messages") {
			return
		}
		mu.Lock()
		c.checkLoads(loads, &log, true, true, "large messages")
		mu.Unlock()
		c.Saw(fmt.Sprint(i))
		cl.Close()
		b.Close()
		c.StopIfFailed(1)
	})
}

func c09sizes(c *Ctx) {
	c.Cases("run", c.N(6, 40), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{}, ConnOpts{})
			var mu sync.Mutex
			var reqs []*WM
			p := NewWirePeer(b, func(p *WirePeer, m *WM) {
				if m.Actor != 1 {
					mu.Lock()
					reqs = append(reqs, m)
					mu.Unlock()
				}
			})
			p.SendInit()
			cl := c.connect(a, transport.ClientConfig{})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			sizes := []int{10, 1<<16 + 1, 1<<20 + 1, 20, 1<<22 + 1, 1<<24 + 1, 0}
			var ops []*Op
			for k, n := range sizes {
				m := reqMsg(0, append([]byte{byte(k)}, bulk(r, n)...))
				ops = append(ops, Go("request", func() (any, error) { return cl.RequestReply(bg, m) }))
			}
			synctest.Wait()
			mu.Lock()
			l := append([]*WM(nil), reqs...)
			mu.Unlock()
			if len(l) != len(sizes) {
				c.Violation("%d requests on the wire, %d made", len(l), len(sizes))
			}
			want := map[int][]byte{}
			for _, k := range r.Perm(len(l)) {
				who := int(l[k].Body[0])
				if len(l[k].Body) != 1+sizes[who] {
					c.Violation("request of %d bytes arrives with %d", 1+sizes[who], len(l[k].Body))
				}
				want[who] = bulk(r, pick(r, sizes))
				p.Reply(l[k], &WM{Actor: 0x10000, Body: want[who]})
			}
			for k, o := range ops {
				v, ok := c.succeeds(o, fmt.Sprintf("of %d bytes, answered with %d", sizes[k], len(want[k])))
				if !ok {
					break
				}
				if got := v.(*transport.ByteArrayMessage).Body; !bytes.Equal(got, want[k]) {
					c.Violation("a request of %d bytes got a reply of %d bytes, not its own of %d", sizes[k], len(got), len(want[k]))
				}
			}
			c.Count("requests", int64(len(ops)))
			c.Saw(fmt.Sprint(i))
			cl.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
			b.Close()
		})
		c.StopIfFailed(2)
	})
}

func c12sizes(c *Ctx) {
	thePKI()
	sizes := []int{1<<14 + 1, 1<<16 + 1, 1<<20 + 1, 1<<22 + 3, 1<<24 + 5}
	if c.Tier == "thorough" {
		sizes = append(sizes, 1<<25, 1<<26+7)
	}
	c.Cases("run", len(sizes)*2, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			t := newTLSSetup(r, i)
			var atServer, atClient inbox
			var cmu sync.Mutex
			var back transport.Conn
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: transport.Config{TLS: t.server}, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				atServer.cb(cn, m)
				cmu.Lock()
				back = cn
				cmu.Unlock()
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			a, b, _ := l.Dial(ConnOpts{Record: true}, ConnOpts{Record: true})
			cl, err := transport.Connect(a, transport.ClientConfig{Config: transport.Config{TLS: t.client}, MessageCallback: atClient.cb})
			if err != nil {
				c.Violation("connect (%s): %v", t.desc, err)
				srv.Close()
				a.Close()
				b.Close()
				return
			}
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			send := func(conn transport.Conn) (l []*WM) {
				for k := 0; k < 3; k++ {
					m := &WM{Actor: 0x10000, Action: fmt.Sprint("m", k), Body: bulk(r, 20)}
					if k == 1 {
						m.Body = bulk(r, sizes[i/2]-r.IntN(3))
					}
					if k == 2 && i%2 == 1 {
						m.Custom = crowd(r, 5)[:50]
						for j := range m.Custom {
							m.Custom[j].Id = 0x1234
						}
					}
					msg := m.toMessage(r)
					if err := conn.SendOneWay(msg); err != nil {
						c.Violation("sending %d bytes (%s): %v", len(m.Body), t.desc, err)
					}
					m.Id = msg.Headers.Id
					l = append(l, m)
				}
				synctest.Wait()
				return
			}
			up := send(cl)
			cmu.Lock()
			sc := back
			cmu.Unlock()
			if sc == nil {
				c.Violation("nothing arrived at the server (%s)", t.desc)
			} else {
				down := send(sc)
				c.sameOrder(down, atClient.got(), "to the client, "+t.desc)
			}
			c.sameSet(up, atServer.got(), "to the server, "+t.desc)
			c.Count("frames", int64(c.wireSecure(a.Sent(), "client's bytes, "+t.desc)+c.wireSecure(b.Sent(), "server's bytes, "+t.desc)))
			c.Max("largest_body", int64(sizes[i/2]))
			c.Saw(fmt.Sprint(i))
			cl.Close()
			srv.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
			c.MustReturn(sv, "after Close")
			b.Close()
		})
		c.StopIfFailed(3)
	})
}

func c13sizes(c *Ctx) {
	thePKI()
	sizes := []int{1<<16 + 1, 1<<20 + 1, 1<<22 + 3, 1<<24 + 5}
	if c.Tier == "thorough" {
		sizes = append(sizes, 1<<25, 1<<26+7)
	}
	c.Cases("run", len(sizes)*4, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var f transport.MessageTransformer
			if i/4%2 == 0 {
				f = piperFilter
			}
			g := newPiperRig(c, r, i, f)
			g.opts = func() ConnOpts { return ConnOpts{} }
			p := g.connect()
			l := map[string][]*WM{}
			send := func(w *WirePeer, who string, m *WM) {
				m.Id = genMsgId(r)
				m.Actor = 0x10000
				l[who] = append(l[who], m)
				w.Send(m)
				synctest.Wait()
			}
			big := func(w *WirePeer, who string) {
				send(w, who, &WM{Action: vKeep + " " + who, Body: bulk(r, sizes[i/4])})
				m := &WM{Action: vKeep + " " + who, Custom: crowd(r, i%4)}
				if i%4 == 2 { // types customOf looks at
					m.Custom = crowd(r, 1)
				}
				send(w, who, m)
				send(w, who, &WM{Action: vKeep + " " + who, Body: []byte("after")})
			}
			send(p.peer, "client", &WM{Action: "first of client"})
			u := g.upstream(p)
			if u == nil {
				c.Violation("no upstream (%s)", g.desc())
			} else {
				big(p.peer, "client")
				big(u.peer, "upstream")
				c.comparePiped(u.peer.Got(), filtered(l["client"], f != nil, g.down == nil), "to the upstream of "+g.desc())
				c.comparePiped(p.peer.Got(), filtered(l["upstream"], f != nil, false), "to the client of "+g.desc())
			}
			c.Max("largest_body", int64(sizes[i/4]))
			c.Saw(fmt.Sprint(i))
			g.close([]*pipedClient{p})
		})
		c.StopIfFailed(3)
	})
}

func c16sizes(c *Ctx) {
	sizes := []int{100, 255, 257, 1000, 1025, 5000, 20000}
	if c.Tier == "thorough" {
		sizes = append(sizes, 65537, 120000)
	}
	c.Cases("run", len(sizes)*2, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			n := sizes[i/2]
			var l gwAppList
			if i%2 == 0 {
				l.List = make([]gwApp, n)
				for k := range l.List {
					x := &l.List[k]
					x.Name = gwUri{Type: 1, Scheme: "fabric", Path: fmt.Sprint("app", k), Segments: []string{fmt.Sprint("app", k)}}
					x.TypeName, x.TypeVersion, x.Status = "t", fmt.Sprint(k), int64(k)
				}
			} else {
				x := gwApp{TypeName: strings.Repeat("n", n), TypeVersion: strings.Repeat("v", 3*n), Parameters: map[string]string{}}
				for k := 0; k < n; k++ {
					x.Parameters[fmt.Sprint("parameter", k)] = fmt.Sprint(k)
					x.Name.Segments = append(x.Name.Segments, fmt.Sprint(k))
				}
				l.List = []gwApp{x, {TypeName: "last"}}
			}
			d := gwDescription{Address: strings.Repeat("a", n*7), NodeName: strings.Repeat("名", n*5), Instance: gwInstance{genNodeID(r), 5}}
			_, nc, cl, w, _ := newGatewayOn(c, ConnOpts{}, ConnOpts{}, func(g *gateway, m *WM) {
				switch m.Action {
				case "PingRequest":
					g.p.Reply(m, &WM{Actor: gwActor, Action: "PingRequest", Body: RefEncode(&gwPingReply{d}, RefOpts{})})
				case "QueryRequest":
					g.p.Reply(m, &WM{Actor: gwActor, Action: "QueryReply", Body: RefEncode(&gwQueryReply{Result: &l}, RefOpts{})})
				default:
					g.p.Reply(m, &WM{Actor: gwActor, Action: m.Action})
				}
			})
			v, ok := c.succeeds(Go("GetApplicationList", func() (any, error) { return nc.GetApplicationList(bg, strings.Repeat("q", n)) }), fmt.Sprintf("answered with %d applications", len(l.List)))
			if ok {
				if x := diffAny(l.List, appsOf(v.([]naming.ApplicationQueryResult))); x != "" {
					c.Violation("a list of %d applications: %s", len(l.List), x)
				}
			}
			v, ok = c.succeeds(Go("Ping", func() (any, error) { return nc.Ping(bg) }), "answered with long names")
			if ok {
				if x := diffAny(d, descOf(v.(*naming.GatewayDescription))); x != "" {
					c.Violation("a gateway with long names: %s", x)
				}
			}
			c.Max("most_entries", int64(n))
			c.Saw(fmt.Sprint(i))
			cl.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c17sizes(c *Ctx) {
	sizes := []int{100, 257, 1025, 4097, 20000}
	if c.Tier == "thorough" {
		sizes = append(sizes, 65537, 120000)
	}
	c.Cases("run", len(sizes), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			n := sizes[i]
			var mu sync.Mutex
			acks := map[string]int{}
			g, nc, cl, w, _ := newGatewayOn(c, ConnOpts{}, ConnOpts{}, func(g *gateway, m *WM) {
				if m.Action == "ServiceNotificationReply" {
					mu.Lock()
					acks[m.RelatesTo.String()]++
					mu.Unlock()
				}
			})
			var got []*naming.ServiceNotification
			nc.OnServiceNotification = func(sn *naming.ServiceNotification) {
				mu.Lock()
				got = append(got, sn)
				mu.Unlock()
			}
			wide, long := &gwNotification{}, &gwNotification{}
			for k := 0; k < n; k++ {
				e := &gwEntry{Service: fmt.Sprint("fabric:/s/", k), Found: k%2 == 0, Replicas: gwReplicas{Primary: "p", Version: int64(k), Replicas: []string{"a", fmt.Sprint(k)}}}
				wide.Partitions = append(wide.Partitions, &gwPartition{Table: e})
			}
			e := &gwEntry{Service: strings.Repeat("x", n)}
			long.Versions = &gwRanges{}
			for k := 0; k < n; k++ {
				e.Replicas.Replicas = append(e.Replicas.Replicas, fmt.Sprint(k))
				long.Versions.L = append(long.Versions.L, gwRange{int64(k), int64(k + 1)})
			}
			long.Partitions = []*gwPartition{{Table: e}}
			for k, sn := range []*gwNotification{wide, long} {
				mu.Lock()
				got = nil
				mu.Unlock()
				id := g.p.NextId()
				g.p.Send(&WM{Id: id, Actor: gwActor, Action: "ServiceNotificationRequest", ExpectsReply: true, Body: RefEncode(&gwNotify{sn}, RefOpts{})})
				synctest.Wait()
				mu.Lock()
				if len(got) != 1 || got[0] == nil || acks[id.String()] != 1 {
					c.Violation("a notification of %d partitions (%d): %d callbacks, %d acknowledgements", n, k, len(got), acks[id.String()])
				} else if d := diffAny(sn, notificationOf(got[0])); d != "" {
					c.Violation("a notification of %d partitions (%d): %s", n, k, d)
				}
				mu.Unlock()
			}
			c.Max("most_entries", int64(n))
			c.Saw(fmt.Sprint(i))
			cl.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c20sizes(c *Ctx) {
	c.Cases("run", c.N(6, 40), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newFedWorld(c, federation.NodeInstance{Id: genNodeID(r), InstanceId: 3})
			seed := w.newNode(genNodeID(r), nil)
			w.start([]federation.SeedNodeInfo{{Id: seed.id, Address: seed.addr()}})
			known := map[federation.NodeID]fnPartner{seed.id: {Instance: gwInstance{Id: seed.id}, Address: seed.addr()}}
			p := w.in(nil)
			for round := 0; round < 3; round++ {
				room := 65000
				var l []fnPartner
				for len(l) < 2000 {
					x := fnPartner{Instance: gwInstance{genNodeID(r), uint64(round + 1)}, Phase: int64(r.IntN(5)), Address: fmt.Sprint("a", len(l))}
					if i%2 == 1 {
						x.Address = strings.Repeat("x", 20000/(1+len(l)))
						x.Ring = strings.Repeat("r", r.IntN(200))
					}
					if room -= 4 + len(x.header().Data); room < 0 {
						break
					}
					if y, ok := known[x.Instance.Id]; ok && !rankLess(y.rank(), x.rank()) {
						continue
					}
					known[x.Instance.Id] = x
					l = append(l, x)
				}
				w.announce(p, l...)
				synctest.Wait()
				w.knows(known, fmt.Sprintf("after %d partners in one message", len(l)))
				c.Max("most_partners_in_a_message", int64(len(l)))
			}
			c.Saw(fmt.Sprint(i))
			w.stop()
			c.MustReturn(w.serve, "after Close")
		})
		c.StopIfFailed(2)
	})
}

func c21sizes(c *Ctx) {
	c.Cases("run", c.N(6, 40), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newFedWorld(c, federation.NodeInstance{Id: genNodeID(r), InstanceId: 3})
			size := []int{1<<16 + 1, 1<<20 + 1, 1<<24 + 1}[i%3]
			answer := bulk(r, size)
			n := w.newNode(genNodeID(r), func(n *fedNode, p *WirePeer, m *WM) {
				if m.Action == "ask" {
					p.Reply(m, &WM{Actor: 2, Action: "answer", Body: answer})
				}
			})
			w.start([]federation.SeedNodeInfo{{Id: n.id, Address: n.addr()}})
			body := bulk(r, size)
			mk := func(action string) *transport.Message {
				m := fedMsgOf(action)
				m.Body = body
				for k := 0; k < 200; k++ {
					m.Headers.AppendCustomHeader(0x1234, genBytes(r, k))
				}
				return m
			}
			send := Go("SendOneWay", func() (any, error) { return nil, w.node.SendOneWay(n.id, mk("tell")) })
			c.succeeds(send, fmt.Sprintf("of %d bytes", size))
			ask := Go("Route", func() (any, error) { return w.node.Route(bg, n.id, mk("ask")) })
			if v, ok := c.succeeds(ask, fmt.Sprintf("of %d bytes", size)); ok {
				if got := v.(*transport.ByteArrayMessage).Body; !bytes.Equal(got, answer) {
					c.Violation("a reply of %d bytes arrives with %d", len(answer), len(got))
				}
			}
			seen := 0
			for _, x := range n.got() {
				if x.m.Action != "tell" && x.m.Action != "ask" {
					continue
				}
				seen++
				if !bytes.Equal(x.m.Body, body) || len(customOf(x.m)[0x1234]) != 200 {
					c.Violation("%q of %d bytes and 200 headers arrives with %d bytes and %d headers", x.m.Action, size, len(x.m.Body), len(customOf(x.m)[0x1234]))
				}
			}
			if seen != 2 {
				c.Violation("%d of 2 messages arrived", seen)
			}
			c.Max("largest_body", int64(size))
			c.Saw(fmt.Sprint(i))
			w.stop()
			c.MustReturn(w.serve, "after Close")
		})
		c.StopIfFailed(2)
	})
}

// leaseSizes: a pong is a pong whatever its lists hold.
func leaseSizes(c *Ctx) {
	limit := []int{300, 400, 500, 1 << 9, 1 << 10, 1 << 11, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 19, 1 << 20}
	if c.Tier == "thorough" {
		limit = append(limit, 1<<22, 1<<24)
	}
	c.Cases("run", len(limit)*c.N(2, 6), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%5 == 4)
			w.start()
			host, port := genHost(r)
			if i%7 == 3 {
				host = strings.Repeat("long-host.", 12+r.IntN(100))
			}
			p := w.newPeer(host, port)
			s := w.establish(p)
			if s == nil {
				return
			}
			for round := 0; round < 5; round++ {
				ping := Go("Ping", func() (any, error) { return nil, s.Ping(bg) })
				synctest.Wait()
				if !c.pending(ping, "without a pong") {
					break
				}
				if p.in == nil {
					p.in, _ = w.dial()
				}
				n := limit[i%len(limit)]
				m := p.msg(3, r.Int64())
				m.Lists = [9][][2]string{}
				switch round {
				case 0: // many entries
					for k := 0; k < n/30; k++ {
						j := r.IntN(9)
						m.Lists[j] = append(m.Lists[j], [2]string{fmt.Sprint(k), "x"})
					}
				case 1: // long texts
					m.Lists[r.IntN(9)] = [][2]string{{strings.Repeat("y", n/4), strings.Repeat("z", n/4)}, {"", ""}}
				case 2: // one list
					j := r.IntN(9)
					for k := 0; k < n/20; k++ {
						m.Lists[j] = append(m.Lists[j], [2]string{"", "1"})
					}
				case 3: // exactly this many bytes
					m.ext = false
					m.gaps = false
					if base := len(m.encode(r)); base+8 <= n {
						m.Lists[4] = [][2]string{{"", strings.Repeat("e", (n-base-8)/2)}}
					}
				}
				b := m.encode(r)
				if err := p.in.send(ltDataFrame(b)); err != nil {
					c.Violation("the agent closed the connection on a pong of %d bytes: %v", len(b), err)
					break
				}
				if _, ok := c.succeeds(ping, fmt.Sprintf("with a pong of %d bytes (%d)", len(b), round)); !ok {
					break
				}
				if len(p.got()) != round+1 {
					c.Violation("%d pings on the wire, %d made", len(p.got()), round+1)
				}
				c.Max("largest_pong", int64(len(b)))
				c.Count("pongs", 1)
			}
			c.Saw(fmt.Sprint(i))
			w.stop()
		})
		c.StopIfFailed(2)
	})
}

func c01sizes(c *Ctx) {
	c.Cases("run", c.N(12, 48), func(i int, r *rand.Rand) {
		what := ""
		var p any
		switch i % 12 {
		case 0:
			x := &struct{ S, T string }{strings.Repeat("\U0001f600é", 400000), "end"}
			p, what = x, "text of 1.2 million units"
		case 1:
			x := &struct {
				B []byte
				T string
			}{bulk(r, 5<<20+1), "end"}
			p, what = x, "5 MB of bytes"
		case 2:
			x := &struct {
				L []int64
				T string
			}{make([]int64, 1<<20+1), "end"}
			for k := range x.L {
				x.L[k] = genInt(r, 64)
			}
			p, what = x, "list of a million numbers"
		case 3:
			x := &struct {
				M map[uint32]string
				T string
			}{map[uint32]string{}, "end"}
			for k := 0; k < 150000; k++ {
				x.M[r.Uint32()] = fmt.Sprint(k)
			}
			p, what = x, "map of 150000 entries"
		case 4:
			x := &struct {
				L []string
				T string
			}{make([]string, 300000), "end"}
			for k := range x.L {
				x.L[k] = fmt.Sprint(k)
			}
			p, what = x, "list of 300000 texts"
		case 5:
			x := &struct {
				L []*HwBase
				T string
			}{make([]*HwBase, 200000), "end"}
			for k := range x.L {
				if k%3 > 0 {
					x.L[k] = &HwBase{A: int32(k)}
				}
			}
			p, what = x, "list of 200000 pointers"
		case 6:
			x := &struct {
				L []serialization.GUID
				T string
			}{make([]serialization.GUID, 1<<17+1), "end"}
			for k := range x.L {
				fill(r, reflect.ValueOf(&x.L[k]).Elem(), 1)
			}
			p, what = x, "list of 131073 guids"
		case 7:
			x := &struct {
				L []bool
				F []float64
				T string
			}{make([]bool, 1<<20+1), make([]float64, 1<<18+1), "end"}
			for k := range x.L {
				x.L[k] = r.IntN(2) == 0
			}
			for k := range x.F {
				x.F[k] = r.Float64()
			}
			p, what = x, "a million booleans and 262145 fractions"
		case 8, 9: // structures of many fields
			n := []int{127, 128, 129, 255, 256, 257, 1000, 5000}[r.IntN(8)]
			if i%12 == 9 {
				n = 2000
			}
			var fs []reflect.StructField
			for k := 0; k < n; k++ {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", k), Type: pick(r, []reflect.Type{reflect.TypeOf(int32(0)), reflect.TypeOf(""), reflect.TypeOf(uint8(0)), reflect.TypeOf([]string(nil)), reflect.TypeOf(HwBase{})})})
			}
			v := reflect.New(reflect.StructOf(fs))
			fill(r, v.Elem(), 1)
			p, what = v.Interface(), fmt.Sprintf("structure of %d fields", n)
		case 10:
			x := &struct {
				M map[string][]string
				T string
			}{map[string][]string{}, "end"}
			for k := 0; k < 20000; k++ {
				x.M[fmt.Sprint(k)] = []string{strings.Repeat("v", k%200), "w"}
			}
			p, what = x, "map of 20000 lists"
		case 11: // nesting
			type row struct {
				L []string
				N []HwBase
			}
			x := &struct {
				L []row
				T string
			}{T: "end"}
			for k := 0; k < 3000; k++ {
				w := row{L: make([]string, 60), N: make([]HwBase, k%9)}
				w.L[k%60] = fmt.Sprint(k)
				x.L = append(x.L, w)
			}
			p, what = x, "180000 texts in lists of lists"
		}
		data, _ := roundTrip(c, reflect.ValueOf(p), what)
		c.Max("largest_encoding", int64(len(data)))
		c.Saw(what)
	})
}

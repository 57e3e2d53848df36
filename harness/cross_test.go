package harness

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"net"
	"reflect"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/transport"
)

// Several objects of a kind in one process have nothing to do with each other, and an object used
// again is taken as it is then, not as it was.

func init() {
	register("C05", "again", "messages, bodies and headers sent again after they were changed, on several connections", c05again)
	for _, p := range []string{"C09", "C10", "C11", "C15"} {
		p := p
		register(p, "cross", "histories over several connections of one process: answers given on another one, equal ids and ticks, closes of others", func(c *Ctx) { crossConns(c, p) })
	}
	register("C13", "cross", "several pipers of one process with filters and upstreams of their own", c13cross)
	register("C16", "cross", "several naming clients of one process, answers on the wrong connection", func(c *Ctx) { crossNaming(c, "C16") })
	register("C17", "cross", "several naming clients of one process, equal notifications", func(c *Ctx) { crossNaming(c, "C17") })
	register("C20", "cross", "several site nodes of one process learn of the same partners from different sources", func(c *Ctx) { crossNodes(c, "C20") })
	register("C21", "cross", "several site nodes of one process send to and route over the same partners", func(c *Ctx) { crossNodes(c, "C21") })
	register("C24", "cross", "several agents of one process with sessions to the same peers, pongs to one of them", func(c *Ctx) { crossAgents(c, "C24") })
	register("C25", "cross", "several agents of one process with sessions to the same peers, closed one by one", func(c *Ctx) { crossAgents(c, "C25") })
	register("C31", "cross", "several servers of one process with callbacks of their own, closed one by one", c31cross)
}

func c05again(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(60, 2000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			type end struct {
				cl   *transport.Client
				p    *WirePeer
				a, b *Conn
				want []*WM
			}
			var ends []*end
			for k := 1 + r.IntN(3); k > 0; k-- {
				a, b := Pipe(ConnOpts{}, ConnOpts{})
				e := &end{a: a, b: b}
				if i%5 == 4 {
					t := newTLSSetup(r, i)
					e.p = NewTLSWirePeer(b, t.server, nil).WirePeer
					e.cl = c.connect(a, transport.ClientConfig{Config: transport.Config{TLS: t.client}})
				} else {
					e.p = NewWirePeer(b, nil)
					e.cl = c.connect(a, transport.ClientConfig{})
				}
				ends = append(ends, e)
			}
			msg := &transport.Message{}
			msg.Headers.Actor = transport.MessageActorTypeGenericTestActor
			obj := genBodyObj(r, 3)
			raw := genBytes(r, 1+r.IntN(5000))
			plain := genBytes(r, 1+r.IntN(300))
			typed := &HwHeader{}
			part := &federation.FederationPartnerNodeHeader{}
			msg.Headers.AppendCustomHeader(0x1234, plain)
			msg.Headers.AppendCustomHeader(0x9101, typed)
			msg.Headers.AppendCustomHeader(0x800c, part)
			for k := 3 + r.IntN(10); k > 0; k-- {
				// change something of what was used before
				for n := 1 + r.IntN(4); n > 0; n-- {
					switch r.IntN(9) {
					case 0:
						*obj = *genBodyObj(r, 3)
					case 1:
						obj.A++
						if obj.P != nil {
							obj.P.S += "x"
						}
					case 2:
						raw[r.IntN(len(raw))]++
					case 3:
						plain[r.IntN(len(plain))]++
					case 4:
						fill(r, reflect.ValueOf(typed).Elem(), 3)
					case 5:
						fill(r, reflect.ValueOf(part).Elem(), 3)
					case 6:
						msg.Headers.Action = genString(r, 12)
						msg.Headers.RelatesTo = genMsgId(r)
					case 7:
						msg.Headers.Idempotent = !msg.Headers.Idempotent
						msg.Headers.RetryCount++
					case 8:
						msg.Headers.AppendCustomHeader(0x9000, genBytes(r, r.IntN(20)))
					}
				}
				m := &WM{Actor: 0x10000, Action: msg.Headers.Action, RelatesTo: msg.Headers.RelatesTo, Idempotent: msg.Headers.Idempotent, Retry: msg.Headers.RetryCount}
				if r.IntN(2) == 0 {
					msg.Body, m.Body = obj, RefEncode(obj, RefOpts{})
				} else {
					msg.Body, m.Body = raw, append([]byte{}, raw...)
				}
				switch r.IntN(3) {
				case 0:
					msg.Headers.Id = transport.MessageId{}
				case 1:
					msg.Headers.Id = genMsgId(r)
				}
				m.Id = msg.Headers.Id
				m.Custom = append(m.Custom, RawHeader{0x1234, append([]byte{}, plain...)}, RawHeader{0x9101, RefEncode(typed, RefOpts{})}, RawHeader{0x800c, RefEncode(part, RefOpts{})})
				for _, h := range msg.Headers.GetCustomHeaders(0x9000) {
					m.Custom = append(m.Custom, RawHeader{0x9000, append([]byte{}, h.([]byte)...)})
				}
				e := pick(r, ends)
				if r.IntN(3) == 0 {
					ctx, cancel := context.WithCancel(bg)
					op := Go("RequestReply", func() (any, error) { return e.cl.RequestReply(ctx, msg) })
					synctest.Wait()
					c.pending(op, "of a message used before")
					cancel()
					synctest.Wait()
					m.ExpectsReply = true
				} else {
					m.ExpectsReply = msg.Headers.ExpectsReply
					if err := e.cl.SendOneWay(msg); err != nil {
						c.Violation("a message used before is not sent: %v", err)
					}
				}
				e.want = append(e.want, m)
				c.Count("sent", 1)
				c.Saw(wmKey(m))
			}
			// what was sent stays what it was
			*obj = bodyObj{}
			for k := range raw {
				raw[k] = 0xee
			}
			for k := range plain {
				plain[k] = 0xee
			}
			synctest.Wait()
			for _, e := range ends {
				app := e.p.GotApp()
				if len(app) != len(e.want) {
					c.Violation("%d messages on the wire, sent %d", len(app), len(e.want))
					continue
				}
				for k := range app {
					if d := diffWM(e.want[k], app[k]); d != "" {
						c.Violation("message %d of %d, sent again after a change: %s", k, len(app), d)
					}
				}
				e.a.Close()
				e.b.Close()
			}
		})
		c.StopIfFailed(3)
	})
}

type crossReq struct {
	id  transport.MessageId
	op  *Op
	end context.CancelFunc
}

type crossPing struct {
	body []byte
	op   *Op
	end  context.CancelFunc
}

type crossConn struct {
	n      int
	a, b   *Conn
	tls    bool
	cl     *transport.Client
	p      *WirePeer
	in     inbox
	wait   *Op
	want   int // messages for the callback
	reqs   []*crossReq
	pings  []*crossPing
	closed bool
	code   int64 // refused with
}

func (x *crossConn) has(id transport.MessageId) bool {
	for _, q := range x.reqs {
		if q.id == id {
			return true
		}
	}
	return false
}

func (x *crossConn) waits(body []byte) bool {
	for _, q := range x.pings {
		if bytes.Equal(q.body, body) {
			return true
		}
	}
	return false
}

func crossConns(c *Ctx, prop string) {
	thePKI()
	c.Cases("run", c.N(150, 4000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var l []*crossConn
			var hist []string
			for k := 2 + r.IntN(4); k > 0; k-- {
				x := &crossConn{n: len(l)}
				x.a, x.b = Pipe(ConnOpts{}, ConnOpts{})
				cfg := transport.ClientConfig{MessageCallback: x.in.cb}
				if r.IntN(5) == 0 {
					t := newTLSSetup(r, r.IntN(8))
					cfg.TLS = t.client
					x.tls = true
					x.p = NewTLSWirePeer(x.b, t.server, nil).WirePeer
				} else {
					x.p = NewWirePeer(x.b, nil)
				}
				x.cl = c.connect(x.a, cfg)
				x.wait = Go("Wait", func() (any, error) { return nil, x.cl.Wait() })
				l = append(l, x)
			}
			synctest.Wait()
			bad := func(format string, a ...any) {
				c.Violation("%s; history %v", fmt.Sprintf(format, a...), hist)
			}
			// all that wait go on waiting, all callbacks got what was for them
			check := func() {
				synctest.Wait()
				for _, x := range l {
					for _, q := range x.reqs {
						if q.op.Done() {
							_, err := q.op.Get()
							bad("a request on connection %d returned (%v), nothing happened to it", x.n, err)
						}
					}
					for _, q := range x.pings {
						if q.op.Done() {
							_, err := q.op.Get()
							bad("a ping on connection %d returned (%v), nothing happened to it", x.n, err)
						}
					}
					if g := len(x.in.got()); g != x.want {
						bad("the callback of connection %d got %d messages, want %d", x.n, g, x.want)
					}
					if x.wait.Done() != x.closed {
						bad("connection %d ended: %v, want %v", x.n, x.wait.Done(), x.closed)
					}
				}
			}
			final := func(op *Op, what string, ok bool) any {
				synctest.Wait()
				if !c.MustReturn(op, what) {
					return nil
				}
				v, err := op.Get()
				if (err == nil) != ok {
					bad("%s %s: %v", op.name, what, err)
					return nil
				}
				return v
			}
			pings, requests := prop == "C11", prop != "C11"
			for k := 20 + r.IntN(40); k > 0 && !c.Failed(); k-- {
				x, y := pick(r, l), pick(r, l)
				if x.closed {
					continue
				}
				what := r.IntN(14)
				switch {
				case what < 3 && requests:
					ctx, cancel := context.WithCancel(bg)
					m := reqMsg(k, nil)
					hist = append(hist, fmt.Sprintf("request on %d", x.n))
					if len(y.reqs) > 0 && r.IntN(2) == 0 {
						if q := pick(r, y.reqs); !x.has(q.id) { // the same id on two connections
							m.Headers.Id = q.id
							hist = append(hist, fmt.Sprintf("with an id of %d", y.n))
						}
					}
					n0 := len(x.p.GotApp())
					q := &crossReq{op: Go("RequestReply", func() (any, error) { return x.cl.RequestReply(ctx, m) }), end: cancel}
					synctest.Wait()
					g := x.p.GotApp()
					if len(g) != n0+1 {
						bad("%d messages arrived, want one request", len(g)-n0)
						cancel()
						break
					}
					q.id = g[n0].Id
					x.reqs = append(x.reqs, q)
				case what < 3 && pings:
					if r.IntN(3) == 0 {
						time.Sleep(time.Duration(r.IntN(3)))
					}
					ctx, cancel := context.WithCancel(bg)
					n0 := len(x.p.Got())
					hist = append(hist, fmt.Sprintf("ping on %d", x.n))
					q := &crossPing{op: Go("Ping", func() (any, error) { return x.cl.Ping(ctx) }), end: cancel}
					synctest.Wait()
					g := x.p.Got()
					if len(g) != n0+1 || !g[n0].isHeartbeat() {
						bad("no heartbeat request arrived")
						cancel()
						break
					}
					q.body = g[n0].Body
					for _, z := range l {
						if z != x && z.waits(q.body) {
							c.Count("equal_ticks", 1)
						}
					}
					x.pings = append(x.pings, q)
				case what < 5 && len(x.reqs) > 0:
					j := r.IntN(len(x.reqs))
					q := x.reqs[j]
					x.reqs = append(x.reqs[:j:j], x.reqs[j+1:]...)
					body := fmt.Sprint("re ", k)
					hist = append(hist, fmt.Sprintf("reply on %d", x.n))
					x.p.Send(&WM{Actor: 0x10000, RelatesTo: q.id, Body: []byte(body)})
					if v := final(q.op, "that is answered", true); v != nil {
						if b := v.(*transport.ByteArrayMessage).Body; string(b) != body {
							bad("a request gets %q, its reply is %q", b, body)
						}
					}
					c.Count("replies", 1)
				case what < 5 && len(x.pings) > 0:
					j := r.IntN(len(x.pings))
					q := x.pings[j]
					x.pings = append(x.pings[:j:j], x.pings[j+1:]...)
					hist = append(hist, fmt.Sprintf("echo on %d", x.n))
					x.p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: q.body})
					final(q.op, "that is echoed", true)
					c.Count("echoes", 1)
				case what < 8 && len(y.reqs) > 0:
					q := pick(r, y.reqs)
					if x.has(q.id) {
						continue
					}
					hist = append(hist, fmt.Sprintf("reply to %d on %d", y.n, x.n))
					x.p.Send(&WM{Actor: 0x10000, RelatesTo: q.id, Body: []byte("wrong")})
					x.want++
					c.Count("answers_on_other_connections", 1)
				case what < 8 && len(y.pings) > 0:
					q := pick(r, y.pings)
					if x.waits(q.body) {
						continue
					}
					hist = append(hist, fmt.Sprintf("echo of %d on %d", y.n, x.n))
					x.p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: q.body})
					c.Count("answers_on_other_connections", 1)
				case what == 8:
					x.p.Send(&WM{Actor: 0x10000, Action: "news"})
					x.want++
				case what == 9 && len(x.reqs) > 0:
					hist = append(hist, fmt.Sprintf("cancel on %d", x.n))
					q := x.reqs[0]
					x.reqs = x.reqs[1:]
					q.end()
					final(q.op, "that is cancelled", false)
				case what == 9 && len(x.pings) > 0:
					hist = append(hist, fmt.Sprintf("cancel on %d", x.n))
					q := x.pings[0]
					x.pings = x.pings[1:]
					q.end()
					final(q.op, "that is cancelled", false)
				case what == 10 && r.IntN(3) == 0:
					way := r.IntN(3)
					if x.tls && way == 2 { // no checksum there says that it is no frame
						way = 1
					}
					if prop == "C15" {
						way = 3
					}
					switch way {
					case 0:
						x.cl.Close()
					case 1:
						x.b.Close()
					case 2:
						x.p.SendRaw(bytes.Repeat([]byte{0xff}, 64))
					case 3:
						x.code = int64(1 + k)
						x.p.Send(&WM{Actor: 29, Action: "ConnectionAuth", Err: x.code, Body: RefEncode(&strObj{fmt.Sprint("refused ", x.n)}, RefOpts{})})
					}
					x.closed = true
					hist = append(hist, fmt.Sprintf("%d ends (%d)", x.n, way))
					for _, q := range x.reqs {
						final(q.op, "on a connection that ends", false)
					}
					for _, q := range x.pings {
						final(q.op, "on a connection that ends", false)
					}
					x.reqs, x.pings = nil, nil
					synctest.Wait()
					c.Count("ended", 1)
				}
				check()
			}
			for _, x := range l {
				if x.closed {
					if err := x.cl.SendOneWay(reqMsg(1, nil)); err == nil {
						bad("a send on connection %d, which ended, succeeds", x.n)
					} else if x.code != 0 && !(bytes.Contains([]byte(err.Error()), []byte(fmt.Sprint("refused ", x.n)))) {
						bad("a send on connection %d, refused with %d: %v", x.n, x.code, err)
					}
				} else if err := x.cl.SendOneWay(reqMsg(1, nil)); err != nil {
					bad("a send on connection %d, to which nothing happened: %v", x.n, err)
				}
				for _, q := range x.reqs {
					q.end()
				}
				for _, q := range x.pings {
					q.end()
				}
				x.cl.Close()
				x.b.Close()
			}
			c.Count("events", int64(len(hist)))
			c.Saw(fmt.Sprint(hist))
			synctest.Wait()
		})
		c.StopIfFailed(3)
	})
}

func c13cross(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(25, 800), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			type rig struct {
				g     *piperRig
				mark  string
				drop  bool
				l     []*pipedClient
				sent  map[*pipedClient][]string
				heard map[*pipedClient][]string
				ended bool
			}
			var rigs []*rig
			for k := 2 + r.IntN(2); k > 0; k-- {
				x := &rig{mark: fmt.Sprintf("/%d", len(rigs)), drop: r.IntN(2) == 0, sent: map[*pipedClient][]string{}, heard: map[*pipedClient][]string{}}
				x.g = newPiperRig(c, r, r.IntN(16), func(_, _ net.Conn, m *transport.ByteArrayMessage) *transport.Message {
					if m.Headers.Actor == transport.MessageActorTypeTransport {
						return &transport.Message{Headers: m.Headers, Body: m.Body}
					}
					if x.drop && len(m.Body) > 0 && m.Body[0] == 'd' {
						return nil
					}
					h := m.Headers
					h.Action += x.mark
					return &transport.Message{Headers: h, Body: m.Body}
				})
				rigs = append(rigs, x)
			}
			synctest.Wait()
			for _, x := range rigs {
				for k := 1 + r.IntN(2); k > 0; k-- {
					p := x.g.connect()
					p.peer.SendInit()
					x.l = append(x.l, p)
				}
			}
			synctest.Wait()
			for k := 20 + r.IntN(30); k > 0 && !c.Failed(); k-- {
				x := pick(r, rigs)
				if x.ended {
					continue
				}
				p := pick(r, x.l)
				u := x.g.upstream(p)
				if u == nil {
					c.Violation("a client (%s) was not connected to its upstream", x.g.desc())
					break
				}
				body := pick(r, []string{"d", "k"}) + fmt.Sprint(k)
				m := &WM{Actor: 0x10000, Action: "a", Body: []byte(body)}
				kept := !(x.drop && body[0] == 'd')
				if r.IntN(2) == 0 {
					p.peer.Send(m)
					if kept {
						x.sent[p] = append(x.sent[p], "a"+x.mark+body)
					}
				} else {
					u.peer.Send(m)
					if kept {
						x.heard[p] = append(x.heard[p], "a"+x.mark+body)
					}
				}
				if r.IntN(25) == 0 {
					// one of them ends, with all its connections
					synctest.Wait()
					x.ended = true
					x.g.l.Close()
					for _, p := range x.l {
						p.raw.Close()
					}
					c.Count("ended", 1)
				}
			}
			synctest.Wait()
			got := func(p *WirePeer) (l []string) {
				for _, m := range p.GotApp() {
					l = append(l, m.Action+string(m.Body))
				}
				return
			}
			for _, x := range rigs {
				for _, p := range x.l {
					u := x.g.upstream(p)
					if u == nil {
						continue
					}
					if g, w := fmt.Sprint(got(u.peer)), fmt.Sprint(x.sent[p]); g != w {
						c.Violation("of several pipers, upstream of one (%s, drops %v) got %s, want %s", x.g.desc(), x.drop, g, w)
					}
					if g, w := fmt.Sprint(got(p.peer)), fmt.Sprint(x.heard[p]); !x.ended && g != w {
						c.Violation("of several pipers, client of one (%s, drops %v) got %s, want %s", x.g.desc(), x.drop, g, w)
					}
					c.Count("forwarded", int64(len(x.sent[p])+len(x.heard[p])))
				}
				x.g.close(x.l)
			}
			c.Saw(fmt.Sprint(i, len(rigs)))
		})
		c.StopIfFailed(3)
	})
}

func crossNaming(c *Ctx, prop string) {
	c.Cases("run", c.N(40, 1200), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			type client struct {
				g     *gateway
				nc    *naming.NamingClient
				cl    *transport.Client
				raw   *Conn
				wait  *Op
				mu    sync.Mutex
				held  []*WM
				acks  map[transport.MessageId]int
				calls map[uint64]int
				ids   map[uint64]bool
				sent  map[uint64]int
				asked []transport.MessageId
				names map[string]bool // client ids it gave itself
				ended bool
			}
			var l []*client
			for k := 2 + r.IntN(3); k > 0; k-- {
				x := &client{acks: map[transport.MessageId]int{}, calls: map[uint64]int{}, sent: map[uint64]int{}, ids: map[uint64]bool{}, names: map[string]bool{}}
				x.g, x.nc, x.cl, x.wait, x.raw = newGateway(c, r, func(g *gateway, m *WM) {
					x.mu.Lock()
					defer x.mu.Unlock()
					switch m.Action {
					case "ServiceNotificationReply":
						x.acks[m.RelatesTo]++
						return
					case "NotificationClientConnectionRequest":
						var b gwConnect
						if RefDecode(m.Body, &b) == nil {
							x.names[b.ClientId] = true
						}
						g.p.Reply(m, &WM{Actor: gwActor, Action: m.Action})
						return
					}
					x.held = append(x.held, m)
				})
				x.nc.OnServiceNotification = func(sn *naming.ServiceNotification) {
					x.mu.Lock()
					x.calls[sn.NotificationPageId.PageIndex]++
					x.mu.Unlock()
				}
				l = append(l, x)
			}
			synctest.Wait()
			for k := 15 + r.IntN(20); k > 0 && !c.Failed(); k-- {
				x, y := pick(r, l), pick(r, l)
				if x.ended || x == y {
					continue
				}
				if prop == "C17" && r.IntN(2) == 0 {
					// the same notification to one or two of the clients
					sn := gwNotification{}
					fillAny(r, &sn, 2)
					sn.Page.Page = uint64(r.IntN(6))
					id := genMsgId(r)
					for _, z := range []*client{x, y}[:1+r.IntN(2)] {
						if z.ended {
							continue
						}
						z.g.p.Send(&WM{Id: id, Actor: gwActor, Action: "ServiceNotificationRequest", ExpectsReply: true, Body: RefEncode(&gwNotify{&sn}, RefOpts{})})
						z.sent[sn.Page.Page]++
						z.asked = append(z.asked, id)
						c.Count("notifications", 1)
					}
					synctest.Wait()
					continue
				}
				take := func(z *client) *WM {
					synctest.Wait()
					z.mu.Lock()
					defer z.mu.Unlock()
					if len(z.held) != 1 {
						c.Violation("%d requests reached the gateway, want one", len(z.held))
						return nil
					}
					m := z.held[0]
					z.held = nil
					return m
				}
				ctx, cancel := context.WithCancel(bg)
				if prop == "C17" {
					op := Go("RegisterFilter", func() (any, error) {
						return x.nc.RegisterFilter(ctx, genUri(rand.New(rand.NewPCG(1, uint64(k)))), true, false)
					})
					m := take(x)
					if m == nil {
						cancel()
						continue
					}
					if !y.ended {
						y.g.p.Send(&WM{Actor: gwActor, Action: m.Action, RelatesTo: m.Id})
						synctest.Wait()
						c.pending(op, "answered to another client")
					}
					x.g.p.Reply(m, &WM{Actor: gwActor, Action: m.Action})
					if v, ok := c.succeeds(op, "answered"); ok {
						if x.ids[v.(uint64)] {
							c.Violation("filter id %d given twice", v)
						}
						x.ids[v.(uint64)] = true
					}
					var b gwRegister
					if RefDecode(m.Body, &b) == nil && !x.names[b.ClientId] {
						c.Violation("a filter is registered as %q, the client announced itself as %v", b.ClientId, x.names)
					}
					cancel()
					continue
				}
				// a call whose answer comes on both connections
				ping := r.IntN(2) == 0
				var right, wrong gwDescription
				var app, other gwApp
				fillAny(r, &right, 2)
				fillAny(r, &wrong, 2)
				fillAny(r, &app, 2)
				fillAny(r, &other, 2)
				var op *Op
				body := func(d gwDescription, a gwApp) []byte {
					if ping {
						return RefEncode(&gwPingReply{d}, RefOpts{})
					}
					return RefEncode(&gwQueryReply{Result: &gwAppList{[]gwApp{a}}}, RefOpts{})
				}
				if ping {
					op = Go("Ping", func() (any, error) { return x.nc.Ping(ctx) })
				} else {
					op = Go("GetApplicationList", func() (any, error) { return x.nc.GetApplicationList(ctx, "") })
				}
				m := take(x)
				if m == nil {
					cancel()
					continue
				}
				if !y.ended {
					y.g.p.Send(&WM{Actor: gwActor, Action: m.Action, RelatesTo: m.Id, Body: body(wrong, other)})
					synctest.Wait()
					c.pending(op, "answered to another client")
					c.Count("answers_to_other_clients", 1)
				}
				if r.IntN(6) == 0 {
					y.ended = true // the other client's end is its own
					y.cl.Close()
					synctest.Wait()
					c.pending(op, "while another client ends")
				}
				x.g.p.Reply(m, &WM{Actor: gwActor, Action: m.Action, Body: body(right, app)})
				if v, ok := c.succeeds(op, "answered"); ok {
					d := ""
					if ping {
						d = diffAny(right, descOf(v.(*naming.GatewayDescription)))
					} else {
						d = diffAny([]gwApp{app}, appsOf(v.([]naming.ApplicationQueryResult)))
					}
					if d != "" {
						c.Violation("one of several clients gets something else than its gateway sent: %s", d)
					}
				}
				cancel()
				c.Count("calls", 1)
			}
			synctest.Wait()
			for _, x := range l {
				x.mu.Lock()
				want := map[transport.MessageId]int{}
				for _, id := range x.asked {
					want[id]++
				}
				if fmt.Sprint(want) != fmt.Sprint(x.acks) {
					c.Violation("one of several clients acknowledged %v, its gateway sent %v", x.acks, want)
				}
				if fmt.Sprint(x.sent) != fmt.Sprint(x.calls) {
					c.Violation("the callback of one of several clients got the pages %v, its gateway sent %v", x.calls, x.sent)
				}
				x.mu.Unlock()
				x.cl.Close()
				synctest.Wait()
				c.MustReturn(x.wait, "after Close")
			}
			c.Saw(fmt.Sprint(i, len(l)))
		})
		c.StopIfFailed(3)
	})
}

func crossNodes(c *Ctx, prop string) {
	thePKI()
	c.Cases("run", c.N(40, 1200), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var l []*fedWorld
			var ins []*WirePeer
			var known []map[federation.NodeID]fnPartner
			ended := map[*fedWorld]bool{}
			ids := genIds(r, 3+r.IntN(3), federation.NodeID{Hi: 1, Lo: 1})
			for k := 2 + r.IntN(2); k > 0; k-- {
				w := newFedWorld(c, federation.NodeInstance{Id: genNodeID(r), InstanceId: uint64(5 + k)})
				if len(l) > 0 {
					w.f, w.nodes = l[0].f, l[0].nodes // the same partners
				} else {
					for _, id := range ids {
						w.newNode(id, nil)
					}
				}
				l = append(l, w)
			}
			for _, w := range l {
				seed := pick(r, ids)
				w.start([]federation.SeedNodeInfo{{Id: seed, Address: w.nodes[seed].addr()}})
				known = append(known, map[federation.NodeID]fnPartner{seed: {Instance: gwInstance{Id: seed}, Address: w.nodes[seed].addr()}})
				ins = append(ins, w.in(nil))
			}
			synctest.Wait()
			check := func() {
				synctest.Wait()
				for k, w := range l {
					if ended[w] {
						continue
					}
					got := map[federation.NodeID]fnPartner{}
					for _, p := range w.node.KnownPartnerNodes(allPartners) {
						got[p.Instance.Id] = partnerOf(p)
					}
					for id, p := range known[k] {
						if q, ok := got[id]; !ok || diffAny(p, q) != "" {
							c.Violation("node %d of %d knows %+v of %v, it was told %+v", k, len(l), q, id, p)
						}
					}
					for id := range got {
						if _, ok := known[k][id]; !ok {
							c.Violation("node %d of %d knows of %v, which only another node was told of", k, len(l), id)
						}
					}
				}
			}
			for k := 15 + r.IntN(20); k > 0 && !c.Failed(); k-- {
				j := r.IntN(len(l))
				w := l[j]
				if ended[w] {
					continue
				}
				switch r.IntN(6) {
				case 0, 1:
					id := pick(r, ids)
					p := genInfo(r, id, fmt.Sprint(k))
					p.Address = w.nodes[id].addr()
					w.announce(ins[j], p)
					if old, ok := known[j][id]; !ok || rankLess(old.rank(), p.rank()) {
						p.Flags = 0
						known[j][id] = p
					}
					c.Count("announcements", 1)
				case 2, 3:
					if prop != "C21" {
						continue
					}
					id := pick(r, ids)
					a := fmt.Sprint("one way ", k)
					op := Go("SendOneWay", func() (any, error) { return nil, w.node.SendOneWay(id, fedMsgOf(a)) })
					synctest.Wait()
					if !c.MustReturn(op, "") {
						continue
					}
					_, err := op.Get()
					if _, ok := known[j][id]; ok != (err == nil) {
						c.Violation("of several nodes, one that knows a partner: %v, sends to it: %v", ok, err)
						continue
					}
					for _, n := range w.nodes {
						for _, g := range n.got() {
							if g.m.Action != a {
								continue
							}
							if n.id != id {
								c.Violation("a message to %v reached %v", id, n.id)
							}
							var pp fnPToP
							if hs := customOf(g.m)[hPToP]; len(hs) != 1 || RefDecode(hs[0], &pp) != nil || pp.From != instOf(w.self) {
								c.Violation("of several nodes, a message of %v says it comes from %+v", w.self, pp.From)
							}
							if err != nil {
								c.Violation("a send that failed (%v) reached %v", err, n.id)
							}
							c.Count("sent", 1)
						}
					}
				case 4:
					if prop != "C21" {
						continue
					}
					a := fmt.Sprint("routed ", k)
					op := Go("Route", func() (any, error) { return w.node.Route(bg, pick(r, ids), fedMsgOf(a)) })
					synctest.Wait()
					if op.Done() {
						_, err := op.Get()
						c.Violation("of several nodes, one routes: %v", err)
						continue
					}
					for _, n := range w.nodes {
						for _, g := range n.got() {
							if g.m.Action != a {
								continue
							}
							// on the connection of another node first
							for o, in := range ins {
								if l[o] != w && !ended[l[o]] {
									in.Send(&WM{Actor: 2, RelatesTo: g.m.Id, Body: []byte("wrong")})
								}
							}
							synctest.Wait()
							c.pending(op, "answered to another node")
							g.p.Reply(g.m, &WM{Actor: 2, Body: []byte(a)})
							if v, ok := c.succeeds(op, "answered"); ok && string(v.(*transport.ByteArrayMessage).Body) != a {
								c.Violation("of several nodes, one gets %q for %q", v.(*transport.ByteArrayMessage).Body, a)
							}
							c.Count("routed", 1)
						}
					}
				case 5:
					if r.IntN(6) == 0 {
						ended[w] = true
						w.node.Close()
						c.Count("ended", 1)
					}
				}
				check()
			}
			for _, w := range l {
				w.stop()
			}
			c.Saw(fmt.Sprint(i, len(l)))
			time.Sleep(time.Hour)
		})
		c.StopIfFailed(3)
	})
}

func crossAgents(c *Ctx, prop string) {
	c.Cases("run", c.N(60, 2000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			type sess struct {
				s      lease.Session
				p      *ltPeer // as the agent's world sees it
				pings  []*Op
				closed bool
				last   time.Time
			}
			type side struct {
				w      *leaseWorld
				l      []*sess
				closed bool
			}
			f := NewFabric()
			var sides []*side
			for k := 2 + r.IntN(2); k > 0; k-- {
				w := newLeaseWorld(c, r, false)
				w.f = f
				w.port += uint16(len(sides))
				w.start()
				sides = append(sides, &side{w: w})
			}
			first := sides[0].w
			var peers []*ltPeer
			for k := 1 + r.IntN(2); k > 0; k-- {
				peers = append(peers, first.newPeer(peerHost(r, k), uint16(k)))
			}
			for _, d := range sides {
				for _, p := range peers {
					s := d.w.establish(p)
					if s == nil {
						return
					}
					d.l = append(d.l, &sess{s: s, p: &ltPeer{w: d.w, host: p.host, port: p.port, l: p.l}})
				}
			}
			var hist []string
			check := func() {
				synctest.Wait()
				for k, d := range sides {
					for q, x := range d.l {
						for _, o := range x.pings {
							if o.Done() {
								_, err := o.Get()
								c.Violation("a ping of agent %d, session %d returned (%v), nothing happened to it; history %v", k, q, err, hist)
							}
						}
						if !x.s.LastPongTime().Equal(x.last) {
							c.Violation("agent %d, session %d had its last pong at %v, want %v; history %v", k, q, x.s.LastPongTime(), x.last, hist)
						}
						if d.w.wait.Done() != d.closed {
							c.Violation("agent %d ended: %v, want %v; history %v", k, d.w.wait.Done(), d.closed, hist)
						}
					}
				}
			}
			endAll := func(x *sess, ok bool, what string) {
				synctest.Wait()
				for _, o := range x.pings {
					if !c.MustReturn(o, what) {
						continue
					}
					if _, err := o.Get(); (err == nil) != ok {
						c.Violation("a ping %s: %v; history %v", what, err, hist)
					}
				}
				x.pings = nil
			}
			for k := 20 + r.IntN(30); k > 0 && !c.Failed(); k-- {
				j := r.IntN(len(sides))
				d := sides[j]
				q := r.IntN(len(d.l))
				x := d.l[q]
				time.Sleep(time.Millisecond)
				switch what := r.IntN(12); {
				case what < 5:
					if x.closed {
						continue
					}
					hist = append(hist, fmt.Sprintf("ping %d/%d", j, q))
					x.pings = append(x.pings, Go("Ping", func() (any, error) { return nil, x.s.Ping(bg) }))
					c.Count("pings", 1)
				case what < 10:
					if d.closed {
						continue
					}
					hist = append(hist, fmt.Sprintf("pong %d/%d", j, q))
					x.p.pong(int64(k))
					if !x.closed {
						x.last = time.Now()
						endAll(x, true, "answered by a pong")
					}
				case what == 10 && r.IntN(3) == 0:
					hist = append(hist, fmt.Sprintf("close session %d/%d", j, q))
					x.s.Close()
					x.closed = true
					endAll(x, false, "of a session that is closed")
				case what == 11 && r.IntN(4) == 0:
					hist = append(hist, fmt.Sprintf("close agent %d", j))
					d.w.agent.Close()
					d.closed = true
					synctest.Wait()
					for _, x := range d.l {
						x.closed = true
						endAll(x, false, "of an agent that is closed")
					}
					if _, err := establish(d.w.agent, peers[0].addr()); err == nil {
						c.Violation("a closed agent establishes a session; history %v", hist)
					}
					c.Count("closed_agents", 1)
				}
				check()
			}
			for _, d := range sides {
				d.w.agent.Close()
			}
			for _, d := range sides {
				d.w.stop()
			}
			c.Saw(fmt.Sprint(hist))
		})
		c.StopIfFailed(3)
	})
}

func c31cross(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(40, 1200), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			type server struct {
				l     *Listener
				s     *transport.Server
				serve *Op
				mu    sync.Mutex
				got   []string
				want  []string
				mark  string
				ps    []*WirePeer
				raw   []*Conn
				setup *tlsSetup
				ended bool
			}
			var l []*server
			for k := 2 + r.IntN(3); k > 0; k-- {
				x := &server{l: NewListener(nil), mark: fmt.Sprint(len(l))}
				cfg := transport.ServerConfig{}
				if r.IntN(4) == 0 {
					x.setup = newTLSSetup(r, r.IntN(8))
					cfg.TLS = x.setup.server
				}
				var err error
				if x.s, err = transport.Listen(x.l, cfg); err != nil {
					panic(setupError{err})
				}
				x.s.SetMessageCallback(func(cn transport.Conn, m *transport.ByteArrayMessage) {
					x.mu.Lock()
					x.got = append(x.got, string(m.Body))
					x.mu.Unlock()
					rep := reqMsg(1, []byte(x.mark+string(m.Body)))
					rep.Headers.RelatesTo = m.Headers.Id
					cn.SendOneWay(rep)
				})
				x.serve = Go("Serve", func() (any, error) { return nil, x.s.Serve() })
				l = append(l, x)
			}
			synctest.Wait()
			for k := 15 + r.IntN(20); k > 0 && !c.Failed(); k-- {
				x := pick(r, l)
				switch {
				case r.IntN(15) == 0 && !x.ended:
					x.s.Close()
					x.ended = true
					synctest.Wait()
					if c.MustReturn(x.serve, "after Close") {
						if _, err := x.serve.Get(); err == nil {
							c.Violation("Serve of a closed server returns no error")
						}
					}
					c.Count("closed", 1)
				case len(x.ps) == 0 || r.IntN(4) == 0:
					if x.ended {
						continue
					}
					a, b, err := x.l.Dial(ConnOpts{}, ConnOpts{})
					if err != nil {
						c.Violation("one of several servers does not accept: %v", err)
						continue
					}
					x.raw = append(x.raw, a, b)
					if x.setup != nil {
						x.ps = append(x.ps, NewTLSWireClient(a, x.setup.client, nil).WirePeer)
					} else {
						x.ps = append(x.ps, NewWirePeer(a, nil))
					}
					synctest.Wait()
				default:
					// also after the server was closed, or another one
					p := pick(r, x.ps)
					n0 := len(p.GotApp())
					body := fmt.Sprint("q", k)
					p.Send(&WM{Actor: 0x10000, Body: []byte(body)})
					x.want = append(x.want, body)
					synctest.Wait()
					g := p.GotApp()
					if len(g) != n0+1 || string(g[n0].Body) != x.mark+body {
						c.Violation("a message to server %s (closed %v) of %d got %d answers", x.mark, x.ended, len(l), len(g)-n0)
					}
					c.Count("answered", 1)
				}
				for _, y := range l {
					if y.serve.Done() != y.ended {
						c.Violation("server %s ended: %v, want %v", y.mark, y.serve.Done(), y.ended)
					}
				}
			}
			for _, x := range l {
				x.mu.Lock()
				if fmt.Sprint(x.got) != fmt.Sprint(x.want) {
					c.Violation("the callback of server %s of %d got %v, want %v", x.mark, len(l), x.got, x.want)
				}
				x.mu.Unlock()
				x.s.Close()
				for _, y := range x.raw {
					y.Close()
				}
			}
			c.Saw(fmt.Sprint(i, len(l)))
			synctest.Wait()
		})
		c.StopIfFailed(3)
	})
}

package harness

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C05", "send", "generated messages sent by the library, parsed off the wire independently", c05send)
	register("C05", "receive", "generated frames from an independent writer, compared with what the callback gets", c05receive)
	register("C05", "pair", "library to library both ways over fragmented streams, client and server", c05pair)
	register("C05", "refuse", "messages the wire cannot carry: error, nothing written, connection still usable", c05refuse)
	transport.RegisterHeaderActivator(0x9101, func() interface{} { return &HwHeader{} })
}

// HwHeader is a custom header with a registered activator.
type HwHeader struct {
	A int32
	S string
	L []string
	G serialization.GUID
}

// plainIDs are custom header types without activator.
var plainIDs = []uint16{0x800a, 0x800b, 0x8011, 0x8020, 0x8021, 0x8023, 0x8025, 0x8040, 0x8041, 0x8055, 0x9000, 0x1234, 0, 0xffff, 0x7fff}

// typedIDs have activators.
var typedIDs = []uint16{0x9101, 0x8013, 0x800c, 0x8010}

func newTyped(id uint16) any {
	switch id {
	case 0x9101:
		return &HwHeader{}
	case 0x8013:
		return &federation.PToPHeader{}
	case 0x800c:
		return &federation.FederationPartnerNodeHeader{}
	case 0x8010:
		return &federation.RoutingHeader{}
	}
	return nil
}

var appActors = []int64{0, 2, 3, 5, 6, 29, 34, 47, 60, 0xffff, 0x10000, 0x10001, -1, 1 << 40, -(1 << 63), 1<<63 - 1}

func genMsgId(r *rand.Rand) transport.MessageId {
	m := transport.MessageId{Id: genGUID(r), Index: uint32(genUint(r, 32))}
	switch r.IntN(8) {
	case 0:
		m.Index = 0
	case 1:
		m.Id = serialization.GUID{}
	}
	if m.IsEmpty() {
		m.Index = 7
	}
	return m
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := r.Uint64()
		for k := i; k < n && k < i+8; k++ {
			b[k] = byte(x)
			x >>= 8
		}
	}
	return b
}

func bodySize(r *rand.Rand, max int) int {
	n := []int{0, 0, 1, 2, 11, 12, 13, 63, 64, 255, 256, 257, 1000, 4095, 4096, 65535, 65536, 65537, 200000, 1 << 20, 3 << 20}
	k := pick(r, n)
	if r.IntN(3) == 0 {
		k = r.IntN(3000)
	}
	if k > max {
		k = r.IntN(max + 1)
	}
	return k
}

// bodyObj is a serializable body.
type bodyObj struct {
	A int64
	S string
	L []uint32
	P *bodyObj
}

func genBodyObj(r *rand.Rand, d int) *bodyObj {
	o := &bodyObj{A: genInt(r, 64), S: genString(r, 10)}
	for i := r.IntN(4); i > 0; i-- {
		o.L = append(o.L, uint32(genUint(r, 32)))
	}
	if d > 0 && r.IntN(2) == 0 {
		o.P = genBodyObj(r, d-1)
	}
	return o
}

// genHeaders fills the plain header fields of a message.
func genWM(r *rand.Rand, maxBody int) *WM {
	m := &WM{Actor: pick(r, appActors), ExpectsReply: r.IntN(2) == 0, HighPriority: r.IntN(2) == 0, Idempotent: r.IntN(2) == 0}
	if r.IntN(3) > 0 {
		m.Id = genMsgId(r)
	}
	if r.IntN(2) == 0 {
		m.RelatesTo = genMsgId(r)
	}
	if r.IntN(4) > 0 {
		m.Action = genString(r, 12)
	}
	if r.IntN(4) == 0 {
		m.Err = genInt(r, 64)
	}
	m.HasFault = r.IntN(4) == 0
	if r.IntN(4) == 0 {
		m.Retry = int32(genInt(r, 32))
		if m.Retry < 0 {
			m.Retry = ^m.Retry
		}
	}
	if m.Actor == 29 && m.Action == "ConnectionAuth" {
		m.Action = "x"
	}
	for n := r.IntN(7); n > 0; n-- {
		if r.IntN(3) == 0 {
			id := pick(r, typedIDs)
			p := newTyped(id)
			fill(r, reflect.ValueOf(p).Elem(), 3)
			m.Custom = append(m.Custom, RawHeader{id, RefEncode(p, RefOpts{})})
		} else {
			id := pick(r, plainIDs)
			size := pick(r, []int{0, 1, 2, 20, 255, 256, 2000})
			if r.IntN(60) == 0 {
				size = 20000
			}
			m.Custom = append(m.Custom, RawHeader{id, genBytes(r, size)})
		}
	}
	m.Body = genBytes(r, bodySize(r, maxBody))
	return m
}

// toMessage makes the library's message for m; sometimes with structured custom headers and bodies.
func (m *WM) toMessage(r *rand.Rand) *transport.Message {
	msg := &transport.Message{}
	h := &msg.Headers
	h.Id, h.RelatesTo = m.Id, m.RelatesTo
	h.Actor, h.Action = transport.MessageActorType(m.Actor), m.Action
	h.ExpectsReply, h.HighPriority, h.Idempotent = m.ExpectsReply, m.HighPriority, m.Idempotent
	h.ErrorCode, h.HasFaultBody, h.RetryCount = transport.FabricErrorCode(m.Err), m.HasFault, m.Retry
	group := map[uint16][]any{}
	var order []uint16
	for _, x := range m.Custom {
		if group[x.Id] == nil {
			order = append(order, x.Id)
		}
		var v any = append([]byte(nil), x.Data...)
		if p := newTyped(x.Id); p != nil && r.IntN(2) == 0 {
			if err := RefDecode(x.Data, p); err != nil {
				panic(err)
			}
			v = p
		}
		group[x.Id] = append(group[x.Id], v)
	}
	for _, id := range order {
		t := transport.MessageHeaderIdType(id)
		l := group[id]
		switch {
		case len(l) == 1 && r.IntN(2) == 0:
			h.SetCustomHeader(t, l[0])
		case r.IntN(2) == 0:
			h.AppendCustomHeader(t, l...)
		default:
			// one by one
			for i, v := range l {
				if i == 0 && r.IntN(2) == 0 {
					h.SetCustomHeader(t, v)
				} else {
					h.AppendCustomHeader(t, v)
				}
			}
		}
	}
	switch {
	case len(m.Body) == 0 && r.IntN(2) == 0:
	case r.IntN(4) == 0:
		o := genBodyObj(r, 3)
		msg.Body = o
		m.Body = RefEncode(o, RefOpts{})
	default:
		msg.Body = m.Body
	}
	return msg
}

func diffWM(want, got *WM) string {
	w, g := *want, *got
	if w.Id == (transport.MessageId{}) {
		if g.Id == (transport.MessageId{}) {
			return "message id is empty"
		}
		w.Id = g.Id
	}
	return diffCommon(&w, &g)
}

func diffCommon(w, g *WM) string {
	switch {
	case w.Id != g.Id:
		return fmt.Sprintf("id %v, want %v", g.Id, w.Id)
	case w.RelatesTo != g.RelatesTo:
		return fmt.Sprintf("relates-to %v, want %v", g.RelatesTo, w.RelatesTo)
	case w.Actor != g.Actor:
		return fmt.Sprintf("actor %v, want %v", g.Actor, w.Actor)
	case w.Action != g.Action:
		return fmt.Sprintf("action %q, want %q", g.Action, w.Action)
	case w.ExpectsReply != g.ExpectsReply, w.HighPriority != g.HighPriority, w.Idempotent != g.Idempotent:
		return fmt.Sprintf("flags %v %v %v, want %v %v %v", g.ExpectsReply, g.HighPriority, g.Idempotent, w.ExpectsReply, w.HighPriority, w.Idempotent)
	case w.Err != g.Err || w.HasFault != g.HasFault:
		return fmt.Sprintf("fault %v %v, want %v %v", g.Err, g.HasFault, w.Err, w.HasFault)
	case w.Retry != g.Retry:
		return fmt.Sprintf("retry %d, want %d", g.Retry, w.Retry)
	}
	a, b := customOf(w), customOf(g)
	for _, id := range sortedIds(b) {
		if len(b[id]) > len(a[id]) {
			return fmt.Sprintf("custom header %#x: %d values, want %d", id, len(b[id]), len(a[id]))
		}
	}
	for _, id := range sortedIds(a) {
		if len(a[id]) != len(b[id]) {
			return fmt.Sprintf("custom header %#x: %d values, want %d", id, len(b[id]), len(a[id]))
		}
		for i := range a[id] {
			if !bytes.Equal(a[id][i], b[id][i]) {
				return fmt.Sprintf("custom header %#x value %d: %s, want %s", id, i, hx(b[id][i]), hx(a[id][i]))
			}
		}
	}
	if !bytes.Equal(w.Body, g.Body) {
		return fmt.Sprintf("body of %d bytes %s, want %d bytes %s", len(g.Body), hx(g.Body), len(w.Body), hx(w.Body))
	}
	return ""
}

// bamWM is the delivered message in wire terms (typed headers are encoded again).
func bamWM(bam *transport.ByteArrayMessage) *WM {
	h := &bam.Headers
	m := &WM{Id: h.Id, RelatesTo: h.RelatesTo, Actor: int64(h.Actor), Action: h.Action, ExpectsReply: h.ExpectsReply, HighPriority: h.HighPriority,
		Idempotent: h.Idempotent, Err: int64(h.ErrorCode), HasFault: h.HasFaultBody, Retry: h.RetryCount, Body: bam.Body}
	add := func(id uint16) {
		l := h.GetCustomHeaders(transport.MessageHeaderIdType(id))
		first, ok := h.GetFirstCustomHeader(transport.MessageHeaderIdType(id))
		if ok != (len(l) > 0) {
			m.Custom = append(m.Custom, RawHeader{id, []byte("GetFirstCustomHeader disagrees")})
		}
		for i, v := range l {
			var d []byte
			if b, is := v.([]byte); is {
				d = b
			} else {
				d = RefEncode(v, RefOpts{})
			}
			if i == 0 {
				fb, is := first.([]byte)
				if is && !bytes.Equal(fb, d) || !is && first != v {
					d = []byte("GetFirstCustomHeader differs")
				}
			}
			m.Custom = append(m.Custom, RawHeader{id, d})
		}
	}
	for id := uint16(0x8000); id < 0x8060; id++ {
		add(id)
	}
	for _, id := range []uint16{0x9000, 0x1234, 0, 0xffff, 0x7fff, 0x9101} {
		add(id)
	}
	return m
}

// want is what a receiver makes of m: unparsed invalid and negotiation headers vanish.
func (m *WM) delivered() *WM {
	w := *m
	w.Custom = nil
	for _, h := range m.Custom {
		if h.Id != hInvalid && h.Id != hNego {
			w.Custom = append(w.Custom, h)
		}
	}
	return &w
}

func chunker(r *rand.Rand) func() int {
	switch r.IntN(5) {
	case 0:
		return nil
	case 1:
		return func() int { return 1 }
	case 2:
		k := 1 + r.IntN(20)
		return func() int { return k }
	}
	var mu sync.Mutex
	rr := rand.New(rand.NewPCG(r.Uint64(), 5))
	return func() int { mu.Lock(); defer mu.Unlock(); return 1 + rr.IntN(1<<rr.IntN(14)) }
}

func genConfig(r *rand.Rand) transport.Config {
	return transport.Config{DisableCheckFrameHeaderCRC: r.IntN(4) == 0, DisableGenerateFrameHeaderCRC: r.IntN(4) == 0, CheckFrameBodyCRC: r.IntN(2) == 0, GenerateFrameBodyCRC: r.IntN(2) == 0}
}

func (c *Ctx) connect(conn *Conn, cfg transport.ClientConfig) *transport.Client {
	cl, err := transport.Connect(conn, cfg)
	if err != nil {
		panic(setupError{err})
	}
	return cl
}

type inbox struct {
	mu sync.Mutex
	l  []*WM
}

func (b *inbox) cb(_ transport.Conn, bam *transport.ByteArrayMessage) {
	w := bamWM(bam)
	b.mu.Lock()
	b.l = append(b.l, w)
	b.mu.Unlock()
}

func (b *inbox) got() []*WM {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]*WM(nil), b.l...)
}

func (b *inbox) clear() {
	b.mu.Lock()
	b.l = nil
	b.mu.Unlock()
}

func (c *Ctx) checkMasks(got *WM, cfg transport.Config, tls bool) {
	mask := uint8(0)
	if tls {
		mask = 1
	}
	if got.Mask != mask {
		c.Violation("security mask %d, want %d", got.Mask, mask)
	}
	if !tls && !cfg.DisableGenerateFrameHeaderCRC && !got.HCRCOk {
		c.Violation("wrong header checksum on the wire")
	}
	if !tls && cfg.GenerateFrameBodyCRC && !got.BCRCOk {
		c.Violation("wrong body checksum on the wire")
	}
}

func wmKey(m *WM) string {
	return fmt.Sprint(m.Actor, m.Action, m.Err, m.Retry, m.ExpectsReply, m.HighPriority, m.Idempotent, len(m.Custom), len(m.Body), m.RelatesTo)
}

func c05send(c *Ctx) {
	c.Cases("send", c.N(400, 12000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			cfg := genConfig(r)
			a, b := Pipe(ConnOpts{}, ConnOpts{ReadChunk: nil})
			cl := c.connect(a, transport.ClientConfig{Config: cfg})
			p := NewWirePeer(b, nil)
			var want []*WM
			k := 1 + r.IntN(8)
			big := 20000
			if r.IntN(20) == 0 {
				big = 5 << 20
			}
			for j := 0; j < k; j++ {
				m := genWM(r, big)
				if r.IntN(3) == 0 {
					// through the request path: the wire is the same plus expects-reply
					msg := m.toMessage(r)
					ctx, cancel := context.WithCancel(context.Background())
					op := Go("RequestReply", func() (any, error) { return cl.RequestReply(ctx, msg) })
					synctest.Wait()
					if op.Done() {
						_, err := op.Get()
						c.Violation("request %s: %v", wmKey(m), err)
					}
					cancel()
					synctest.Wait()
					m.ExpectsReply = true
				} else if err := cl.SendOneWay(m.toMessage(r)); err != nil {
					c.Violation("SendOneWay of a valid message: %v", err)
				}
				want = append(want, m)
				c.Saw(wmKey(m))
			}
			synctest.Wait()
			got := p.Got()
			if ended, err := p.Ended(); ended {
				c.Violation("the wire peer cannot parse what was sent: %v", err)
			}
			if len(got) == 0 || got[0].Actor != 1 {
				c.Violation("no transport init message first")
			}
			if app := p.GotApp(); len(app) != len(want) {
				c.Violation("%d messages on the wire, sent %d", len(app), len(want))
			} else {
				for j := range app {
					if d := diffWM(want[j], app[j]); d != "" {
						c.Violation("message %d of %d: %s", j, k, d)
					}
					c.checkMasks(app[j], cfg, false)
				}
			}
			a.Close()
			b.Close()
		})
		c.StopIfFailed(5)
	})
}

func shuffleHeaders(r *rand.Rand, m *WM) []byte {
	hs, err := cutHeaders(m.headerSection())
	if err != nil {
		panic(err)
	}
	// plus explicit default values, which a foreign writer may send
	if r.IntN(3) == 0 && !m.ExpectsReply {
		hs = append(hs, RawHeader{hExpects, RefEncode(&boolObj{}, RefOpts{})})
	}
	if r.IntN(3) == 0 && m.Action == "" {
		hs = append(hs, RawHeader{hAction, RefEncode(&strObj{}, RefOpts{})})
	}
	if r.IntN(3) == 0 && m.Retry == 0 {
		hs = append(hs, RawHeader{hRetry, RefEncode(&i32Obj{}, RefOpts{})})
	}
	if r.IntN(2) == 0 {
		// any order between types, the order within a type stays
		keys := make([]int, 0x10000)
		for i := range keys {
			keys[i] = r.IntN(1 << 20)
		}
		for i := 1; i < len(hs); i++ {
			for j := i; j > 0 && keys[hs[j-1].Id] > keys[hs[j].Id]; j-- {
				hs[j-1], hs[j] = hs[j], hs[j-1]
			}
		}
	}
	var b []byte
	for _, h := range hs {
		b = appendHeader(b, h.Id, h.Data)
	}
	return b
}

func c05receive(c *Ctx) {
	c.Cases("receive", c.N(400, 12000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			cfg := genConfig(r)
			a, b := Pipe(ConnOpts{ReadChunk: chunker(r)}, ConnOpts{})
			var in inbox
			cl := c.connect(a, transport.ClientConfig{Config: cfg, MessageCallback: in.cb})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			p := NewWirePeer(b, nil)
			p.Opt = frameOpt{NoHCRC: cfg.DisableCheckFrameHeaderCRC && r.IntN(2) == 0, BCRC: cfg.CheckFrameBodyCRC || r.IntN(2) == 0, Mask: uint8(pick(r, []int{0, 0, 1, 3}))}
			// what some requests wait for is delivered to them, as everything else is to the callback
			ops := map[transport.MessageId]*Op{}
			var open []transport.MessageId
			for j := r.IntN(4); j > 0; j-- {
				msg := reqMsg(j, nil)
				msg.Headers.Id = genMsgId(r)
				if ops[msg.Headers.Id] != nil {
					continue
				}
				open = append(open, msg.Headers.Id)
				ops[msg.Headers.Id] = Go("RequestReply", func() (any, error) { return cl.RequestReply(bg, msg) })
			}
			synctest.Wait()
			answers := map[transport.MessageId]*WM{}
			var want []*WM
			k := 1 + r.IntN(8)
			var stream []byte
			for j := 0; j < k; j++ {
				m := genWM(r, 20000)
				if ops[m.RelatesTo] != nil {
					m.RelatesTo = transport.MessageId{}
				}
				if len(open) > 0 && r.IntN(2) == 0 {
					m.RelatesTo, open = open[0], open[1:]
				}
				if m.Id == (transport.MessageId{}) {
					m.Id = p.NextId()
				}
				if r.IntN(3) == 0 {
					m.Custom = append(m.Custom, RawHeader{hInvalid, genBytes(r, r.IntN(30))})
				}
				if r.IntN(4) == 0 {
					m.Retry = int32(genInt(r, 32))
				}
				stream = append(stream, buildFrame(shuffleHeaders(r, m), m.Body, p.Opt)...)
				if ops[m.RelatesTo] != nil {
					answers[m.RelatesTo] = m
				} else {
					want = append(want, m)
				}
				c.Saw(wmKey(m))
			}
			p.SendRaw(stream)
			synctest.Wait()
			if w.Done() {
				_, err := w.Get()
				c.Violation("receive loop ended on valid messages: %v", err)
			}
			for id, m := range answers {
				if !c.MustReturn(ops[id], "although it was answered") {
					continue
				}
				v, err := ops[id].Get()
				if err != nil {
					c.Violation("request that was answered: %v", err)
				} else if d := diffCommon(m.delivered(), bamWM(v.(*transport.ByteArrayMessage))); d != "" {
					c.Violation("answer: %s", d)
				}
				c.Count("answers", 1)
			}
			got := in.got()
			if len(got) != len(want) {
				c.Violation("%d messages delivered, %d sent", len(got), len(want))
			} else {
				for j := range got {
					if d := diffCommon(want[j].delivered(), got[j]); d != "" {
						c.Violation("message %d: %s", j, d)
					}
				}
			}
			b.Close()
			synctest.Wait()
			if !w.soon() {
				c.Stuck("Wait after the peer closed")
			}
		})
		c.StopIfFailed(5)
	})
}

// c05pair: messages between library endpoints. On a server the callbacks run concurrently, so there the messages are
// compared as a set by id.
func c05pair(c *Ctx) {
	c.Cases("pair", c.N(250, 6000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			cfg := transport.Config{CheckFrameBodyCRC: r.IntN(2) == 0}
			cfg.GenerateFrameBodyCRC = cfg.CheckFrameBodyCRC
			big := 5000
			co, so := ConnOpts{ReadChunk: chunker(r)}, ConnOpts{ReadChunk: chunker(r)}
			if r.IntN(15) == 0 {
				big = 4 << 20
				co, so = ConnOpts{}, ConnOpts{}
			}
			var atServer, atClient inbox
			back := make(chan transport.Conn, 100)
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: cfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				atServer.cb(cn, m)
				select {
				case back <- cn:
				default:
				}
			}})
			serve := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			a, b, _ := l.Dial(co, so)
			cl := c.connect(a, transport.ClientConfig{Config: cfg, MessageCallback: atClient.cb})
			cw := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			var up, down []*WM
			for k := 1 + r.IntN(5); k > 0; k-- {
				m := genWM(r, big)
				msg := m.toMessage(r)
				if err := cl.SendOneWay(msg); err != nil {
					c.Violation("send: %v", err)
				}
				if m.Id != (transport.MessageId{}) && msg.Headers.Id != m.Id {
					c.Violation("id set by the caller was changed from %v to %v", m.Id, msg.Headers.Id)
				}
				m.Id = msg.Headers.Id
				up = append(up, m)
				c.Saw(wmKey(m))
			}
			synctest.Wait()
			select {
			case conn := <-back:
				for k := 1 + r.IntN(5); k > 0; k-- {
					m := genWM(r, big)
					msg := m.toMessage(r)
					if err := conn.SendOneWay(msg); err != nil {
						c.Violation("send back: %v", err)
					}
					m.Id = msg.Headers.Id
					down = append(down, m)
					c.Saw(wmKey(m))
				}
			default:
				c.Violation("nothing arrived at the server")
			}
			synctest.Wait()
			gs := atServer.got()
			if len(gs) != len(up) {
				c.Violation("server got %d of %d", len(gs), len(up))
			} else {
				byId := map[transport.MessageId][]*WM{}
				for _, g := range gs {
					byId[g.Id] = append(byId[g.Id], g)
				}
				for _, w := range up {
					ok := ""
					for _, g := range byId[w.Id] {
						if ok = diffCommon(w, g); ok == "" {
							break
						}
					}
					if ok != "" || len(byId[w.Id]) == 0 {
						c.Violation("message %v at the server: %s", w.Id, ok)
					}
				}
			}
			gc := atClient.got()
			if len(gc) != len(down) {
				c.Violation("client got %d of %d", len(gc), len(down))
			} else {
				for j := range gc {
					if d := diffCommon(down[j], gc[j]); d != "" {
						c.Violation("message %d at the client: %s", j, d)
					}
				}
			}
			cl.Close()
			srv.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(cw, "after Close")
			c.MustReturn(serve, "after Close")
		})
		c.StopIfFailed(5)
	})
}

func c05refuse(c *Ctx) {
	kinds := []string{"body chan", "body int kind", "body non-struct", "one header of 65536", "one header of 70000", "one header of 131072+5", "many headers together 66000",
		"many headers just too long", "typed header with unsupported field", "header not marshallable", "long action", "nested unsupported", "two headers of 40000", "one header just too long"}
	c.Cases("refuse", c.N(200, 3000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{Config: genConfig(r)})
			p := NewWirePeer(b, nil)
			kind := i % len(kinds)
			m := genWM(r, 100)
			m.Custom = nil
			m.Action = "x"
			msg := m.toMessage(r)
			h := &msg.Headers
			switch kind {
			case 0:
				msg.Body = &struct{ C chan int }{}
			case 1:
				msg.Body = &struct {
					A int32
					I complex128
				}{1, 2}
			case 2:
				msg.Body = &struct{ F func() }{}
			case 3, 4, 5:
				h.AppendCustomHeader(0x9000, make([]byte, []int{65536, 70000, 131072 + 5}[kind-3]))
			case 6:
				for k := 0; k < 33; k++ {
					h.AppendCustomHeader(transport.MessageHeaderIdType(0x9000+k), make([]byte, 2000))
				}
			case 7, 13:
				// the whole section is 65536 + a little
				if h.Id.IsEmpty() {
					m.Id = genMsgId(r)
					h.Id = m.Id
				}
				over := (i / len(kinds)) % 5
				left := 65536 + over*over*over - len(m.headerSection())
				for k := 0; kind == 7 && left > 3000; k++ {
					n := 900 + r.IntN(1000)
					h.AppendCustomHeader(transport.MessageHeaderIdType(0x9000+k), make([]byte, n-4))
					left -= n
				}
				h.AppendCustomHeader(0x9f00, make([]byte, left-4))
			case 8:
				h.AppendCustomHeader(0x9000, &struct{ C chan int }{})
			case 9:
				h.AppendCustomHeader(0x9000, &struct {
					S string
					M struct{ F func() }
				}{S: "x"})
			case 10:
				b := make([]byte, 40000)
				for k := range b {
					b[k] = 'a'
				}
				h.Action = string(b)
			case 11:
				msg.Body = &struct {
					A string
					P *struct{ U uintptr }
				}{"abc", &struct{ U uintptr }{3}}
			case 12:
				h.AppendCustomHeader(0x9000, make([]byte, 40000), make([]byte, 40000))
			}
			synctest.Wait()
			before := a.SentLen()
			n0 := len(p.Got())
			var err error
			if r.IntN(2) == 0 {
				if pm := catch(func() { err = cl.SendOneWay(msg) }); pm != "" {
					c.Violation("%s: %s", kinds[kind], pm)
				}
			} else {
				ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
				op := Go("RequestReply", func() (v any, err error) {
					if pm := catch(func() { _, err = cl.RequestReply(ctx, msg) }); pm != "" {
						c.Violation("%s: %s", kinds[kind], pm)
					}
					return
				})
				synctest.Wait()
				if !op.soon() {
					c.Violation("%s: a request with a message that cannot be sent waits instead of failing", kinds[kind])
				}
				cancel()
				synctest.Wait()
				_, err = op.Get()
			}
			synctest.Wait()
			if err == nil {
				c.Violation("%s: accepted", kinds[kind])
			}
			if w := a.SentLen() - before; w != 0 {
				c.Violation("%s: refused (%v) but %d bytes were written", kinds[kind], err, w)
			}
			// still usable
			m2 := genWM(r, 1000)
			if err := cl.SendOneWay(m2.toMessage(r)); err != nil {
				c.Violation("%s: send after refusal: %v", kinds[kind], err)
			}
			synctest.Wait()
			got := p.Got()
			if len(got) != n0+1 {
				c.Violation("%s: %d messages after the refusal, want 1 (parse error %v)", kinds[kind], len(got)-n0, p.err)
			} else if d := diffWM(m2, got[n0]); d != "" {
				c.Violation("%s: message after the refusal: %s", kinds[kind], d)
			}
			c.Saw(fmt.Sprint(kind, i))
			a.Close()
			b.Close()
		})
		c.StopIfFailed(8)
	})
	// the largest section that fits is still sent
	c.Cases("fits", c.N(40, 300), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{})
			p := NewWirePeer(b, nil)
			m := &WM{Id: genMsgId(r), Actor: 5, Body: genBytes(r, r.IntN(100)*r.IntN(2))}
			n := 65535 - len(m.headerSection()) - 4 - r.IntN(3)
			m.Custom = []RawHeader{{0x9000, genBytes(r, n)}}
			if err := cl.SendOneWay(m.toMessage(r)); err != nil {
				c.Violation("header section of %d bytes refused: %v", len(m.headerSection()), err)
			}
			synctest.Wait()
			if g := p.GotApp(); len(g) != 1 {
				c.Violation("header section of %d bytes did not arrive", len(m.headerSection()))
			} else if d := diffWM(m, g[0]); d != "" {
				c.Violation("header section of %d bytes: %s", len(m.headerSection()), d)
			}
			c.Saw(fmt.Sprint("fits", n, i))
			a.Close()
			b.Close()
		})
		c.StopIfFailed(8)
	})
}

package harness

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand/v2"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C06", "headerbyte", "every alteration of every checked frame header byte", c06header)
	register("C06", "bodyburst", "bursts of up to 32 bits in headers and body, altered body checksums", c06body)
	register("C06", "cut", "streams cut at every byte", c06cut)
	register("C06", "brokenheaders", "header sections broken off at every byte, with valid checksums", c06broken)
	register("C06", "headercontent", "headers whose content ends early or is not what the header holds, in frames with valid lengths and checksums", c06content)
	register("C06", "piper", "damaged frames at every position through a piper, either way", c06piper)
	register("C08", "senders", "concurrent senders, frame log parsed independently", c08senders)
	register("C08", "tls", "concurrent senders over TLS and through a server, deliveries checked", c08tls)
	register("C08", "failing", "concurrent senders while the connection starts failing", c08failing)
	register("C09", "matching", "concurrent requests, permuted, duplicated, late and unsolicited replies", c09matching)
	register("C09", "callbacks", "message callbacks replaced and removed between and among messages", c09callbacks)
	register("C09", "early", "replies that arrive before the request's write returns", c09early)
	register("C09", "server", "requests from a server to its clients, many connections at once", c09server)
	register("C09", "race", "replies racing with cancellation: at most one use of each reply", c09race)
	register("C10", "cancelrace", "reply, cancellation and completion forced into every order inside the write", c10cancel)
	register("C10", "ends", "requests waiting or starting when the connection ends in every way", c10ends)
	register("C10", "storm", "many requests with random deadlines against random replies, then quiescence", c10storm)
	register("C11", "answers", "heartbeat requests of every body among other traffic", c11answers)
	register("C11", "history", "generated histories of pings, echoes, stale, forged and malformed responses", c11history)
	register("C11", "concurrent", "concurrent pings echoed partially and out of order", c11concurrent)
	register("C11", "close", "closing with late and unsolicited responses around", c11close)
	register("C15", "refused", "authorization failures of every code and body at every moment", c15refused)
	register("C15", "others", "success reports and failures of other actors and actions", c15others)
}

// ---------------------------------------------------------------------------------------------------------
// C06

type deliverRun struct {
	got  []*WM
	err  error
	done bool
}

// deliver feeds a byte stream to a library endpoint and returns what its callback got. end: 0 close, 1 read failure, 2 leave open, 3 close
// that is read together with the last bytes
func (c *Ctx) deliver(cfg transport.Config, viaServer bool, chunk func() int, stream []byte, end int) deliverRun {
	var run deliverRun
	c.Bubble(func() {
		var in inbox
		var w *Op
		var b *Conn
		if viaServer {
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: cfg, MessageCallback: in.cb})
			s := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			defer func() { srv.Close(); synctest.Wait(); c.MustReturn(s, "after Close") }()
			cl, _, _ := l.Dial(ConnOpts{}, ConnOpts{ReadChunk: chunk, EOFWithData: end == 3})
			b = cl
		} else {
			var a *Conn
			a, b = Pipe(ConnOpts{ReadChunk: chunk, EOFWithData: end == 3}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{Config: cfg, MessageCallback: in.cb})
			w = Go("Wait", func() (any, error) { return nil, cl.Wait() })
		}
		if end == 3 {
			b.Hold()
		}
		b.Write(stream)
		switch end {
		case 0, 3:
			b.CloseWrite()
		case 1:
			b.peer.FailReads(errors.New("connection reset by peer"))
		}
		synctest.Wait()
		run.got = in.got()
		if w != nil {
			run.done = w.Done()
			_, run.err = w.Get()
		}
		b.Close()
		b.peer.Close()
		synctest.Wait()
	})
	return run
}

func smallWM(r *rand.Rand, i int) *WM {
	m := genWM(r, 60)
	if len(m.Custom) > 2 {
		m.Custom = m.Custom[:2]
	}
	for i := range m.Custom {
		if len(m.Custom[i].Data) > 100 && newTyped(m.Custom[i].Id) == nil {
			m.Custom[i].Data = m.Custom[i].Data[:20]
		}
	}
	m.Id = genMsgId(r)
	m.Id.Index = uint32(i + 1)
	return m
}

// expectExactly: delivered messages are exactly want (as a set when they come through a server).
func (c *Ctx) expectExactly(run deliverRun, want []*WM, viaServer bool, what string) {
	got := run.got
	if viaServer {
		sort.Slice(got, func(i, j int) bool { return got[i].Id.Index < got[j].Id.Index })
	}
	if len(got) != len(want) {
		c.Violation("%s: %d messages delivered, want %d (receive loop: %v)", what, len(got), len(want), run.err)
		return
	}
	for i := range got {
		if d := diffCommon(want[i].delivered(), got[i]); d != "" {
			c.Violation("%s: message %d: %s", what, i, d)
		}
	}
}

func c06header(c *Ctx) {
	c.Cases("frame", c.N(12, 150), func(i int, r *rand.Rand) {
		cfg := transport.Config{CheckFrameBodyCRC: r.IntN(2) == 0}
		good, bad, next := smallWM(r, 0), smallWM(r, 1), smallWM(r, 2)
		o := frameOpt{BCRC: cfg.CheckFrameBodyCRC, Mask: uint8(r.IntN(5))}
		pre, fr, post := good.encode(o), bad.encode(o), next.encode(o)
		for pos := 0; pos < 8; pos++ {
			for x := 1; x < 256; x++ {
				f := append([]byte(nil), fr...)
				f[pos] ^= byte(x)
				stream := append(append(append([]byte(nil), pre...), f...), post...)
				srv := x%5 == 0
				run := c.deliver(cfg, srv, nil, stream, pickEnd(x))
				c.expectExactly(run, []*WM{good}, srv, fmt.Sprintf("frame header byte %d changed by xor %#x", pos, x))
				c.Saw(fmt.Sprint(i, pos, x))
			}
		}
		c.StopIfFailed(3)
	})
}

func pickEnd(x int) int { return []int{0, 1, 2, 0, 3, 2, 3}[x%7] }

func c06body(c *Ctx) {
	c.Cases("frame", c.N(40, 600), func(i int, r *rand.Rand) {
		cfg := transport.Config{CheckFrameBodyCRC: true, DisableCheckFrameHeaderCRC: r.IntN(2) == 0}
		good, bad, next := smallWM(r, 0), smallWM(r, 1), smallWM(r, 2)
		tail := 0
		if i%6 == 0 {
			bad.Body = genBytes(r, pick(r, []int{66000, 70000, 140000, 270000}))
			tail = 8 * (len(bad.Body) - 65000)
		}
		o := frameOpt{BCRC: true}
		pre, fr, post := good.encode(o), bad.encode(o), next.encode(o)
		if i%2 == 0 {
			// the same, as the library writes it
			pre, fr, post = c.libFrame(good, r), c.libFrame(bad, r), c.libFrame(next, r)
		}
		bits := (len(fr) - frameHdr) * 8
		if i%3 == 0 {
			run := c.deliver(cfg, i%9 == 0, nil, append(append(append([]byte(nil), pre...), fr...), post...), 0)
			c.expectExactly(run, []*WM{good, bad, next}, i%9 == 0, "unaltered")
		}
		for k := 0; k < 60; k++ {
			f := append([]byte(nil), fr...)
			what := ""
			if k < 8 {
				x := r.Uint32() | 1<<r.IntN(32)
				if k < 4 {
					x = 1 << r.IntN(32)
				}
				binary.LittleEndian.PutUint32(f[8:], binary.LittleEndian.Uint32(f[8:])^x)
				what = fmt.Sprintf("body checksum changed by xor %#x", x)
			} else if k == 8 {
				binary.LittleEndian.PutUint32(f[8:], 0)
				what = "body checksum cleared"
				if crc32.ChecksumIEEE(f[frameHdr:]) == 0 {
					continue
				}
			} else {
				n := 1 + r.IntN(32)
				st := r.IntN(bits - n + 1)
				if tail > 0 && k%2 == 0 {
					st = bits - n - r.IntN(min(tail, bits-n+1))
				}
				flips := r.Uint32()
				// a burst of n bits begins and ends with an error
				for b := 0; b < n; b++ {
					if b == 0 || b == n-1 || flips>>b&1 == 1 {
						f[frameHdr+(st+b)/8] ^= 0x80 >> ((st + b) % 8)
					}
				}
				// the CRC is defined least significant bit first; contiguous in one order is a burst below 40 bits in the other,
				// so keep to whole-byte-aligned windows of 32 bits
				if (st%8)+n > 32 {
					continue
				}
				what = fmt.Sprintf("burst of %d bits at payload bit %d", n, st)
			}
			stream := append(append(append([]byte(nil), pre...), f...), post...)
			srv := k%4 == 0
			run := c.deliver(cfg, srv, nil, stream, pickEnd(k))
			c.expectExactly(run, []*WM{good}, srv, what)
			c.Saw(fmt.Sprint(i, k))
		}
		c.StopIfFailed(3)
	})
}

// libFrame is the frame the library writes for m.
func (c *Ctx) libFrame(m *WM, r *rand.Rand) []byte {
	var f []byte
	c.Bubble(func() {
		a, b := Pipe(ConnOpts{Record: true}, ConnOpts{})
		cl := c.connect(a, transport.ClientConfig{Config: transport.Config{GenerateFrameBodyCRC: true}})
		synctest.Wait()
		n := len(a.Sent())
		if err := cl.SendOneWay(m.toMessage(r)); err != nil {
			c.Violation("send: %v", err)
		}
		synctest.Wait()
		f = append(f, a.Sent()[n:]...)
		a.Close()
		b.Close()
	})
	return f
}

func c06cut(c *Ctx) {
	c.Cases("stream", c.N(8, 120), func(i int, r *rand.Rand) {
		cfg := genConfig(r)
		o := frameOpt{BCRC: cfg.CheckFrameBodyCRC}
		var msgs []*WM
		var stream []byte
		var ends []int
		for k := 0; k < 3; k++ {
			m := smallWM(r, k)
			if r.IntN(4) == 0 {
				m.Custom, m.Body = nil, nil // shortest frames
			}
			msgs = append(msgs, m)
			stream = append(stream, m.encode(o)...)
			ends = append(ends, len(stream))
		}
		step := 1
		if len(stream) > 1500 {
			step = 3
		}
		for cut := 0; cut <= len(stream); cut += step {
			n := 0
			for n < 3 && ends[n] <= cut {
				n++
			}
			srv := cut%4 == 0
			run := c.deliver(cfg, srv, nil, stream[:cut], pickEnd(cut))
			c.expectExactly(run, msgs[:n], srv, fmt.Sprintf("stream cut at %d of %d (frames end at %v)", cut, len(stream), ends))
			if !srv && pickEnd(cut) == 2 && run.done {
				c.Violation("receive loop ended while the stream was only paused at %d: %v", cut, run.err)
			}
			c.Saw(fmt.Sprint(i, cut))
		}
		c.StopIfFailed(3)
	})
}

// c06content: the header section is well-formed, one header's content is not.
func c06content(c *Ctx) {
	known := []uint16{hId, hRelates, hActor, hAction, hExpects, hRetry, hFault, hIdem, hPriority}
	c.Cases("frame", c.N(60, 900), func(i int, r *rand.Rand) {
		cfg := genConfig(r)
		o := frameOpt{BCRC: cfg.CheckFrameBodyCRC}
		good, bad, next := smallWM(r, 0), smallWM(r, 1), smallWM(r, 2)
		bad.Actor, bad.Action, bad.RelatesTo = 0x10000, "an action", genMsgId(r)
		bad.ExpectsReply, bad.HighPriority, bad.Idempotent, bad.HasFault, bad.Err, bad.Retry = true, true, true, true, 5, 3
		hs, err := cutHeaders(bad.headerSection())
		if err != nil {
			panic(setupError{err})
		}
		ids := append(append([]uint16(nil), known...), typedIDs...)
		id := ids[i%len(ids)]
		at := -1
		for k, h := range hs {
			if h.Id == id {
				at = k
			}
		}
		if at < 0 {
			// with a value in which every field is present
			var data []byte
			for k := 0; len(data) < 12 && k < 50; k++ {
				p := newTyped(id)
				fill(r, reflect.ValueOf(p).Elem(), 2)
				data = RefEncode(p, RefOpts{})
			}
			hs = append(hs, RawHeader{id, data})
			at = len(hs) - 1
		}
		full := hs[at].Data
		try := func(data []byte, what string) {
			var sec []byte
			for k, h := range hs {
				if k == at {
					h.Data = data
				}
				sec = appendHeader(sec, h.Id, h.Data)
			}
			stream := append(append(append([]byte(nil), good.encode(o)...), buildFrame(sec, bad.Body, o)...), next.encode(o)...)
			srv := r.IntN(4) == 0
			run := c.deliver(cfg, srv, nil, stream, pickEnd(r.IntN(100)))
			c.expectExactly(run, []*WM{good}, srv, fmt.Sprintf("header %#x, %d bytes, %s", id, len(full), what))
			c.Count("frames", 1)
		}
		for cut := 0; cut < len(full); cut++ {
			if len(full) > 60 && r.IntN(len(full)) > 60 {
				continue
			}
			try(full[:cut:cut], fmt.Sprintf("ends after %d", cut))
		}
		try(RefEncode(&struct{ A, B []string }{[]string{"of"}, []string{"another", "kind"}}, RefOpts{}), "holds something else")
		try([]byte{0x0c}, "not an object")
		c.Saw(fmt.Sprint(i))
		c.StopIfFailed(3)
	})
	c.reached("frames")
}

func c06broken(c *Ctx) {
	c.Cases("frame", c.N(25, 400), func(i int, r *rand.Rand) {
		cfg := genConfig(r)
		o := frameOpt{BCRC: cfg.CheckFrameBodyCRC}
		good, bad, next := smallWM(r, 0), smallWM(r, 1), smallWM(r, 2)
		sec := bad.headerSection()
		// a body with non-empty headers only, so that every break is inside something
		bound := map[int]bool{0: true}
		for p := 0; p < len(sec); {
			p += 4 + int(binary.LittleEndian.Uint16(sec[p+2:]))
			bound[p] = true
		}
		for cut := 1; cut < len(sec); cut++ {
			if bound[cut] {
				continue
			}
			for how := 0; how < 2; how++ {
				body := sec[cut:]
				if how == 1 {
					body = nil
				}
				stream := append(append(append([]byte(nil), good.encode(o)...), buildFrame(sec[:cut], body, o)...), next.encode(o)...)
				srv := cut%4 == 0
				run := c.deliver(cfg, srv, nil, stream, pickEnd(cut))
				c.expectExactly(run, []*WM{good}, srv, fmt.Sprintf("header section broken off at %d of %d, body %d bytes", cut, len(sec), len(body)))
				c.Saw(fmt.Sprint(i, cut, how))
			}
		}
		c.StopIfFailed(3)
	})
}

// ---------------------------------------------------------------------------------------------------------
// C08

// load is a self-describing body.
func loadBody(sender, seq, size int) []byte {
	b := make([]byte, 16+size)
	binary.LittleEndian.PutUint32(b, uint32(sender))
	binary.LittleEndian.PutUint32(b[4:], uint32(seq))
	binary.LittleEndian.PutUint32(b[8:], uint32(size))
	for i := 16; i < len(b); i++ {
		b[i] = byte(sender*31 + seq*7 + i)
	}
	binary.LittleEndian.PutUint32(b[12:], crc32.ChecksumIEEE(b[16:]))
	return b
}

func readLoad(b []byte) (sender, seq int, err error) {
	if len(b) < 16 {
		return 0, 0, fmt.Errorf("body of %d bytes", len(b))
	}
	sender, seq = int(binary.LittleEndian.Uint32(b)), int(binary.LittleEndian.Uint32(b[4:]))
	if int(binary.LittleEndian.Uint32(b[8:])) != len(b)-16 || !bytes.Equal(b, loadBody(sender, seq, len(b)-16)) {
		return 0, 0, fmt.Errorf("body mixed up: %s", hx(b))
	}
	return
}

type sentLog struct {
	mu sync.Mutex
	ok map[int][]int // sender -> seqs sent successfully, in order
}

func (l *sentLog) add(s, q int) {
	l.mu.Lock()
	if l.ok == nil {
		l.ok = map[int][]int{}
	}
	l.ok[s] = append(l.ok[s], q)
	l.mu.Unlock()
}

func (c *Ctx) checkLoads(msgs []*WM, l *sentLog, ordered bool, complete bool, where string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	got := map[int][]int{}
	for _, m := range msgs {
		s, q, err := readLoad(m.Body)
		if err != nil {
			c.Violation("%s: %v", where, err)
			continue
		}
		if m.Action != fmt.Sprintf("s%d", s) || m.RelatesTo.Index != uint32(q+1) {
			c.Violation("%s: headers of another message: action %q relates %v with body of sender %d seq %d", where, m.Action, m.RelatesTo, s, q)
		}
		got[s] = append(got[s], q)
	}
	total := 0
	for s, w := range l.ok {
		total += len(w)
		g := got[s]
		if !ordered {
			g = append([]int(nil), g...)
			sort.Ints(g)
		}
		if complete && fmt.Sprint(g) != fmt.Sprint(w) {
			c.Violation("%s: sender %d sent %v, arrived %v", where, s, w, g)
		}
		if !complete && (len(g) < len(w) || fmt.Sprint(g[:len(w)]) != fmt.Sprint(w)) {
			c.Violation("%s: sender %d sent successfully %v, arrived %v", where, s, w, g)
		}
		delete(got, s)
	}
	for s, g := range got {
		if complete {
			c.Violation("%s: %v arrived from sender %d which sent nothing successfully", where, g, s)
		}
	}
	c.Count("messages", int64(total))
}

func loadMsg(s, q, size int) *transport.Message {
	msg := &transport.Message{Body: loadBody(s, q, size)}
	msg.Headers.Actor = transport.MessageActorTypeGenericTestActor
	msg.Headers.Action = fmt.Sprintf("s%d", s)
	msg.Headers.RelatesTo = transport.MessageId{Index: uint32(q + 1)}
	x := uint32(s*7919+q*104729) >> 3
	msg.Headers.Idempotent = x%2 == 0
	msg.Headers.HighPriority = x/2%2 == 0
	msg.Headers.ExpectsReply = x/4%3 == 0
	msg.Headers.HasFaultBody = x/12%4 == 0
	if x/48%3 == 0 {
		msg.Headers.RetryCount = int32(x % 5)
	}
	if x/144%4 == 0 {
		msg.Headers.ErrorCode = transport.FabricErrorCode(int64(x%7) - 3)
	}
	if x/576%3 == 0 {
		msg.Headers.AppendCustomHeader(0x9000, make([]byte, x%300))
	}
	return msg
}

// decorate gives a message random flags and headers that nothing in the library should care about.
func decorate(r *rand.Rand, m *WM) *WM {
	if r.IntN(3) == 0 {
		return m
	}
	m.ExpectsReply = m.ExpectsReply || r.IntN(3) == 0
	m.HighPriority = m.HighPriority || r.IntN(3) == 0
	m.Idempotent = m.Idempotent || r.IntN(3) == 0
	m.HasFault = m.HasFault || r.IntN(4) == 0
	if r.IntN(4) == 0 {
		m.Retry = int32(r.IntN(5))
	}
	if m.Err == 0 && r.IntN(4) == 0 {
		m.Err = pick(r, []int64{1, 5, -1, -2147017536, -2147467260, 1 << 40})
	}
	for n := r.IntN(4) - 1; n > 0; n-- {
		m.Custom = append(m.Custom, RawHeader{pick(r, []uint16{0x1234, 0x9000, 0x8055, 0xffff}), genBytes(r, r.IntN(40))})
	}
	return m
}

// raceWrite makes the write of a frame a wide window: other goroutines get to run before, between and after.
func raceWrite(seed uint64) ConnOpts {
	var mu sync.Mutex
	r := rand.New(rand.NewPCG(seed, 9))
	return ConnOpts{RandYield: seed | 1, AfterWrite: func(c *Conn, p []byte) {
		mu.Lock()
		k := r.IntN(12)
		mu.Unlock()
		if k == 0 {
			nap(30 * time.Microsecond)
		}
	}}
}

func c08senders(c *Ctx) {
	c.Cases("run", c.N(60, 2000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(raceWrite(r.Uint64()), ConnOpts{})
			cfg := genConfig(r)
			cl := c.connect(a, transport.ClientConfig{Config: cfg})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			var loads []*WM
			var lmu sync.Mutex
			beats := map[string]int{}
			p := newWirePeer(b, func(p *WirePeer, m *WM) {
				if m.isHeartbeat() {
					p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: m.Body})
				}
				lmu.Lock()
				defer lmu.Unlock()
				if m.Actor == 1 && m.Action == "HeartbeatResponse" {
					beats[string(m.Body)]++
				}
				if m.Actor == int64(transport.MessageActorTypeGenericTestActor) {
					loads = append(loads, m)
				}
			}, frameOpt{BCRC: cfg.CheckFrameBodyCRC})
			var log sentLog
			var wg sync.WaitGroup
			n, per := 2+r.IntN(10), 3+r.IntN(12)
			seeds := make([]uint64, n)
			for s := range seeds {
				seeds[s] = r.Uint64()
			}
			for s := 0; s < n; s++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					rr := rand.New(rand.NewPCG(seeds[s], 1))
					for q := 0; q < per; q++ {
						size := bodySize(rr, 5000)
						if i%8 == 3 && rr.IntN(5) == 0 {
							size = pick(rr, []int{65530, 70000, 300000, 1 << 20, 1<<20 + 5000, 2 << 20})
						}
						msg := loadMsg(s, q, size)
						switch rr.IntN(8) {
						case 0:
							// a request: sent the same way, then given up
							ctx, cancel := context.WithCancel(context.Background())
							op := Go("req", func() (any, error) { return cl.RequestReply(ctx, msg) })
							time.Sleep(time.Millisecond)
							cancel()
							<-op.ch
						case 1:
							ctx, cancel := context.WithTimeout(context.Background(), time.Second)
							if _, err := cl.Ping(ctx); err != nil {
								c.Violation("ping among senders: %v", err)
							}
							cancel()
							fallthrough
						default:
							if err := cl.SendOneWay(msg); err != nil {
								c.Violation("send: %v", err)
							}
						}
						log.add(s, q)
					}
				}()
			}
			hb := 0
			for ; hb < 10; hb++ {
				p.Send(&WM{Actor: 1, Action: "HeartbeatRequest", Body: loadBody(1000, hb, r.IntN(2000))})
			}
			wg.Wait()
			synctest.Wait()
			if done, err := p.Ended(); done {
				c.Violation("%d senders: the frame stream is broken: %v", n, err)
			}
			lmu.Lock()
			c.checkLoads(loads, &log, true, true, fmt.Sprintf("%d senders", n))
			for k := 0; k < hb; k++ {
				sum := 0
				for body, x := range beats {
					if s, q, err := readLoad([]byte(body)); err == nil && s == 1000 && q == k {
						sum += x
					}
				}
				if sum != 1 {
					c.Violation("heartbeat %d answered %d times among concurrent senders", k, sum)
				}
			}
			lmu.Unlock()
			c.Saw(fmt.Sprint(i, n, per))
			c.Count("switches", a.Writes.Load())
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
}

func c08tls(c *Ctx) {
	c.Cases("run", c.N(25, 600), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var ccfg, scfg transport.Config
			if i%3 != 0 {
				t := newTLSSetup(r, i)
				ccfg.TLS, scfg.TLS = t.client, t.server
			} else {
				ccfg, scfg = transport.Config{GenerateFrameBodyCRC: true}, transport.Config{CheckFrameBodyCRC: true}
			}
			var up, down inbox
			var cmu sync.Mutex
			var back transport.Conn
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				up.cb(cn, m)
				cmu.Lock()
				back = cn
				cmu.Unlock()
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			a, b, _ := l.Dial(raceWrite(r.Uint64()), raceWrite(r.Uint64()))
			cl, err := transport.Connect(a, transport.ClientConfig{Config: ccfg, MessageCallback: down.cb})
			if err != nil {
				c.Violation("connect: %v", err)
				return
			}
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			cl.SendOneWay(loadMsg(999, 0, 3))
			synctest.Wait()
			cmu.Lock()
			srvConn := back
			cmu.Unlock()
			var ulog, dlog sentLog
			ulog.add(999, 0)
			if srvConn == nil {
				c.Violation("first message over did not arrive (tls %v)", ccfg.TLS != nil)
				return
			}
			var wg sync.WaitGroup
			n, per := 2+r.IntN(6), 3+r.IntN(10)
			for s := 0; s < 2*n; s++ {
				wg.Add(1)
				seed := r.Uint64()
				go func() {
					defer wg.Done()
					rr := rand.New(rand.NewPCG(seed, 1))
					conn, log := transport.Conn(cl), &ulog
					if s >= n {
						conn, log = srvConn, &dlog
					}
					for q := 0; q < per; q++ {
						if rr.IntN(6) == 0 {
							ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
							if _, err := conn.Ping(ctx); err != nil {
								c.Violation("ping: %v", err)
							}
							cancel()
						}
						if err := conn.SendOneWay(loadMsg(s, q, bodySize(rr, 40000))); err != nil {
							c.Violation("send: %v", err)
							return
						}
						log.add(s, q)
					}
				}()
			}
			wg.Wait()
			synctest.Wait()
			// the server starts a goroutine per message, so order is only observable at the client
			c.checkLoads(up.got(), &ulog, false, true, fmt.Sprintf("to server, tls %v", ccfg.TLS != nil))
			c.checkLoads(down.got(), &dlog, true, true, fmt.Sprintf("to client, tls %v", ccfg.TLS != nil))
			c.Saw(fmt.Sprint(i, n, per))
			cl.Close()
			srv.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(3)
	})
}

// c08failing: the connection fails at some bytes, for good or for one write; what was reported as sent arrives whole.
func c08failing(c *Ctx) {
	c.Cases("run", c.N(60, 1500), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			opt := raceWrite(r.Uint64())
			budget := 300 + r.IntN(40000)
			// a transient failure (a write deadline of the owner of the socket, a full buffer) hits one write: nothing
			// of it, or a part, is written, and later writes succeed
			transient := i%2 == 1
			fails, writes := 0, 0
			frr := rand.New(rand.NewPCG(r.Uint64(), 2))
			var mu sync.Mutex
			opt.BeforeWrite = func(_ *Conn, p []byte) (int, error) {
				mu.Lock()
				defer mu.Unlock()
				if transient {
					if writes++; writes > 6 && frr.IntN(12) == 0 {
						fails++
						if i%4 == 1 || frr.IntN(2) == 0 {
							return 0, errors.New("no buffer space")
						}
						return frr.IntN(len(p)), os.ErrDeadlineExceeded
					}
					return 0, nil
				}
				if len(p) <= budget {
					budget -= len(p)
					return 0, nil
				}
				k := budget
				budget = 0
				return k, errors.New("broken pipe")
			}
			a, b := Pipe(opt, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{})
			var loads []*WM
			var lmu sync.Mutex
			NewWirePeer(b, func(p *WirePeer, m *WM) {
				lmu.Lock()
				defer lmu.Unlock()
				if m.Actor != 1 {
					loads = append(loads, m)
				}
			})
			var log sentLog
			var wg sync.WaitGroup
			n := 2 + r.IntN(6)
			failed := make([]int, n)
			for s := 0; s < n; s++ {
				seed := r.Uint64()
				wg.Add(1)
				go func() {
					defer wg.Done()
					rr := rand.New(rand.NewPCG(seed, 1))
					for q := 0; q < 20; q++ {
						if err := cl.SendOneWay(loadMsg(s, q, bodySize(rr, 2000))); err != nil {
							failed[s]++
							if transient {
								continue
							}
							return
						}
						log.add(s, q)
					}
				}()
			}
			wg.Wait()
			synctest.Wait()
			lmu.Lock()
			c.checkLoads(loads, &log, true, transient, fmt.Sprintf("%d senders, write failure, transient %v", n, transient))
			lmu.Unlock()
			if budget == 0 || fails > 0 {
				c.Count("failed_runs", 1)
			}
			c.Count("transient_failures", int64(fails))
			c.Saw(fmt.Sprint(i))
			cl.Close()
			b.Close()
		})
		c.StopIfFailed(3)
	})
}

// ---------------------------------------------------------------------------------------------------------
// C09

func reqMsg(n int, body []byte) *transport.Message {
	m := &transport.Message{Body: body}
	m.Headers.Actor = transport.MessageActorTypeGenericTestActor
	m.Headers.Action = fmt.Sprintf("req%d", n)
	return m
}

type replyRec struct {
	to   transport.MessageId // relates-to
	id   transport.MessageId
	body string
}

// checkReply: what a request returned must be a message the peer sent for it.
func checkReply(c *Ctx, op *Op, id transport.MessageId, wantBody string, what string) {
	v, err := op.Get()
	if err != nil {
		c.Violation("%s: answered request failed: %v", what, err)
		return
	}
	bam := v.(*transport.ByteArrayMessage)
	if bam.Headers.RelatesTo != id {
		c.Violation("%s: request %v got the reply for %v", what, id, bam.Headers.RelatesTo)
	}
	if string(bam.Body) != wantBody {
		c.Violation("%s: request %v got body %q, its reply was %q", what, id, bam.Body, wantBody)
	}
}

func c09matching(c *Ctx) {
	c.Cases("run", c.N(200, 6000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var in inbox
			a, b := Pipe(ConnOpts{RandYield: r.Uint64() | 1, ReadChunk: chunker(r)}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{MessageCallback: in.cb})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			p := NewWirePeer(b, nil)
			n := 1 + r.IntN(20)
			ops := make([]*Op, n)
			cancels := make([]context.CancelFunc, n)
			ids := map[int]transport.MessageId{}
			msgs := make([]*transport.Message, n)
			used := map[transport.MessageId]bool{}
			freshId := func() transport.MessageId {
				for {
					if id := genMsgId(r); !used[id] {
						used[id] = true
						return id
					}
				}
			}
			for k := 0; k < n; k++ {
				ctx, cancel := context.WithCancel(context.Background())
				cancels[k] = cancel
				msgs[k] = reqMsg(k, nil)
				if r.IntN(3) == 0 {
					msgs[k].Headers.Id = freshId()
				}
				ops[k] = Go(fmt.Sprintf("request %d", k), func() (any, error) { return cl.RequestReply(ctx, msgs[k]) })
			}
			synctest.Wait()
			for _, m := range p.GotApp() {
				var k int
				fmt.Sscanf(m.Action, "req%d", &k)
				if !m.ExpectsReply {
					c.Violation("request %d does not ask for a reply", k)
				}
				ids[k] = m.Id
			}
			if len(ids) != n {
				c.Violation("%d of %d requests on the wire", len(ids), n)
				return
			}
			// script: replies in random order, some never, some twice, some cancelled first; noise in between
			type ev struct {
				kind string
				k    int
			}
			var evs []ev
			for k := 0; k < n; k++ {
				switch r.IntN(6) {
				case 0:
					evs = append(evs, ev{"cancel", k})
					if r.IntN(2) == 0 {
						evs = append(evs, ev{"reply", k})
					}
				case 1:
					evs = append(evs, ev{"reply", k}, ev{"reply", k})
					if r.IntN(2) == 0 {
						evs = append(evs, ev{"reply", k})
					}
				case 2:
					evs = append(evs, ev{"never", k})
				default:
					evs = append(evs, ev{"reply", k})
				}
			}
			for k := r.IntN(10); k > 0; k-- {
				evs = append(evs, ev{pick(r, []string{"plain", "unsolicited", "nearmiss", "heartbeat"}), r.IntN(n)})
			}
			// keep a cancel before replies of the same request in half of the runs only
			r.Shuffle(len(evs), func(x, y int) { evs[x], evs[y] = evs[y], evs[x] })
			state := make([]string, n) // "", "answered", "cancelled"
			answer := make([]*WM, n)
			var wantCb []transport.MessageId
			plain := map[transport.MessageId]*WM{}
			lock := r.IntN(2) == 0
			var batch []byte
			flush := func() {
				if len(batch) > 0 {
					p.SendRaw(batch)
					batch = nil
				}
				synctest.Wait()
			}
			send := func(m *WM) {
				m.Id = p.NextId()
				m.Actor = int64(transport.MessageActorTypeGenericTestActor)
				if r.IntN(3) == 0 {
					m.Actor = pick(r, []int64{0, 2, 5, 29, 35, 0x10001, -1})
				}
				decorate(r, m)
				plain[m.Id] = m
				batch = append(batch, m.encode(p.Opt)...)
				if lock || len(batch) > 3000 {
					flush()
				}
			}
			for x, e := range evs {
				body := fmt.Sprintf("answer %d event %d", e.k, x)
				m := &WM{RelatesTo: ids[e.k], Body: []byte(body), Action: "reply"}
				switch e.kind {
				case "cancel":
					flush()
					if state[e.k] == "" {
						state[e.k] = "cancelled"
					}
					cancels[e.k]()
					flush()
				case "reply":
					if r.IntN(8) == 0 {
						m.Err = 5 // replies with error codes are replies
					}
					if r.IntN(8) == 0 {
						m.Action = ""
					}
					send(m)
					if state[e.k] == "" {
						state[e.k], answer[e.k] = "answered", m
					} else {
						wantCb = append(wantCb, m.Id)
					}
				case "plain":
					m.RelatesTo = transport.MessageId{}
					send(m)
					wantCb = append(wantCb, m.Id)
				case "unsolicited":
					m.RelatesTo = freshId()
					send(m)
					wantCb = append(wantCb, m.Id)
				case "nearmiss":
					switch r.IntN(3) {
					case 0:
						m.RelatesTo.Index += uint32(1000 + r.IntN(1000))
					case 1:
						m.RelatesTo.Id.Data1 ^= 1 << r.IntN(32)
					default:
						m.RelatesTo.Id.Data4[7] ^= 1
					}
					clash := false
					for _, id := range ids {
						clash = clash || id == m.RelatesTo
					}
					if !clash {
						send(m)
						wantCb = append(wantCb, m.Id)
					}
				case "heartbeat":
					flush()
					p.Send(&WM{Actor: 1, Action: "HeartbeatRequest", Body: []byte("x")})
				}
			}
			flush()
			for k, op := range ops {
				switch state[k] {
				case "answered":
					if !c.MustReturn(op, "although it was answered") {
						return
					}
					checkReply(c, op, ids[k], string(answer[k].Body), fmt.Sprintf("request %d of %d", k, n))
					if v, err := op.Get(); err == nil {
						if d := diffCommon(answer[k], bamWM(v.(*transport.ByteArrayMessage))); d != "" {
							c.Violation("request %d of %d: the reply changed: %s", k, n, d)
						}
					}
				case "cancelled":
					if !c.MustReturn(op, "after cancel") {
						return
					}
					if _, err := op.Get(); err == nil {
						c.Violation("request %d was cancelled before any reply but succeeded", k)
					}
				default:
					if op.Done() {
						v, err := op.Get()
						c.Violation("request %d returned without an answer: %v %v", k, v, err)
					}
				}
			}
			var gotCb []transport.MessageId
			for _, m := range in.got() {
				gotCb = append(gotCb, m.Id)
				if x := plain[m.Id]; x != nil {
					if d := diffCommon(x, m); d != "" {
						c.Violation("a message handed to the callback changed: %s", d)
					}
				}
			}
			if fmt.Sprint(gotCb) != fmt.Sprint(wantCb) {
				c.Violation("messages handed to the callback %v, want exactly %v", gotCb, wantCb)
			}
			c.Saw(fmt.Sprint(evs))
			c.Count("events", int64(len(evs)))
			for _, f := range cancels {
				f()
			}
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
}

func c09early(c *Ctx) {
	c.Cases("run", c.N(150, 3000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var in inbox
			var p *WirePeer
			// the reply is on its way, and normally processed, before Write returns
			a, b := Pipe(ConnOpts{AfterWrite: func(cn *Conn, _ []byte) { cn.Settle(); cn.peer.Settle() }}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{MessageCallback: in.cb})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			dup := r.IntN(3)
			p = NewWirePeer(b, func(p *WirePeer, m *WM) {
				if m.Actor == 1 {
					return
				}
				for k := 0; k <= dup; k++ {
					p.Reply(m, &WM{Actor: 0x10000, Body: []byte(fmt.Sprintf("%s/%d", m.Body, k))})
				}
			})
			_ = p
			for k := 0; k < 3; k++ {
				msg := reqMsg(k, []byte(fmt.Sprintf("q%d", k)))
				op := Go("request", func() (any, error) { return cl.RequestReply(context.Background(), msg) })
				synctest.Wait()
				if !c.MustReturn(op, "whose reply came at once") {
					return
				}
				checkReply(c, op, msg.Headers.Id, fmt.Sprintf("q%d/0", k), "immediate reply")
			}
			if n := len(in.got()); n != 3*dup {
				c.Violation("%d duplicate replies handed to the callback, want %d", n, 3*dup)
			}
			c.Saw(fmt.Sprint(i))
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
}

// c09server: a server asks its clients; the clients are wire peers with their own answers.
func c09server(c *Ctx) {
	c.Cases("run", c.N(40, 1000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			type asked struct {
				id   transport.MessageId
				body string
				err  error
			}
			var mu sync.Mutex
			results := map[string][]asked{}
			others := 0
			l := NewListener(nil)
			srv, _ := transport.Listen(l, transport.ServerConfig{MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
				if m.Headers.Action != "ask" {
					mu.Lock()
					others++
					mu.Unlock()
					return
				}
				q := reqMsg(0, m.Body)
				rep, err := cn.RequestReply(context.Background(), q)
				x := asked{id: q.Headers.Id, err: err}
				if err == nil {
					x.body = string(rep.Body)
					if rep.Headers.RelatesTo != q.Headers.Id {
						c.Violation("server request %v got the reply to %v", q.Headers.Id, rep.Headers.RelatesTo)
					}
				}
				mu.Lock()
				results[string(m.Body)] = append(results[string(m.Body)], x)
				mu.Unlock()
			}})
			sv := Go("Serve", func() (any, error) { return nil, srv.Serve() })
			nc, per := 1+r.IntN(5), 1+r.IntN(6)
			var conns []*Conn
			noise := 0
			var peers []*WirePeer
			for k := 0; k < nc; k++ {
				a, b, _ := l.Dial(ConnOpts{}, ConnOpts{RandYield: r.Uint64() | 1})
				conns = append(conns, a, b)
				var held []*WM
				seed := r.Uint64()
				peers = append(peers, NewWirePeer(a, func(p *WirePeer, m *WM) {
					if m.Actor == 1 {
						return
					}
					held = append(held, m)
					if len(held) == per {
						rr := rand.New(rand.NewPCG(seed, 3))
						for _, x := range rr.Perm(per) {
							p.Reply(held[x], &WM{Actor: 0x10000, Body: append([]byte("re "), held[x].Body...)})
						}
					}
				}))
			}
			synctest.Wait()
			for k, p := range peers {
				for q := 0; q < per; q++ {
					p.Send(&WM{Actor: 0x10000, Action: "ask", Body: []byte(fmt.Sprintf("c%d q%d", k, q))})
					if r.IntN(3) == 0 {
						// replies to another connection's requests match nothing here
						p.Send(&WM{Actor: 0x10000, Action: "noise", RelatesTo: peers[r.IntN(nc)].NextId()})
						noise++
					}
				}
			}
			synctest.Wait()
			mu.Lock()
			defer mu.Unlock()
			for k := 0; k < nc; k++ {
				for q := 0; q < per; q++ {
					key := fmt.Sprintf("c%d q%d", k, q)
					x := results[key]
					if len(x) != 1 || x[0].err != nil || x[0].body != "re "+key {
						c.Violation("server request %q: %v", key, x)
					}
				}
			}
			if others != noise {
				c.Violation("%d unmatched messages reached the server callback, want %d", others, noise)
			}
			c.Saw(fmt.Sprint(nc, per, i))
			for _, x := range conns {
				x.Close()
			}
			srv.Close()
			synctest.Wait()
			c.MustReturn(sv, "after Close")
		})
		c.StopIfFailed(3)
	})
}

func c09race(c *Ctx) {
	c.Cases("run", c.N(120, 4000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var in inbox
			a, b := Pipe(ConnOpts{RandYield: r.Uint64() | 1}, ConnOpts{RandYield: r.Uint64() | 1})
			cl := c.connect(a, transport.ClientConfig{MessageCallback: in.cb})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			var mu sync.Mutex
			sent := map[transport.MessageId][]transport.MessageId{} // request id -> ids of replies
			NewWirePeer(b, func(p *WirePeer, m *WM) {
				if m.Actor == 1 {
					return
				}
				for k := 0; k < 2; k++ {
					x := &WM{Actor: 0x10000, Body: m.Body, Id: p.NextId()}
					mu.Lock()
					sent[m.Id] = append(sent[m.Id], x.Id)
					mu.Unlock()
					p.Reply(m, x)
				}
			})
			n := 12
			ops := make([]*Op, n)
			msgs := make([]*transport.Message, n)
			for k := 0; k < n; k++ {
				msgs[k] = reqMsg(k, []byte{byte(k)})
				ctx, cancel := context.WithCancel(context.Background())
				spin := r.IntN(60)
				ops[k] = Go("request", func() (any, error) { return cl.RequestReply(ctx, msgs[k]) })
				go func() {
					for x := 0; x < spin; x++ {
						nap(time.Microsecond)
					}
					cancel()
				}()
			}
			synctest.Wait()
			used := map[transport.MessageId]int{}
			for _, m := range in.got() {
				used[m.Id]++
			}
			for k, op := range ops {
				if !c.MustReturn(op, "cancelled and answered") {
					return
				}
				v, err := op.Get()
				if err == nil {
					bam := v.(*transport.ByteArrayMessage)
					used[bam.Headers.Id]++
					c.Count("answered", 1)
					if bam.Headers.RelatesTo != msgs[k].Headers.Id {
						c.Violation("request %v got a reply to %v", msgs[k].Headers.Id, bam.Headers.RelatesTo)
					}
				} else {
					c.Count("cancelled", 1)
				}
			}
			mu.Lock()
			defer mu.Unlock()
			for id, l := range sent {
				total := 0
				for _, x := range l {
					if used[x] > 1 {
						c.Violation("reply %v to %v used %d times", x, id, used[x])
					}
					total += used[x]
				}
				if total < len(l)-1 {
					c.Violation("request %v: of %d replies only %d reached the request or the callback", id, len(l), total)
				}
			}
			c.Saw(fmt.Sprint(i))
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
}

// ---------------------------------------------------------------------------------------------------------
// C10

// c10cancel forces, inside the write of the request: reply first or cancel first or both, then lets it go.
func c10cancel(c *Ctx) {
	orders := []string{"reply", "cancel", "reply,cancel", "cancel,reply", "reply,cancel,reply", "cancel,reply,reply"}
	c.Cases("run", c.N(300, 6000), func(i int, r *rand.Rand) {
		order := orders[i%len(orders)]
		after := (i/len(orders))%2 == 1 // events after the request is waiting, without quiescence in between
		c.Bubble(func() {
			var act func()
			a, b := Pipe(ConnOpts{AfterWrite: func(cn *Conn, _ []byte) {
				if act != nil {
					f := act
					act = nil
					cn.Settle()
					f()
					cn.peer.Settle()
				}
			}}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{MessageCallback: func(transport.Conn, *transport.ByteArrayMessage) {}})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			var pmu sync.Mutex
			var first *WM
			p := NewWirePeer(b, func(p *WirePeer, m *WM) {
				if m.Action == "req0" {
					pmu.Lock()
					first = m
					pmu.Unlock()
				} else if m.Actor != 1 {
					p.Reply(m, &WM{Actor: 0x10000, Body: []byte("ok")})
				}
			})
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			msg := reqMsg(0, []byte("a"))
			msg.Headers.Id = genMsgId(r)
			do := func() {
				for _, e := range strings.Split(order, ",") {
					if e == "cancel" {
						cancel()
						continue
					}
					p.SendRaw(decorate(r, &WM{Id: p.NextId(), RelatesTo: msg.Headers.Id, Actor: 0x10000}).encode(p.Opt))
				}
			}
			if !after {
				n := 0
				// the frame may be written in more than one piece: act on the last
				want := a.SentLen()
				_ = want
				var hook func()
				hook = func() {
					pmu.Lock()
					seen := first != nil
					pmu.Unlock()
					if n++; !seen && n < 4 {
						act = hook
						return
					}
					do()
				}
				act = hook
			}
			op := Go("request", func() (any, error) { return cl.RequestReply(ctx, msg) })
			synctest.Wait()
			if after {
				do()
				synctest.Wait()
			}
			if !c.MustReturn(op, "after "+order) {
				return
			}
			_, err := op.Get()
			if order == "reply" && err != nil {
				c.Violation("answered request failed: %v", err)
			}
			if order == "cancel" && err == nil {
				c.Violation("cancelled request without a reply succeeded")
			}
			// the connection still works
			for k := 1; k < 3; k++ {
				op := Go("a later request", func() (any, error) { return cl.RequestReply(context.Background(), reqMsg(k, nil)) })
				synctest.Wait()
				if !c.MustReturn(op, "after an earlier one saw "+order) {
					return
				}
				if _, err := op.Get(); err != nil {
					c.Violation("request after %s failed: %v", order, err)
				}
			}
			if w.Done() {
				_, err := w.Get()
				c.Violation("receive loop ended after %s: %v", order, err)
			}
			c.Saw(fmt.Sprint(order, after, i))
			c.Count(strings.ReplaceAll(order, ",", "_"), 1)
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
}

func c10ends(c *Ctx) {
	ways := []string{"local close", "peer close", "read failure", "garbage frame", "deadline", "cancel", "double close", "auth failure", "peer close in mid frame", "close during write", "slow close"}
	c.Cases("run", c.N(300, 6000), func(i int, r *rand.Rand) {
		way := ways[i%len(ways)]
		tls := (i/len(ways))%3 == 1
		c.Bubble(func() {
			var cfg transport.ClientConfig
			var closeIn func()
			co := ConnOpts{RandYield: r.Uint64() | 1, AfterWrite: func(*Conn, []byte) {
				if f := closeIn; f != nil {
					closeIn = nil
					f()
				}
			}}
			if r.IntN(4) == 0 {
				co.CloseErr = syscall.ECONNRESET
			}
			if way == "slow close" {
				// in real time: others may wait for it on what keeps virtual time from passing
				co.BeforeClose = func(*Conn) { syscall.Nanosleep(&syscall.Timespec{Nsec: 3e6}, nil) }
			}
			var a *Conn
			var b io.Closer
			var peerSend func([]byte) error
			var peerConn *Conn
			if tls {
				t := newTLSSetup(r, r.IntN(8))
				cfg.TLS = t.client
				var bb *Conn
				a, bb = Pipe(co, ConnOpts{})
				tp := NewTLSWirePeer(bb, t.server, nil)
				b, peerConn = bb, bb
				peerSend = tp.SendRaw
			} else {
				var bb *Conn
				a, bb = Pipe(co, ConnOpts{})
				p := NewWirePeer(bb, nil)
				b, peerConn = bb, bb
				peerSend = p.SendRaw
			}
			cl, err := transport.Connect(a, cfg)
			if err != nil {
				c.Violation("connect (tls %v): %v", tls, err)
				return
			}
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			synctest.Wait()
			n := 1 + r.IntN(5)
			var ops []*Op
			ctx, cancel := context.WithCancel(context.Background())
			if way == "deadline" {
				ctx, cancel = context.WithTimeout(context.Background(), time.Duration(1+r.IntN(1000))*time.Millisecond)
			}
			defer cancel()
			// requests with one id: which of them waits on is not said, but all of them end
			twins := n > 1 && r.IntN(3) == 0
			var msgs []*transport.Message
			for k := 0; k < n; k++ {
				m := reqMsg(k, genBytes(r, 10))
				if twins {
					m.Headers.Id = transport.MessageId{Id: serialization.GUID{Data1: 77}, Index: uint32(i)}
				}
				msgs = append(msgs, m)
				ops = append(ops, Go("request", func() (any, error) { return cl.RequestReply(ctx, m) }))
			}
			if r.IntN(2) == 0 {
				ops = append(ops, Go("ping", func() (any, error) { return cl.Ping(ctx) }))
			}
			synctest.Wait()
			for _, o := range ops {
				if o.Done() && !(twins && o.name == "request") {
					_, err := o.Get()
					c.Violation("%s (tls %v) ended before anything happened: %v", o.name, tls, err)
					return
				}
			}
			start := time.Now()
			within := grace
			closed := true
			if way != "deadline" && way != "cancel" && r.IntN(2) == 0 {
				// more requests start at the same moment
				for k := 0; k < 3; k++ {
					ops = append(ops, Go("late request", func() (any, error) { return cl.RequestReply(ctx, reqMsg(100+k, nil)) }))
				}
			}
			switch way {
			case "local close":
				cl.Close()
			case "double close":
				go cl.Close()
				cl.Close()
				cl.Close()
			case "peer close":
				b.Close()
			case "read failure":
				a.FailReads(errors.New("connection reset by peer"))
			case "garbage frame":
				// inside TLS only the frame's own lengths are checked
				if tls || r.IntN(2) == 0 {
					peerSend(make([]byte, 40))
				} else {
					peerSend(bytes.Repeat([]byte{0xff, 3}, 40))
				}
			case "peer close in mid frame":
				peerSend((&WM{Id: genMsgId(r), Actor: 5, Body: genBytes(r, 100)}).encode(frameOpt{})[:40+r.IntN(60)])
				b.Close()
			case "auth failure":
				peerSend((&WM{Id: genMsgId(r), Actor: 29, Action: "ConnectionAuth", Err: -5, Body: RefEncode(&strObj{"no"}, RefOpts{})}).encode(frameOpt{}))
			case "close during write":
				closeIn = func() { cl.Close() }
				ops = append(ops, Go("request being written", func() (any, error) { return cl.RequestReply(ctx, reqMsg(200, nil)) }))
			case "slow close":
				// requests start while the socket is being closed
				cd := Go("Close", func() (any, error) { return nil, cl.Close() })
				for k := 0; k < 4; k++ {
					time.Sleep(time.Duration(r.IntN(350)) * time.Millisecond)
					ops = append(ops, Go("request during Close", func() (any, error) { return cl.RequestReply(ctx, reqMsg(210+k, nil)) }))
					if k == 2 {
						ops = append(ops, Go("ping during Close", func() (any, error) { return cl.Ping(ctx) }))
					}
				}
				time.Sleep(10 * time.Second)
				synctest.Wait()
				if !c.MustReturn(cd, "although the socket closed") {
					return
				}
				within = 3 * time.Second
			case "cancel":
				cancel()
				closed = false
			case "deadline":
				time.Sleep(2 * time.Second)
				closed = false
			}
			synctest.Wait()
			for _, o := range ops {
				if !c.MustReturn(o, fmt.Sprintf("after %s (tls %v)", way, tls)) {
					return
				}
				if _, err := o.Get(); err == nil {
					c.Violation("%s succeeded without an answer after %s", o.name, way)
				}
				if d, ok := ctx.Deadline(); ok {
					if o.When().Before(d) && !(twins && o.name == "request") || o.When().After(d.Add(grace)) {
						c.Violation("%s returned %v after its deadline", o.name, o.When().Sub(d))
					}
				} else if o.When().After(start.Add(within)) {
					c.Violation("%s returned %v after %s", o.name, o.When().Sub(start), way)
				}
			}
			if closed {
				c.MustReturn(w, "after "+way)
				for k := 0; k < 2; k++ {
					s := Go("SendOneWay", func() (any, error) { return nil, cl.SendOneWay(reqMsg(300, nil)) })
					q := Go("RequestReply", func() (any, error) { return cl.RequestReply(context.Background(), reqMsg(301, nil)) })
					g := Go("Ping", func() (any, error) { return cl.Ping(context.Background()) })
					synctest.Wait()
					for _, o := range []*Op{s, q, g} {
						if !c.MustReturn(o, "called after "+way) {
							return
						}
						if _, err := o.Get(); err == nil {
							c.Violation("%s after %s (tls %v) succeeded", o.name, way, tls)
						}
					}
				}
			} else {
				if w.Done() {
					c.Violation("the connection ended after a request's context did")
				}
				// a message may be sent again
				re := Go("request sent again", func() (any, error) { return cl.RequestReply(context.Background(), msgs[0]) })
				synctest.Wait()
				if re.Done() {
					_, err := re.Get()
					c.Violation("a request sent again after %s: %v", way, err)
				}
				peerSend((&WM{Id: genMsgId(r), RelatesTo: msgs[0].Headers.Id, Actor: 5, Body: []byte("second try")}).encode(frameOpt{}))
				if c.MustReturn(re, "although it was answered (sent again after "+way+")") {
					if v, err := re.Get(); err != nil || string(v.(*transport.ByteArrayMessage).Body) != "second try" {
						c.Violation("a request sent again after %s: %v, %v", way, v, err)
					}
				}
				// it keeps receiving
				q := Go("request", func() (any, error) { return cl.RequestReply(context.Background(), reqMsg(300, nil)) })
				synctest.Wait()
				if q.Done() {
					_, err := q.Get()
					c.Violation("request after %s: %v", way, err)
				}
				cl.Close()
				synctest.Wait()
				c.MustReturn(q, "after Close")
			}
			c.Saw(fmt.Sprint(way, tls, n, i))
			c.Count(strings.ReplaceAll(way, " ", "_"), 1)
			cl.Close()
			b.Close()
			peerConn.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
}

func c10storm(c *Ctx) {
	c.Cases("run", c.N(40, 1200), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{RandYield: r.Uint64() | 1}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{MessageCallback: func(transport.Conn, *transport.ByteArrayMessage) {}})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			var rmu sync.Mutex
			rr := rand.New(rand.NewPCG(r.Uint64(), 4))
			NewWirePeer(b, func(p *WirePeer, m *WM) {
				if m.Actor == 1 {
					return
				}
				rmu.Lock()
				d := time.Duration(rr.IntN(20)) * time.Millisecond
				k := rr.IntN(4)
				rmu.Unlock()
				if m.Action == "req9999" {
					k, d = 1, 0
				}
				for ; k > 0; k-- {
					time.AfterFunc(d, func() { p.Reply(m, &WM{Actor: 0x10000, Body: m.Body}) })
				}
			})
			var wg sync.WaitGroup
			for s := 0; s < 8; s++ {
				seed := r.Uint64()
				wg.Add(1)
				go func() {
					defer wg.Done()
					rr := rand.New(rand.NewPCG(seed, 1))
					for q := 0; q < 25; q++ {
						// deadlines fall on the same virtual instants as replies
						ctx, cancel := context.WithTimeout(context.Background(), time.Duration(rr.IntN(20))*time.Millisecond)
						body := fmt.Sprint(s, q)
						v, err := cl.RequestReply(ctx, reqMsg(q, []byte(body)))
						if err == nil && string(v.Body) != body {
							c.Violation("request %s got %s", body, v.Body)
						}
						if err == nil {
							c.Count("answered", 1)
						} else {
							c.Count("timed_out", 1)
						}
						cancel()
					}
				}()
			}
			all := Go("requests with deadlines", func() (any, error) { wg.Wait(); return nil, nil })
			time.Sleep(10 * time.Second)
			synctest.Wait()
			if !c.MustReturn(all, "10 s after their deadlines") {
				return
			}
			op := Go("a request after the storm", func() (any, error) { return cl.RequestReply(context.Background(), reqMsg(9999, nil)) })
			synctest.Wait()
			if !c.MustReturn(op, "although answered") {
				return
			}
			if _, err := op.Get(); err != nil {
				c.Violation("request after the storm: %v", err)
			}
			c.Saw(fmt.Sprint(i))
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
}

// ---------------------------------------------------------------------------------------------------------
// C11

func c11answers(c *Ctx) {
	c.Cases("run", c.N(150, 4000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var in inbox
			server := i%2 == 0
			var b *Conn
			var closers []func()
			if server {
				l := NewListener(nil)
				srv, _ := transport.Listen(l, transport.ServerConfig{MessageCallback: in.cb})
				go srv.Serve()
				cl, sb, _ := l.Dial(ConnOpts{}, ConnOpts{RandYield: r.Uint64() | 1, ReadChunk: chunker(r)})
				b = cl
				closers = append(closers, func() { srv.Close(); sb.Close() })
			} else {
				a, bb := Pipe(ConnOpts{RandYield: r.Uint64() | 1, ReadChunk: chunker(r)}, ConnOpts{})
				cl := c.connect(a, transport.ClientConfig{MessageCallback: in.cb})
				go cl.Wait()
				b = bb
				closers = append(closers, func() { cl.Close() })
			}
			p := NewWirePeer(b, nil)
			n := 1 + r.IntN(30)
			want := map[string]int{}
			app := 0
			for k := 0; k < n; k++ {
				body := genBytes(r, r.IntN(40))
				switch r.IntN(4) {
				case 0:
					body = RefEncode(&hbBody{genInt(r, 64)}, RefOpts{})
				case 1:
					body = genBytes(r, r.IntN(5000))
				}
				hb := &WM{Actor: 1, Action: "HeartbeatRequest", HighPriority: r.IntN(2) == 0, Body: body}
				if r.IntN(3) == 0 {
					hb.ExpectsReply = true
				}
				if r.IntN(3) == 0 {
					hbExtras(r, hb)
				}
				p.Send(hb)
				want[string(body)]++
				if r.IntN(3) == 0 {
					p.Send(&WM{Actor: 0x10000, Action: "HeartbeatRequest", Body: body}) // not the transport's
					app++
				}
				if r.IntN(5) == 0 {
					p.Send(&WM{Actor: 1, Action: "SomethingElse", Body: body})
				}
				if r.IntN(4) == 0 {
					synctest.Wait()
				}
			}
			synctest.Wait()
			got := map[string]int{}
			for _, m := range p.Got() {
				if m.Actor == 1 && m.Action == "HeartbeatResponse" {
					got[string(m.Body)]++
				} else if m.Actor == 1 && m.Action != "" {
					c.Violation("unexpected transport message %q", m.Action)
				}
			}
			for b, k := range want {
				if got[b] != k {
					c.Violation("heartbeat with body %s sent %d times, answered %d times", hx([]byte(b)), k, got[b])
				}
			}
			for b := range got {
				if want[b] == 0 {
					c.Violation("heartbeat response with a body nobody sent: %s", hx([]byte(b)))
				}
			}
			if len(in.got()) != app {
				c.Violation("%d application messages delivered of %d", len(in.got()), app)
			}
			c.Count("heartbeats", int64(n))
			c.Saw(fmt.Sprint(i, n))
			for _, f := range closers {
				f()
			}
			b.Close()
		})
		c.StopIfFailed(3)
	})
}

// hbExtras gives a heartbeat headers that its peer may send, and that say nothing of what to do with it.
func hbExtras(r *rand.Rand, m *WM) {
	if r.IntN(2) == 0 {
		m.RelatesTo = genMsgId(r)
	}
	if r.IntN(2) == 0 {
		m.HighPriority, m.Idempotent = r.IntN(2) == 0, r.IntN(2) == 0
	}
	if r.IntN(3) == 0 {
		m.Custom = []RawHeader{{0x1234, genBytes(r, r.IntN(20))}}
	}
}

func hbResp(tick int64) *WM {
	return &WM{Actor: 1, Action: "HeartbeatResponse", HighPriority: true, Body: RefEncode(&hbBody{tick}, RefOpts{})}
}

func c11history(c *Ctx) {
	c.Cases("run", c.N(250, 8000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var in inbox
			a, b := Pipe(ConnOpts{RandYield: r.Uint64() | 1}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{MessageCallback: in.cb})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			p := NewWirePeer(b, nil)
			synctest.Wait()
			var past [][]byte // bodies of earlier heartbeat requests
			var hist []string
			beats := func() (l [][]byte) {
				for _, m := range p.Got() {
					if m.isHeartbeat() {
						l = append(l, m.Body)
					}
				}
				return
			}
			noise := func(cur []byte) {
				switch r.IntN(8) {
				case 0:
					p.Send(hbResp(genInt(r, 64)))
					hist = append(hist, "forged")
				case 1:
					p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: genBytes(r, r.IntN(30))})
					hist = append(hist, "malformed")
				case 2, 3:
					if len(past) > 0 {
						p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: pick(r, past)})
						hist = append(hist, "stale")
					}
				case 4:
					var h hbBody
					if cur != nil && RefDecode(cur, &h) == nil {
						p.Send(hbResp(h.Tick + int64(pick(r, []int{1, -1, 100, -100}))))
						hist = append(hist, "nearmiss")
					}
				case 5:
					p.Send(&WM{Actor: 0x10000, Action: "HeartbeatResponse", Body: cur})
					hist = append(hist, "wrong actor")
				case 6:
					p.Send(&WM{Actor: 1, Action: "", Body: []byte{1}})
					hist = append(hist, "init again")
				}
			}
			for k := 1 + r.IntN(6); k > 0; k-- {
				for n := r.IntN(4); n > 0; n-- {
					noise(nil)
				}
				if r.IntN(2) == 0 {
					synctest.Wait()
				}
				time.Sleep(time.Millisecond)
				n0 := len(beats())
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				deadline := time.Duration(0)
				if r.IntN(2) == 0 {
					deadline = time.Duration(1+r.IntN(5000)) * time.Millisecond
					var stop context.CancelFunc
					ctx, stop = context.WithTimeout(ctx, deadline)
					defer stop()
				}
				start := time.Now()
				op := Go("ping", func() (any, error) { return cl.Ping(ctx) })
				synctest.Wait()
				bs := beats()
				if len(bs) != n0+1 {
					if op.Done() {
						_, err := op.Get()
						c.Violation("ping failed without asking: %v (history %v)", err, hist)
					} else {
						c.Violation("ping sent %d heartbeat requests (history %v)", len(bs)-n0, hist)
					}
					cancel()
					return
				}
				cur := bs[n0]
				for n := r.IntN(5); n > 0; n-- {
					noise(cur)
				}
				synctest.Wait()
				if op.Done() {
					_, err := op.Get()
					c.Violation("ping returned (%v) before its echo (history %v)", err, hist)
					cancel()
					return
				}
				switch r.IntN(4) {
				case 0:
					hist = append(hist, "ping cancelled")
					if deadline > 0 {
						time.Sleep(deadline)
					} else {
						cancel()
					}
					synctest.Wait()
					c.MustReturn(op, "after its context ended")
					if _, err := op.Get(); err == nil {
						c.Violation("ping succeeded without an echo (history %v)", hist)
					}
					if d := op.When().Sub(start); deadline > 0 && (d < deadline || d > deadline+grace) {
						c.Violation("ping returned %v after its deadline", op.When().Sub(start)-deadline)
					}
				default:
					hist = append(hist, "ping echoed")
					took := time.Duration(0)
					if r.IntN(2) == 0 {
						took = time.Duration(r.IntN(5000)) * time.Millisecond
						if deadline > 0 && took >= deadline {
							took = deadline / 2
						}
						time.Sleep(took)
						synctest.Wait()
						if op.Done() {
							c.Violation("ping returned before its echo and its deadline (history %v)", hist)
							return
						}
					}
					for n := 1 + r.IntN(3); n > 0; n-- {
						echo := &WM{Actor: 1, Action: "HeartbeatResponse", Body: cur}
						if r.IntN(2) == 0 {
							hbExtras(r, echo)
						}
						p.Send(echo)
					}
					synctest.Wait()
					if !c.MustReturn(op, "although echoed") {
						return
					}
					if v, err := op.Get(); err != nil {
						c.Violation("echoed ping failed: %v (history %v)", err, hist)
					} else if d := v.(time.Duration); d < took-grace || d < 0 || d > op.When().Sub(start) {
						c.Violation("a ping that took %v returns %v (history %v)", took, d, hist)
					}
				}
				past = append(past, cur)
				cancel()
				// other traffic goes on
				before := len(in.got())
				p.Send(&WM{Actor: 0x10000, Action: "probe"})
				q := Go("request", func() (any, error) { return cl.RequestReply(context.Background(), reqMsg(1, nil)) })
				synctest.Wait()
				g := p.GotApp()
				p.Reply(g[len(g)-1], &WM{Actor: 0x10000})
				synctest.Wait()
				if len(in.got()) < before+1 {
					c.Violation("other traffic stopped (history %v)", hist)
				}
				if !c.MustReturn(q, fmt.Sprintf("although answered (history %v)", hist)) {
					return
				}
				if _, err := q.Get(); err != nil {
					c.Violation("request failed: %v (history %v)", err, hist)
				}
			}
			c.Saw(fmt.Sprint(hist))
			c.Count("events", int64(len(hist)))
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
}

func c11concurrent(c *Ctx) {
	c.Cases("run", c.N(80, 2500), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{RandYield: r.Uint64() | 1}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			p := NewWirePeer(b, nil)
			n := 2 + r.IntN(6)
			lim := time.Duration(5+r.IntN(20)) * time.Second
			ctx, cancel := context.WithTimeout(context.Background(), lim)
			defer cancel()
			start := time.Now()
			var ops []*Op
			for k := 0; k < n; k++ {
				ops = append(ops, Go("ping", func() (any, error) { return cl.Ping(ctx) }))
			}
			short, stop := context.WithTimeout(context.Background(), time.Second)
			defer stop()
			quick := Go("ping with a short deadline", func() (any, error) { return cl.Ping(short) })
			echoed := map[string]bool{}
			budget := r.IntN(n + 1)
			skip := map[string]bool{}
			time.Sleep(2 * time.Second)
			synctest.Wait()
			if !c.MustReturn(quick, "a second after its deadline, while other pings wait") {
				return
			}
			if _, err := quick.Get(); err == nil {
				c.Violation("ping without an echo succeeded")
			}
			// echo some of what is outstanding, in any order; an implementation may send pings one after another
			dropped := map[string]bool{}
			for _, m := range p.Got() {
				if m.isHeartbeat() && quick.Done() && len(ops) > 0 {
					dropped[string(m.Body)] = false
				}
			}
			for len(echoed) < budget {
				var open [][]byte
				for _, m := range p.Got() {
					if m.isHeartbeat() && !echoed[string(m.Body)] && !skip[string(m.Body)] {
						open = append(open, m.Body)
					}
				}
				if len(open) == 0 {
					break
				}
				body := pick(r, open)
				before := 0
				for _, o := range ops {
					if o.Done() {
						before++
					}
				}
				p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: body})
				synctest.Wait()
				now := 0
				for _, o := range ops {
					if o.Done() {
						now++
						if _, err := o.Get(); err != nil {
							c.Violation("ping failed when an echo arrived: %v", err)
						}
					}
				}
				if now == before {
					skip[string(body)] = true // the request of the ping that gave up
					if len(skip) > 1 {
						c.Violation("%d echoes of heartbeat requests completed no ping", len(skip))
						break
					}
					continue
				}
				if now != before+1 {
					c.Violation("one echo completed %d pings", now-before)
				}
				echoed[string(body)] = true
			}
			if len(echoed) != budget {
				c.Violation("%d of %d echoes completed a ping", len(echoed), budget)
			}
			time.Sleep(lim)
			synctest.Wait()
			okN := 0
			for _, o := range ops {
				if !c.MustReturn(o, "after its deadline") {
					return
				}
				if _, err := o.Get(); err == nil {
					okN++
				} else if d := o.When().Sub(start); d < lim || d > lim+grace {
					c.Violation("ping returned %v off its deadline", o.When().Sub(start)-lim)
				}
			}
			if okN != len(echoed) {
				c.Violation("%d pings succeeded, %d were echoed", okN, len(echoed))
			}
			c.Saw(fmt.Sprint(n, budget, i))
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
}

func c11close(c *Ctx) {
	c.Cases("run", c.N(200, 5000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{RandYield: r.Uint64() | 1}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			p := NewWirePeer(b, nil)
			var ops []*Op
			for k := r.IntN(3); k > 0; k-- {
				ops = append(ops, Go("ping", func() (any, error) { return cl.Ping(context.Background()) }))
			}
			synctest.Wait()
			var beats [][]byte
			for _, m := range p.Got() {
				if m.isHeartbeat() {
					beats = append(beats, m.Body)
				}
			}
			answered := 0
			for k := r.IntN(8); k > 0; k-- {
				if len(beats) > 0 && r.IntN(2) == 0 {
					p.Send(&WM{Actor: 1, Action: "HeartbeatResponse", Body: pick(r, beats)})
					answered++
				} else {
					p.Send(hbResp(genInt(r, 64)))
				}
			}
			if r.IntN(2) == 0 {
				synctest.Wait()
			}
			for k := r.IntN(3); k > 0; k-- {
				p.Send(hbResp(int64(k)))
			}
			switch r.IntN(3) {
			case 0:
				cl.Close()
			case 1:
				b.Close()
			default:
				go cl.Close()
				b.Close()
			}
			synctest.Wait()
			for _, o := range ops {
				if !c.MustReturn(o, "after the connection closed") {
					return
				}
				if _, err := o.Get(); err == nil && answered == 0 {
					c.Violation("ping succeeded without an echo at close")
				}
			}
			c.MustReturn(w, "after close")
			o := Go("ping after close", func() (any, error) { return cl.Ping(context.Background()) })
			synctest.Wait()
			c.MustReturn(o, "")
			if _, err := o.Get(); err == nil {
				c.Violation("ping after close succeeded")
			}
			c.Saw(fmt.Sprint(i))
		})
		c.StopIfFailed(3)
	})
}

// ---------------------------------------------------------------------------------------------------------
// C15

func c15refused(c *Ctx) {
	c.Cases("run", c.N(250, 6000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			tls := i%5 == 4
			var cfg transport.ClientConfig
			var hook func()
			co := ConnOpts{AfterWrite: func(cn *Conn, _ []byte) {
				if f := hook; f != nil {
					hook = nil
					f()
					cn.peer.Settle()
				}
			}}
			a, b := Pipe(co, ConnOpts{})
			var send func([]byte) error
			var atClose error
			closing := false
			if tls {
				t := newTLSSetup(r, r.IntN(8))
				cfg.TLS = t.client
				send = NewTLSWirePeer(b, t.server, nil).SendRaw
			} else {
				send = NewWirePeer(b, nil).SendRaw
			}
			cl, err := transport.Connect(a, cfg)
			if err != nil {
				c.Violation("connect: %v", err)
				return
			}
			if !tls && r.IntN(3) == 0 { // as soon as the connection is closed
				a.OnClose = func() {
					closing = true
					atClose = cl.SendOneWay(reqMsg(299, nil))
				}
			}
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			synctest.Wait()
			code := genInt(r, 64)
			if code == 0 {
				code = 1
			}
			text := genString(r, 12)
			body := RefEncode(&strObj{text}, RefOpts{})
			named := true
			switch r.IntN(4) {
			case 0:
				named = false
				switch r.IntN(4) {
				case 0:
					body = genBytes(r, r.IntN(40))
				case 1:
					body = nil
				case 2:
					body = body[:r.IntN(len(body))]
				default:
					body = RefEncode(&i64Obj{5}, RefOpts{})
				}
			}
			wm := decorate(r, &WM{Id: genMsgId(r), Actor: 29, Action: "ConnectionAuth", Err: code, HasFault: r.IntN(2) == 0, Body: body, HighPriority: r.IntN(2) == 0})
			var ops []*Op
			n := r.IntN(4)
			for k := 0; k < n; k++ {
				m := reqMsg(k, nil)
				m.Headers.Id = genMsgId(r)
				m.Headers.Id.Index = uint32(1 + k)
				if k == 0 && r.IntN(2) == 0 {
					wm.RelatesTo = m.Headers.Id
				}
				ops = append(ops, Go("waiting request", func() (any, error) { return cl.RequestReply(context.Background(), m) }))
			}
			report := wm.encode(frameOpt{})
			if r.IntN(3) == 0 {
				ops = append(ops, Go("waiting ping", func() (any, error) { return cl.Ping(context.Background()) }))
			}
			switch r.IntN(3) {
			case 0:
				synctest.Wait()
				send(report)
			case 1:
				hook = func() { send(report) }
				m := reqMsg(50, nil)
				if !wm.RelatesTo.IsEmpty() && n == 0 {
					m.Headers.Id = wm.RelatesTo
				}
				ops = append(ops, Go("request being written", func() (any, error) { return cl.RequestReply(context.Background(), m) }))
			default:
				send(report)
			}
			synctest.Wait()
			for _, o := range ops {
				if !c.MustReturn(o, "after the connection was refused") {
					return
				}
				if _, err := o.Get(); err == nil {
					c.Violation("%s succeeded on a refused connection", o.name)
				}
			}
			c.MustReturn(w, "after the connection was refused")
			if !a.IsClosed() {
				c.Violation("the refused connection is not closed")
			}
			if closing {
				if atClose == nil {
					c.Violation("a send on a refused connection that has just been closed succeeds")
				} else if !strings.Contains(atClose.Error(), fmt.Sprint(code)) && !strings.Contains(atClose.Error(), fmt.Sprintf("%x", uint64(code))) {
					c.Violation("a send just when the refused connection has been closed: error %q does not name the code %d", atClose, code)
				}
				c.Count("sends_at_the_close", 1)
			}
			for k := 0; k < 3; k++ {
				sm, qm := reqMsg(300, nil), reqMsg(301, nil)
				if k > 0 { // whatever it is that is sent
					sm, qm = genWM(r, 100).toMessage(r), genWM(r, 100).toMessage(r)
					actors := []transport.MessageActorType{1, 29, 35, 5, 2, 0, 0x10000}
					sm.Headers.Actor, qm.Headers.Actor = pick(r, actors), pick(r, actors)
				}
				s := Go("SendOneWay", func() (any, error) { return nil, cl.SendOneWay(sm) })
				q := Go("RequestReply", func() (any, error) { return cl.RequestReply(context.Background(), qm) })
				g := Go("Ping", func() (any, error) { return cl.Ping(context.Background()) })
				synctest.Wait()
				for _, o := range []*Op{s, q, g} {
					if !c.MustReturn(o, "on a refused connection") {
						return
					}
					_, err := o.Get()
					if err == nil {
						c.Violation("%s on a refused connection succeeded", o.name)
						continue
					}
					if o == g {
						continue
					}
					if !strings.Contains(err.Error(), fmt.Sprint(code)) && !strings.Contains(err.Error(), fmt.Sprintf("%x", uint64(code))) {
						c.Violation("%s after refusal %d: error %q does not name the code", o.name, code, err)
					}
					if named && !strings.Contains(err.Error(), text) {
						c.Violation("%s after refusal: error %q does not give the message %q", o.name, err, text)
					}
				}
				if k == 0 {
					cl.Close()
				}
			}
			c.Saw(fmt.Sprint(code, text, n, len(body)))
			if i < 3 {
				c.Sample("code %d message %q body %s, %d waiting", code, text, hx(body), n)
			}
			b.Close()
		})
		c.StopIfFailed(3)
	})
}

func c15others(c *Ctx) {
	c.Cases("run", c.N(200, 4000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{}, ConnOpts{})
			cl := c.connect(a, transport.ClientConfig{MessageCallback: func(transport.Conn, *transport.ByteArrayMessage) {}})
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			p := NewWirePeer(b, nil)
			op := Go("request", func() (any, error) { return cl.RequestReply(context.Background(), reqMsg(0, nil)) })
			synctest.Wait()
			var hist []string
			for k := 1 + r.IntN(6); k > 0; k-- {
				m := &WM{Actor: 29, Action: "ConnectionAuth", Err: genInt(r, 64), HasFault: r.IntN(2) == 0, Body: RefEncode(&strObj{genString(r, 8)}, RefOpts{})}
				switch r.IntN(4) {
				case 0:
					m.Err = 0
					if r.IntN(2) == 0 {
						m.Body = nil
					}
				case 1:
					for m.Actor == 29 {
						m.Actor = pick(r, append([]int64{1, 28, 30, 35}, appActors...))
					}
				case 2:
					m.Action = pick(r, []string{"", "connectionauth", "ConnectionAuth ", "ConnectionAut", "ConnectionAuthX", "Connection"})
				default:
					m.Actor, m.Action = 29, "Other"
				}
				if ok := m.Err == 0; ok {
					decorate(r, m)
					m.Err = 0
				} else {
					decorate(r, m)
				}
				hist = append(hist, fmt.Sprint(m.Actor, m.Action, m.Err))
				p.Send(m)
			}
			synctest.Wait()
			if w.Done() || a.IsClosed() {
				_, err := w.Get()
				c.Violation("the connection ended (%v) after %v", err, hist)
				return
			}
			if op.Done() {
				v, err := op.Get()
				c.Violation("waiting request returned %v %v after %v", v, err, hist)
			}
			if err := cl.SendOneWay(reqMsg(1, nil)); err != nil {
				c.Violation("send failed: %v after %v", err, hist)
			}
			g := p.GotApp()
			p.Reply(g[0], &WM{Actor: 0x10000})
			synctest.Wait()
			c.MustReturn(op, "although answered")
			if _, err := op.Get(); err != nil {
				c.Violation("answered request failed: %v after %v", err, hist)
			}
			c.Saw(fmt.Sprint(hist))
			cl.Close()
			b.Close()
			synctest.Wait()
		})
		c.StopIfFailed(3)
	})
}

// c06piper: what arrives damaged at a piper is not forwarded, nor anything after it.
func c06piper(c *Ctx) {
	c.Cases("run", c.N(300, 8000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			g := newPiperRig(c, r, 0, nil)
			defer func() { g.close(nil) }()
			p := g.connect()
			defer func() { p.raw.Close(); p.lib.Close(); synctest.Wait() }()
			up := r.IntN(3) > 0
			cfg := g.ucfg
			if up {
				cfg = g.cfg
			}
			n := 1 + r.IntN(4)
			bad := r.IntN(n)
			if !up {
				n++ // the client's first
				bad++
			}
			var l []*WM
			for k := 0; k < n; k++ {
				l = append(l, smallWM(r, k))
			}
			raw, sent := p.raw, 0
			if !up {
				p.peer.Send(l[0])
				synctest.Wait()
				u := g.upstream(p)
				if u == nil {
					c.Violation("no upstream is asked for")
					return
				}
				raw, sent = u.raw, 1
			}
			damaged := ""
			var stream []byte
			for k := sent; k < n; k++ {
				f := l[k].encode(frameOpt{BCRC: true})
				if k == bad {
					header, body := !cfg.DisableCheckFrameHeaderCRC, cfg.CheckFrameBodyCRC
					switch {
					case header && (!body || r.IntN(2) == 0):
						pos, x := r.IntN(8), byte(1+r.IntN(255))
						f[pos] ^= x
						damaged = fmt.Sprintf("frame header byte %d changed by xor %#x", pos, x)
					case body && r.IntN(3) == 0:
						x := byte(1 + r.IntN(255))
						f[8+r.IntN(4)] ^= x
						damaged = fmt.Sprintf("body checksum changed by xor %#x", x)
					case body:
						pos, x := frameHdr+r.IntN(len(f)-frameHdr), byte(1+r.IntN(255))
						f[pos] ^= x
						damaged = fmt.Sprintf("payload byte %d changed by xor %#x", pos-frameHdr, x)
					}
				}
				stream = append(stream, f...)
			}
			raw.Write(stream)
			if r.IntN(2) == 0 {
				raw.CloseWrite()
			}
			synctest.Wait()
			want := l[sent:bad]
			if damaged == "" {
				want = l[sent:]
			}
			var got []*WM
			if !up {
				got = p.peer.GotApp()
			} else if u := g.upstream(p); u != nil {
				got = u.peer.GotApp()
			}
			// the piper closes both sides then, so that the last ones may get lost on the way
			for k := range got {
				if k >= len(want) {
					c.Violation("piper (client to upstream: %v, damage: %s, in message %d) forwards %d messages, want %d", up, damaged, bad, len(got), len(want))
					break
				}
				if d := diffCommon(want[k].delivered(), got[k]); d != "" {
					c.Violation("piper (client to upstream: %v, damage: %s, in message %d), message %d: %s", up, damaged, bad, k, d)
					break
				}
			}
			if len(got) < len(want) {
				c.Violation("piper (client to upstream: %v, damage: %s, in message %d) forwards %d messages, want %d", up, damaged, bad, len(got), len(want))
			}
			if damaged != "" {
				c.Count("damaged", 1)
				c.Saw(fmt.Sprint(up, bad, damaged))
			}
			if u := g.upstream(p); u != nil {
				u.raw.Close()
				u.lib.Close()
			}
		})
		c.StopIfFailed(3)
	})
}

// c09callbacks: what no request waits for goes to the callback that is set when it arrives.
func c09callbacks(c *Ctx) {
	thePKI()
	c.Cases("run", c.N(150, 4000), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			a, b := Pipe(ConnOpts{ReadChunk: chunker(r)}, ConnOpts{})
			var cfg transport.ClientConfig
			var p *WirePeer
			boxes := []*inbox{{}}
			if r.IntN(2) == 0 {
				cfg.MessageCallback = boxes[0].cb
			} else {
				boxes[0] = nil
			}
			if r.IntN(4) == 0 {
				t := newTLSSetup(r, r.IntN(8))
				cfg.TLS = t.client
				p = NewTLSWirePeer(b, t.server, nil).WirePeer
			} else {
				p = NewWirePeer(b, nil)
			}
			cl := c.connect(a, cfg)
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			synctest.Wait()
			var req *Op
			var reqID transport.MessageId
			for k := 0; k < 20 && !c.Failed(); k++ {
				switch r.IntN(4) {
				case 0:
					x := &inbox{}
					cl.SetMessageCallback(x.cb)
					boxes = append(boxes, x)
					continue
				case 1:
					if r.IntN(2) == 0 {
						cl.SetMessageCallback(nil)
						boxes = append(boxes, nil)
						continue
					}
				case 2:
					if req == nil {
						n0 := len(p.GotApp())
						req = Go("RequestReply", func() (any, error) { return cl.RequestReply(bg, reqMsg(k, nil)) })
						synctest.Wait()
						if g := p.GotApp(); len(g) == n0+1 {
							reqID = g[n0].Id
						}
					} else {
						p.Send(&WM{Actor: 0x10000, RelatesTo: reqID})
						synctest.Wait()
						if c.MustReturn(req, "that is answered") {
							if _, err := req.Get(); err != nil {
								c.Violation("a request that is answered: %v", err)
							}
						}
						req = nil
					}
					continue
				}
				var n []int
				for _, x := range boxes {
					if x == nil {
						n = append(n, 0)
					} else {
						n = append(n, len(x.got()))
					}
				}
				m := smallWM(r, k)
				m.Actor = 0x10000
				m.RelatesTo = transport.MessageId{}
				p.Send(m)
				synctest.Wait()
				for j, x := range boxes {
					if x == nil {
						continue
					}
					g := x.got()
					want := n[j]
					if j == len(boxes)-1 {
						want++
					}
					if len(g) != want {
						c.Violation("callback %d of %d got %d messages, want %d", j, len(boxes), len(g), want)
					} else if want > n[j] {
						if d := diffCommon(m.delivered(), g[want-1]); d != "" {
							c.Violation("callback %d of %d: %s", j, len(boxes), d)
						}
					}
				}
				c.Count("messages", 1)
			}
			c.Saw(fmt.Sprint(i, len(boxes)))
			cl.Close()
			b.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
			if req != nil {
				c.MustReturn(req, "after Close")
			}
		})
		c.StopIfFailed(3)
	})
}

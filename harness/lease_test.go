package harness

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"
	"unicode/utf16"

	"github.com/tg123/phabrik/lease"
)

func init() {
	register("C23", "layout", "every byte of the pings of generated agents, read by an independent parser, and given to another agent of the library", c23layout)
	register("C23", "accept", "messages of every type for generated endpoints, from an independent writer, fragmented: which sessions they reach", c23accept)
	register("C23", "hostile", "hostile lease connections next to good ones, with allocation and stack limits", c23hostile)
	register("C24", "history", "histories of pings, pongs, other messages, cancellations, closes and failures in virtual time, compared with a model after each step", c24history)
	register("C24", "window", "pongs that arrive while the ping is still being written, or just before it", c24window)
	register("C24", "together", "rounds of concurrent pings over slow writes: frames intact, none early, all answered", c24together)
	register("C24", "loop", "ping loops over peers that answer, are silent or break, in virtual time", c24loop)
	register("C24", "tcp", "pings and pongs over loopback sockets", c24tcp)
	register("C25", "agents", "agents with sessions, pings, dials in flight and failing accepts, closed at every point", c25agents)
	register("C25", "sessions", "histories of establishing and closing sessions, also several to one address, compared with a model", c25sessions)
}

// ---- the wire format of leases, independent of the library

type ltDesc struct{ Count, Off, Size uint32 }

type ltMsg struct {
	Id          int64
	Type        int32
	Lease       int64
	Remote      int64
	Duration    int32
	Expiration  int64
	Suspend     int32
	Arbitration int32
	TwoWay      bool
	Lists       [9][][2]string
	Host        string
	Port        uint16

	// how it is written
	noNul    bool
	ext      bool
	gaps     bool
	epFirst  bool
	reserved bool
}

func ltFrame(typ byte, size uint32, body []byte) []byte {
	b := []byte{typ, 0, 0, 0}
	b = binary.LittleEndian.AppendUint32(b, size)
	b = append(b, 0, 0, 0, 0)
	return append(b, body...)
}

func ltDataFrame(body []byte) []byte { return ltFrame(1, uint32(12+len(body)), body) }

func utf16Bytes(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = binary.LittleEndian.AppendUint16(b, u)
	}
	return b
}

func (m *ltMsg) encode(r *rand.Rand) []byte {
	h := make([]byte, 200)
	if m.reserved {
		for i := range h {
			h[i] = byte(r.Uint32())
		}
	}
	le := binary.LittleEndian
	h[0], h[1] = 2, 1
	le.PutUint32(h[4:], 200)
	le.PutUint64(h[16:], uint64(m.Id))
	le.PutUint32(h[24:], uint32(m.Type))
	le.PutUint64(h[32:], uint64(m.Lease))
	le.PutUint64(h[40:], uint64(m.Remote))
	le.PutUint32(h[48:], uint32(m.Duration))
	le.PutUint64(h[56:], uint64(m.Expiration))
	le.PutUint32(h[64:], uint32(m.Suspend))
	le.PutUint32(h[68:], uint32(m.Arbitration))
	h[72] = 0
	if m.TwoWay {
		h[72] = 1
	}
	var body []byte
	put := func(slot int, count int, data []byte) {
		if m.gaps {
			body = append(body, genBytes(r, r.IntN(9))...)
		}
		d := h[76+12*slot:]
		le.PutUint32(d, uint32(count))
		le.PutUint32(d[4:], uint32(200+len(body)))
		le.PutUint32(d[8:], uint32(len(data)))
		body = append(body, data...)
	}
	ep := func() {
		d := utf16Bytes(m.Host)
		if !m.noNul {
			d = append(d, 0, 0)
		}
		d = append(d, 2, 0)
		d = le.AppendUint16(d, m.Port)
		put(9, 0, d)
	}
	if m.epFirst {
		ep()
	}
	for i, l := range m.Lists {
		d := le.AppendUint32(nil, uint32(len(l)))
		for _, p := range l {
			for _, s := range p {
				u := utf16Bytes(s)
				d = le.AppendUint32(d, uint32(len(u)))
				d = append(d, u...)
			}
		}
		put(i, len(l), append(le.AppendUint32(nil, uint32(len(d))), d...))
	}
	if !m.epFirst {
		ep()
	}
	if m.ext {
		body = le.AppendUint64(body, r.Uint64())
	}
	le.PutUint32(h[8:], uint32(200+len(body)))
	return append(h, body...)
}

// parseLt reads a message and insists on a layout without holes or overlaps.
func parseLt(b []byte) (*ltMsg, error) {
	if len(b) < 200 {
		return nil, fmt.Errorf("message of %d bytes", len(b))
	}
	le := binary.LittleEndian
	if b[0] != 2 || b[1] != 1 {
		return nil, fmt.Errorf("version %d.%d", b[0], b[1])
	}
	if v := le.Uint32(b[4:]); v != 200 {
		return nil, fmt.Errorf("header size %d", v)
	}
	if v := le.Uint32(b[8:]); v != uint32(len(b)) {
		return nil, fmt.Errorf("message size %d of %d", v, len(b))
	}
	for _, x := range [][2]int{{2, 4}, {12, 16}, {28, 32}, {52, 56}, {73, 76}, {196, 200}} {
		for i := x[0]; i < x[1]; i++ {
			if b[i] != 0 {
				return nil, fmt.Errorf("reserved byte %d is %#x", i, b[i])
			}
		}
	}
	m := &ltMsg{Id: int64(le.Uint64(b[16:])), Type: int32(le.Uint32(b[24:])), Lease: int64(le.Uint64(b[32:])), Remote: int64(le.Uint64(b[40:])),
		Duration: int32(le.Uint32(b[48:])), Expiration: int64(le.Uint64(b[56:])), Suspend: int32(le.Uint32(b[64:])), Arbitration: int32(le.Uint32(b[68:]))}
	if b[72] > 1 {
		return nil, fmt.Errorf("two-way flag %d", b[72])
	}
	m.TwoWay = b[72] == 1
	var spans [][2]int
	for i := 0; i < 10; i++ {
		d := ltDesc{le.Uint32(b[76+12*i:]), le.Uint32(b[80+12*i:]), le.Uint32(b[84+12*i:])}
		st, ed := int(d.Off), int(d.Off)+int(d.Size)
		if st < 200 || ed > len(b) {
			return nil, fmt.Errorf("list %d at [%d,%d) of %d", i, st, ed, len(b))
		}
		spans = append(spans, [2]int{st, ed})
		x := b[st:ed]
		if i == 9 {
			if len(x) < 6 || len(x)%2 != 0 {
				return nil, fmt.Errorf("endpoint of %d bytes", len(x))
			}
			var u []uint16
			for k := 0; k+4 < len(x); k += 2 {
				u = append(u, le.Uint16(x[k:]))
			}
			if u[len(u)-1] != 0 {
				return nil, fmt.Errorf("host without terminator")
			}
			m.Host = string(utf16.Decode(u[:len(u)-1]))
			if f := le.Uint16(x[len(x)-4:]); f != 2 {
				return nil, fmt.Errorf("address family %d", f)
			}
			m.Port = le.Uint16(x[len(x)-2:])
			continue
		}
		if len(x) < 8 || int(le.Uint32(x)) != len(x)-4 || le.Uint32(x[4:]) != d.Count {
			return nil, fmt.Errorf("list %d: count %d, bytes %x", i, d.Count, x)
		}
		y := x[8:]
		for k := uint32(0); k < d.Count; k++ {
			var p [2]string
			for j := range p {
				if len(y) < 4 || int(le.Uint32(y)) > len(y)-4 {
					return nil, fmt.Errorf("list %d: bad entry", i)
				}
				n := int(le.Uint32(y))
				var u []uint16
				for q := 4; q+1 < 4+n; q += 2 {
					u = append(u, le.Uint16(y[q:]))
				}
				p[j] = string(utf16.Decode(u))
				y = y[4+n:]
			}
			m.Lists[i] = append(m.Lists[i], p)
		}
		if len(y) != 0 {
			return nil, fmt.Errorf("list %d: %d bytes left", i, len(y))
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i][0] < spans[j][0] })
	at := 200
	for _, s := range spans {
		if s[0] != at {
			return nil, fmt.Errorf("the parts of the body are %v, of 200..%d", spans, len(b))
		}
		at = s[1]
	}
	if at != len(b) {
		return nil, fmt.Errorf("the parts of the body are %v, of 200..%d", spans, len(b))
	}
	return m, nil
}

func readLtFrame(r io.Reader) (typ byte, body []byte, err error) {
	h := make([]byte, 12)
	if _, err = io.ReadFull(r, h); err != nil {
		return 0, nil, err
	}
	n := binary.LittleEndian.Uint32(h[4:])
	if h[1]|h[2]|h[3]|h[8]|h[9]|h[10]|h[11] != 0 || n < 12 || n > 1<<20 {
		return 0, nil, fmt.Errorf("bad frame header %x", h)
	}
	body = make([]byte, n-12)
	if _, err = io.ReadFull(r, body); err != nil {
		err = fmt.Errorf("frame of %d bytes breaks off: %w", n, err)
	}
	return h[0], body, err
}

// ---- fake agents around the real one

type hostAddr string

func (a hostAddr) Network() string { return "tcp" }
func (a hostAddr) String() string  { return string(a) }

type ltSeen struct {
	m   *ltMsg
	raw []byte
	at  time.Time
}

// ltPeer is another agent; it reads the pings of the session to it and answers over a connection of its own.
type ltPeer struct {
	w     *leaseWorld
	l     *Listener
	host  string
	port  uint16
	mu    sync.Mutex
	pings []ltSeen
	ends  []*Conn // our ends of sessions' connections
	bad   error
	open  int
	on    func(p *ltPeer, n int)
	in    *ltIn
}

// ltIn is a connection to the agent under test.
type ltIn struct {
	raw  *Conn
	conn net.Conn
	hi   atomic.Bool
	bad  atomic.Value
}

type leaseWorld struct {
	c     *Ctx
	r     *rand.Rand
	f     *Fabric
	cfg   lease.AgentConfig
	tls   *tls.Config
	l     *Listener
	host  string
	port  uint16
	agent *lease.Agent
	wait  *Op
	mu    sync.Mutex
	ends  []*Conn // agent's ends
	dials atomic.Int64
	peers []*ltPeer
	ins   []*ltIn
	opts  func() ConnOpts
	onD   func(addr string) error
	inOpt func() ConnOpts // for the agent's end of incoming connections
}

func leaseTLS(r *rand.Rand) *tls.Config {
	p := thePKI()
	cfg := &tls.Config{Certificates: []tls.Certificate{pick(r, p.srv[:2])}, InsecureSkipVerify: true}
	if r.IntN(2) == 0 {
		cfg.MaxVersion = tls.VersionTLS12
	}
	return cfg
}

var hostPool = []string{"10.0.0.1", "::1", "fe80::1%eth0", "localhost", "node-1.fabric.test", "", "höst.テスト", "\U0001f600.test", "a", "0.0.0.0", "::"}

func genHost(r *rand.Rand) (string, uint16) {
	h := pick(r, hostPool)
	switch r.IntN(8) {
	case 0:
		h = ""
		for k := r.IntN(300); k >= 0; k-- {
			h += string(rune('a' + r.IntN(26)))
		}
	case 1:
		h = fmt.Sprintf("host%d.test", r.IntN(1000))
	}
	return h, pick(r, []uint16{0, 1, 80, 255, 256, 1025, 32767, 32768, 65535, uint16(r.Uint32())})
}

// hosts of all forms, upper case too: an address is found again as it was given
func peerHost(r *rand.Rand, k int) string {
	switch r.IntN(4) {
	case 0:
		return pick(r, hostPool)
	case 1:
		return fmt.Sprintf("Node-%d.Test", k)
	}
	return fmt.Sprintf("p%d.test", k)
}

func joinHP(h string, p uint16) string { return net.JoinHostPort(h, strconv.Itoa(int(p))) }

func newLeaseWorld(c *Ctx, r *rand.Rand, useTLS bool) *leaseWorld {
	w := &leaseWorld{c: c, r: r, f: NewFabric()}
	w.cfg.SetDefault()
	if useTLS {
		w.tls = leaseTLS(r)
	}
	w.host, w.port = "10.9.8.7", 1025
	return w
}

func (w *leaseWorld) start() {
	w.cfg.TLS = w.tls
	w.l = w.f.Listen(hostAddr(joinHP(w.host, w.port)))
	a, err := lease.NewAgent(w.cfg, w.l, func(addr string) (net.Conn, error) {
		if w.onD != nil {
			if err := w.onD(addr); err != nil {
				return nil, err
			}
		}
		var o ConnOpts
		if w.opts != nil {
			o = w.opts()
		}
		if k := w.dials.Add(1); k%3 == 0 {
			o.CloseErr = syscall.ECONNRESET
		}
		x, _, err := w.f.Dial(addr, o, ConnOpts{})
		if err != nil {
			return nil, err
		}
		w.mu.Lock()
		w.ends = append(w.ends, x)
		w.mu.Unlock()
		return x, nil
	})
	if err != nil {
		w.c.Violation("NewAgent for %q: %v", w.l.Addr(), err)
		w.c.StopIfFailed(1)
		panic(setupError{err})
	}
	w.agent = a
	w.wait = Go("Wait of the agent", func() (any, error) { return nil, a.Wait() })
}

func (w *leaseWorld) newPeer(host string, port uint16) *ltPeer {
	p := &ltPeer{w: w, l: w.f.Listen(hostAddr(joinHP(host, port))), host: host, port: port}
	w.peers = append(w.peers, p)
	go func() {
		for {
			x, err := p.l.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			p.ends = append(p.ends, x.(*Conn))
			p.open++
			p.mu.Unlock()
			go p.read(x)
		}
	}()
	return p
}

func (p *ltPeer) addr() string { return p.l.addr.String() }

func (p *ltPeer) read(raw net.Conn) {
	var conn = raw
	if p.w.tls != nil {
		conn = tls.Server(raw, p.w.tls)
	} else {
		raw.Write(ltFrame(2, 12, nil))
	}
	defer func() {
		p.mu.Lock()
		p.open--
		p.mu.Unlock()
	}()
	for {
		typ, body, err := readLtFrame(conn)
		if err != nil {
			if !errors.Is(err, io.EOF) && !errors.Is(err, net.ErrClosed) || errors.Is(err, io.ErrUnexpectedEOF) {
				p.mu.Lock()
				p.bad = err
				p.mu.Unlock()
			}
			return
		}
		m, err := parseLt(body)
		if err == nil && typ != 1 {
			err = fmt.Errorf("frame of type %d", typ)
		}
		p.mu.Lock()
		if err != nil {
			p.bad = fmt.Errorf("%w (message %x)", err, body)
			p.mu.Unlock()
			return
		}
		p.pings = append(p.pings, ltSeen{m, body, time.Now()})
		n := len(p.pings)
		on := p.on
		p.mu.Unlock()
		if on != nil {
			on(p, n)
		}
	}
}

func (p *ltPeer) got() []ltSeen {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.bad != nil {
		p.w.c.Violation("a session sent something wrong: %v", p.bad)
		p.bad = nil
	}
	return append([]ltSeen(nil), p.pings...)
}

// dial connects to the agent under test.
func (w *leaseWorld) dial() (*ltIn, error) {
	var so ConnOpts
	if w.inOpt != nil {
		so = w.inOpt()
	}
	a, _, err := w.l.Dial(ConnOpts{}, so)
	if err != nil {
		return nil, err
	}
	in := &ltIn{raw: a, conn: a}
	if w.tls != nil {
		in.conn = tls.Client(a, w.tls)
	}
	w.ins = append(w.ins, in)
	go func() {
		h := make([]byte, 12)
		if _, err := io.ReadFull(in.conn, h); err != nil {
			return
		}
		if !bytes.Equal(h, ltFrame(2, 12, nil)) {
			in.bad.Store(fmt.Sprintf("an accepted connection begins with %x", h))
			return
		}
		in.hi.Store(true)
		if n, _ := in.conn.Read(h); n > 0 {
			in.bad.Store(fmt.Sprintf("%x after the connect frame", h[:n]))
		}
	}()
	return in, nil
}

func (in *ltIn) send(b []byte) error {
	_, err := in.conn.Write(b)
	return err
}

// message of this peer to the agent.
func (p *ltPeer) msg(typ int32, remote int64) *ltMsg {
	r := p.w.r
	m := &ltMsg{Id: r.Int64(), Type: typ, Lease: r.Int64(), Remote: remote, Duration: int32(r.Uint32()), Expiration: int64(r.Uint64() >> 20), Suspend: int32(r.Uint32()),
		Arbitration: int32(r.Uint32()), TwoWay: r.IntN(2) == 0, Host: p.host, Port: p.port}
	m.noNul, m.ext, m.gaps, m.epFirst, m.reserved = r.IntN(4) == 0 && p.host != "", r.IntN(2) == 0, r.IntN(4) == 0, r.IntN(4) == 0, r.IntN(3) == 0
	for k := r.IntN(4); k > 0; k-- {
		i := r.IntN(9)
		for j := r.IntN(3); j >= 0; j-- {
			m.Lists[i] = append(m.Lists[i], [2]string{genText(r), genText(r)})
		}
	}
	return m
}

func genText(r *rand.Rand) string {
	return pick(r, []string{"", "a", "fabric:/app", "\U0001f600x", "00000000000000000000000000000001"})
}

func (p *ltPeer) say(typ int32, remote int64) {
	if p.in == nil {
		in, err := p.w.dial()
		if err != nil {
			p.w.c.Violation("the agent does not accept connections: %v", err)
			return
		}
		p.in = in
	}
	if err := p.in.send(ltDataFrame(p.msg(typ, remote).encode(p.w.r))); err != nil {
		p.w.c.Violation("the agent closed a good connection: %v", err)
		p.in = nil
	}
}

func (p *ltPeer) pong(remote int64) { p.say(3, remote) }

func (w *leaseWorld) establish(p *ltPeer) lease.Session {
	op := Go("Establish", func() (any, error) { return establish(w.agent, p.addr()) })
	synctest.Wait()
	w.c.MustReturn(op, "with a peer that accepts")
	v, err := op.Get()
	if err != nil {
		w.c.Violation("Establish: %v", err)
		return nil
	}
	return v.(lease.Session)
}

func (w *leaseWorld) checkIns() {
	for _, in := range w.ins {
		if b := in.bad.Load(); b != nil {
			w.c.Violation("%s", b)
		}
	}
}

// stop ends everything; the agent's receive loop has to end as well.
func (w *leaseWorld) stop() {
	w.checkIns()
	op := Go("Close of the agent", func() (any, error) { return nil, w.agent.Close() })
	w.quiet(op)
	w.c.MustReturn(op, "")
	w.quiet(w.wait)
	w.c.MustReturn(w.wait, "after Close")
	for _, in := range w.ins {
		in.raw.Close()
	}
	for _, p := range w.peers {
		p.l.Close()
		p.mu.Lock()
		for _, e := range p.ends {
			e.Close()
		}
		p.mu.Unlock()
	}
	synctest.Wait()
}

// quiet: as synctest.Wait, but survives a library goroutine that spins.
func (w *leaseWorld) quiet(op *Op) {
	for i := 0; i < 2000 && !op.Done(); i++ {
		nap(50 * time.Microsecond)
	}
	if op.Done() {
		return
	}
	if w.l.Calls.Load() > 100000 {
		w.c.Violation("%s does not end: the agent called Accept %d times", op.name, w.l.Calls.Load())
		w.c.StopIfFailed(1)
	}
	synctest.Wait()
}

// ---- C23

func c23layout(c *Ctx) {
	n := c.N(400, 12000)
	c.Cases("layout", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%5 == 4)
			w.host, w.port = genHost(r)
			w.cfg.LeaseDuration = pick(r, []time.Duration{0, time.Millisecond, 30 * time.Second, time.Hour, 999 * time.Microsecond, 1500 * time.Microsecond, 40 * 24 * time.Hour, math.MaxInt64, time.Duration(r.Int64N(math.MaxInt64)), time.Duration(r.Int64N(int64(time.Hour)))})
			w.start()
			// another agent of the library that is told these messages
			b := newLeaseWorld(c, r, false)
			b.host = "other.test"
			b.start()
			me := b.newPeer(w.host, w.port)
			toMe := b.establish(me)
			if toMe == nil {
				return
			}
			in, err := b.dial()
			if err != nil {
				panic(setupError{err})
			}
			k := 1 + r.IntN(3)
			for s := 0; s < k; s++ {
				p := w.newPeer(fmt.Sprintf("peer%d.test", s), uint16(r.Uint32()))
				sess := w.establish(p)
				if sess == nil {
					return
				}
				var remote, own int64
				seen := 0
				for q := 1 + r.IntN(4); q > 0; q-- {
					ctx, cancel := context.WithCancel(bg)
					op := Go("Ping", func() (any, error) { return nil, sess.Ping(ctx) })
					synctest.Wait()
					got := p.got()
					seen++
					if len(got) != seen {
						c.Violation("%d pings put %d messages on the wire", seen, len(got))
						cancel()
						return
					}
					g := got[len(got)-1]
					m := g.m
					want := fmt.Sprint(int32(2), remote, int32(0), w.cfg.LeaseDuration.Milliseconds(), int32(0), int32(0), false, w.host, w.port, [9][][2]string{})
					have := fmt.Sprint(m.Type, m.Remote, m.Duration, m.Expiration, m.Suspend, m.Arbitration, m.TwoWay, m.Host, m.Port, m.Lists)
					if have != want {
						c.Violation("ping of agent %s with lease duration %v: %s on the wire, want %s", w.l.Addr(), w.cfg.LeaseDuration, have, want)
					}
					if m.Lease == 0 || m.Id == 0 {
						c.Violation("ping with lease instance %d and id %d", m.Lease, m.Id)
					}
					if own != 0 && own != m.Lease {
						c.Violation("the lease instance of one session went from %d to %d", own, m.Lease)
					}
					own = m.Lease
					// the other agent takes it, as a response
					time.Sleep(time.Duration(1+r.IntN(1000)) * time.Millisecond)
					op2 := Go("Ping of the other agent", func() (any, error) { return nil, toMe.Ping(ctx) })
					synctest.Wait()
					raw := append([]byte(nil), g.raw...)
					binary.LittleEndian.PutUint32(raw[24:], 3)
					if err := in.send(ltDataFrame(raw)); err != nil {
						c.Violation("an agent closed the connection on a message of the library (agent %s): %v", w.l.Addr(), err)
					}
					synctest.Wait()
					if !op2.Done() || !toMe.LastPongTime().Equal(time.Now()) {
						c.Violation("an agent does not accept a message of the library itself from %s", w.l.Addr())
					}
					if r.IntN(2) == 0 {
						remote = pick(r, []int64{r.Int64(), 0, -1, 1 << 40, remote - 1})
						p.pong(remote)
						synctest.Wait()
						if !op.Done() {
							c.Violation("a pong for %s was not taken", p.addr())
						}
					}
					cancel()
					synctest.Wait()
					c.MustReturn(op, "after its context ended")
					c.Count("pings_parsed", 1)
				}
			}
			c.Saw(fmt.Sprintf("%d sessions, tls %v, %s", k, w.tls != nil, hostKind(w.host)))
			b.stop()
			w.stop()
		})
		c.StopIfFailed(3)
	})
}

func hostKind(h string) string {
	ascii := true
	for _, x := range h {
		ascii = ascii && x < 128
	}
	return fmt.Sprintf("host of %d, ascii %v", min(len(h), 32), ascii)
}

func c23accept(c *Ctx) {
	n := c.N(400, 12000)
	c.Cases("accept", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%6 == 5)
			w.inOpt = func() ConnOpts {
				k := pick(r, []int{0, 1, 3, 50, 211, 212, 213})
				return ConnOpts{ReadChunk: func() int { return k }}
			}
			w.start()
			type sess struct {
				p    *ltPeer
				s    lease.Session
				ping *Op
				last time.Time
			}
			var l []*sess
			used := map[string]bool{w.l.addr.String(): true}
			for k := 1 + r.IntN(4); k > 0; k-- {
				h, p := genHost(r)
				if used[joinHP(h, p)] {
					continue
				}
				used[joinHP(h, p)] = true
				x := &sess{p: w.newPeer(h, p)}
				if x.s = w.establish(x.p); x.s == nil {
					return
				}
				if !x.s.LastPongTime().IsZero() {
					c.Violation("a session without a pong has LastPongTime %v", x.s.LastPongTime())
				}
				l = append(l, x)
			}
			if len(l) == 0 {
				return
			}
			stranger := &ltPeer{w: w, host: "stranger.test", port: 9}
			var shared *ltIn
			if r.IntN(2) == 0 {
				shared, _ = w.dial()
			}
			for k := 4 + r.IntN(10); k > 0; k-- {
				for _, x := range l {
					if x.ping == nil {
						x.ping = Go("Ping", func() (any, error) { return nil, x.s.Ping(bg) })
					}
				}
				time.Sleep(time.Duration(r.IntN(100000)) * time.Microsecond)
				synctest.Wait()
				x := pick(r, l)
				from := x.p
				typ := int32(3)
				switch r.IntN(6) {
				case 0:
					typ = int32(r.IntN(10))
				case 1:
					typ = int32(r.Uint32())
				case 2:
					from = stranger
				}
				m := from.msg(typ, r.Int64())
				if from == x.p && r.IntN(6) == 0 {
					m.Port ^= 1 << r.IntN(16)
					from = stranger
					if used[joinHP(m.Host, m.Port)] {
						continue
					}
				}
				if shared != nil {
					x.p.in = shared
				}
				if x.p.in == nil {
					x.p.in, _ = w.dial()
				}
				var b []byte
				for q := r.IntN(3); q > 0; q-- {
					b = append(b, ltFrame(2, 12, nil)...)
				}
				b = append(b, ltDataFrame(m.encode(r))...)
				if err := x.p.in.send(b); err != nil {
					c.Violation("the agent closed the connection on a valid message (%+v): %v", m, err)
					return
				}
				synctest.Wait()
				now := time.Now()
				for _, y := range l {
					hit := y == x && from == x.p && typ == 3
					if hit {
						if !y.ping.Done() {
							c.Violation("a pong for %s (%+v) does not complete the ping", y.p.addr(), m)
							return
						}
						if _, err := y.ping.Get(); err != nil {
							c.Violation("a ping answered by a pong: %v", err)
						}
						y.ping = nil
						y.last = now
						c.Count("pongs", 1)
					} else if y.ping.Done() {
						_, err := y.ping.Get()
						c.Violation("a ping to %s returned (%v) by message %+v", y.p.addr(), err, m)
						return
					}
					if !y.s.LastPongTime().Equal(y.last) {
						c.Violation("LastPongTime of %s is %v after message %+v at %v; its last pong came at %v", y.p.addr(), y.s.LastPongTime(), m, now, y.last)
					}
				}
				c.Count("messages", 1)
			}
			c.Saw(fmt.Sprintf("%d sessions, tls %v, shared %v", len(l), w.tls != nil, shared != nil))
			w.stop()
			for _, y := range l {
				if y.ping != nil {
					c.MustReturn(y.ping, "after the agent was closed")
				}
			}
		})
		c.StopIfFailed(3)
	})
}

func hostileLease(r *rand.Rand, victim *ltPeer) (b []byte, kind string) {
	good := func() []byte { return ltDataFrame(victim.msg(int32(r.IntN(5)), r.Int64()).encode(r)) }
	ext := []uint32{0, 1, 3, 4, 5, 6, 7, 8, 11, 12, 13, 199, 200, 201, 211, 212, 213, 1 << 16, 1 << 20, 4 << 20, 1 << 24, 60 << 20, 200 << 20, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 200, 1<<32 - 13, 1<<32 - 12, 1<<32 - 4, 1<<32 - 1}
	for k := r.IntN(3); k > 0; k-- {
		b = append(b, good()...)
	}
	switch r.IntN(8) {
	case 0:
		return append(b, genBytes(r, r.IntN(600))...), "noise"
	case 1:
		g := good()
		for k := 1 + r.IntN(6); k > 0; k-- {
			g[r.IntN(len(g))] ^= byte(1 << r.IntN(8))
		}
		return append(b, g...), "bit flips"
	case 2:
		g := good()
		binary.LittleEndian.PutUint32(g[4:], pick(r, ext))
		return append(b, append(g, genBytes(r, r.IntN(300))...)...), "frame size"
	case 3:
		g := good()
		d := g[12+76+12*9:]
		if r.IntN(3) == 0 {
			d = g[12+76+12*r.IntN(10):]
		}
		body := uint32(len(g) - 12)
		switch r.IntN(4) {
		case 0:
			binary.LittleEndian.PutUint32(d[4:], pick(r, append(ext, body-1, body, body+1, body-4, body-5)))
		case 1:
			binary.LittleEndian.PutUint32(d[8:], pick(r, append(ext, body-1, body, body+1)))
		case 2:
			o := pick(r, append(ext, body-4, body-6, body-8))
			binary.LittleEndian.PutUint32(d[4:], o)
			binary.LittleEndian.PutUint32(d[8:], pick(r, []uint32{body - o, -o, -o + 1, -o + body - 1, 0, 4, 5, 6}))
		case 3:
			binary.LittleEndian.PutUint32(d[8:], uint32(r.IntN(12)))
		}
		return append(b, g...), "descriptor"
	case 4:
		g := good()
		return append(b, g[:r.IntN(len(g))]...), "cut"
	case 5:
		n := 1 + r.IntN(300)
		for ; n > 0; n-- {
			b = append(b, ltFrame(2, pick(r, []uint32{12, 12, 0, 1 << 31}), nil)...)
		}
		return append(b, good()...), "connect frames"
	case 6:
		g := good()
		n := 12 + r.IntN(len(g)-12)
		binary.LittleEndian.PutUint32(g[4:], uint32(n))
		return append(b, g[:n]...), "short message"
	}
	g := good()
	g[0] = pick(r, []byte{0, 3, 4, 22, 255})
	return append(b, g...), "frame type"
}

func c23hostile(c *Ctx) {
	debug.SetMaxStack(24 << 20)
	thePKI()
	n := c.N(3000, 80000)
	batch := 50
	c.Cases("hostile", n/batch, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%5 == 4)
			w.start()
			good := w.newPeer("good.test", 7)
			victim := w.newPeer("victim.test", 8)
			gs, vs := w.establish(good), w.establish(victim)
			if gs == nil || vs == nil {
				return
			}
			good.in, _ = w.dial()
			meter := newMeter()
			var raws []*Conn
			for k := 0; k < batch; k++ {
				b, kind := hostileLease(r, victim)
				if i%11 == 3 && k == 5 {
					b, kind = bytes.Repeat(ltFrame(2, 12, nil), 200000), "flood of connect frames"
				}
				a, _, err := w.l.Dial(ConnOpts{}, ConnOpts{Yield: r.IntN(2) == 0})
				if err != nil {
					c.Violation("the agent does not accept connections after %s", kind)
					return
				}
				raws = append(raws, a)
				go io.Copy(io.Discard, a)
				if w.tls != nil {
					meter.fixed += 200 << 10
				}
				if w.tls == nil || r.IntN(4) == 0 {
					a.Write(b)
				} else {
					t := tls.Client(a, w.tls)
					go t.Write(b)
				}
				meter.bytes += uint64(len(b))
				synctest.Wait()
				how := endConn(r, a)
				synctest.Wait()
				fixed := uint64(0)
				if w.tls != nil {
					fixed = 1 << 20
				}
				meter.step(c, len(b), fixed, kind+" "+how)
				if k%5 == 0 {
					if k%10 == 0 && r.IntN(2) == 0 {
						good.in.raw.Close()
						good.in = nil
					}
					time.Sleep(time.Millisecond)
					op := Go("Ping", func() (any, error) { return nil, gs.Ping(bg) })
					synctest.Wait()
					if op.Done() {
						_, err := op.Get()
						c.Violation("ping of a good session returned by itself (%v) after %s, %s", err, kind, how)
						return
					}
					good.pong(int64(k))
					synctest.Wait()
					if !op.Done() || !gs.LastPongTime().Equal(time.Now()) {
						c.Violation("a good connection is not read any more after %s, %s", kind, how)
						return
					}
				}
				c.Count("hostile_connections", 1)
				c.Saw(fmt.Sprintf("%s / %s / tls %v", kind, how, w.tls != nil))
			}
			meter.check(c, "lease agent")
			for _, a := range raws {
				a.Close()
			}
			vs.Close()
			w.stop()
		})
		c.StopIfFailed(3)
	})
}

// ---- C24

type pingOp struct {
	op       *Op
	cancel   context.CancelFunc
	deadline time.Time
	ctx      context.Context
}

func c24history(c *Ctx) {
	n := c.N(500, 15000)
	c.Cases("history", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%5 == 4)
			w.start()
			type sess struct {
				p       *ltPeer
				s       lease.Session
				pings   []*pingOp
				last    time.Time
				remote  int64
				closed  bool
				broken  bool
				written int
			}
			var l []*sess
			for k := 1 + r.IntN(3); k > 0; k-- {
				x := &sess{p: w.newPeer(peerHost(r, k), uint16(k))}
				if x.s = w.establish(x.p); x.s == nil {
					return
				}
				l = append(l, x)
			}
			var hist []string
			bad := func(format string, a ...any) {
				c.Violation("%s; history %v", fmt.Sprintf(format, a...), hist)
			}
			ended := func(x *sess, p *pingOp, want string) {
				if !p.op.Done() {
					bad("a ping is still waiting after %s", want)
					return
				}
				_, err := p.op.Get()
				if want == "pong" && err != nil {
					bad("a ping answered by a pong: %v", err)
				}
				if want != "pong" && err == nil {
					bad("a ping ended by %s returned success", want)
				}
				c.Count("pings_ended_by_"+want, 1)
			}
			for k := 8 + r.IntN(25); k > 0; k-- {
				x := pick(r, l)
				name := x.p.host
				what := r.IntN(12)
				endAll := func(want string) {
					synctest.Wait()
					for _, p := range x.pings {
						ended(x, p, want)
					}
					x.pings = nil
				}
				switch {
				case what < 4: // a ping
					p := &pingOp{}
					switch r.IntN(4) {
					case 0:
						p.ctx, p.cancel = context.WithTimeout(bg, time.Duration(1+r.IntN(100))*time.Millisecond)
						p.deadline, _ = p.ctx.Deadline()
					case 1:
						p.ctx, p.cancel = context.WithCancel(bg)
						if r.IntN(4) == 0 {
							p.cancel()
							p.deadline = time.Now()
						}
					default:
						p.ctx, p.cancel = context.WithCancel(bg)
					}
					p.op = Go("Ping", func() (any, error) { return nil, x.s.Ping(p.ctx) })
					hist = append(hist, "ping "+name)
					synctest.Wait()
					if x.closed {
						ended(x, p, "close")
					} else if x.broken {
						ended(x, p, "broken connection")
					} else {
						x.written++
						got := x.p.got()
						if !p.deadline.IsZero() && !time.Now().Before(p.deadline) {
							// it may or may not have been sent
							x.written = len(got)
						} else if len(got) != x.written {
							bad("%d pings, %d on the wire", x.written, len(got))
						} else if m := got[len(got)-1].m; m.Remote != x.remote {
							bad("a ping carries remote instance %d, the last pong's was %d", m.Remote, x.remote)
						}
						x.pings = append(x.pings, p)
					}
				case what < 7: // a pong
					hist = append(hist, "pong "+name)
					inst := r.Int64()
					if r.IntN(3) == 0 {
						inst = pick(r, []int64{0, 0, 1, -1, -1 << 63, x.remote, x.remote - 1, x.remote + 1})
					}
					x.p.pong(inst)
					synctest.Wait()
					if !x.closed {
						x.last, x.remote = time.Now(), inst
						endAll("pong")
					}
				case what < 8: // something else
					t := pick(r, []int32{0, 1, 2, 4, 5, 6, 7, 8, -1, 1 << 20})
					hist = append(hist, fmt.Sprintf("type %d %s", t, name))
					x.p.say(t, r.Int64())
				case what < 9 && len(x.pings) > 0:
					p := pick(r, x.pings)
					hist = append(hist, "cancel "+name)
					p.cancel()
					p.deadline = time.Now()
				case what < 11:
					d := time.Duration(r.IntN(60)) * time.Millisecond
					hist = append(hist, fmt.Sprint("+", d))
					time.Sleep(d)
				case r.IntN(3) > 0:
				case r.IntN(2) == 0 && !x.closed: // close
					hist = append(hist, "close "+name)
					op := Go("Close of a session", func() (any, error) { return nil, x.s.Close() })
					synctest.Wait()
					c.MustReturn(op, "")
					if !x.closed {
						x.closed = true
						endAll("close")
					}
				case !x.broken && !x.closed:
					hist = append(hist, "break "+name)
					x.p.mu.Lock()
					for _, e := range x.p.ends {
						e.Close()
					}
					x.p.mu.Unlock()
					x.broken = true
				}
				synctest.Wait()
				now := time.Now()
				for _, y := range l {
					var keep []*pingOp
					for _, p := range y.pings {
						if !p.deadline.IsZero() && !now.Before(p.deadline) {
							ended(y, p, "context")
							continue
						}
						if p.op.Done() {
							_, err := p.op.Get()
							bad("a ping to %s returned (%v) for no reason", y.p.host, err)
							continue
						}
						keep = append(keep, p)
					}
					y.pings = keep
					if !y.s.LastPongTime().Equal(y.last) {
						bad("LastPongTime of %s is %v, the last pong came at %v", y.p.host, y.s.LastPongTime(), y.last)
						y.last = y.s.LastPongTime()
					}
				}
				if c.Failed() {
					break
				}
				c.Count("steps", 1)
			}
			c.Saw(fmt.Sprint(hist))
			w.stop()
			for _, x := range l {
				for _, p := range x.pings {
					c.MustReturn(p.op, "after the agent was closed")
					ended(x, p, "close of the agent")
				}
			}
		})
		c.StopIfFailed(2)
	})
}

func c24window(c *Ctx) {
	n := c.N(300, 6000)
	c.Cases("window", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%5 == 4)
			var p *ltPeer
			var mode atomic.Int32
			var pongs atomic.Int64
			w.opts = func() ConnOpts {
				return ConnOpts{AfterWrite: func(x *Conn, b []byte) {
					if mode.Load() != 1 {
						return
					}
					// the write takes until the answer to it has been digested
					for k := 0; k < 200 && pongs.Load() == 0; k++ {
						nap(50 * time.Microsecond)
					}
					if pongs.Load() > 0 && p.in != nil {
						p.in.raw.Settle()
					}
				}}
			}
			w.start()
			p = w.newPeer("p.test", 1)
			s := w.establish(p)
			if s == nil {
				return
			}
			p.in, _ = w.dial()
			p.pong(1)
			synctest.Wait()
			var inst atomic.Int64
			p.mu.Lock()
			p.on = func(p *ltPeer, n int) {
				if mode.Load() == 1 {
					p.pong(inst.Add(1))
					pongs.Add(1)
				}
			}
			p.mu.Unlock()
			for k := 3 + r.IntN(4); k > 0; k-- {
				pongs.Store(0)
				time.Sleep(time.Millisecond)
				if r.IntN(3) == 0 {
					// answered before it was asked
					mode.Store(0)
					p.pong(inst.Add(1))
					synctest.Wait()
					ctx, cancel := context.WithTimeout(bg, time.Second)
					op := Go("Ping", func() (any, error) { return nil, s.Ping(ctx) })
					time.Sleep(time.Second)
					synctest.Wait()
					cancel()
					c.MustReturn(op, "after its context ended")
					if _, err := op.Get(); err == nil {
						c.Violation("a pong that came before the ping was sent completed it")
					}
					c.Count("early_pongs", 1)
					continue
				}
				mode.Store(1)
				ctx, cancel := context.WithTimeout(bg, time.Second)
				op := Go("Ping", func() (any, error) { return nil, s.Ping(ctx) })
				synctest.Wait()
				time.Sleep(2 * time.Second)
				synctest.Wait()
				cancel()
				c.MustReturn(op, "after its context ended")
				if pongs.Load() == 0 {
					c.Violation("the ping never reached the peer")
				} else if _, err := op.Get(); err != nil {
					c.Violation("a ping answered while its write was returning: %v", err)
				}
				c.Count("pongs_during_write", 1)
			}
			c.Saw(fmt.Sprintf("tls %v, %d", w.tls != nil, len(p.got())))
			w.stop()
		})
		c.StopIfFailed(2)
	})
}

func c24together(c *Ctx) {
	n := c.N(120, 3000)
	c.Cases("together", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%4 == 3)
			seed := r.Uint64()
			w.opts = func() ConnOpts { return raceWrite(seed) }
			w.start()
			var peers []*ltPeer
			var ss []lease.Session
			for k := 1 + r.IntN(2); k > 0; k-- {
				p := w.newPeer(peerHost(r, k), uint16(k))
				s := w.establish(p)
				if s == nil {
					return
				}
				peers, ss = append(peers, p), append(ss, s)
			}
			sent := make([]int, len(ss))
			for round := 2 + r.IntN(3); round > 0; round-- {
				var ops [][]*Op
				k := 2 + r.IntN(12)
				for x, s := range ss {
					var l []*Op
					for j := 0; j < k; j++ {
						l = append(l, Go("Ping", func() (any, error) { return nil, s.Ping(bg) }))
					}
					sent[x] += k
					ops = append(ops, l)
				}
				synctest.Wait()
				for x, p := range peers {
					if got := p.got(); len(got) != sent[x] {
						c.Violation("%d concurrent pings put %d whole messages on the wire", sent[x], len(got))
						return
					}
					for _, o := range ops[x] {
						if o.Done() {
							_, err := o.Get()
							c.Violation("a ping returned without a pong: %v", err)
							return
						}
					}
				}
				for x, p := range peers {
					p.pong(int64(round))
					synctest.Wait()
					for _, o := range ops[x] {
						c.MustReturn(o, "after the pong")
						if _, err := o.Get(); err != nil {
							c.Violation("ping: %v", err)
						}
					}
				}
				c.Count("pings", int64(k*len(ss)))
			}
			c.Saw(fmt.Sprint(sent))
			w.stop()
		})
		c.StopIfFailed(2)
	})
}

func c24loop(c *Ctx) {
	n := c.N(200, 4000)
	c.Cases("loop", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%5 == 4)
			var failing atomic.Bool
			w.opts = func() ConnOpts {
				return ConnOpts{BeforeWrite: func(x *Conn, b []byte) (int, error) {
					if failing.Load() {
						return 0, tempErr{"no buffer space available"}
					}
					return len(b), nil
				}}
			}
			w.start()
			p := w.newPeer("p.test", 1)
			s := w.establish(p)
			if s == nil {
				return
			}
			interval := time.Duration(1+r.IntN(5000)) * time.Millisecond
			total := interval*time.Duration(3+r.IntN(30)) + time.Duration(r.IntN(1000))*time.Microsecond
			kind := i % 4
			delay := time.Duration(r.Int64N(int64(interval)))
			p.mu.Lock()
			p.on = func(p *ltPeer, n int) {
				switch kind {
				case 0: // prompt
					p.pong(int64(n))
				case 1: // late
					time.AfterFunc(delay, func() { p.pong(int64(n)) })
				case 2: // silent
				case 3: // sometimes
					if n%3 == 0 {
						p.pong(int64(n))
					}
				}
			}
			p.mu.Unlock()
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			start := time.Now()
			op := Go("PingLoop", func() (any, error) { return nil, lease.PingLoop(ctx, s, interval) })
			allowed := 2 * interval
			if w.tls == nil && r.IntN(3) == 0 {
				allowed += total/3 + interval
				// writes fail for some time in the middle
				time.Sleep(total / 3)
				failing.Store(true)
				time.Sleep(total / 3)
				failing.Store(false)
				time.Sleep(total - time.Since(start))
			} else {
				time.Sleep(total)
			}
			synctest.Wait()
			if op.Done() {
				_, err := op.Get()
				c.Violation("PingLoop returned (%v) before its context ended", err)
				return
			}
			got := p.got()
			now := time.Now()
			at := start
			for k, g := range append(got, ltSeen{at: now}) {
				gap := g.at.Sub(at)
				if gap > allowed || k > 0 && k < len(got) && gap < interval {
					c.Violation("PingLoop with interval %v (peer kind %d): %v between pings %d and %d", interval, kind, gap, k-1, k)
					break
				}
				at = g.at
			}
			if len(got) == 0 {
				c.Violation("PingLoop sent nothing in %v with interval %v", total, interval)
			}
			cancel()
			synctest.Wait()
			c.MustReturn(op, "after its context ended")
			if _, err := op.Get(); err == nil {
				c.Violation("PingLoop returned nil after its context ended")
			}
			c.Count("loop_pings", int64(len(got)))
			c.Saw(fmt.Sprintf("kind %d, %d pings", kind, len(got)))
			w.stop()
		})
		c.StopIfFailed(2)
	})
}

// c24tcp is the only lease workload over real sockets and in real time.
func c24tcp(c *Ctx) {
	n := c.N(20, 200)
	c.Cases("tcp", n, func(i int, r *rand.Rand) {
		cfg := lease.AgentConfig{AppId: "x"}
		cfg.SetDefault()
		if i%2 == 1 {
			cfg.TLS = leaseTLS(r)
		}
		a, err := lease.NewTcpListeningAgent(cfg, "127.0.0.1:0")
		if err != nil {
			c.Inconclusive("listen: %v", err)
			return
		}
		w := &leaseWorld{c: c, r: r, tls: cfg.TLS}
		wait := Go("Wait of the agent", func() (any, error) { return nil, a.Wait() })
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Inconclusive("listen: %v", err)
			return
		}
		defer l.Close()
		pings := make(chan *ltMsg, 100)
		go func() {
			for {
				x, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					defer x.Close()
					var s net.Conn = x
					if cfg.TLS != nil {
						s = tls.Server(x, cfg.TLS)
					}
					for {
						typ, body, err := readLtFrame(s)
						if err != nil {
							return
						}
						m, err := parseLt(body)
						if err != nil || typ != 1 {
							c.Violation("bad message over tcp: %v %x", err, body)
							return
						}
						pings <- m
					}
				}()
			}
		}()
		s, err := establish(a, l.Addr().String())
		if err != nil {
			c.Violation("Establish over tcp: %v", err)
			return
		}
		x, err := net.Dial("tcp", a.Addr().String())
		if err != nil {
			c.Violation("the agent does not accept: %v", err)
			return
		}
		defer x.Close()
		var in net.Conn = x
		if cfg.TLS != nil {
			in = tls.Client(x, cfg.TLS)
		}
		if typ, body, err := readLtFrame(in); err != nil || typ != 2 || len(body) != 0 {
			c.Violation("an accepted connection begins with %d %x %v", typ, body, err)
			return
		}
		h, ps, _ := net.SplitHostPort(l.Addr().String())
		pn, _ := strconv.Atoi(ps)
		me := &ltPeer{w: w, host: h, port: uint16(pn)}
		ah, aps, _ := net.SplitHostPort(a.Addr().String())
		remote := int64(0)
		for k := 1 + r.IntN(5); k > 0; k-- {
			op := Go("Ping", func() (any, error) { return nil, s.Ping(bg) })
			var m *ltMsg
			select {
			case m = <-pings:
			case <-time.After(time.Minute):
				c.Inconclusive("no ping over loopback within a minute")
				return
			}
			if m.Host != ah || strconv.Itoa(int(m.Port)) != aps || m.Remote != remote {
				c.Violation("ping of agent %s over tcp: endpoint %s:%d, remote instance %d, want %d", a.Addr(), m.Host, m.Port, m.Remote, remote)
			}
			remote = r.Int64()
			before := time.Now()
			if _, err := in.Write(ltDataFrame(me.msg(3, remote).encode(r))); err != nil {
				c.Violation("the agent closed the connection: %v", err)
				return
			}
			select {
			case <-op.ch:
			case <-time.After(time.Minute):
				c.Inconclusive("a pong over loopback was not taken within a minute")
				return
			}
			if _, err := op.Get(); err != nil {
				c.Violation("ping over tcp: %v", err)
			}
			if t := s.LastPongTime(); t.Before(before.Add(-time.Minute)) {
				c.Violation("LastPongTime %v after a pong at %v", t, before)
			}
			c.Count("pings", 1)
		}
		op := Go("Ping", func() (any, error) { return nil, s.Ping(bg) })
		<-pings
		cl := Go("Close of the agent", func() (any, error) { return nil, a.Close() })
		<-cl.ch
		<-op.ch
		if _, err := op.Get(); err == nil {
			c.Violation("a ping returned success when its agent was closed")
		}
		<-wait.ch
		c.Saw(fmt.Sprintf("tls %v", cfg.TLS != nil))
		c.StopIfFailed(2)
	})
}

// ---- C25

func c25agents(c *Ctx) {
	n := c.N(500, 12000)
	c.Cases("agents", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%5 == 4)
			gate, opened := make(chan struct{}), false
			slow := map[string]bool{}
			w.onD = func(addr string) error {
				if slow[addr] {
					<-gate
				}
				if addr == "dead.test:1" {
					return errors.New("connection refused")
				}
				return nil
			}
			var hist []string
			bad := func(format string, a ...any) {
				c.Violation("%s; history %v", fmt.Sprintf(format, a...), hist)
			}
			w.start()
			type sess struct {
				p     *ltPeer
				s     lease.Session
				est   *Op
				pings []*Op
				gone  bool
			}
			var l []*sess
			for k := r.IntN(4); k > 0; k-- {
				x := &sess{p: w.newPeer(peerHost(r, k), uint16(k))}
				if r.IntN(3) == 0 {
					slow[x.p.addr()] = true
					x.est = Go("Establish", func() (any, error) { return establish(w.agent, x.p.addr()) })
					hist = append(hist, "slow establish")
				} else {
					hist = append(hist, "establish")
					if x.s = w.establish(x.p); x.s == nil {
						return
					}
				}
				l = append(l, x)
			}
			for k := r.IntN(10); k > 0; k-- {
				switch r.IntN(5) {
				case 0: // accept fails
					hist = append(hist, "accept error")
					w.l.Inject(pick(r, []error{tempErr{"too many open files"}, &net.OpError{Op: "accept", Net: "tcp", Err: errors.New("software caused connection abort")}, errors.New("odd"), io.EOF}))
				case 1:
					hist = append(hist, "incoming")
					in, err := w.dial()
					if err != nil {
						bad("the agent does not accept")
						return
					}
					if r.IntN(2) == 0 {
						w.l.Ready()
						if !in.hi.Load() {
							bad("an incoming connection is not welcomed")
						}
						in.raw.Close()
					}
				case 2:
					if len(l) == 0 {
						continue
					}
					if x := pick(r, l); x.s != nil && !x.gone {
						hist = append(hist, "ping")
						x.pings = append(x.pings, Go("Ping", func() (any, error) { return nil, x.s.Ping(bg) }))
					}
				case 3:
					if len(l) == 0 {
						continue
					}
					if x := pick(r, l); x.s != nil && r.IntN(3) == 0 {
						hist = append(hist, "session close")
						for q := 1 + r.IntN(2); q > 0; q-- {
							op := Go("Close of a session", func() (any, error) { return nil, x.s.Close() })
							synctest.Wait()
							c.MustReturn(op, "")
						}
						x.gone = true
					}
				case 4:
					if len(l) == 0 {
						continue
					}
					x := pick(r, l)
					hist = append(hist, "pong")
					x.p.pong(1)
					synctest.Wait()
					for _, o := range x.pings {
						if x.s != nil && !o.Done() {
							bad("a ping is not completed by the pong")
							return
						}
					}
					x.pings = nil
				}
				w.l.Ready()
			}
			if w.wait.Done() {
				_, err := w.wait.Get()
				bad("Wait returned (%v) before Close", err)
			}
			// every pending ping at the moment of closing
			hist = append(hist, "close")
			var closers []*Op
			for k := 1 + r.IntN(3); k > 0; k-- {
				closers = append(closers, Go("Close of the agent", func() (any, error) { return nil, w.agent.Close() }))
			}
			if r.IntN(2) == 0 {
				close(gate)
				opened = true
			}
			w.quiet(closers[0])
			w.quiet(w.wait)
			synctest.Wait()
			for _, o := range closers {
				c.MustReturn(o, "")
			}
			c.MustReturn(w.wait, "after Close")
			late := Go("Establish", func() (any, error) {
				return establish(w.agent, pick(rand.New(rand.NewPCG(uint64(i), 1)), []string{"dead.test:1", w.l.addr.String(), "new.test:4"}))
			})
			np := w.newPeer("new.test", 4)
			synctest.Wait()
			if !opened {
				close(gate)
			}
			synctest.Wait()
			c.MustReturn(late, "after Close")
			if v, err := late.Get(); err == nil {
				bad("Establish after Close returned session %v", v)
			}
			again := Go("Establish", func() (any, error) { return establish(w.agent, np.addr()) })
			synctest.Wait()
			c.MustReturn(again, "after Close")
			if _, err := again.Get(); err == nil {
				bad("Establish after Close succeeded")
			}
			for _, x := range l {
				for _, o := range x.pings {
					c.MustReturn(o, "after the agent was closed")
					if _, err := o.Get(); err == nil {
						bad("a ping that was waiting when the agent was closed returned success")
					}
				}
				if x.est != nil {
					c.MustReturn(x.est, "after the agent was closed and the dial returned")
					v, err := x.est.Get()
					if err == nil {
						// it may have been established before the close; then it has ended by now
						x.s = v.(lease.Session)
					}
				}
				if x.s != nil {
					ctx, cancel := context.WithTimeout(bg, time.Second)
					op := Go("Ping", func() (any, error) { return nil, x.s.Ping(ctx) })
					synctest.Wait()
					if !op.Done() {
						bad("a ping after Close waits")
					} else if _, err := op.Get(); err == nil {
						bad("a ping after Close returned success")
					}
					cancel()
				}
			}
			for _, e := range w.ends {
				if !e.IsClosed() {
					bad("a connection the agent dialled to %s is still open", e.ra)
				}
			}
			if _, _, err := w.l.Dial(ConnOpts{}, ConnOpts{}); err == nil {
				bad("the agent's listener is still open")
			}
			if w.agent.Close(); w.l.Calls.Load() > 10000 {
				bad("the agent called Accept %d times", w.l.Calls.Load())
			}
			c.Saw(fmt.Sprint(hist))
			c.Count("closed_agents", 1)
			c.Count("connections_closed", int64(len(w.ends)))
			w.stop()
		})
		c.StopIfFailed(2)
	})
}

func c25sessions(c *Ctx) {
	n := c.N(500, 12000)
	c.Cases("sessions", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newLeaseWorld(c, r, i%6 == 5)
			w.start()
			var peers []*ltPeer
			for k := 1 + r.IntN(3); k > 0; k-- {
				peers = append(peers, w.newPeer(peerHost(r, k), uint16(k)))
			}
			type sess struct {
				p      *ltPeer
				s      lease.Session
				end    *Conn
				closed bool
				ping   *Op
			}
			cur := map[*ltPeer]*sess{} // newest session to an address that is not closed
			var all []*sess
			var hist []string
			bad := func(format string, a ...any) {
				c.Violation("%s; history %v", fmt.Sprintf(format, a...), hist)
			}
			dead := func(x *sess) {
				if x.closed && !x.end.IsClosed() {
					bad("a closed session's connection is open")
				}
			}
			for k := 6 + r.IntN(14); k > 0 && !c.Failed(); k-- {
				p := pick(r, peers)
				switch r.IntN(6) {
				case 0, 1:
					hist = append(hist, fmt.Sprintf("establish %s as %d", p.host, len(all)))
					before := len(w.ends)
					x := &sess{p: p}
					if x.s = w.establish(p); x.s == nil {
						return
					}
					if len(w.ends) == before {
						bad("Establish did not dial")
						return
					}
					x.end = w.ends[len(w.ends)-1]
					cur[p] = x
					all = append(all, x)
				case 2, 3:
					if len(all) == 0 {
						continue
					}
					j := r.IntN(len(all))
					x := all[j]
					hist = append(hist, fmt.Sprintf("close %d", j))
					op := Go("Close of a session", func() (any, error) { return nil, x.s.Close() })
					synctest.Wait()
					c.MustReturn(op, "")
					x.closed = true
					if cur[x.p] == x {
						delete(cur, x.p)
					}
					if x.ping != nil {
						c.MustReturn(x.ping, "after its session was closed")
						if _, err := x.ping.Get(); err == nil {
							bad("a ping of a closed session returned success")
						}
						x.ping = nil
					}
				case 4:
					hist = append(hist, "pong "+p.host)
					time.Sleep(time.Millisecond)
					x := cur[p]
					var was []time.Time
					for _, y := range all {
						was = append(was, y.s.LastPongTime())
					}
					p.pong(r.Int64())
					synctest.Wait()
					for j, y := range all {
						t := y.s.LastPongTime()
						if y == x && !t.Equal(time.Now()) {
							bad("the session to %s is not reached by its pong", p.host)
						}
						if (y.closed || y.p != p) && !t.Equal(was[j]) {
							bad("session %d (to %s, closed %v) took a pong of %s", j, y.p.host, y.closed, p.host)
						}
					}
					if x != nil && x.ping != nil {
						c.MustReturn(x.ping, "after its pong")
						if _, err := x.ping.Get(); err != nil {
							bad("ping: %v", err)
						}
						x.ping = nil
					}
					c.Count("pongs", 1)
				case 5:
					if x := cur[p]; x != nil && x.ping == nil {
						hist = append(hist, "ping "+p.host)
						x.ping = Go("Ping", func() (any, error) { return nil, x.s.Ping(bg) })
						synctest.Wait()
						if x.ping.Done() {
							_, err := x.ping.Get()
							bad("a ping of an open session returned: %v", err)
						}
					}
				}
				synctest.Wait()
				for _, y := range all {
					dead(y)
					if cur[y.p] == y && y.end.IsClosed() {
						bad("the connection of an open session was closed")
					}
				}
			}
			c.Saw(fmt.Sprint(hist))
			w.stop()
			for _, x := range all {
				if x.ping != nil {
					c.MustReturn(x.ping, "after the agent was closed")
				}
				if !x.end.IsClosed() {
					bad("a session's connection is open after the agent was closed")
				}
			}
		})
		c.StopIfFailed(2)
	})
}

// establish is agent.Establish, which must give a session or an error.
func establish(a *lease.Agent, addr string) (lease.Session, error) {
	s, err := a.Establish(addr)
	if s == nil && err == nil {
		return nil, errors.New("Establish returns neither a session nor an error")
	}
	return s, err
}

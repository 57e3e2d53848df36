package harness

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"
)

// The in-memory network: every connection the library uses in the workloads is a *Conn below, so that the
// monitors see every byte and can inject chunking, schedule points, failures and closes.

type stream struct {
	mu      sync.Mutex
	cond    *sync.Cond
	buf     []byte
	eof     bool  // writer closed
	rgone   bool  // reader closed
	rerr    error // injected read error
	wtotal  int64
	rtotal  int64
	log     []byte
	record  bool
	waiting int
	hold    bool   // what is written stays under way until the writer closes or releases it
	held    []byte // under way
}

// release delivers what was held; s.mu is held.
func (s *stream) release() {
	s.buf = append(s.buf, s.held...)
	s.hold, s.held = false, nil
	s.cond.Broadcast()
}

func newStream() *stream {
	s := &stream{}
	s.cond = sync.NewCond(&s.mu)
	return s
}

type ConnOpts struct {
	// ReadChunk returns the most bytes one Read may return (called under no lock); nil: unlimited.
	ReadChunk func() int
	// BeforeWrite runs before a write is applied; returning an error makes the write fail after `n` bytes.
	BeforeWrite func(c *Conn, p []byte) (n int, err error)
	// AfterWrite runs after a write was applied, before Write returns.
	AfterWrite func(c *Conn, p []byte)
	// Yield: give the scheduler chances around each operation.
	Yield bool
	// Record keeps every byte written.
	Record bool
	// RandYield yields a pseudo-random number of times from this seed.
	RandYield uint64
	// Room is how many bytes may be under way before writes block (0: any number).
	Room int
	// BeforeClose runs before a close takes effect (it may take time).
	BeforeClose func(c *Conn)
	// CloseErr is returned by the close that takes effect (what was written last could not be flushed).
	CloseErr error
	// EOFWithData: the last bytes are read together with the end of the stream, as io.Reader allows and TLS does.
	EOFWithData bool
}

type Conn struct {
	Name      string
	in, out   *stream
	la, ra    net.Addr
	o         ConnOpts
	closeOnce sync.Once
	closed    atomic.Bool
	Writes    atomic.Int64
	Closes    atomic.Int64
	Blocked   atomic.Int64 // writers waiting for room
	ctr       atomic.Uint64
	peer      *Conn
	OnClose   func()
	rdl, wdl  atomic.Int64 // deadlines, unix ns (0: none)
}

var portCtr atomic.Int64

// addrStyle: tcp addresses, as the lease agent splits host and port.
func nextAddr() *net.TCPAddr {
	p := portCtr.Add(1)
	return &net.TCPAddr{IP: net.IPv4(10, byte(p>>24), byte(p>>16), 1), Port: int(20000 + p%40000)}
}

// Pipe returns the two ends of a buffered in-memory connection.
func Pipe(ao, bo ConnOpts) (*Conn, *Conn) {
	return PipeAddr(ao, bo, nextAddr(), nextAddr())
}

func PipeAddr(ao, bo ConnOpts, aAddr, bAddr net.Addr) (*Conn, *Conn) {
	ab, ba := newStream(), newStream()
	ab.record, ba.record = ao.Record, bo.Record
	a := &Conn{Name: "a", in: ba, out: ab, la: aAddr, ra: bAddr, o: ao}
	b := &Conn{Name: "b", in: ab, out: ba, la: bAddr, ra: aAddr, o: bo}
	a.peer, b.peer = b, a
	return a, b
}

func (c *Conn) yield() {
	if c.o.RandYield != 0 {
		x := (c.ctr.Add(1) + c.o.RandYield) * 0x9e3779b97f4a7c15
		x ^= x >> 29
		for n := (x >> 7) % 4; n > 0; n-- {
			runtime.Gosched()
		}
		return
	}
	if c.o.Yield {
		runtime.Gosched()
	}
}

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.la, Addr: c.ra, Err: err}
}

func (c *Conn) Read(p []byte) (int, error) {
	c.yield()
	max := len(p)
	if c.o.ReadChunk != nil {
		if k := c.o.ReadChunk(); k > 0 && k < max {
			max = k
		}
	}
	s := c.in
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if c.closed.Load() {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(s.buf) > 0 {
			n := copy(p[:max], s.buf)
			s.buf = s.buf[n:]
			s.rtotal += int64(n)
			s.cond.Broadcast()
			if c.o.EOFWithData && len(s.buf) == 0 && s.rerr == nil && s.eof {
				return n, io.EOF
			}
			return n, nil
		}
		if s.rerr != nil {
			return 0, c.opErr("read", s.rerr)
		}
		if s.eof {
			return 0, io.EOF
		}
		if past(&c.rdl) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		s.waiting++
		s.cond.Wait()
		s.waiting--
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	c.yield()
	limit := len(p)
	var ferr error
	if c.o.BeforeWrite != nil {
		n, err := c.o.BeforeWrite(c, p)
		if err != nil {
			limit, ferr = n, c.opErr("write", err)
			if limit > len(p) {
				limit = len(p)
			}
		}
	}
	s := c.out
	s.mu.Lock()
	if c.closed.Load() {
		s.mu.Unlock()
		return 0, c.opErr("write", net.ErrClosed)
	}
	if past(&c.wdl) {
		s.mu.Unlock()
		return 0, c.opErr("write", os.ErrDeadlineExceeded)
	}
	for done := 0; ; {
		if s.rgone {
			s.mu.Unlock()
			return done, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		n := limit - done
		if c.o.Room > 0 && n > c.o.Room-len(s.buf) {
			n = max(c.o.Room-len(s.buf), 0)
		}
		if s.hold {
			s.held = append(s.held, p[done:done+n]...)
		} else {
			s.buf = append(s.buf, p[done:done+n]...)
		}
		s.wtotal += int64(n)
		if s.record {
			s.log = append(s.log, p[done:done+n]...)
		}
		if n > 0 {
			s.cond.Broadcast()
		}
		if done += n; done == limit {
			break
		}
		c.Blocked.Add(1)
		s.cond.Wait()
		c.Blocked.Add(-1)
		if c.closed.Load() {
			s.mu.Unlock()
			return done, c.opErr("write", net.ErrClosed)
		}
		if past(&c.wdl) {
			s.mu.Unlock()
			return done, c.opErr("write", os.ErrDeadlineExceeded)
		}
	}
	s.mu.Unlock()
	c.Writes.Add(1)
	if c.o.AfterWrite != nil {
		c.o.AfterWrite(c, p[:limit])
	}
	c.yield()
	if ferr != nil {
		return limit, ferr
	}
	return len(p), nil
}

func (c *Conn) Close() error {
	c.Closes.Add(1)
	if c.o.BeforeClose != nil {
		c.o.BeforeClose(c)
	}
	first := false
	c.closeOnce.Do(func() {
		first = true
		c.closed.Store(true)
		c.out.mu.Lock()
		c.out.eof = true
		c.out.release()
		c.out.mu.Unlock()
		c.in.mu.Lock()
		c.in.rgone = true
		c.in.cond.Broadcast()
		c.in.mu.Unlock()
		if c.OnClose != nil {
			c.OnClose()
		}
	})
	if !first {
		return c.opErr("close", net.ErrClosed)
	}
	if c.o.CloseErr != nil {
		return c.opErr("close", c.o.CloseErr)
	}
	return nil
}

// CloseWrite ends our direction only.
func (c *Conn) CloseWrite() {
	c.out.mu.Lock()
	c.out.eof = true
	c.out.release()
	c.out.mu.Unlock()
}

// Hold keeps what is written from now on under way until Release, CloseWrite or Close delivers it all at once.
func (c *Conn) Hold() {
	c.out.mu.Lock()
	c.out.hold = true
	c.out.mu.Unlock()
}

func (c *Conn) Release() {
	c.out.mu.Lock()
	c.out.release()
	c.out.mu.Unlock()
}

// FailReads makes reads at this end fail once buffered data was consumed.
func (c *Conn) FailReads(err error) {
	c.in.mu.Lock()
	c.in.rerr = err
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

// Drained blocks until the peer has consumed everything written so far (or closed).
func (c *Conn) Drained() {
	s := c.out
	s.mu.Lock()
	defer s.mu.Unlock()
	for len(s.buf) > 0 && !s.rgone {
		s.cond.Wait()
	}
}

func (c *Conn) IsClosed() bool { return c.closed.Load() }

// Sent returns a copy of everything written at this end (Record must be on).
func (c *Conn) Sent() []byte {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return append([]byte(nil), c.out.log...)
}

func (c *Conn) SentLen() int64 {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return c.out.wtotal
}

func (c *Conn) LocalAddr() net.Addr  { return c.la }
func (c *Conn) RemoteAddr() net.Addr { return c.ra }

func past(d *atomic.Int64) bool {
	v := d.Load()
	return v != 0 && time.Now().UnixNano() >= v
}

func deadlineNs(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	if n := t.UnixNano(); n > 0 {
		return n
	}
	return 1
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.rdl.Store(deadlineNs(t))
	wake := func() {
		c.in.mu.Lock()
		c.in.cond.Broadcast()
		c.in.mu.Unlock()
	}
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			time.AfterFunc(d, wake)
		}
	}
	wake()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.wdl.Store(deadlineNs(t))
	wake := func() {
		c.out.mu.Lock()
		c.out.cond.Broadcast()
		c.out.mu.Unlock()
	}
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			time.AfterFunc(d, wake)
		}
	}
	wake()
	return nil
}

// Idle reports whether the other end has taken everything written here and is waiting in Read (or is gone).
func (c *Conn) Idle() bool {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return len(c.out.buf) == 0 && (c.out.waiting > 0 || c.out.rgone)
}

// Settle gives the reader of what was written here real time to digest it, without ever blocking for good.
func (c *Conn) Settle() {
	for i := 0; i < 400; i++ {
		if c.Idle() {
			for k := 0; k < 20; k++ {
				runtime.Gosched()
			}
			nap(50 * time.Microsecond)
			if c.Idle() {
				return
			}
		}
		nap(20 * time.Microsecond)
	}
}

// nap sleeps in real time, also inside a synctest bubble.
func nap(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	syscall.Nanosleep(&ts, nil)
}

// Listener is an in-memory net.Listener.
type Listener struct {
	addr net.Addr
	mu   sync.Mutex
	cond *sync.Cond
	q    []net.Conn
	errs []error
	shut bool
	// waiting counts the calls to Accept in progress.
	waiting int
	// Accepts counts calls to Accept that returned.
	Accepts atomic.Int64
	Calls   atomic.Int64
}

func NewListener(addr net.Addr) *Listener {
	if addr == nil {
		addr = nextAddr()
	}
	l := &Listener{addr: addr}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *Listener) Accept() (net.Conn, error) {
	l.Calls.Add(1)
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if len(l.errs) > 0 {
			e := l.errs[0]
			l.errs = l.errs[1:]
			l.Accepts.Add(1)
			return nil, e
		}
		if l.shut {
			l.Accepts.Add(1)
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			l.Accepts.Add(1)
			return c, nil
		}
		l.waiting++
		l.cond.Wait()
		l.waiting--
	}
}

// Ready waits, in a bubble, until someone waits in Accept: after a failed one a server may pause for a while.
func (l *Listener) Ready() bool {
	for i := 0; i < 2000; i++ {
		synctest.Wait()
		l.mu.Lock()
		ok := l.waiting > 0 && len(l.errs) == 0 || l.shut
		l.mu.Unlock()
		if ok {
			return true
		}
		time.Sleep(50 * time.Millisecond)
	}
	return false
}

// Inject queues an error for Accept.
func (l *Listener) Inject(err error) {
	l.mu.Lock()
	l.errs = append(l.errs, err)
	l.cond.Broadcast()
	l.mu.Unlock()
}

func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.shut {
		return net.ErrClosed
	}
	l.shut = true
	for _, c := range l.q {
		c.Close()
	}
	l.q, l.errs = nil, nil
	l.cond.Broadcast()
	return nil
}

func (l *Listener) Addr() net.Addr { return l.addr }

// Offer hands a server-side end to Accept.
func (l *Listener) Offer(c net.Conn) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.shut {
		return errors.New("connection refused")
	}
	l.q = append(l.q, c)
	l.cond.Broadcast()
	return nil
}

// Dial connects to the listener: returns the client end; the server end (second result) goes to Accept.
func (l *Listener) Dial(co, so ConnOpts) (*Conn, *Conn, error) {
	a, b := PipeAddr(co, so, nextAddr(), l.addr)
	if err := l.Offer(b); err != nil {
		return nil, nil, err
	}
	return a, b, nil
}

// tempErr is a temporary accept error.
type tempErr struct{ s string }

func (e tempErr) Error() string   { return e.s }
func (e tempErr) Timeout() bool   { return false }
func (e tempErr) Temporary() bool { return true }

// Fabric maps addresses to listeners.
type Fabric struct {
	mu sync.Mutex
	m  map[string]*Listener
}

func NewFabric() *Fabric { return &Fabric{m: map[string]*Listener{}} }

func (f *Fabric) Listen(addr net.Addr) *Listener {
	l := NewListener(addr)
	f.mu.Lock()
	f.m[l.addr.String()] = l
	f.mu.Unlock()
	return l
}

func (f *Fabric) Dial(addr string, co, so ConnOpts) (*Conn, *Conn, error) {
	f.mu.Lock()
	l := f.m[addr]
	f.mu.Unlock()
	if l == nil {
		return nil, nil, fmt.Errorf("dial %s: connection refused", addr)
	}
	return l.Dial(co, so)
}

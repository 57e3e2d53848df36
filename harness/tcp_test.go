package harness

// The entry points that listen and dial themselves, over loopback TCP, with a forwarder that alters frames between them.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C06", "tcp", "ListenTCP and DialTCP with every combination of checks, frames altered by a forwarder between them", c06tcp)
	register("C12", "tcp", "ListenTCP and DialTCP with TLS, a forwarder between them looking at the bytes", c12tcp)
}

// forwarder passes the frames of one direction through alter, and the other bytes as they are.
type forwarder struct {
	l    net.Listener
	mu   sync.Mutex
	seen bytes.Buffer // both directions
	end  chan struct{}
}

func newForwarder(to string, toServer bool, alter func(k int, frame []byte)) *forwarder {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(setupError{err})
	}
	f := &forwarder{l: l, end: make(chan struct{})}
	go func() {
		defer close(f.end)
		a, err := l.Accept()
		l.Close()
		if err != nil {
			return
		}
		defer a.Close()
		b, err := net.Dial("tcp", to)
		if err != nil {
			return
		}
		defer b.Close()
		done := make(chan struct{}, 2)
		note := func(p []byte) {
			f.mu.Lock()
			f.seen.Write(p)
			f.mu.Unlock()
		}
		frames := func(dst, src net.Conn) {
			defer func() { done <- struct{}{} }()
			for k := 0; ; k++ {
				h := make([]byte, 12)
				if _, err := io.ReadFull(src, h); err != nil {
					return
				}
				p := make([]byte, binary.LittleEndian.Uint32(h))
				copy(p, h)
				if _, err := io.ReadFull(src, p[12:]); err != nil {
					return
				}
				note(p)
				alter(k, p)
				if _, err := dst.Write(p); err != nil {
					return
				}
			}
		}
		raw := func(dst, src net.Conn) {
			defer func() { done <- struct{}{} }()
			p := make([]byte, 4096)
			for {
				n, err := src.Read(p)
				note(p[:n])
				if n > 0 {
					if _, err := dst.Write(p[:n]); err != nil {
						return
					}
				}
				if err != nil {
					return
				}
			}
		}
		fwd, back := raw, raw
		if alter != nil && toServer {
			fwd = frames
		} else if alter != nil {
			back = frames
		}
		go fwd(b, a)
		go back(a, b)
		<-done
	}()
	return f
}

// until polls in real time, for a minute at most.
func until(f func() bool) bool {
	for t := time.Now(); time.Since(t) < time.Minute; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

type tcpGot struct {
	mu  sync.Mutex
	got map[string]int
}

func (g *tcpGot) add(m *transport.ByteArrayMessage) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.got == nil {
		g.got = map[string]int{}
	}
	g.got[string(m.Body)]++
}

func (g *tcpGot) n(s string) int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.got[s]
}

func (g *tcpGot) all() string {
	g.mu.Lock()
	defer g.mu.Unlock()
	return fmt.Sprint(g.got)
}

const (
	tcpMessages = 5
	tcpAltered  = 2
)

func tcpBody(i, k int) string { return fmt.Sprintf("message %d of case %d", k, i) }

func sendTcp(c transport.Conn, i int) error {
	for k := 0; k < tcpMessages; k++ {
		if err := c.SendOneWay(reqMsg(k, []byte(tcpBody(i, k)))); err != nil {
			return err
		}
	}
	return nil
}

func c06tcp(c *Ctx) {
	kinds := []string{"nothing", "header checksum", "body", "header"}
	n := 16 * 4 * 2 * c.N(1, 12)
	c.Cases("tcp", n, func(i int, r *rand.Rand) {
		j := i
		bit := func() bool { v := j&1 == 1; j >>= 1; return v }
		toServer, genH, chkH, genB, chkB := bit(), bit(), bit(), bit(), bit()
		kind := kinds[j%4]
		gen := transport.Config{DisableGenerateFrameHeaderCRC: !genH, GenerateFrameBodyCRC: genB, CheckFrameBodyCRC: r.IntN(2) == 0}
		chk := transport.Config{DisableCheckFrameHeaderCRC: !chkH, CheckFrameBodyCRC: chkB, GenerateFrameBodyCRC: true}
		if gen.CheckFrameBodyCRC && r.IntN(2) == 0 {
			chk.DisableGenerateFrameHeaderCRC = true
			gen.DisableCheckFrameHeaderCRC = true
		}
		what := fmt.Sprintf("to server %v, generates %v/%v, checks %v/%v, altered: %s", toServer, genH, genB, chkH, chkB, kind)
		scfg, ccfg := chk, gen
		if !toServer {
			scfg, ccfg = gen, chk
		}
		var atServer, atClient tcpGot
		s, err := transport.ListenTCP("127.0.0.1:0", transport.ServerConfig{Config: scfg, MessageCallback: func(x transport.Conn, m *transport.ByteArrayMessage) {
			atServer.add(m)
			if !toServer && string(m.Body) == "start" {
				sendTcp(x, i)
			}
		}})
		if err != nil {
			c.Inconclusive("ListenTCP: %v", err)
			return
		}
		served := Go("Serve", func() (any, error) { return nil, s.Serve() })
		// the first frame is the transport's own
		f := newForwarder(s.Addr().String(), toServer, func(k int, p []byte) {
			if k != 1+tcpAltered {
				return
			}
			h := int(binary.LittleEndian.Uint16(p[6:]))
			switch kind {
			case "header checksum":
				p[5] ^= byte(1 + r.IntN(255))
			case "body":
				p[len(p)-1-r.IntN(4)] ^= byte(1 + r.IntN(255))
			case "header":
				p[12+r.IntN(h)] ^= byte(1 + r.IntN(255))
			}
		})
		cl, err := transport.DialTCP(f.l.Addr().String(), transport.ClientConfig{Config: ccfg, MessageCallback: func(x transport.Conn, m *transport.ByteArrayMessage) { atClient.add(m) }})
		if err != nil {
			c.Violation("%s: DialTCP: %v", what, err)
			return
		}
		w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
		at := &atServer
		if toServer {
			if err := sendTcp(cl, i); err != nil && chkH == genH && chkB == genB && kind == "nothing" {
				c.Violation("%s: send: %v", what, err)
			}
		} else {
			at = &atClient
			cl.SendOneWay(reqMsg(99, []byte("start")))
		}
		good := (!chkH || genH) && (!chkB || genB)
		caught := good && (kind == "header checksum" && chkH || kind != "nothing" && kind != "header checksum" && chkB)
		switch {
		case good && kind == "nothing", good && kind == "header checksum" && !chkH:
			if !until(func() bool {
				for k := 0; k < tcpMessages; k++ {
					if at.n(tcpBody(i, k)) != 1 {
						return false
					}
				}
				return true
			}) {
				c.Violation("%s: what arrived: %s", what, at.all())
			}
			c.Count("passed", 1)
		case caught:
			select {
			case <-f.end:
			case <-time.After(time.Minute):
				c.Violation("%s: the connection goes on after an altered frame: %s", what, at.all())
			}
			if !until(func() bool { return at.n(tcpBody(i, 0)) == 1 && at.n(tcpBody(i, 1)) == 1 }) {
				c.Violation("%s: what came before the altered frame is lost: %s", what, at.all())
			}
			time.Sleep(time.Millisecond)
			at.mu.Lock()
			if len(at.got) != tcpAltered {
				c.Violation("%s: delivered: %v", what, at.got)
			}
			at.mu.Unlock()
			c.Count("caught", 1)
		case !good:
			// checked but not generated: a checksum of zero is right for one message in 256 at most
			select {
			case <-f.end:
			case <-time.After(time.Minute):
				c.Violation("%s: frames without checksums are accepted: %s", what, at.all())
			}
			c.Count("no_checksums", 1)
		}
		cl.Close()
		s.Close()
		c.returns(w, "after Close")
		c.returns(served, "after Close")
		select {
		case <-f.end:
		case <-time.After(time.Minute):
			c.Violation("%s: the socket of a closed connection stays open", what)
		}
		c.Saw(fmt.Sprintf("%d %s", i, what))
		c.StopIfFailed(1)
	})
	c.reached("passed")
	c.reached("caught")
	c.reached("no_checksums")
}

func c12tcp(c *Ctx) {
	thePKI()
	c.Cases("tcp", c.N(60, 600), func(i int, r *rand.Rand) {
		ss := newTLSSetup(r, i)
		what := ss.desc
		mode := []string{"both", "both", "both", "only server", "only client", "refused"}[i%6]
		sc, cc := ss.server, ss.client
		switch mode {
		case "only server":
			cc = nil
		case "only client":
			sc = nil
		case "refused":
			cc.RootCAs, cc.InsecureSkipVerify, cc.ServerName = nil, false, "nobody.test"
		}
		var atServer, atClient tcpGot
		s, err := transport.ListenTCP("127.0.0.1:0", transport.ServerConfig{Config: transport.Config{TLS: sc}, MessageCallback: func(x transport.Conn, m *transport.ByteArrayMessage) {
			atServer.add(m)
			if string(m.Body) == tcpBody(i, 0) {
				sendTcp(x, -i-1)
			}
		}})
		if err != nil {
			c.Inconclusive("ListenTCP: %v", err)
			return
		}
		served := Go("Serve", func() (any, error) { return nil, s.Serve() })
		f := newForwarder(s.Addr().String(), true, nil)
		var cl *transport.Client
		dial := Go("DialTCP", func() (any, error) {
			x, err := transport.DialTCP(f.l.Addr().String(), transport.ClientConfig{Config: transport.Config{TLS: cc}, MessageCallback: func(x transport.Conn, m *transport.ByteArrayMessage) { atClient.add(m) }})
			cl = x
			return nil, err
		})
		if !c.returns(dial, what) {
			return
		}
		_, derr := dial.Get()
		switch mode {
		case "both":
			if derr != nil {
				c.Violation("%s: DialTCP: %v", what, derr)
				return
			}
			w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
			if err := sendTcp(cl, i); err != nil {
				c.Violation("%s: send: %v", what, err)
			}
			ok := until(func() bool {
				for k := 0; k < tcpMessages; k++ {
					if atServer.n(tcpBody(i, k)) != 1 || atClient.n(tcpBody(-i-1, k)) != 1 {
						return false
					}
				}
				return true
			})
			if !ok {
				c.Violation("%s: arrived: %s and %s", what, atServer.all(), atClient.all())
			}
			cl.Close()
			c.returns(w, "after Close")
			c.Count("good", 1)
		case "refused", "only client":
			if derr == nil {
				c.Violation("%s: DialTCP succeeds (%s)", what, mode)
				cl.Close()
			}
			c.Count(strings.ReplaceAll(mode, " ", "_"), 1)
		case "only server":
			if derr == nil {
				cl.SendOneWay(reqMsg(1, []byte(tcpBody(i, 1))))
				w := Go("Wait", func() (any, error) { return nil, cl.Wait() })
				c.returns(w, "with a server that wants TLS")
				if atServer.n(tcpBody(i, 1)) > 0 {
					c.Violation("%s: a server with TLS delivers what came in clear: %s", what, atServer.all())
				}
				cl.Close()
			}
			c.Count("only_server", 1)
		}
		s.Close()
		c.returns(served, "after Close")
		select {
		case <-f.end:
		case <-time.After(time.Minute):
			c.Violation("%s: the socket of a closed connection stays open", what)
		}
		f.mu.Lock()
		if mode == "both" && bytes.Contains(f.seen.Bytes(), []byte("message 0 of case")) {
			c.Violation("%s: a message crosses the wire in clear", what)
		}
		f.mu.Unlock()
		c.Saw(fmt.Sprintf("%d %s %s", i, mode, what))
		c.StopIfFailed(1)
	})
	c.reached("good")
	c.reached("refused")
	c.reached("only_server")
	c.reached("only_client")
}

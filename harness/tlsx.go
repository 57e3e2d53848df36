package harness

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"math/big"
	"math/rand/v2"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tg123/phabrik/transport"
)

// Certificates are valid from 1990, as virtual time starts in 2000.

type pki struct {
	ca, otherCA   *x509.Certificate
	caKey, oKey   crypto.Signer
	pool          *x509.CertPool
	srv           []tls.Certificate // ecdsa, rsa, with many names, with a chain
	cli           []tls.Certificate
	srvExpired    tls.Certificate
	srvOther      tls.Certificate // by the other CA
	srvWrongName  tls.Certificate
	cliOther      tls.Certificate
	cliExpired    tls.Certificate
	cliWrongUsage tls.Certificate
}

var thePKI = sync.OnceValue(makePKI)

const serverName = "node.fabric.test"

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func makePKI() *pki {
	serial := int64(1)
	from, to := time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC)
	newCA := func(name string) (*x509.Certificate, crypto.Signer) {
		k := must(ecdsa.GenerateKey(elliptic.P256(), crand.Reader))
		serial++
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: from, NotAfter: to, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
		d := must(x509.CreateCertificate(crand.Reader, t, t, k.Public(), k))
		return must(x509.ParseCertificate(d)), k
	}
	p := &pki{}
	p.ca, p.caKey = newCA("root")
	p.otherCA, p.oKey = newCA("other root")
	p.pool = x509.NewCertPool()
	p.pool.AddCert(p.ca)
	leaf := func(k crypto.Signer, ca *x509.Certificate, cak crypto.Signer, usage x509.ExtKeyUsage, to time.Time, names ...string) tls.Certificate {
		serial++
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "leaf"}, NotBefore: from, NotAfter: to, DNSNames: names, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment, ExtKeyUsage: []x509.ExtKeyUsage{usage}}
		d := must(x509.CreateCertificate(crand.Reader, t, ca, k.Public(), cak))
		return tls.Certificate{Certificate: [][]byte{d}, PrivateKey: k}
	}
	ek := must(ecdsa.GenerateKey(elliptic.P256(), crand.Reader))
	rk := must(rsa.GenerateKey(crand.Reader, 2048))
	many := []string{serverName}
	for i := 0; i < 900; i++ {
		many = append(many, fmt.Sprintf("name-%d.of.a.very.long.list.of.alternative.names.fabric.test", i))
	}
	expired := time.Date(1995, 1, 1, 0, 0, 0, 0, time.UTC)
	const su, cu = x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth
	p.srv = []tls.Certificate{leaf(ek, p.ca, p.caKey, su, to, serverName), leaf(rk, p.ca, p.caKey, su, to, serverName), leaf(ek, p.ca, p.caKey, su, to, many...)}
	chain := leaf(rk, p.ca, p.caKey, su, to, serverName)
	chain.Certificate = append(chain.Certificate, p.ca.Raw, p.otherCA.Raw)
	p.srv = append(p.srv, chain)
	p.cli = []tls.Certificate{leaf(ek, p.ca, p.caKey, cu, to, "client"), leaf(rk, p.ca, p.caKey, cu, to, "client"), leaf(ek, p.ca, p.caKey, cu, to, many...)}
	p.srvExpired = leaf(ek, p.ca, p.caKey, su, expired, serverName)
	p.srvOther = leaf(ek, p.otherCA, p.oKey, su, to, serverName)
	p.srvWrongName = leaf(ek, p.ca, p.caKey, su, to, "elsewhere.test")
	p.cliOther = leaf(ek, p.otherCA, p.oKey, cu, to, "client")
	p.cliExpired = leaf(ek, p.ca, p.caKey, cu, expired, "client")
	p.cliWrongUsage = leaf(ek, p.ca, p.caKey, su, to, "client")
	return p
}

type tlsSetup struct {
	client, server *tls.Config
	ver            uint16
	clientAuth     bool
	cache          bool
	desc           string
}

// newTLSSetup: configuration number i walks through versions, client certificates, resumption, certificate kinds and
// hello retries.
func newTLSSetup(r *rand.Rand, i int) *tlsSetup {
	p := thePKI()
	s := &tlsSetup{client: &tls.Config{RootCAs: p.pool, ServerName: serverName}, server: &tls.Config{ClientCAs: p.pool}}
	s.server.Certificates = []tls.Certificate{p.srv[r.IntN(len(p.srv))]}
	if i%2 == 0 {
		s.ver = tls.VersionTLS12
	} else {
		s.ver = tls.VersionTLS13
	}
	switch r.IntN(3) {
	case 0:
		s.client.MaxVersion = s.ver
	case 1:
		s.server.MaxVersion = s.ver
	default:
		s.client.MinVersion, s.client.MaxVersion = s.ver, s.ver
	}
	ca := (i / 2) % 3
	if ca > 0 {
		s.clientAuth = true
		s.server.ClientAuth = []tls.ClientAuthType{0, tls.RequireAndVerifyClientCert, tls.RequestClientCert}[ca]
		if ca == 1 || r.IntN(2) == 0 {
			s.client.Certificates = []tls.Certificate{p.cli[r.IntN(len(p.cli))]}
		}
	}
	if (i/6)%2 == 0 {
		s.cache = true
		s.client.ClientSessionCache = tls.NewLRUClientSessionCache(4)
	}
	hrr := r.IntN(4) == 0
	if hrr {
		// the client offers a share the server does not take, so that 1.3 needs a hello retry
		s.client.CurvePreferences = []tls.CurveID{tls.X25519, tls.CurveP384}
		s.server.CurvePreferences = []tls.CurveID{tls.CurveP384}
	}
	if r.IntN(4) == 0 {
		s.server.SessionTicketsDisabled = true
	}
	if r.IntN(4) == 0 {
		s.client.RootCAs, s.client.ServerName, s.client.InsecureSkipVerify = nil, "", true
	}
	s.desc = fmt.Sprintf("tls %#x auth %v cache %v retry %v", s.ver, s.server.ClientAuth, s.cache, hrr)
	return s
}

// secureEnd is the harness's own implementation of the framed handshake, for either side.
type secureEnd struct {
	net.Conn
	server    bool
	mu        sync.Mutex
	raw       bool
	rbuf      bytes.Buffer
	handFrame []Frame
	handMsgs  []*WM
	sent      bool
	idx       uint32
	// First replaces the first frame's headers when set; Extra is added to each of them.
	Extra []RawHeader
	// Split cuts handshake writes into frames of at most this many bytes
	Split int
	bad   error
}

func (s *secureEnd) Read(p []byte) (int, error) {
	if s.rbuf.Len() > 0 {
		return s.rbuf.Read(p)
	}
	s.mu.Lock()
	raw := s.raw
	s.mu.Unlock()
	if raw {
		return s.Conn.Read(p)
	}
	f, err := readFrame(s.Conn)
	if err != nil {
		return 0, err
	}
	m, err := parseWM(f)
	if err != nil {
		return 0, err
	}
	s.mu.Lock()
	s.handFrame, s.handMsgs = append(s.handFrame, f), append(s.handMsgs, m)
	s.mu.Unlock()
	s.rbuf.Write(m.Body)
	if len(m.Body) == 0 {
		return 0, io.ErrNoProgress
	}
	return s.rbuf.Read(p)
}

func (s *secureEnd) Write(p []byte) (int, error) {
	s.mu.Lock()
	raw := s.raw
	s.mu.Unlock()
	// what a TLS 1.3 server sends encrypted after its first flight finds a client that has already finished
	if raw || (s.server && p[0] == 23) {
		return s.Conn.Write(p)
	}
	split := s.Split
	if split <= 0 {
		split = len(p)
	}
	for b := p; len(b) > 0; {
		n := min(split, len(b))
		s.idx++
		m := &WM{Actor: int64(transport.MessageActorTypeSecurityContext), Body: b[:n]}
		m.Id.Id.Data1, m.Id.Index = 0x5ec, s.idx
		if !s.sent {
			m.Custom = append(m.Custom, RawHeader{hNego, RefEncode(&negoHeader{true, true}, RefOpts{})})
			s.sent = true
		}
		m.Custom = append(m.Custom, s.Extra...)
		if _, err := s.Conn.Write(m.encode(frameOpt{Mask: 1, NoHCRC: true})); err != nil {
			return 0, err
		}
		b = b[n:]
	}
	return len(p), nil
}

type negoHeader struct{ X509ExtraFramingEnabled, FramingProtectionEnabled bool }

// tlsEnd is a net.Conn of application bytes over the framed handshake.
type tlsEnd struct {
	*tls.Conn
	s    *secureEnd
	once atomic.Bool
	done chan struct{} // others wait here for the handshake, as virtual time stops for locks
	err  error
}

func (t *tlsEnd) hand() error {
	if t.once.CompareAndSwap(false, true) {
		t.err = t.Conn.Handshake()
		t.s.mu.Lock()
		t.s.raw = true
		t.s.mu.Unlock()
		close(t.done)
	}
	<-t.done
	return t.err
}

func (t *tlsEnd) Read(p []byte) (int, error) {
	if err := t.hand(); err != nil {
		return 0, err
	}
	return t.Conn.Read(p)
}

func (t *tlsEnd) Write(p []byte) (int, error) {
	if err := t.hand(); err != nil {
		return 0, err
	}
	return t.Conn.Write(p)
}

func newTLSEnd(conn net.Conn, cfg *tls.Config, server bool) *tlsEnd {
	s := &secureEnd{Conn: conn, server: server}
	t := &tlsEnd{s: s, done: make(chan struct{})}
	if server {
		t.Conn = tls.Server(s, cfg)
	} else {
		t.Conn = tls.Client(s, cfg)
	}
	return t
}

// TLSWirePeer is a WirePeer inside TLS.
type TLSWirePeer struct {
	*WirePeer
	T *tlsEnd
}

func newTLSPeer(conn net.Conn, cfg *tls.Config, server bool, on func(p *WirePeer, m *WM), set func(*secureEnd)) *TLSWirePeer {
	t := newTLSEnd(conn, cfg, server)
	if set != nil {
		set(t.s)
	}
	p := newWirePeer(t, on, frameOpt{Mask: 1, NoHCRC: true})
	return &TLSWirePeer{p, t}
}

// NewTLSWirePeer is the server's side.
func NewTLSWirePeer(conn net.Conn, cfg *tls.Config, on func(p *WirePeer, m *WM)) *TLSWirePeer {
	return newTLSPeer(conn, cfg, true, on, nil)
}

// NewTLSWireClient is the client's side.
func NewTLSWireClient(conn net.Conn, cfg *tls.Config, on func(p *WirePeer, m *WM)) *TLSWirePeer {
	return newTLSPeer(conn, cfg, false, on, nil)
}

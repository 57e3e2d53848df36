package harness

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"math/rand/v2"
	"net"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C20", "history", "histories of partner announcements over several connections, watched continuously and compared with a model at quiescence", c20history)
	register("C20", "contention", "the same partners announced by several connections at the same instant", c20contention)
	register("C21", "routes", "messages to generated node ids among generated partners: who is dialled, what arrives, what Route returns", c21routes)
	register("C21", "ends", "routed requests whose context, connection or node ends, whose reply is late, strange or an error", c21ends)
	register("C22", "bootstrap", "bootstrap with announcements at every point of its loop, in virtual time", c22bootstrap)
	register("C22", "discover", "discovery of generated graphs of nodes with delays, restarts and dead nodes, in virtual time", c22discover)
}

// the harness's own idea of the federation headers
type fnPartner struct {
	Instance  gwInstance
	Phase     int64
	Address   string
	Token     fnToken
	LeaseAddr string
	LeaseInst int64
	EndToEnd  bool
	Domain    gwUri
	Ring      string
	Flags     int32
}

type fnToken struct {
	Range   federation.NodeIdRange
	Version uint64
}

type fnPToP struct {
	From, To         gwInstance
	Actor            int64
	FromRing, ToRing string
	Exact            bool
}

type fnRouting struct {
	From, To               gwInstance
	Id                     serialization.GUID
	Index                  uint32
	UseExact, ExpectsReply bool
	Expiration, Retry      int64
	FromRing, ToRing       string
}

const (
	hPartner = 0x800c
	hRouting = 0x8010
	hPToP    = 0x8013
)

func partnerOf(p federation.PartnerNodeInfo) fnPartner {
	return fnPartner{instOf(p.Instance), int64(p.Phase), p.Address, fnToken{p.Token.Range, p.Token.Version}, p.LeaseAgentAddress, p.LeaseAgentInstanceId, p.EndToEnd, uriOf(p.NodeFaultDomainId), p.RingName, 0}
}

func (p fnPartner) header() RawHeader { return RawHeader{hPartner, RefEncode(&p, RefOpts{})} }

// newer: the order in which knowledge about one node may advance.
func (p fnPartner) rank() [2]int64 { return [2]int64{int64(p.Instance.Instance), p.Phase} }

func rankLess(a, b [2]int64) bool {
	if a[0] != b[0] {
		return uint64(a[0]) < uint64(b[0])
	}
	return a[1] < b[1]
}

// fedNode is one fake node of the federation.
type fedNode struct {
	id    federation.NodeID
	l     *Listener
	mu    sync.Mutex
	peers []*WirePeer
	msgs  []fedMsg
	on    func(n *fedNode, p *WirePeer, m *WM)
}

type fedMsg struct {
	m  *WM
	p  *WirePeer
	at time.Time
}

func (n *fedNode) got() []fedMsg {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]fedMsg(nil), n.msgs...)
}

func (n *fedNode) lastPeer() *WirePeer {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.peers) == 0 {
		return nil
	}
	return n.peers[len(n.peers)-1]
}

func (n *fedNode) conns() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.peers)
}

func (n *fedNode) addr() string { return n.l.addr.String() }

// fedWorld is the site node under test with the fake nodes around it.
type fedWorld struct {
	c       *Ctx
	f       *Fabric
	self    federation.NodeInstance
	node    *federation.SiteNode
	srv     *transport.Server
	srvL    *Listener
	leaseL  *Listener
	agent   *lease.Agent
	dials   atomic.Int64
	nodes   map[federation.NodeID]*fedNode
	serve   *Op
	mu      sync.Mutex
	dialled []string
	ends    []*Conn // node's ends of the connections it dialled
	clients []net.Conn
	onDial  func(addr string) error
	// serveNode: the node's own Serve runs, not only its transport server's
	serveNode   bool
	beforeServe func()
	secure      *tlsSetup
}

// sometimesSecure: a part of the worlds uses TLS between nodes.
func (w *fedWorld) sometimesSecure(r *rand.Rand, i int) {
	if i%4 == 3 {
		w.secure = newTLSSetup(r, i/4)
		w.c.Count("worlds_with_tls", 1)
	}
}

// rawConn is the in-memory connection below a peer's.
func rawConn(c net.Conn) *Conn {
	if t, ok := c.(*tlsEnd); ok {
		return t.s.Conn.(*Conn)
	}
	return c.(*Conn)
}

func (w *fedWorld) newNode(id federation.NodeID, on func(n *fedNode, p *WirePeer, m *WM)) *fedNode {
	n := &fedNode{id: id, l: w.f.Listen(nil), on: on}
	go func() {
		for {
			conn, err := n.l.Accept()
			if err != nil {
				return
			}
			on := func(p *WirePeer, m *WM) {
				if !isApp(m) {
					return
				}
				n.mu.Lock()
				n.msgs = append(n.msgs, fedMsg{m, p, time.Now()})
				n.mu.Unlock()
				if n.on != nil {
					n.on(n, p, m)
				}
			}
			var p *WirePeer
			if w.secure != nil {
				p = NewTLSWirePeer(conn, w.secure.server, on).WirePeer
			} else {
				p = newWirePeer(conn, on, frameOpt{})
			}
			n.mu.Lock()
			n.peers = append(n.peers, p)
			n.mu.Unlock()
			go p.SendInit()
		}
	}()
	w.nodes[id] = n
	return n
}

func newFedWorld(c *Ctx, self federation.NodeInstance) *fedWorld {
	return &fedWorld{c: c, f: NewFabric(), self: self, nodes: map[federation.NodeID]*fedNode{}}
}

// start creates the site node.
func (w *fedWorld) start(seeds []federation.SeedNodeInfo) {
	w.srvL = w.f.Listen(nil)
	w.leaseL = w.f.Listen(nil)
	var err error
	var scfg, ccfg transport.Config
	if w.secure != nil {
		scfg.TLS, ccfg.TLS = w.secure.server, w.secure.client
	}
	if w.srv, err = transport.Listen(w.srvL, transport.ServerConfig{Config: scfg}); err != nil {
		panic(setupError{err})
	}
	cfg := lease.AgentConfig{AppId: "verif"}
	cfg.SetDefault()
	w.agent, err = lease.NewAgent(cfg, w.leaseL, func(addr string) (net.Conn, error) {
		a, _, err := w.f.Dial(addr, ConnOpts{}, ConnOpts{})
		return a, err
	})
	if err != nil {
		panic(setupError{err})
	}
	w.node, err = federation.NewSiteNode(federation.SiteNodeConfig{
		ClientDialer: func(addr string) (*transport.Client, error) {
			w.mu.Lock()
			w.dialled = append(w.dialled, addr)
			od := w.onDial
			w.mu.Unlock()
			if od != nil {
				if err := od(addr); err != nil {
					return nil, err
				}
			}
			o := ConnOpts{Yield: true}
			if w.dials.Add(1)%3 == 0 {
				o.CloseErr = syscall.ECONNRESET
			}
			a, _, err := w.f.Dial(addr, o, ConnOpts{})
			if err != nil {
				return nil, err
			}
			w.mu.Lock()
			w.ends = append(w.ends, a)
			w.mu.Unlock()
			return transport.Connect(a, transport.ClientConfig{Config: ccfg})
		},
		TransportServer: w.srv,
		LeaseAgent:      w.agent,
		Instance:        w.self,
		SeedNodes:       seeds,
	})
	if err != nil {
		panic(setupError{err})
	}
	if w.beforeServe != nil {
		w.beforeServe()
	}
	if w.serveNode {
		w.serve = Go("Serve", func() (any, error) { return nil, w.node.Serve() })
	} else {
		w.serve = Go("Serve", func() (any, error) { return nil, w.srv.Serve() })
	}
}

// in opens a connection to the node's server.
func (w *fedWorld) in(on func(p *WirePeer, m *WM)) *WirePeer {
	a, _, err := w.srvL.Dial(ConnOpts{}, ConnOpts{})
	if err != nil {
		panic(setupError{err})
	}
	w.clients = append(w.clients, a)
	var p *WirePeer
	if w.secure != nil {
		p = NewTLSWireClient(a, w.secure.client, on).WirePeer
	} else {
		p = newWirePeer(a, on, frameOpt{})
	}
	p.SendInit()
	return p
}

func (w *fedWorld) announce(p *WirePeer, l ...fnPartner) error {
	m := &WM{Actor: 2, Action: "VotePingReply"}
	for _, x := range l {
		m.Custom = append(m.Custom, x.header())
	}
	return p.Send(m)
}

// stop ends everything.
func (w *fedWorld) stop() {
	w.node.Close()
	for _, n := range w.nodes {
		n.l.Close()
		for _, p := range n.peers {
			p.C.Close()
		}
	}
	for _, x := range w.clients {
		x.Close()
	}
	synctest.Wait()
}

// genInfo makes information about a node, marked so that it can be recognised.
func genInfo(r *rand.Rand, id federation.NodeID, mark string) fnPartner {
	var p fnPartner
	if r.IntN(3) == 0 {
		fillAny(r, &p, 1)
		p.Address, p.Domain.Segments = genString(r, 4), nil
	}
	p.Instance.Id = id
	p.Instance.Instance = uint64(r.IntN(5))
	switch r.IntN(10) {
	case 0:
		p.Instance.Instance = 0
	case 1:
		p.Instance.Instance = 1<<63 + uint64(r.IntN(2))
	case 2:
		p.Instance.Instance = ^uint64(0)
	}
	p.Phase = int64(r.IntN(5))
	if r.IntN(8) == 0 {
		p.Phase = pick(r, []int64{5, 6, 100, 1 << 40, 1<<63 - 1, -1})
	}
	p.Ring = mark
	return p
}

func allPartners(federation.PartnerNodeInfo) bool { return true }

func c20history(c *Ctx) {
	thePKI()
	n := c.N(150, 1500)
	c.Cases("history", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			self := federation.NodeInstance{Id: genNodeID(r), InstanceId: 77}
			w := newFedWorld(c, self)
			w.sometimesSecure(r, i)
			var ids []federation.NodeID
			for k := 1 + r.IntN(5); k > 0; k-- {
				ids = append(ids, genNodeID(r))
			}
			sent := map[federation.NodeID][]fnPartner{}
			var seeds []federation.SeedNodeInfo
			for k, id := range ids {
				if k == 0 || r.IntN(2) == 0 {
					n := w.newNode(id, nil)
					seeds = append(seeds, federation.SeedNodeInfo{Id: id, Address: n.addr()})
					sent[id] = append(sent[id], fnPartner{Instance: gwInstance{Id: id}, Address: n.addr()})
				}
			}
			// a node that answers routed requests with what it was told to announce
			var answers sync.Map
			asker := w.newNode(federation.NodeID{Hi: 0xa5ce, Lo: r.Uint64()}, func(n *fedNode, p *WirePeer, m *WM) {
				if l, ok := answers.LoadAndDelete(m.Action); ok {
					w.c.Count("announced_in_replies", 1)
					reply := l.(*WM)
					p.Reply(m, reply)
				}
			})
			seeds = append(seeds, federation.SeedNodeInfo{Id: asker.id, Address: asker.addr()})
			sent[asker.id] = append(sent[asker.id], fnPartner{Instance: gwInstance{Id: asker.id}, Address: asker.addr()})
			w.start(seeds)
			var asks atomic.Int64
			viaReply := i%3 == 0
			say := func(rs *rand.Rand, p *WirePeer, l []fnPartner) {
				m := &WM{Id: genMsgId(rs), Actor: 2, Action: "VotePingReply"}
				if rs.IntN(3) == 0 { // whatever else the message is
					m.Actor, m.Action = pick(rs, []int64{2, 3, 5, 0x10000, 29}), pick(rs, []string{"", "Fault", "VotePing", "Route", "x"})
					m.ExpectsReply, m.Idempotent, m.HighPriority = rs.IntN(2) == 0, rs.IntN(2) == 0, rs.IntN(2) == 0
					m.Body = genBytes(rs, 20)
				}
				if rs.IntN(6) == 0 {
					m.RelatesTo = genMsgId(rs)
				}
				if rs.IntN(6) == 0 {
					m.Err = int64(rs.IntN(3)) - 1
				}
				if rs.IntN(6) == 0 {
					m.HasFault = true
				}
				for _, x := range l {
					if rs.IntN(5) == 0 {
						m.Custom = append(m.Custom, RawHeader{0x9000, genBytes(rs, 9)})
					}
					m.Custom = append(m.Custom, x.header())
				}
				if viaReply && rs.IntN(2) == 0 {
					action := fmt.Sprintf("ask %d", asks.Add(1))
					m.RelatesTo = transport.MessageId{}
					answers.Store(action, m)
					ctx, cancel := context.WithTimeout(bg, time.Hour)
					defer cancel()
					if v, err := w.node.Route(ctx, asker.id, fedMsgOf(action)); err != nil && m.Err == 0 {
						c.Violation("Route: %v, %v", v, err)
					}
					return
				}
				p.Send(m)
			}
			var mu sync.Mutex // guards sent
			stop := make(chan struct{})
			watchers := 1 + r.IntN(2)
			var wg sync.WaitGroup
			serialMode := i%2 == 0
			check := func(last map[federation.NodeID][2]int64) {
				for _, p := range w.node.KnownPartnerNodes(allPartners) {
					x := partnerOf(p)
					id := p.Instance.Id
					mu.Lock()
					l := sent[id]
					mu.Unlock()
					found := false
					for _, y := range l {
						if y.Flags = 0; diffAny(x, y) == "" {
							found = true
							break
						}
					}
					if !found {
						c.Violation("known about %v: %+v, which nobody sent", id, x)
					}
					if old, ok := last[id]; ok && rankLess(x.rank(), old) {
						c.Violation("knowledge about %v goes back from (instance, phase) %v to %v", id, old, x.rank())
					}
					last[id] = x.rank()
				}
				c.Count("snapshots", 1)
			}
			conns := 1 + r.IntN(4)
			per := 3 + r.IntN(10)
			plans := make([][][]fnPartner, conns)
			for k := range plans {
				for q := 0; q < per; q++ {
					var l []fnPartner
					for z := 1 + r.IntN(4); z > 0; z-- {
						id := pick(r, ids)
						x := genInfo(r, id, fmt.Sprintf("%d/%d/%d/%d", i, k, q, z))
						l = append(l, x)
						sent[id] = append(sent[id], x)
					}
					plans[k] = append(plans[k], l)
				}
			}
			var peers []*WirePeer
			for range plans {
				peers = append(peers, w.in(nil))
			}
			// one of the streams of announcements may come over a connection that the node dialled
			if r.IntN(2) == 0 {
				w.node.SendOneWay(seeds[0].Id, &transport.Message{Headers: transport.MessageHeaders{Actor: 2, Action: "Hello"}})
				time.Sleep(time.Millisecond)
				if p := w.nodes[seeds[0].Id].lastPeer(); p != nil {
					peers[0] = p
				}
			}
			for k := 0; k < watchers; k++ {
				last := map[federation.NodeID][2]int64{}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-stop:
							return
						default:
						}
						check(last)
						if serialMode {
							time.Sleep(time.Millisecond)
						}
					}
				}()
			}
			var last map[federation.NodeID][2]int64
			if serialMode {
				last = map[federation.NodeID][2]int64{}
			}
			if serialMode {
				// one message after the other: the model is exact after each
				best := map[federation.NodeID]fnPartner{}
				for _, s := range seeds {
					best[s.Id] = sent[s.Id][0]
				}
				for q := 0; q < per; q++ {
					for k := range plans {
						say(r, peers[k], plans[k][q])
						time.Sleep(time.Millisecond)
						check(last)
						for _, x := range plans[k][q] {
							if o, ok := best[x.Instance.Id]; !ok || rankLess(o.rank(), x.rank()) {
								best[x.Instance.Id] = x
							}
						}
						for id, b := range best {
							if last[id] != b.rank() {
								c.Violation("known about %v: (instance, phase) %v, newest information received %v", id, last[id], b.rank())
							}
						}
					}
				}
			} else {
				var sg sync.WaitGroup
				for k := range plans {
					sg.Add(1)
					rs := c.rng(fmt.Sprintf("say%d", k), i)
					go func() {
						defer sg.Done()
						for _, l := range plans[k] {
							say(rs, peers[k], l)
						}
					}()
				}
				sg.Wait()
				for _, p := range peers { // the watchers never rest: virtual time stands still
					rawConn(p.C).Settle()
				}
				nap(time.Millisecond)
			}
			close(stop)
			wg.Wait()
			synctest.Wait()
			got := map[federation.NodeID]fnPartner{}
			for _, p := range w.node.KnownPartnerNodes(allPartners) {
				if _, dup := got[p.Instance.Id]; dup {
					c.Violation("partner %v is listed twice", p.Instance.Id)
				}
				got[p.Instance.Id] = partnerOf(p)
			}
			for id, l := range sent {
				best := l[0]
				for _, x := range l {
					if rankLess(best.rank(), x.rank()) {
						best = x
					}
				}
				x, ok := got[id]
				if !ok {
					c.Violation("nothing is known about %v", id)
				} else if x.rank() != best.rank() {
					c.Violation("known about %v: (instance, phase) %v, newest information received %v", id, x.rank(), best.rank())
				}
			}
			if len(got) != len(sent) {
				c.Violation("%d partners known, %d mentioned", len(got), len(sent))
			}
			filtered := w.node.KnownPartnerNodes(func(p federation.PartnerNodeInfo) bool { return p.Instance.InstanceId > 1 })
			for _, p := range filtered {
				if p.Instance.InstanceId <= 1 {
					c.Violation("KnownPartnerNodes does not filter")
				}
			}
			c.Count("announcements", int64(conns*per))
			c.Saw(fmt.Sprintf("%d/%d/%d", i, conns, per))
			w.stop()
		})
		c.StopIfFailed(3)
	})
}

func c20contention(c *Ctx) {
	n := c.N(60, 800)
	c.Cases("contention", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			w := newFedWorld(c, federation.NodeInstance{Id: genNodeID(r), InstanceId: 1})
			seed := w.newNode(federation.NodeID{Hi: 1, Lo: 1}, nil)
			w.start([]federation.SeedNodeInfo{{Id: seed.id, Address: seed.addr()}})
			conns := 2 + r.IntN(6)
			const ids = 250
			var peers []*WirePeer
			for k := 0; k < conns; k++ {
				peers = append(peers, w.in(nil))
			}
			rounds := 6
			byPhase := i%2 == 1
			best := map[federation.NodeID][2]int64{}
			for q := 0; q < rounds; q++ {
				var gate sync.WaitGroup
				gate.Add(1)
				var sg sync.WaitGroup
				for k := 0; k < conns; k++ {
					m := &WM{Actor: 2, Action: "Announce"}
					for z := 0; z < ids; z++ {
						id := federation.NodeID{Hi: uint64(q) + 10, Lo: uint64(z)}
						p := fnPartner{Instance: gwInstance{id, uint64(1 + r.IntN(9))}, Phase: int64(r.IntN(5))}
						if byPhase {
							p.Instance.Instance = 3
						}
						if o, ok := best[id]; !ok || rankLess(o, p.rank()) {
							best[id] = p.rank()
						}
						m.Custom = append(m.Custom, p.header())
					}
					sg.Add(1)
					go func() {
						defer sg.Done()
						gate.Wait()
						peers[k].Send(m)
					}()
				}
				gate.Done()
				sg.Wait()
				synctest.Wait()
			}
			wrong := 0
			got := map[federation.NodeID][2]int64{}
			for _, p := range w.node.KnownPartnerNodes(allPartners) {
				got[p.Instance.Id] = partnerOf(p).rank()
			}
			for id, b := range best {
				c.Count("partners", 1)
				if got[id] != b {
					wrong++
					if wrong == 1 {
						c.Violation("known about %v at the end: (instance, phase) %v, newest information received %v", id, got[id], b)
					}
				}
			}
			c.Saw(fmt.Sprintf("%d/%d", i, conns))
			w.stop()
		})
		c.StopIfFailed(1)
	})
}

// ---------------------------------------------------------------------------------------------------------

var ring = new(big.Int).Lsh(big.NewInt(1), 128)

// clockwise distance from target to id on the ring.
func ringDistance(id, target federation.NodeID) *big.Int {
	d := new(big.Int).Sub(bigOf(id), bigOf(target))
	return d.Mod(d, ring)
}

func bigOf(n federation.NodeID) *big.Int {
	b := new(big.Int).SetUint64(n.Hi)
	b.Lsh(b, 64)
	return b.Or(b, new(big.Int).SetUint64(n.Lo))
}

func idOf(b *big.Int) federation.NodeID {
	b = new(big.Int).Mod(b, ring)
	lo := new(big.Int).And(b, new(big.Int).SetUint64(^uint64(0)))
	return federation.NodeID{Hi: new(big.Int).Rsh(b, 64).Uint64(), Lo: lo.Uint64()}
}

func idPlus(n federation.NodeID, d int64) federation.NodeID {
	return idOf(new(big.Int).Add(bigOf(n), big.NewInt(d)))
}

// genTarget picks an id that is near, at or far from the known ones.
func genTarget(r *rand.Rand, ids []federation.NodeID, self federation.NodeID) federation.NodeID {
	all := append(append([]federation.NodeID(nil), ids...), self)
	switch r.IntN(6) {
	case 0:
		return genNodeID(r)
	case 1:
		return pick(r, all)
	case 2:
		return idPlus(pick(r, all), 1) // the one id from which that node is farthest
	case 3:
		return idPlus(pick(r, all), -1)
	case 4:
		return pick(r, []federation.NodeID{{}, {Hi: ^uint64(0), Lo: ^uint64(0)}, {Lo: ^uint64(0)}, {Hi: 1}})
	default:
		return idPlus(pick(r, all), r.Int64()-r.Int64())
	}
}

func genIds(r *rand.Rand, n int, not federation.NodeID) []federation.NodeID {
	seen := map[federation.NodeID]bool{not: true}
	var l []federation.NodeID
	for len(l) < n {
		id := genNodeID(r)
		if len(l) > 0 && r.IntN(3) == 0 {
			id = idPlus(pick(r, l), int64(r.IntN(5))-2)
		}
		if r.IntN(6) == 0 {
			id = idPlus(not, int64(r.IntN(5))-2)
		}
		if !seen[id] {
			seen[id] = true
			l = append(l, id)
		}
	}
	return l
}

// checkAddressing judges what a fake node received.
func (w *fedWorld) checkAddressing(m *WM, to fnPartner, route bool, known map[federation.NodeID]fnPartner, action string, what string) {
	c := w.c
	bad := func(f string, a ...any) { c.Violation("%s: %s", what, fmt.Sprintf(f, a...)) }
	self := gwInstance{w.self.Id, w.self.InstanceId}
	if m.Action != action {
		bad("action %q, want %q", m.Action, action)
	}
	if m.Id == (transport.MessageId{}) {
		bad("no message id")
	}
	h := customOf(m)
	var p fnPToP
	if l := h[hPToP]; len(l) != 1 {
		bad("%d point to point headers", len(l))
	} else if err := RefDecode(l[0], &p); err != nil {
		bad("point to point header: %v", err)
	} else {
		want := fnPToP{From: self, To: to.Instance, Actor: 0, Exact: true}
		if route {
			want.Actor, want.Exact = 2, false
		}
		if p != want {
			bad("point to point header %+v, want %+v", p, want)
		}
	}
	if route {
		var x fnRouting
		if l := h[hRouting]; len(l) != 1 {
			bad("%d routing headers", len(l))
		} else if err := RefDecode(l[0], &x); err != nil {
			bad("routing header: %v", err)
		} else {
			want := fnRouting{From: self, To: to.Instance, Id: m.Id.Id, Index: m.Id.Index, ExpectsReply: true, Expiration: 1<<63 - 1, Retry: 1<<63 - 1}
			if x != want {
				bad("routing header %+v, want %+v", x, want)
			}
		}
		if !m.ExpectsReply {
			bad("a routed request does not expect a reply")
		}
	} else if len(h[hRouting]) != 0 {
		bad("a one-way message has a routing header")
	}
	got := map[federation.NodeID]fnPartner{}
	for k, d := range h[hPartner] {
		var x fnPartner
		if err := RefDecode(d, &x); err != nil {
			bad("partner header: %v", err)
			continue
		}
		if k == 0 && x.Instance != self {
			bad("first partner header is of %+v, not of the sender", x.Instance)
		}
		if _, dup := got[x.Instance.Id]; dup {
			bad("partner %v mentioned twice", x.Instance.Id)
		}
		got[x.Instance.Id] = x
	}
	s := got[w.self.Id]
	if s.Instance != self || s.Address != w.srvL.addr.String() || s.LeaseAddr != w.leaseL.addr.String() {
		bad("own partner information %+v", s)
	}
	delete(got, w.self.Id)
	for id, k := range known {
		x, ok := got[id]
		delete(got, id)
		if k.Instance.Instance == 0 {
			if ok {
				bad("partner %v with unknown instance is mentioned", id)
			}
			continue
		}
		if !ok {
			bad("partner %v (instance %d) is not mentioned", id, k.Instance.Instance)
			continue
		}
		if d := diffAny(k, x); d != "" {
			bad("partner information about %v differs from what is known: %s", id, d)
		}
	}
	for id := range got {
		bad("information about %v, which is not known", id)
	}
}

type fedPlan struct {
	w     *fedWorld
	known map[federation.NodeID]fnPartner
	ids   []federation.NodeID
}

// setup makes a world with generated partners: seeds, announced ones and updates of them.
func fedSetup(c *Ctx, r *rand.Rand, i int, on func(n *fedNode, p *WirePeer, m *WM)) *fedPlan {
	self := federation.NodeInstance{Id: genNodeID(r), InstanceId: 1 + r.Uint64N(1000)}
	w := newFedWorld(c, self)
	w.sometimesSecure(r, i)
	f := &fedPlan{w: w, known: map[federation.NodeID]fnPartner{}}
	f.ids = genIds(r, 1+r.IntN(7), self.Id)
	var seeds []federation.SeedNodeInfo
	if r.IntN(4) == 0 {
		seeds = append(seeds, federation.SeedNodeInfo{Id: self.Id, Address: "self"})
	}
	var later []fnPartner
	for k, id := range f.ids {
		n := w.newNode(id, on)
		if k == 0 || r.IntN(2) == 0 {
			seeds = append(seeds, federation.SeedNodeInfo{Id: id, Address: n.addr()})
			f.known[id] = fnPartner{Instance: gwInstance{Id: id}, Address: n.addr()}
			if r.IntN(2) == 0 {
				continue
			}
		}
		p := genInfo(r, id, "x")
		p.Address = n.addr()
		p.Flags = 0
		later = append(later, p)
		if o, ok := f.known[id]; !ok || rankLess(o.rank(), p.rank()) {
			f.known[id] = p
		}
	}
	w.start(seeds)
	if len(later) > 0 {
		p := w.in(nil)
		w.announce(p, later...)
	}
	synctest.Wait()
	return f
}

// closest is the node a routed message goes to.
func (f *fedPlan) closest(target federation.NodeID) federation.NodeID {
	var best federation.NodeID
	var d *big.Int
	for id := range f.known {
		x := ringDistance(id, target)
		if d == nil || x.Cmp(d) < 0 {
			best, d = id, x
		}
	}
	return best
}

// arrived lists the messages of an action, by node.
func (w *fedWorld) arrived(action string) map[federation.NodeID][]*WM {
	r := map[federation.NodeID][]*WM{}
	for id, n := range w.nodes {
		for _, m := range n.got() {
			if m.m.Action == action {
				r[id] = append(r[id], m.m)
			}
		}
	}
	return r
}

func fedMsgOf(action string) *transport.Message {
	return &transport.Message{Headers: transport.MessageHeaders{Actor: transport.MessageActorTypeFederation, Action: action}, Body: []byte(action)}
}

// decorateMsg is decorate for a message of the library; it returns what was added.
func decorateMsg(r *rand.Rand, m *transport.Message) *WM {
	d := decorate(r, &WM{})
	h := &m.Headers
	h.ExpectsReply, h.HighPriority, h.Idempotent, h.HasFaultBody = d.ExpectsReply, d.HighPriority, d.Idempotent, d.HasFault
	h.RetryCount, h.ErrorCode = d.Retry, transport.FabricErrorCode(d.Err)
	if r.IntN(4) == 0 {
		d.RelatesTo = genMsgId(r)
		h.RelatesTo = d.RelatesTo
	}
	for _, x := range d.Custom {
		h.AppendCustomHeader(transport.MessageHeaderIdType(x.Id), x.Data)
	}
	return d
}

// checkDeco: the flags and headers of decorateMsg arrived.
func checkDeco(c *Ctx, d, m *WM, what string) {
	if d.HighPriority != m.HighPriority || d.Idempotent != m.Idempotent || d.HasFault != m.HasFault || d.Err != m.Err || d.Retry != m.Retry {
		c.Violation("%s: flags changed: %+v, want %+v", what, m, d)
	}
	if d.RelatesTo != (transport.MessageId{}) && d.RelatesTo != m.RelatesTo {
		c.Violation("%s: relates to %v, want %v", what, m.RelatesTo, d.RelatesTo)
	}
	want, got := customOf(d), customOf(m)
	for id, l := range want {
		if fmt.Sprint(l) != fmt.Sprint(got[id]) {
			c.Violation("%s: custom header %#x: %x, want %x", what, id, got[id], l)
		}
	}
}

func c21routes(c *Ctx) {
	thePKI()
	n := c.N(220, 2200)
	c.Cases("routes", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var rmu sync.Mutex
			replies := map[transport.MessageId]*WM{}
			rr := rand.New(rand.NewPCG(r.Uint64(), 3))
			f := fedSetup(c, r, i, func(n *fedNode, p *WirePeer, m *WM) {
				if m.ExpectsReply {
					rmu.Lock()
					rep := decorate(rr, &WM{Actor: 2, Action: "Reply", Body: append([]byte("reply to "), m.Body...)})
					rep.Err = 0
					rep.Id = p.NextId()
					rmu.Unlock()
					p.Reply(m, rep)
					rmu.Lock()
					replies[rep.Id] = rep
					rmu.Unlock()
				}
			})
			w := f.w
			count := 4 + r.IntN(12)
			together := r.IntN(2) == 0
			type sent struct {
				action string
				target federation.NodeID
				route  bool
				op     *Op
				id     transport.MessageId
				deco   *WM
				m      *transport.Message
			}
			var list []*sent
			again := map[transport.MessageId]bool{}
			for k := 0; k < count; k++ {
				s := &sent{action: fmt.Sprintf("Act%d", k), target: genTarget(r, f.ids, w.self.Id), route: r.IntN(3) > 0}
				list = append(list, s)
				m := fedMsgOf(s.action)
				if r.IntN(3) == 0 {
					s.id = genMsgId(r)
					s.id.Index = uint32(k + 1)
					m.Headers.Id = s.id
				}
				s.deco = decorateMsg(r, m)
				if prev := list[r.IntN(k+1)]; k > 0 && prev != s && !together && r.IntN(3) == 0 {
					// a message that was sent before
					m, s.deco = prev.m, prev.deco
					m.Headers.Action, m.Body = s.action, []byte(s.action)
					if r.IntN(2) == 0 {
						m.Headers.Id = transport.MessageId{}
					}
					s.id = m.Headers.Id
					again[s.id] = true
					c.Count("sent_again", 1)
				}
				s.m = m
				s.op = Go("send to "+s.target.String(), func() (any, error) {
					if s.route {
						return w.node.Route(bg, s.target, m)
					}
					return nil, w.node.SendOneWay(s.target, m)
				})
				if !together {
					synctest.Wait()
					if r.IntN(6) == 0 { // a connection is lost meanwhile
						n := w.nodes[pick(r, f.ids)]
						if p := n.lastPeer(); p != nil {
							p.C.Close()
							synctest.Wait()
							c.Count("lost_connections", 1)
						}
					}
				}
			}
			synctest.Wait()
			for _, s := range list {
				what := fmt.Sprintf("message to %v (route %v, %d partners, self %v)", s.target, s.route, len(f.known), w.self.Id)
				c.MustReturn(s.op, "at quiescence")
				v, err := s.op.Get()
				at := w.arrived(s.action)
				total := 0
				for _, l := range at {
					total += len(l)
				}
				if !s.route {
					p, ok := f.known[s.target]
					if !ok {
						if err == nil || total != 0 {
							c.Violation("%s: unknown node: error %v, %d arrived", what, err, total)
						}
						c.Count("refused", 1)
						continue
					}
					if err != nil || total != 1 || len(at[s.target]) != 1 {
						c.Violation("%s: error %v, arrived at %v", what, err, keysOf(at))
						continue
					}
					m := at[s.target][0]
					w.checkAddressing(m, p, false, f.known, s.action, what)
					if string(m.Body) != s.action || (s.id != (transport.MessageId{}) && m.Id != s.id) {
						c.Violation("%s: body %q id %v", what, m.Body, m.Id)
					}
					checkDeco(c, s.deco, m, what)
					if m.ExpectsReply != s.deco.ExpectsReply {
						c.Violation("%s: expects-reply %v, want %v", what, m.ExpectsReply, s.deco.ExpectsReply)
					}
					c.Count("one_way", 1)
					continue
				}
				want := f.closest(s.target)
				if err != nil || total != 1 || len(at[want]) != 1 {
					c.Violation("%s: error %v, arrived at %v, closest partner %v of %v", what, err, keysOf(at), want, f.ids)
					continue
				}
				c.Count("routed", 1)
				m := at[want][0]
				w.checkAddressing(m, f.known[want], true, f.known, s.action, what)
				if string(m.Body) != s.action || (s.id != (transport.MessageId{}) && m.Id != s.id) {
					c.Violation("%s: body %q id %v", what, m.Body, m.Id)
				}
				checkDeco(c, s.deco, m, what)
				rep := v.(*transport.ByteArrayMessage)
				if rep == nil || string(rep.Body) != "reply to "+s.action || rep.Headers.RelatesTo != m.Id {
					c.Violation("%s: reply %v", what, rep)
				} else if sent := replies[rep.Headers.Id]; sent == nil {
					c.Violation("%s: a reply with id %v, which nobody sent", what, rep.Headers.Id)
				} else if d := diffCommon(sent, bamWM(rep)); d != "" {
					c.Violation("%s: the reply changed: %s", what, d)
				}
			}
			ids := map[transport.MessageId]bool{}
			for _, n := range w.nodes {
				for _, m := range n.got() {
					if ids[m.m.Id] && !again[m.m.Id] {
						c.Violation("message id %v used twice", m.m.Id)
					}
					ids[m.m.Id] = true
				}
			}
			c.Saw(fmt.Sprintf("%d/%d/%d", i, len(f.known), count))
			w.stop()
		})
		c.StopIfFailed(3)
	})
}

func keysOf(m map[federation.NodeID][]*WM) []string {
	var l []string
	for k, v := range m {
		if len(v) > 0 {
			l = append(l, fmt.Sprintf("%v x%d", k, len(v)))
		}
	}
	sort.Strings(l)
	return l
}

func c21ends(c *Ctx) {
	thePKI()
	modes := []string{"ctx", "deadline", "close", "error", "late", "other connection", "dial fails", "moved", "other reply", "no partners", "lost", "twice", "close while dialling", "after close", "lost while waiting", "write fails", "write breaks"}
	n := len(modes) * c.N(12, 120)
	c.Cases("ends", n, func(i int, r *rand.Rand) {
		mode := modes[i%len(modes)]
		c.Bubble(func() {
			var hold sync.Map
			f := fedSetup(c, r, i, func(n *fedNode, p *WirePeer, m *WM) {
				switch mode {
				case "error":
					code := int64(2147949808)
					if r.IntN(2) == 0 {
						code = -2147017000
					}
					p.Reply(m, &WM{Actor: 2, Action: "Reply", Err: code, HasFault: n.id.Lo%2 == 0, Body: []byte("x")})
				default:
					hold.Store(m.Action, fedMsg{m, p, time.Now()})
				}
			})
			w := f.w
			target := genTarget(r, f.ids, w.self.Id)
			want := w.nodes[f.closest(target)]
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			warm := r.IntN(2) == 0 // connected already
			if warm && mode != "dial fails" && mode != "no partners" {
				if err := w.node.SendOneWay(want.id, fedMsgOf("Warm")); err != nil {
					c.Violation("one-way message: %v", err)
				}
				synctest.Wait()
			}
			route := func(a string) *Op {
				return Go("Route "+a, func() (any, error) { return w.node.Route(ctx, target, fedMsgOf(a)) })
			}
			held := func(a string) fedMsg {
				v, ok := hold.Load(a)
				if !ok {
					c.Violation("%s: request %s did not arrive anywhere", mode, a)
					panic(stopPhase{})
				}
				return v.(fedMsg)
			}
			mustErr := func(o *Op, is error) {
				c.MustReturn(o, "("+mode+")")
				v, err := o.Get()
				if err == nil {
					c.Violation("%s: request returns %v without error", mode, v)
				} else if is != nil && !errors.Is(err, is) {
					c.Violation("%s: request returns %v, want %v", mode, err, is)
				}
			}
			mustOk := func(o *Op, body string) {
				c.MustReturn(o, "("+mode+")")
				v, err := o.Get()
				if err != nil {
					c.Violation("%s: request returns %v", mode, err)
				} else if m := v.(*transport.ByteArrayMessage); string(m.Body) != body {
					c.Violation("%s: request returns %q, want %q", mode, m.Body, body)
				}
			}
			answer := func(h fedMsg, body string) {
				h.p.Reply(h.m, &WM{Actor: 2, Action: "Reply", Body: []byte(body)})
				synctest.Wait()
			}
			closed := false
			switch mode {
			case "ctx":
				o := route("A")
				synctest.Wait()
				held("A")
				cancel()
				synctest.Wait()
				mustErr(o, context.Canceled)
			case "deadline":
				ctx2, c2 := context.WithTimeout(ctx, time.Duration(1+r.IntN(1000))*time.Millisecond)
				defer c2()
				ctx = ctx2
				o := route("A")
				synctest.Wait()
				held("A")
				if o.Done() {
					c.Violation("request ended before its deadline")
				}
				time.Sleep(1001 * time.Millisecond)
				synctest.Wait()
				mustErr(o, context.DeadlineExceeded)
			case "close":
				k := 1 + r.IntN(5)
				var ops []*Op
				for q := 0; q < k; q++ {
					ops = append(ops, route(fmt.Sprint("A", q)))
				}
				if r.IntN(3) > 0 {
					synctest.Wait()
				}
				w.node.Close()
				closed = true
				synctest.Wait()
				for _, o := range ops {
					mustErr(o, nil)
				}
			case "error":
				o := route("A")
				synctest.Wait()
				mustErr(o, nil)
			case "late":
				o := route("A")
				synctest.Wait()
				h := held("A")
				cancel()
				synctest.Wait()
				mustErr(o, context.Canceled)
				answer(h, "late")
				answer(h, "later")
				ctx = bg
				o = route("B")
				synctest.Wait()
				answer(held("B"), "second")
				mustOk(o, "second")
			case "other connection":
				o := route("A")
				synctest.Wait()
				h := held("A")
				p := w.in(nil)
				p.Send(&WM{Actor: 2, Action: "Reply", RelatesTo: h.m.Id, Body: []byte("round about")})
				synctest.Wait()
				mustOk(o, "round about")
			case "dial fails":
				fail := atomic.Bool{}
				fail.Store(true)
				w.mu.Lock()
				w.onDial = func(string) error {
					if fail.Load() {
						return errors.New("no route")
					}
					return nil
				}
				w.mu.Unlock()
				k := 1 + r.IntN(4)
				var ops []*Op
				for q := 0; q < k; q++ {
					ops = append(ops, route("A"))
				}
				synctest.Wait()
				for _, o := range ops {
					mustErr(o, nil)
				}
				fail.Store(false)
				o := route("B")
				synctest.Wait()
				answer(held("B"), "now")
				mustOk(o, "now")
			case "moved":
				nn := w.newNode(federation.NodeID{Hi: 0xfeed, Lo: uint64(i)}, want.on)
				x := f.known[want.id]
				if x.Instance.Instance == ^uint64(0) {
					break
				}
				x.Instance.Instance++
				x.Address = nn.addr()
				f.known[want.id] = x
				w.announce(w.in(nil), x)
				synctest.Wait()
				o := route("A")
				synctest.Wait()
				h := held("A")
				if h.p != nn.lastPeer() {
					c.Violation("the request did not go to the node's new address")
				}
				w.checkAddressing(h.m, x, true, f.known, "A", "request to a node that moved")
				answer(h, "moved")
				mustOk(o, "moved")
				if err := w.node.SendOneWay(want.id, fedMsgOf("B")); err != nil {
					c.Violation("one-way message to a node that moved: %v", err)
				}
				synctest.Wait()
				if held("B").p != nn.lastPeer() {
					c.Violation("the one-way message did not go to the node's new address")
				}
			case "other reply":
				o := route("A")
				synctest.Wait()
				h := held("A")
				h.p.Send(&WM{Actor: 2, Action: "Reply", RelatesTo: transport.MessageId{Id: h.m.Id.Id, Index: h.m.Id.Index + 1}, Body: []byte("wrong")})
				h.p.Send(&WM{Actor: 2, Action: "Reply", RelatesTo: transport.MessageId{Index: h.m.Id.Index}, Body: []byte("wrong")})
				h.p.Send(&WM{Actor: 2, Action: "Reply", Id: h.m.Id, Body: []byte("wrong")})
				h.p.Send(&WM{Actor: 2, Action: "A", Body: []byte("wrong")})
				synctest.Wait()
				if o.Done() {
					c.Violation("request returns with a reply to something else")
				}
				answer(h, "right")
				mustOk(o, "right")
			case "no partners":
				w2 := newFedWorld(c, w.self)
				w2.start([]federation.SeedNodeInfo{{Id: w.self.Id, Address: want.addr()}})
				o := Go("Route", func() (any, error) { return w2.node.Route(ctx, target, fedMsgOf("A")) })
				o2 := Go("SendOneWay", func() (any, error) { return nil, w2.node.SendOneWay(w.self.Id, fedMsgOf("A")) })
				synctest.Wait()
				mustErr(o, nil)
				mustErr(o2, nil)
				if len(w2.dialled) > 0 {
					c.Violation("the node dials itself: %v", w2.dialled)
				}
				w2.stop()
			case "lost":
				o := route("A")
				synctest.Wait()
				answer(held("A"), "one")
				mustOk(o, "one")
				for q := 0; q < 1+r.IntN(3); q++ {
					want.lastPeer().C.Close()
					synctest.Wait()
					a := fmt.Sprint("B", q)
					o := route(a)
					synctest.Wait()
					answer(held(a), a)
					mustOk(o, a)
				}
			case "twice":
				o, o2 := route("A"), route("B")
				synctest.Wait()
				h, h2 := held("A"), held("B")
				answer(h2, "b")
				answer(h2, "b again")
				mustOk(o2, "b")
				if o.Done() {
					c.Violation("request A returned with the reply to B")
				}
				answer(h, "a")
				mustOk(o, "a")
			case "close while dialling":
				gate := make(chan struct{})
				w.mu.Lock()
				w.onDial = func(string) error { <-gate; return nil }
				w.mu.Unlock()
				if p := want.lastPeer(); p != nil {
					p.C.Close()
					synctest.Wait()
				}
				o := route("A")
				synctest.Wait()
				w.node.Close()
				closed = true
				synctest.Wait()
				close(gate)
				synctest.Wait()
				mustErr(o, nil)
				for _, e := range w.ends {
					if !e.IsClosed() {
						c.Violation("a connection that was being dialled when the node was closed is left open")
					}
				}
			case "after close":
				w.node.Close()
				closed = true
				synctest.Wait()
				o := route("A")
				o2 := Go("SendOneWay", func() (any, error) { return nil, w.node.SendOneWay(want.id, fedMsgOf("B")) })
				synctest.Wait()
				mustErr(o, nil)
				mustErr(o2, nil)
				for _, e := range w.ends {
					if !e.IsClosed() {
						c.Violation("a closed node keeps a connection")
					}
				}
			case "lost while waiting":
				o := route("A")
				synctest.Wait()
				h := held("A")
				h.p.C.Close()
				synctest.Wait()
				if o.Done() {
					if _, err := o.Get(); err == nil {
						c.Violation("request without reply succeeds")
					}
					break // giving up at once would be fine as well
				}
				// the reply may still come another way
				p := w.in(nil)
				p.Send(&WM{Actor: 2, Action: "Reply", RelatesTo: h.m.Id, Body: []byte("round about")})
				synctest.Wait()
				mustOk(o, "round about")
			case "write fails":
				if err := w.node.SendOneWay(want.id, fedMsgOf("Warm2")); err != nil {
					c.Violation("one-way message: %v", err)
				}
				synctest.Wait()
				e := w.ends[len(w.ends)-1]
				e.o.BeforeWrite = func(*Conn, []byte) (int, error) { return 0, errors.New("broken") }
				o := route("A")
				synctest.Wait()
				mustErr(o, nil)
			case "write breaks":
				// a write fails, all of it or in part, and nothing else happens to the connection
				if err := w.node.SendOneWay(want.id, fedMsgOf("Warm2")); err != nil {
					c.Violation("one-way message: %v", err)
				}
				synctest.Wait()
				e := w.ends[len(w.ends)-1]
				k, left := r.IntN(3), 1+r.IntN(2)
				e.o.BeforeWrite = func(_ *Conn, b []byte) (int, error) {
					if left--; left != 0 {
						return 0, nil
					}
					return []int{0, len(b) / 2, len(b) - 1}[k], os.ErrDeadlineExceeded
				}
				o := route("A")
				synctest.Wait()
				if left > 0 { // the message was a single write
					answer(held("A"), "A")
					mustOk(o, "A")
					o = route("A2")
					synctest.Wait()
				}
				mustErr(o, nil)
				for q := 0; q < 2; q++ {
					a := fmt.Sprint("B", q)
					o := route(a)
					synctest.Wait()
					answer(held(a), a)
					mustOk(o, a)
				}
			}
			_ = closed
			c.Count("mode_"+mode, 1)
			c.Saw(fmt.Sprintf("%s/%d", mode, i))
			w.stop()
			for _, e := range w.ends {
				if !e.IsClosed() {
					c.Violation("%s: a closed node keeps a connection it dialled", mode)
				}
			}
		})
		c.StopIfFailed(3)
	})
}

// ---------------------------------------------------------------------------------------------------------

func c22bootstrap(c *Ctx) {
	thePKI()
	n := c.N(400, 4000)
	c.Cases("bootstrap", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			self := federation.NodeInstance{Id: genNodeID(r), InstanceId: 5}
			w := newFedWorld(c, self)
			w.sometimesSecure(r, i)
			ids := genIds(r, 1+r.IntN(4), self.Id)
			if i%9 == 4 {
				ids = genIds(r, 8+r.IntN(30), self.Id)
			}
			start := time.Now()
			// when each seed answers a ping, by the ping's number, and with what
			type ans struct {
				after time.Duration
				phase int64
				inst  uint64
			}
			var seeds []federation.SeedNodeInfo
			if r.IntN(5) == 0 {
				seeds = append(seeds, federation.SeedNodeInfo{Id: self.Id, Address: "self"})
			}
			dead := map[string]bool{}
			var mu sync.Mutex
			pings := map[federation.NodeID]int{}
			pinged := map[federation.NodeID][]time.Duration{}
			var routingAt time.Duration = -1 // when the first announcement in the routing phase was sent
			outcome := i % 5                 // 0: nobody ever routes
			oneBoot := r.IntN(2) == 0
			rr := c.rng("answers", i)
			var said sync.Map
			for _, id := range ids {
				silent := r.IntN(4) == 0
				n := w.newNode(id, nil)
				var insts uint64 = 1
				plan := []ans{}
				for k := 0; k < 8; k++ {
					ph := int64(rr.IntN(3)) // booting, joining, inserting
					if rr.IntN(8) == 0 {
						ph = 4 // shutting down
					}
					if outcome != 0 && rr.IntN(4) == 0 {
						ph = 3
					}
					if rr.IntN(5) == 0 {
						insts++
					}
					plan = append(plan, ans{time.Duration(rr.IntN(40000)) * time.Millisecond, ph, insts})
					if rr.IntN(3) == 0 {
						plan[k].after = 0
					}
				}
				n.on = func(n *fedNode, p *WirePeer, m *WM) {
					if m.Action == "Look" {
						return
					}
					if m.Action != "VotePing" || m.Actor != 2 {
						c.Violation("bootstrap sends action %q of actor %d", m.Action, m.Actor)
						return
					}
					mu.Lock()
					k := pings[n.id]
					pings[n.id]++
					pinged[n.id] = append(pinged[n.id], time.Since(start))
					mu.Unlock()
					if silent || k >= len(plan) {
						return
					}
					a := plan[k]
					f := func() {
						mu.Lock()
						// the announcement counts only if it is news: newer instance or later phase than before
						prev, _ := said.Load(n.id)
						now := [2]int64{int64(a.inst), a.phase}
						news := prev == nil || rankLess(prev.([2]int64), now)
						if news {
							said.Store(n.id, now)
							if a.phase == 3 && routingAt < 0 {
								routingAt = time.Since(start)
							}
						}
						mu.Unlock()
						w.announce(p, fnPartner{Instance: gwInstance{n.id, a.inst}, Phase: a.phase, Address: n.addr()})
					}
					if a.after == 0 {
						f()
					} else {
						time.AfterFunc(a.after, f)
					}
				}
				addr := n.addr()
				if r.IntN(6) == 0 {
					dead[addr] = true
				}
				seeds = append(seeds, federation.SeedNodeInfo{Id: id, Address: addr})
			}
			slow := map[string]time.Duration{}
			for _, s := range seeds {
				if oneBoot && r.IntN(3) == 0 { // two dials of one address would wait for each other on a lock, which stops virtual time
					slow[s.Address] = time.Duration(r.IntN(9000)) * time.Millisecond
				}
			}
			w.onDial = func(addr string) error {
				time.Sleep(slow[addr])
				if dead[addr] {
					return errors.New("refused")
				}
				return nil
			}
			w.start(seeds)
			other := w.in(nil)
			if outcome >= 2 {
				// a partner announces itself out of the blue, at any time
				at := time.Duration(r.IntN(100000)) * time.Millisecond
				if r.IntN(4) == 0 {
					at = 0
				}
				if r.IntN(4) == 0 {
					at = 30 * time.Second * time.Duration(r.IntN(4))
				}
				id := federation.NodeID{Hi: 0xb10e, Lo: r.Uint64()}
				two := r.IntN(2) == 0
				f := func() {
					inst := uint64(1000 + i)
					if two {
						// in an earlier phase of the same instance first
						w.announce(other, fnPartner{Instance: gwInstance{id, inst}, Phase: 1, Address: "x"})
						time.Sleep(time.Duration(r.IntN(3)) * time.Second)
					}
					mu.Lock()
					said.Store(id, [2]int64{int64(inst), 3})
					if routingAt < 0 {
						routingAt = time.Since(start)
					}
					mu.Unlock()
					w.announce(other, fnPartner{Instance: gwInstance{id, inst}, Phase: 3, Address: "x"})
				}
				if at == 0 {
					f()
					if r.IntN(2) == 0 {
						synctest.Wait()
					}
				} else {
					time.AfterFunc(at, f)
				}
			}
			limit := time.Duration(1+r.IntN(200)) * time.Second
			boots := 1 + r.IntN(3)
			if oneBoot {
				boots = 1
			}
			var ops []*Op
			var ctxs []context.Context
			var starts []time.Duration
			for k := 0; k < boots; k++ {
				ctx, cancel := context.WithTimeout(bg, limit)
				defer cancel()
				ctxs = append(ctxs, ctx)
				starts = append(starts, time.Since(start))
				ops = append(ops, Go("Bootstrap", func() (any, error) { return nil, w.node.Bootstrap(ctx) }))
				if r.IntN(2) == 0 {
					time.Sleep(time.Duration(r.IntN(20)) * time.Second)
				}
			}
			// dialling has no context: allow for the slow dials of one round
			slack := time.Duration(0)
			for _, d := range slow {
				slack += d
			}
			time.Sleep(limit + slack + 40*time.Second)
			synctest.Wait()
			mu.Lock()
			ra := routingAt
			mu.Unlock()
			for k, o := range ops {
				c.MustReturn(o, fmt.Sprintf("(context ended after %v, a partner routes from %v on)", limit, ra))
				_, err := o.Get()
				at := o.When().Sub(start)
				deadline := starts[k] + limit
				switch {
				case err == nil:
					c.Count("succeeded", 1)
					if ra < 0 || at < ra {
						c.Violation("Bootstrap succeeds at %v, first announcement in the routing phase at %v", at, ra)
					} else if at > max(ra, starts[k])+slack+grace {
						c.Violation("Bootstrap returns at %v, %v after the announcement at %v (slow dials %v)", at, at-ra, ra, slack)
					}
				case errors.Is(err, context.DeadlineExceeded):
					c.Count("ended_by_context", 1)
					if at < deadline {
						c.Violation("Bootstrap gives up at %v, its context ends at %v", at, deadline)
					}
					if at > deadline+slack+grace {
						c.Violation("Bootstrap returns at %v, its context ended at %v (slow dials %v)", at, deadline, slack)
					}
					if ra >= 0 && ra+slack+grace < deadline {
						c.Violation("Bootstrap fails at %v though a partner announced itself in the routing phase at %v", at, ra)
					}
				default:
					c.Violation("Bootstrap fails with %v", err)
				}
			}
			_ = ctxs
			// afterwards: the phase stays, another Bootstrap returns at once
			if ra >= 0 && time.Since(start) > ra {
				w.announce(other, fnPartner{Instance: gwInstance{pick(r, ids), 1 << 50}, Phase: int64(r.IntN(3))})
				synctest.Wait()
				t := time.Now()
				ctx, cancel := context.WithTimeout(bg, grace)
				err := w.node.Bootstrap(ctx)
				cancel()
				if err != nil || time.Since(t) > grace {
					c.Violation("Bootstrap after a partner has announced itself returns %v after %v", err, time.Since(t))
				}
				for _, n := range w.nodes {
					if !dead[n.addr()] {
						if err := w.node.SendOneWay(n.id, fedMsgOf("Look")); err != nil {
							continue
						}
						synctest.Wait()
						g := n.got()
						if len(g) == 0 {
							continue
						}
						var x fnPartner
						if hs := customOf(g[len(g)-1].m)[hPartner]; len(hs) == 0 || RefDecode(hs[0], &x) != nil || x.Phase < 1 {
							c.Violation("after bootstrap the node says it is in phase %d", x.Phase)
						}
						break
					}
				}
			}
			mu.Lock()
			for _, s := range seeds {
				if n := w.nodes[s.Id]; n != nil && !dead[s.Address] && pings[s.Id] == 0 && (ra < 0 || ra > 20*time.Second) {
					c.Violation("seed %v was never pinged", s.Id)
				}
				// again and again, as it may have missed a ping
				if n := w.nodes[s.Id]; n != nil && !dead[s.Address] {
					until := starts[0] + limit
					if ra >= 0 {
						until = min(until, ra)
					}
					last := starts[0]
					for _, at := range append(pinged[s.Id], until) {
						if at = min(at, until); at-last > 2*time.Minute+slack {
							c.Violation("seed %v is not pinged between %v and %v, though no partner routes yet", s.Id, last, at)
						}
						last = max(last, at)
					}
					c.Count("seed_pings", int64(len(pinged[s.Id])))
				}
			}
			mu.Unlock()
			c.Saw(fmt.Sprintf("%d/%d/%v/%v", i, len(seeds), limit, ra))
			w.stop()
			time.Sleep(time.Hour)
		})
		c.StopIfFailed(3)
	})
}

func c22discover(c *Ctx) {
	thePKI()
	n := c.N(200, 2000)
	c.Cases("discover", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			self := federation.NodeInstance{Id: genNodeID(r), InstanceId: 5}
			w := newFedWorld(c, self)
			w.sometimesSecure(r, i)
			ids := genIds(r, 1+r.IntN(9), self.Id)
			links := 5
			if i%7 == 2 {
				ids = genIds(r, 15+r.IntN(30), self.Id)
				links = pick(r, []int{5, 15, 60, 1000})
			}
			base := uint64(10) // instances start here
			if r.IntN(3) == 0 {
				base = pick(r, []uint64{1, 1<<31 - 5, 1<<32 - 5, 1<<63 - 5, 1 << 63, 1<<64 - 20})
			}
			early := i%4 == 3 // the context ends
			type peer struct {
				id     federation.NodeID
				nb     []int
				dead   bool
				silent bool
				delay  time.Duration
				bump   int // instance rises at this ping
				pings  int
			}
			var mu sync.Mutex
			ps := make([]*peer, len(ids))
			said := map[federation.NodeID]uint64{} // highest instance announced to the node
			for k, id := range ids {
				p := &peer{id: id, dead: r.IntN(6) == 0, silent: r.IntN(8) == 0, bump: -1}
				if r.IntN(2) == 0 {
					p.delay = time.Duration(r.IntN(900)) * time.Millisecond
				}
				if r.IntN(4) == 0 {
					p.bump = 1 + r.IntN(2)
				}
				for q := range ids {
					if q == k+1 || r.IntN(links) == 0 {
						p.nb = append(p.nb, q)
					}
				}
				ps[k] = p
			}
			inst := func(p *peer) uint64 {
				if p.bump >= 0 && p.pings > p.bump {
					return base + 10
				}
				return base
			}
			for _, p := range ps {
				n := w.newNode(p.id, nil)
				if p.dead {
					n.l.Close()
				}
				n.on = func(n *fedNode, wp *WirePeer, m *WM) {
					if m.Action != "VotePing" || m.Actor != 2 {
						c.Violation("discovery sends action %q of actor %d", m.Action, m.Actor)
					}
					mu.Lock()
					p.pings++
					mu.Unlock()
					if p.silent {
						return
					}
					f := func() {
						mu.Lock()
						// of any phase, also shutting down
						l := []fnPartner{{Instance: gwInstance{p.id, inst(p)}, Phase: int64(len(p.nb)+p.pings) % 5, Address: n.addr()}}
						for _, q := range p.nb {
							x := ps[q]
							in := base
							if x.pings == 0 && q%3 == 0 {
								in = base - 1 // an outdated idea of it, or none
							}
							l = append(l, fnPartner{Instance: gwInstance{x.id, in}, Phase: int64(q % 5), Address: w.nodes[x.id].addr()})
						}
						if len(p.nb)%2 == 0 { // gossip about the node itself
							l = append(l, fnPartner{Instance: gwInstance{self.Id, 3}, Address: "me"})
						}
						for _, x := range l {
							if said[x.Instance.Id] < x.Instance.Instance {
								said[x.Instance.Id] = x.Instance.Instance
							}
						}
						mu.Unlock()
						w.announce(wp, l...)
					}
					if p.delay == 0 {
						f()
					} else {
						time.AfterFunc(p.delay, f)
					}
				}
			}
			seeds := []federation.SeedNodeInfo{{Id: ids[0], Address: w.nodes[ids[0]].addr()}}
			if len(ids) > 1 && r.IntN(2) == 0 {
				seeds = append(seeds, federation.SeedNodeInfo{Id: ids[1], Address: w.nodes[ids[1]].addr()})
			}
			if r.IntN(5) == 0 {
				seeds = append(seeds, federation.SeedNodeInfo{Id: self.Id, Address: "self"})
			}
			w.start(seeds)
			synctest.Wait()
			t0 := time.Now()
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			var end time.Duration
			if early {
				end = time.Duration(r.IntN(6500)) * time.Millisecond
				if r.IntN(5) == 0 {
					end = 0
				}
				if end == 0 {
					cancel()
				} else {
					time.AfterFunc(end, cancel)
				}
			}
			o := Go("Discover", func() (any, error) { return w.node.Discover(ctx) })
			if early {
				time.Sleep(end)
				synctest.Wait()
				c.MustReturn(o, fmt.Sprintf("(its context has ended after %v)", end))
				_, err := o.Get()
				if done := o.When().Sub(t0); err == nil && done <= end && done > 0 {
					c.Count("finished_first", 1)
				} else if !errors.Is(err, context.Canceled) {
					c.Violation("Discover returns %v when its context ends", err)
				}
				c.Count("ended_by_context", 1)
				c.Saw(fmt.Sprintf("%d/%v", i, end))
				w.stop()
				time.Sleep(time.Hour)
				return
			}
			for k := 0; k < 600 && !o.Done(); k++ {
				time.Sleep(time.Second)
				synctest.Wait()
			}
			c.MustReturn(o, "within ten minutes")
			v, err := o.Get()
			if err != nil {
				c.Violation("Discover fails: %v", err)
			}
			got := map[federation.NodeID]federation.PartnerNodeInfo{}
			for _, p := range v.([]federation.PartnerNodeInfo) {
				if _, dup := got[p.Instance.Id]; dup {
					c.Violation("%v is listed twice", p.Instance.Id)
				}
				got[p.Instance.Id] = p
			}
			isSeed := map[federation.NodeID]bool{}
			for _, s := range seeds {
				isSeed[s.Id] = true
				p, ok := got[s.Id]
				if !ok {
					c.Violation("seed %v is not listed", s.Id)
				} else if p.Address != s.Address {
					c.Violation("seed %v is listed under %q", s.Id, p.Address)
				}
			}
			mu.Lock()
			for id, in := range said {
				if id == self.Id {
					continue
				}
				p, ok := got[id]
				if !ok {
					c.Violation("%v announced itself but is not listed", id)
				} else if p.Instance.InstanceId != in {
					c.Violation("%v is listed under instance %d, newest %d", id, p.Instance.InstanceId, in)
				} else if p.Address != w.nodes[id].addr() {
					c.Violation("%v is listed under address %q", id, p.Address)
				}
				c.Count("announced", 1)
			}
			for id := range got {
				if id == self.Id && !isSeed[id] {
					c.Violation("the node lists itself")
				}
				if _, ok := said[id]; !ok && !isSeed[id] {
					c.Violation("%v is listed though nobody mentioned it", id)
				}
			}
			for _, p := range ps {
				if _, ok := said[p.id]; (ok || isSeed[p.id]) && !p.dead && p.pings == 0 {
					c.Violation("%v is known but was never pinged", p.id)
				}
			}
			mu.Unlock()
			c.Max("seconds_of_discovery", int64(time.Since(t0)/time.Second))
			c.Saw(fmt.Sprintf("%d/%d/%d", i, len(ids), len(got)))
			w.stop()
			time.Sleep(time.Hour)
		})
		c.StopIfFailed(3)
	})
}

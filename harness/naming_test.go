package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C16", "calls", "naming calls, many at once, against a gateway that answers from a plan: results compared with what it sent", c16calls)
	register("C16", "ctx", "naming calls whose context ends before, between or after the gateway's answers, or whose connection ends", c16ctx)
	register("C17", "notifications", "generated and broken service notifications: replies on the wire and callbacks counted", c17notifications)
	register("C17", "ackfails", "notifications whose acknowledgement cannot be written", c17ackFails)
	register("C17", "filters", "filter registrations by many goroutines of several clients, as the gateway receives them", c17filters)
}

// The gateway's own idea of the messages.
type gwInstance struct {
	Id       federation.NodeID
	Instance uint64
}

type gwDescription struct {
	Address  string
	Instance gwInstance
	NodeName string
}

type gwPingReply struct{ D gwDescription }

type gwUri struct {
	Type      int64
	Scheme    string
	Authority string
	HostType  int64
	Host      string
	Port      int32
	Path      string
	Query     string
	Fragment  string
	Segments  []string
}

type gwApp struct {
	Name        gwUri
	TypeName    string
	TypeVersion string
	Status      int64
	Health      int64
	Parameters  map[string]string
}

type gwAppList struct{ List []gwApp }

type gwQueryReply struct {
	Kind   int32
	Result *gwAppList
	Error  int32
}

type gwQueryKey struct{ Key string }

type gwQueryArgs struct{ Map map[gwQueryKey]string }

type gwQuery struct {
	Args gwQueryArgs
	Name string
}

type gwFailure struct{ Code int64 }

type gwGeneration struct {
	Generation int64
	Owner      federation.NodeID
}

type gwFlags struct{ Flags uint32 }

type gwFilter struct {
	Id    uint64
	Name  gwUri
	Flags gwFlags
}

type gwRange struct{ Start, End int64 }

type gwRanges struct{ L []gwRange }

type gwConnect struct {
	ClientId   string
	Generation gwGeneration
	Versions   *gwRanges
	Filters    []*gwFilter
}

type gwConnected struct {
	Generation gwGeneration
	Deleted    int64
	Gateway    gwDescription
}

type gwRegister struct {
	ClientId string
	Filter   *gwFilter
}

type gwActivity struct {
	Id    serialization.GUID
	Index uint64
}

type gwActivityHeader struct{ A gwActivity }

type gwVersion struct{ Major, Minor int64 }

type gwIdentity struct{ Target, Friendly string }

type gwMsgId struct {
	Id    serialization.GUID
	Index uint32
}

type gwPage struct {
	Id   gwMsgId
	Page uint64
}

type gwUnit struct{ Id serialization.GUID }

type gwReplicas struct {
	Stateful    bool
	PrimaryOk   bool
	Primary     string
	Replicas    []string
	Version     int64
	IsAux       bool
	Auxiliaries []string
}

type gwEntry struct {
	Unit     gwUnit
	Service  string
	Replicas gwReplicas
	Found    bool
}

type gwPartition struct {
	Table       *gwEntry
	PrimaryOnly bool
}

type gwNotification struct {
	Page       gwPage
	Generation gwGeneration
	Versions   *gwRanges
	Partitions []*gwPartition
}

type gwNotify struct{ N *gwNotification }

func uriOf(u common.Uri) gwUri {
	return gwUri{int64(u.Type), u.Scheme, u.Authority, int64(u.HostType), u.Host, u.Port, u.Path, u.Query, u.Fragment, u.PathSegments}
}

func instOf(n federation.NodeInstance) gwInstance { return gwInstance{n.Id, n.InstanceId} }

func descOf(d *naming.GatewayDescription) gwDescription {
	return gwDescription{d.Address, instOf(d.NodeInstance), d.NodeName}
}

func appsOf(l []naming.ApplicationQueryResult) []gwApp {
	var out []gwApp
	for _, a := range l {
		out = append(out, gwApp{uriOf(a.ApplicationName), a.ApplicationTypeName, a.ApplicationTypeVersion, a.ApplicationStatus, a.HealthState, a.ApplicationParameters})
	}
	return out
}

func rangesOf(v *naming.VersionRangeCollection) *gwRanges {
	if v == nil {
		return nil
	}
	r := &gwRanges{}
	for _, x := range v.VersionRanges {
		r.L = append(r.L, gwRange{x.StartVersion, x.EndVersion})
	}
	return r
}

func notificationOf(n *naming.ServiceNotification) *gwNotification {
	if n == nil {
		return nil
	}
	o := &gwNotification{
		Page:       gwPage{gwMsgId{n.NotificationPageId.NotificationId.Id, n.NotificationPageId.NotificationId.Index}, n.NotificationPageId.PageIndex},
		Generation: gwGeneration{n.Generation.Generation, n.Generation.Owner},
		Versions:   rangesOf(n.Versions),
	}
	for _, p := range n.Partitions {
		if p == nil {
			o.Partitions = append(o.Partitions, nil)
			continue
		}
		q := &gwPartition{PrimaryOnly: p.MatchedPrimaryOnly}
		if t := p.ServiceTable; t != nil {
			s := t.ServiceReplicaSet
			q.Table = &gwEntry{gwUnit{t.ConsistencyUnitId.GUID}, t.ServiceName, gwReplicas{s.IsStateful, s.IsPrimaryLocationValid, s.PrimaryLocation, s.ReplicaLocations, s.LookupVersion, s.IsPrimaryAuxiliary, s.AuxiliaryLocations}, t.IsFound}
		}
		o.Partitions = append(o.Partitions, q)
	}
	return o
}

func diffAny(a, b any) string { return sameValue(reflect.ValueOf(a), reflect.ValueOf(b)) }

func fillAny(r *rand.Rand, p any, size int) { fill(r, reflect.ValueOf(p).Elem(), size) }

const (
	hActivity  = 0x8020
	hTimeout   = 0x8023
	hVersion   = 0x8025
	hIdentity  = 0x8040
	gwActor    = 5
	gwFailText = "ClientOperationFailure"
)

// gateway is the harness's naming gateway.
type gateway struct {
	c  *Ctx
	p  *WirePeer
	mu sync.Mutex
	in []*WM
	on func(g *gateway, m *WM)
}

func (g *gateway) got() []*WM {
	g.mu.Lock()
	defer g.mu.Unlock()
	return append([]*WM(nil), g.in...)
}

// checkRequest: what every request to the gateway has.
func (g *gateway) checkRequest(m *WM) {
	bad := func(f string, a ...any) {
		g.c.Violation("request %q to the gateway: %s", m.Action, fmt.Sprintf(f, a...))
	}
	if m.Actor != gwActor {
		bad("actor %d", m.Actor)
	}
	if !m.ExpectsReply {
		bad("does not expect a reply")
	}
	h := customOf(m)
	var v gwVersion
	if l := h[hVersion]; len(l) != 1 {
		bad("%d protocol version headers", len(l))
	} else if err := RefDecode(l[0], &v); err != nil || v != (gwVersion{1, 2}) {
		bad("protocol version %v %v", v, err)
	}
	var a gwActivityHeader
	if l := h[hActivity]; len(l) != 1 {
		bad("%d activity headers", len(l))
	} else if err := RefDecode(l[0], &a); err != nil || a.A.Id == (serialization.GUID{}) {
		bad("activity %v %v", a, err)
	}
	if l := h[hTimeout]; len(l) != 1 {
		bad("%d timeout headers", len(l))
	}
}

// newGateway connects a naming client to a gateway; on handles each request.
func newGateway(c *Ctx, r *rand.Rand, on func(g *gateway, m *WM)) (*gateway, *naming.NamingClient, *transport.Client, *Op, *Conn) {
	return newGatewayOn(c, ConnOpts{ReadChunk: chunker(r)}, ConnOpts{ReadChunk: chunker(r)}, on)
}

func newGatewayOn(c *Ctx, ao, bo ConnOpts, on func(g *gateway, m *WM)) (*gateway, *naming.NamingClient, *transport.Client, *Op, *Conn) {
	a, b := Pipe(ao, bo)
	g := &gateway{c: c, on: on}
	g.p = newWirePeer(b, func(p *WirePeer, m *WM) {
		if !isApp(m) {
			return
		}
		g.mu.Lock()
		g.in = append(g.in, m)
		g.mu.Unlock()
		if on != nil {
			on(g, m)
		}
	}, frameOpt{})
	g.p.SendInit()
	cl := c.connect(a, transport.ClientConfig{})
	nc, err := naming.NewNamingClient(cl)
	if err != nil {
		panic(setupError{err})
	}
	w := Go("client receive loop", func() (any, error) { return nil, cl.Wait() })
	return g, nc, cl, w, a
}

// answerKinds of a planned reply.
const (
	ansOK       = iota
	ansFail     // ClientOperationFailure with a code
	ansFailBad  // ClientOperationFailure that cannot be decoded
	ansAction   // another action
	ansGarbage  // cannot be decoded
	ansCut      // decodable prefix missing its end
	ansType     // well formed but of other types
	ansEmpty    // no body
	ansNoResult // application list without result
	ansError    // application list with error code
	ansMore     // from a newer gateway, with further fields
	ansKinds
)

var ansName = []string{"ok", "failure", "undecodable failure", "other action", "garbage", "cut", "other type", "empty", "no result", "error code", "further fields"}

func nonZero64(r *rand.Rand) int64 {
	for {
		if v := genInt(r, 64); v != 0 {
			return v
		}
	}
}

// garbage starts like an object whose begin marker is missing: nothing can decode it.
func garbage(r *rand.Rand) []byte {
	b := genBytes(r, 1+r.IntN(40))
	b[0] = tObject
	if len(b) > 9 {
		b[5] &^= 1
		if b[9] == tBegin {
			b[9]++
		}
	}
	return b
}

type pingMore struct {
	D     gwDescription
	Extra string
	More  []int32
}

type gwAnswer struct {
	kind   int
	action string
	body   []byte
	ping   gwDescription
	apps   []gwApp
	code   string // must be named by the error
}

// genAnswer plans the answer to a ping, query or registration step.
func genAnswer(r *rand.Rand, action string, kind int) gwAnswer {
	a := gwAnswer{kind: kind, action: action}
	var ok []byte
	var more []byte
	switch action {
	case "PingRequest":
		fillAny(r, &a.ping, 3)
		ok = RefEncode(&gwPingReply{a.ping}, RefOpts{})
		more = RefEncode(&pingMore{a.ping, "later", []int32{1, 2}}, RefOpts{})
	case "QueryRequest":
		a.action = pick(r, []string{"QueryRequest", "QueryReply", ""})
		n := pick(r, []int{0, 0, 1, 2, 5, 40})
		for i := 0; i < n; i++ {
			var x gwApp
			fillAny(r, &x, 2)
			a.apps = append(a.apps, x)
		}
		rep := gwQueryReply{Kind: int32(genInt(r, 32)), Result: &gwAppList{a.apps}}
		ok = RefEncode(&rep, RefOpts{})
		more = RefEncode(&struct {
			Kind   int32
			Result *gwAppList
			Error  int32
			Extra  string
		}{rep.Kind, rep.Result, 0, "later"}, RefOpts{})
	default:
		a.action = pick(r, []string{action, "", "NotificationClientConnectionReply"})
		var b gwConnected
		fillAny(r, &b, 2)
		ok = RefEncode(&b, RefOpts{})
		more = ok
		if r.IntN(3) == 0 {
			ok = nil
		}
	}
	switch kind {
	case ansOK:
		a.body = ok
	case ansMore:
		a.body = more
	case ansFail:
		a.action = gwFailText
		code := nonZero64(r)
		if r.IntN(2) == 0 {
			code = -2147017627 - int64(r.IntN(100))
		}
		if r.IntN(8) == 0 {
			code = 0
		}
		a.code = fmt.Sprint(code)
		a.body = RefEncode(&gwFailure{code}, RefOpts{})
	case ansFailBad:
		a.action = gwFailText
		a.body = pick(r, [][]byte{nil, garbage(r), RefEncode(&strObj{"x"}, RefOpts{}), RefEncode(&gwFailure{7}, RefOpts{})[:5]})
	case ansAction:
		a.body = ok
		a.action = pick(r, []string{"", "PingReply", "pingrequest", "QueryRequest", "ServiceNotificationRequest", "PingRequest "})
	case ansGarbage:
		a.body = garbage(r)
	case ansCut:
		a.body = ok[:1+r.IntN(len(ok)-1)]
	case ansType:
		a.body = RefEncode(&strObj{"not this"}, RefOpts{})
	case ansEmpty:
		a.body = nil
	case ansNoResult:
		a.body = RefEncode(&gwQueryReply{Kind: int32(r.IntN(5))}, RefOpts{})
		if r.IntN(2) == 0 {
			a.body = RefEncode(&i32Obj{int32(r.IntN(5))}, RefOpts{})
		}
	case ansError:
		code := int32(genInt(r, 32))
		if code == 0 {
			code = -2147017627
		}
		a.code = fmt.Sprint(code)
		rep := gwQueryReply{Error: code}
		if r.IntN(2) == 0 {
			rep.Result = &gwAppList{a.apps}
		}
		a.body = RefEncode(&rep, RefOpts{})
	}
	return a
}

var kindsFor = map[string][]int{
	"PingRequest":                              {ansOK, ansOK, ansOK, ansMore, ansFail, ansFailBad, ansAction, ansGarbage, ansCut, ansType, ansEmpty},
	"QueryRequest":                             {ansOK, ansOK, ansOK, ansMore, ansFail, ansFailBad, ansGarbage, ansCut, ansType, ansEmpty, ansNoResult, ansError},
	"NotificationClientConnectionRequest":      {ansOK, ansOK, ansOK, ansOK, ansFail, ansFailBad},
	"RegisterServiceNotificationFilterRequest": {ansOK, ansOK, ansOK, ansFail, ansFailBad},
}

func genUri(r *rand.Rand) common.Uri {
	var u common.Uri
	fillAny(r, &u, 2)
	return u
}

type namingOp struct {
	kind int
	name string // filter text, or what identifies the call
	uri  common.Uri
	a, b bool
	op   *Op
}

func c16calls(c *Ctx) {
	n := c.N(260, 2600)
	c.Cases("calls", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var mu sync.Mutex
			answers := map[string]gwAnswer{} // what was answered, by what identifies the call
			pings := []gwAnswer{}
			pr := c.rng("plan", i)
			shuffle := i%3 == 1
			type held struct {
				m *WM
				a gwAnswer
			}
			var hold []held
			g, nc, cl, w, _ := newGateway(c, r, func(g *gateway, m *WM) {
				mu.Lock()
				if m.Action == "ServiceNotificationReply" { // to an answer sent twice with that action
					mu.Unlock()
					return
				}
				ks := kindsFor[m.Action]
				if ks == nil {
					c.Violation("request with action %q", m.Action)
					mu.Unlock()
					return
				}
				a := genAnswer(pr, m.Action, pick(pr, ks))
				key := ""
				switch m.Action {
				case "PingRequest":
					pings = append(pings, a)
					key = "ping " + fmt.Sprint(len(pings)-1)
				case "QueryRequest":
					var q gwQuery
					if err := RefDecode(m.Body, &q); err != nil {
						c.Violation("query: %v", err)
					}
					if q.Name != "GetApplicationList" || len(q.Args.Map) != 1 {
						c.Violation("query %q with arguments %v", q.Name, q.Args.Map)
					}
					f, ok := q.Args.Map[gwQueryKey{"ApplicationName"}]
					if !ok {
						c.Violation("query arguments %v", q.Args.Map)
					}
					key = "query " + f
				case "NotificationClientConnectionRequest":
					var q gwConnect
					if err := RefDecode(m.Body, &q); err != nil {
						c.Violation("connect: %v", err)
					}
					key = "connect"
				case "RegisterServiceNotificationFilterRequest":
					var q gwRegister
					if err := RefDecode(m.Body, &q); err != nil || q.Filter == nil {
						c.Violation("register: %v %v", err, q)
						mu.Unlock()
						return
					}
					key = "register " + q.Filter.Name.Query
				}
				answers[key] = a
				if shuffle {
					hold = append(hold, held{m, a})
					mu.Unlock()
					return
				}
				mu.Unlock()
				g.checkRequest(m)
				if pr.IntN(6) == 0 { // a stray reply to nothing first
					g.p.Send(&WM{Actor: gwActor, Action: "PingRequest", RelatesTo: g.p.NextId(), Body: RefEncode(&gwPingReply{gwDescription{Address: "stray"}}, RefOpts{})})
				}
				actor := int64(gwActor)
				if pr.IntN(4) == 0 { // whose reply it is, its relates-to id says
					actor = pick(pr, []int64{0, 2, 6, 29, 0x10000, -1})
				}
				g.p.Reply(m, noFault(decorate(pr, &WM{Actor: actor, Action: a.action, Body: a.body})))
				if pr.IntN(8) == 0 { // and the answer again
					g.p.Reply(m, noFault(decorate(pr, &WM{Actor: gwActor, Action: a.action, Body: a.body})))
				}
			})
			ctx, cancel := context.WithTimeout(bg, time.Hour)
			defer cancel()
			conc := r.IntN(8) + 1
			serial := i%3 == 0
			var ops []*namingOp
			for k := 0; k < conc; k++ {
				o := &namingOp{kind: r.IntN(3), name: fmt.Sprintf("fabric:/%d-%d%s", i, k, genString(r, 6))}
				switch r.IntN(6) {
				case 0:
					o.name = fmt.Sprintf("%s/%d %d ", genString(r, 40), i, k)
				case 1:
					if k == 0 {
						o.name = ""
					}
				case 2:
					o.name = fmt.Sprintf("Fabric:/System%s/%d-%d/", strings.Repeat("Ä", r.IntN(400)), i, k)
				}
				o.uri = genUri(r)
				o.uri.Query = o.name
				o.a, o.b = r.IntN(2) == 0, r.IntN(2) == 0
				if !serial && o.kind == 2 {
					o.kind = r.IntN(2) // registrations are ordered in phase filters
				}
				if !serial && o.kind == 0 && k > 0 {
					o.kind = 1 // one ping at a time tells which answer is its
				}
				ops = append(ops, o)
				o.op = Go(fmt.Sprintf("naming call %d", o.kind), func() (any, error) {
					var v any
					var err error
					if p := catch(func() {
						switch o.kind {
						case 0:
							v, err = nc.Ping(ctx)
						case 1:
							v, err = nc.GetApplicationList(ctx, o.name)
						case 2:
							v, err = nc.RegisterFilter(ctx, o.uri, o.a, o.b)
						}
					}); p != "" {
						c.Violation("naming call panics: %s", p)
						return nil, errors.New("panicked")
					}
					return v, err
				})
				if serial {
					synctest.Wait()
					c.MustReturn(o.op, "after the gateway answered")
					c.checkNaming(o, answers, pings)
					delete(answers, "connect")
				}
			}
			if shuffle {
				synctest.Wait()
				mu.Lock()
				hs := hold
				hold = nil
				mu.Unlock()
				r.Shuffle(len(hs), func(a, b int) { hs[a], hs[b] = hs[b], hs[a] })
				for _, h := range hs {
					g.p.Reply(h.m, noFault(decorate(r, &WM{Actor: gwActor, Action: h.a.action, Body: h.a.body})))
				}
			}
			synctest.Wait()
			if !serial {
				for _, o := range ops {
					c.MustReturn(o.op, "after the gateway answered")
					c.checkNaming(o, answers, pings)
				}
			}
			c.Saw(fmt.Sprintf("%d/%d", i, conc))
			cl.Close()
			g.p.C.Close()
			synctest.Wait()
			c.MustReturn(w, "after close")
		})
		c.StopIfFailed(3)
	})
}

// checkNaming compares the result of a call with the answers of the gateway to it.
func (c *Ctx) checkNaming(o *namingOp, answers map[string]gwAnswer, pings []gwAnswer) {
	v, err := o.op.Get()
	judge := func(what string, a gwAnswer, got func() string) bool {
		c.Count("answer_"+strings.ReplaceAll(ansName[a.kind], " ", "_"), 1)
		if a.kind == ansOK || a.kind == ansMore {
			if err != nil {
				c.Violation("%s fails with %v though the gateway answered (%s)", what, err, ansName[a.kind])
			} else if got != nil {
				if d := got(); d != "" {
					c.Violation("%s returns not what the gateway sent (%s): %s", what, ansName[a.kind], d)
				}
			}
			return true
		}
		if err == nil {
			c.Violation("%s succeeds with %v though the gateway's answer was: %s (action %q body %x)", what, v, ansName[a.kind], a.action, a.body)
		} else if a.code != "" && !strings.Contains(err.Error(), a.code) {
			c.Violation("%s: error %q does not name code %s", what, err, a.code)
		}
		return false
	}
	switch o.kind {
	case 0:
		if len(pings) == 0 {
			c.Violation("ping not sent: %v %v", v, err)
			return
		}
		a := pings[len(pings)-1]
		judge("ping", a, func() string {
			d, _ := v.(*naming.GatewayDescription)
			if d == nil {
				return "nil description"
			}
			return diffAny(a.ping, descOf(d))
		})
	case 1:
		a, ok := answers["query "+o.name]
		if !ok {
			c.Violation("query %q not sent: %v %v", o.name, v, err)
			return
		}
		judge("application list", a, func() string {
			l, _ := v.([]naming.ApplicationQueryResult)
			return diffAny(a.apps, appsOf(l))
		})
	case 2:
		a, ok := answers["connect"]
		if !ok {
			c.Violation("registration without announcing the client: %v %v", v, err)
			return
		}
		b, sent := answers["register "+o.name]
		if a.kind != ansOK {
			judge("registration (announcement)", a, nil)
			if sent {
				c.Violation("filter registered though announcing the client failed")
			}
			return
		}
		if !sent {
			c.Violation("filter %q never reached the gateway: %v %v", o.name, v, err)
			return
		}
		judge("registration", b, nil)
	}
}

func c16ctx(c *Ctx) {
	n := c.N(240, 2400)
	c.Cases("ctx", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			// answers arrive after delays; the context ends at some time; connection may end
			kind := i % 3
			mode := (i / 3) % 6
			d1 := time.Duration(1+r.IntN(2000)) * time.Millisecond
			d2 := time.Duration(1+r.IntN(2000)) * time.Millisecond
			total := d1
			if kind == 2 {
				total = d1 + d2
			}
			var desc gwDescription
			fillAny(r, &desc, 2)
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			never := mode == 5
			step := 0
			g, nc, cl, w, end := newGateway(c, r, func(g *gateway, m *WM) {
				step++
				d := d1
				if step > 1 {
					d = d2
				}
				if never {
					return
				}
				time.AfterFunc(d, func() {
					body := []byte(nil)
					switch m.Action {
					case "PingRequest":
						body = RefEncode(&gwPingReply{desc}, RefOpts{})
					case "QueryRequest":
						body = RefEncode(&gwQueryReply{Result: &gwAppList{}}, RefOpts{})
					}
					g.p.Reply(m, &WM{Actor: gwActor, Action: m.Action, Body: body})
				})
			})
			synctest.Wait()
			start := time.Now()
			var endAt time.Duration = -1
			wantErr := error(nil)
			switch mode {
			case 0: // context has ended already
				cancel()
				endAt, wantErr = 0, context.Canceled
			case 1: // cancelled before the last answer
				endAt, wantErr = time.Duration(r.Int64N(int64(total))), context.Canceled
				time.AfterFunc(endAt, cancel)
			case 2: // deadline before the last answer
				endAt, wantErr = time.Duration(r.Int64N(int64(total))), context.DeadlineExceeded
				var c2 func()
				ctx, c2 = context.WithTimeout(ctx, endAt)
				defer c2()
			case 3: // ends later
				var c2 func()
				ctx, c2 = context.WithTimeout(ctx, total+time.Duration(1+r.IntN(1000))*time.Millisecond)
				defer c2()
				endAt = total
			case 4: // connection ends before
				endAt = time.Duration(r.Int64N(int64(total)))
				wantErr = errors.New("any")
				how := r.IntN(3)
				time.AfterFunc(endAt, func() {
					switch how {
					case 0:
						g.p.C.Close()
					case 1:
						cl.Close()
					default:
						end.FailReads(errors.New("reset"))
					}
				})
			case 5: // never answered
				endAt, wantErr = time.Duration(1+r.IntN(100))*time.Minute, context.DeadlineExceeded
				var c2 func()
				ctx, c2 = context.WithTimeout(ctx, endAt)
				defer c2()
			}
			o := &namingOp{kind: kind}
			o.op = Go(fmt.Sprintf("naming call %d (mode %d)", kind, mode), func() (any, error) {
				switch kind {
				case 0:
					return nc.Ping(ctx)
				case 1:
					return nc.GetApplicationList(ctx, "x")
				default:
					return nc.RegisterFilter(ctx, genUri(r), true, false)
				}
			})
			time.Sleep(endAt)
			synctest.Wait()
			c.MustReturn(o.op, "when its context or connection ended")
			_, err := o.op.Get()
			at := o.op.When().Sub(start)
			switch {
			case wantErr == nil && err != nil:
				c.Violation("call %d answered after %v fails: %v", kind, total, err)
			case wantErr != nil && err == nil:
				c.Violation("call %d succeeds at %v though it was to be answered at %v and ended at %v (mode %d)", kind, at, total, endAt, mode)
			case wantErr != nil && mode != 4 && !errors.Is(err, wantErr):
				c.Violation("call %d (mode %d): error %v, want %v", kind, mode, err, wantErr)
			case at > endAt:
				c.Violation("call %d (mode %d) returns at %v, %v expected", kind, mode, at, endAt)
			}
			if mode != 4 {
				// late answers do no harm, and the connection stays usable
				never = true
				time.Sleep(time.Hour)
				never = false
				d1 = 0
				step = 0
				o := Go("ping afterwards", func() (any, error) {
					x, c2 := context.WithTimeout(bg, time.Minute)
					defer c2()
					return nc.Ping(x)
				})
				time.Sleep(time.Second)
				synctest.Wait()
				c.MustReturn(o, "though answered")
				if v, err := o.Get(); err != nil {
					c.Violation("ping after a call that ended (mode %d): %v", mode, err)
				} else if d := diffAny(desc, descOf(v.(*naming.GatewayDescription))); d != "" {
					c.Violation("ping after a call that ended: %s", d)
				}
			}
			c.Saw(fmt.Sprintf("%d/%d/%v/%v", kind, mode, endAt, total))
			cl.Close()
			g.p.C.Close()
			synctest.Wait()
			c.MustReturn(w, "after close")
		})
		c.StopIfFailed(3)
	})
}

func c17notifications(c *Ctx) {
	n := c.N(160, 1600)
	c.Cases("notify", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			type want struct {
				id   transport.MessageId
				n    *gwNotification
				kind int
				got  int
				ack  int
			}
			var list []*want
			byPage := map[uint64]*want{}
			var mu sync.Mutex
			cbMode := i % 4
			release := make(chan struct{})
			g, nc, cl, w, _ := newGateway(c, r, func(g *gateway, m *WM) {
				if m.Action == "PingRequest" {
					g.p.Reply(m, &WM{Actor: gwActor, Action: "PingRequest", Body: RefEncode(&gwPingReply{}, RefOpts{})})
				}
			})
			if cbMode != 3 {
				nc.OnServiceNotification = func(sn *naming.ServiceNotification) {
					mu.Lock()
					if sn == nil {
						c.Violation("callback gets no notification")
						mu.Unlock()
						return
					}
					x := byPage[sn.NotificationPageId.PageIndex]
					switch {
					case x == nil:
						c.Violation("callback gets a notification that was not sent: page %d", sn.NotificationPageId.PageIndex)
					case x.n == nil:
						c.Violation("callback gets what cannot be decoded (kind %d): %+v", x.kind, sn)
					default:
						x.got++
						if d := diffAny(x.n, notificationOf(sn)); d != "" {
							c.Violation("callback gets other content than was sent: %s", d)
						}
					}
					mu.Unlock()
					switch cbMode {
					case 1:
						<-release
					case 2:
						if _, err := nc.Ping(bg); err != nil {
							c.Violation("ping from the callback: %v", err)
						}
					}
				}
			}
			count := 1 + r.IntN(10)
			for k := 0; k < count; k++ {
				x := &want{id: g.p.NextId()}
				page := uint64(i)<<20 | uint64(k) + 1
				sn := gwNotification{}
				fillAny(r, &sn, 2)
				if r.IntN(20) == 0 { // a large one
					for len(sn.Partitions) < 700 {
						var p gwPartition
						fillAny(r, &p, 0)
						sn.Partitions = append(sn.Partitions, &p)
					}
				}
				sn.Page.Page = page
				body := RefEncode(&gwNotify{&sn}, RefOpts{})
				m := decorate(r, &WM{Id: x.id, Actor: gwActor, Action: "ServiceNotificationRequest", ExpectsReply: true})
				if r.IntN(5) == 0 {
					m.RelatesTo = g.p.NextId()
				}
				if r.IntN(5) == 0 {
					m.ExpectsReply = false
				}
				switch r.IntN(7) {
				case 0:
					x.kind = 1
					body = body[:1+r.IntN(len(body)-1)]
				case 1:
					x.kind = 2
					body = garbage(r)
				case 2:
					x.kind = 3
					body = RefEncode(&strObj{"other"}, RefOpts{})
					if r.IntN(2) == 0 {
						body = nil
					}
				case 3:
					x.kind = 4
					m.Action = pick(r, []string{"ServiceNotificationReply", "", "PingRequest", "Unknown", "ServiceNotificationRequest2"})
				default:
					x.n = &sn
				}
				m.Body = body
				mu.Lock()
				byPage[page] = x
				list = append(list, x)
				mu.Unlock()
				g.p.Send(m)
				if x.n != nil && r.IntN(6) == 0 {
					// the gateway sends it again under another id: acknowledged and delivered again
					y := &want{id: g.p.NextId(), n: x.n, kind: 9}
					mu.Lock()
					list = append(list, y)
					mu.Unlock()
					m2 := *m
					m2.Id = y.id
					g.p.Send(&m2)
				}
				if r.IntN(3) == 0 {
					synctest.Wait()
				}
			}
			synctest.Wait()
			mu.Lock()
			again := map[*gwNotification]int{}
			for _, x := range list {
				if x.kind == 9 {
					again[x.n]++
				}
			}
			for _, m := range g.got() {
				if m.Action == "PingRequest" && cbMode == 2 {
					continue
				}
				var x *want
				for _, y := range list {
					if y.id == m.RelatesTo {
						x = y
					}
				}
				if x == nil {
					c.Violation("message %q to the gateway relates to nothing it sent", m.Action)
					continue
				}
				if x.kind == 4 {
					c.Violation("message with another action is answered with %q", m.Action)
					continue
				}
				if x.n == nil {
					var e i64Obj
					if RefDecode(m.Body, &e) == nil && e.V == 0 {
						c.Violation("notification that cannot be decoded (kind %d) is acknowledged as a success", x.kind)
					}
					continue
				}
				x.ack++
				var e i64Obj
				if err := RefDecode(m.Body, &e); err != nil || e.V != 0 || m.Action != "ServiceNotificationReply" || m.Actor != gwActor {
					c.Violation("acknowledgement action %q actor %d code %d %v", m.Action, m.Actor, e.V, err)
				}
			}
			delivered := 0
			for k, x := range list {
				if x.n == nil {
					c.Count("undecodable", 1)
					continue
				}
				c.Count("notifications", 1)
				if x.ack != 1 {
					c.Violation("notification %d acknowledged %d times", k, x.ack)
				}
				if x.kind != 9 && cbMode != 3 && x.got != 1+again[x.n] {
					c.Violation("notification %d handed to the callback %d times, sent %d times", k, x.got, 1+again[x.n])
				}
				delivered++
			}
			mu.Unlock()
			c.Saw(fmt.Sprintf("%d/%d/%d", cbMode, count, delivered))
			close(release)
			synctest.Wait()
			cl.Close()
			g.p.C.Close()
			synctest.Wait()
			c.MustReturn(w, "after close")
		})
		c.StopIfFailed(3)
	})
}

func c17filters(c *Ctx) {
	n := c.N(80, 800)
	c.Cases("filters", n, func(i int, r *rand.Rand) {
		c.Bubble(func() {
			clients := 1 + r.IntN(3)
			names := map[string]bool{}
			for k := 0; k < clients; k++ {
				k := k
				failEvery := r.IntN(4)
				var mu sync.Mutex
				seq := 0
				g, nc, cl, w, _ := newGateway(c, r, func(g *gateway, m *WM) {
					g.checkRequest(m)
					mu.Lock()
					seq++
					fail := failEvery == 3 && seq%5 == 4
					mu.Unlock()
					a := m.Action
					b := RefEncode(&gwConnected{}, RefOpts{})
					if fail {
						a, b = gwFailText, RefEncode(&gwFailure{5}, RefOpts{})
					}
					g.p.Reply(m, &WM{Actor: gwActor, Action: a, Body: b})
				})
				cnt := 1 + r.IntN(10)
				type reg struct {
					uri  common.Uri
					a, b bool
					op   *Op
				}
				var regs []*reg
				for q := 0; q < cnt; q++ {
					x := &reg{uri: genUri(r), a: r.IntN(2) == 0, b: r.IntN(2) == 0}
					x.uri.Query = fmt.Sprintf("%d/%d/%d", i, k, q)
					regs = append(regs, x)
					x.op = Go("RegisterFilter", func() (any, error) { return nc.RegisterFilter(bg, x.uri, x.a, x.b) })
				}
				synctest.Wait()
				ids := map[uint64]int{}
				reached := map[string][]gwRegister{}
				announced := map[string]bool{}
				for _, m := range g.got() {
					switch m.Action {
					case "NotificationClientConnectionRequest":
						var b gwConnect
						if err := RefDecode(m.Body, &b); err != nil {
							c.Violation("announcement: %v", err)
						}
						announced[b.ClientId] = true
						if b.Versions == nil {
							c.Violation("announcement without version ranges")
						}
					case "RegisterServiceNotificationFilterRequest":
						var b gwRegister
						if err := RefDecode(m.Body, &b); err != nil || b.Filter == nil {
							c.Violation("registration: %v", err)
							continue
						}
						reached[b.Filter.Name.Query] = append(reached[b.Filter.Name.Query], b)
						if !announced[b.ClientId] {
							c.Violation("filter of client %q before that client was announced", b.ClientId)
						}
						if b.ClientId == "" {
							c.Violation("empty client id")
						}
						names[fmt.Sprintf("%d %s", k, b.ClientId)] = true
						var id gwIdentity
						if l := customOf(m)[hIdentity]; len(l) != 1 {
							c.Violation("%d client identities", len(l))
						} else if err := RefDecode(l[0], &id); err != nil || id.Friendly != b.ClientId {
							c.Violation("client identity %v %v, client id %q", id, err, b.ClientId)
						}
					default:
						c.Violation("action %q", m.Action)
					}
				}
				if len(announced) > 1 {
					c.Violation("one client announced under %d ids", len(announced))
				}
				for q, x := range regs {
					c.MustReturn(x.op, "though answered")
					v, err := x.op.Get()
					c.Count("registrations", 1)
					got := reached[x.uri.Query]
					if err != nil {
						c.Count("failed", 1)
						if failEvery != 3 {
							c.Violation("registration %d fails: %v", q, err)
						}
						continue
					}
					id := v.(uint64)
					if p, ok := ids[id]; ok {
						c.Violation("filters %d and %d have the same id %d", p, q, id)
					}
					ids[id] = q
					if len(got) != 1 {
						c.Violation("filter %d reached the gateway %d times", q, len(got))
						continue
					}
					want := gwFilter{Id: id, Name: uriOf(x.uri)}
					if x.a {
						want.Flags.Flags |= 1
					}
					if x.b {
						want.Flags.Flags |= 2
					}
					if d := diffAny(want, *got[0].Filter); d != "" {
						c.Violation("filter at the gateway is not what was registered: %s", d)
					}
				}
				cl.Close()
				g.p.C.Close()
				synctest.Wait()
				c.MustReturn(w, "after close")
			}
			seen := map[string]string{}
			for x := range names {
				k, id, _ := strings.Cut(x, " ")
				if p, ok := seen[id]; ok && p != k {
					c.Violation("clients %s and %s share the id %q", p, k, id)
				}
				seen[id] = k
			}
			c.Saw(fmt.Sprintf("%d/%d", i, clients))
		})
		c.StopIfFailed(3)
	})
}

// noFault: the gateway reports failures in bodies; what a fault header on its reply means is not specified.
func noFault(m *WM) *WM {
	m.Err, m.HasFault = 0, false
	return m
}

// c17ackFails: a notification that was received is handed on also if the connection breaks under its acknowledgement.
func c17ackFails(c *Ctx) {
	c.Cases("run", c.N(80, 1500), func(i int, r *rand.Rand) {
		c.Bubble(func() {
			var fail atomic.Bool
			part := r.IntN(3) == 0
			g, nc, cl, w, a := newGatewayOn(c, ConnOpts{BeforeWrite: func(_ *Conn, p []byte) (int, error) {
				if !fail.Load() {
					return 0, nil
				}
				n := 0
				if part {
					n = len(p) / 2
				}
				return n, errors.New("injected write error")
			}}, ConnOpts{}, nil)
			var mu sync.Mutex
			got := map[uint64]int{}
			nc.OnServiceNotification = func(sn *naming.ServiceNotification) {
				mu.Lock()
				got[sn.NotificationPageId.PageIndex]++
				mu.Unlock()
			}
			n := 1 + r.IntN(5)
			bad := r.IntN(n)
			for k := 0; k <= bad; k++ {
				fail.Store(k == bad)
				sn := gwNotification{}
				fillAny(r, &sn, 2)
				sn.Page.Page = uint64(k)
				g.p.Send(&WM{Id: g.p.NextId(), Actor: gwActor, Action: "ServiceNotificationRequest", ExpectsReply: true, Body: RefEncode(&gwNotify{&sn}, RefOpts{})})
				synctest.Wait()
			}
			mu.Lock()
			for k := 0; k <= bad; k++ {
				if got[uint64(k)] != 1 {
					c.Violation("notification %d is handed to the callback %d times (the acknowledgement of %d cannot be written)", k, got[uint64(k)], bad)
				}
			}
			mu.Unlock()
			c.Count("broken_acknowledgements", 1)
			c.Saw(fmt.Sprint(i, bad))
			cl.Close()
			a.Close()
			a.peer.Close()
			synctest.Wait()
			c.MustReturn(w, "after Close")
		})
		c.StopIfFailed(3)
	})
}

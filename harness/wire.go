package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"net"
	"reflect"
	"sort"
	"sync"
	"time"
	"unicode/utf16"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

// Independent implementation of the transport wire format.

// refCRC8: polynomial x^8+x^2+x+1, no reflection, zero start.
func refCRC8(b []byte) byte {
	var r byte
	for _, x := range b {
		r ^= x
		for i := 0; i < 8; i++ {
			if r&0x80 != 0 {
				r = r<<1 ^ 0x07
			} else {
				r <<= 1
			}
		}
	}
	return r
}

type RawHeader struct {
	Id   uint16
	Data []byte
}

type Frame struct {
	Len     uint32
	Mask    uint8
	HCRC    uint8
	HLen    uint16
	BCRC    uint32
	Payload []byte // headers and body
	Raw     []byte
}

const frameHdr = 12

// cutFrame takes one frame off b; ok is false when b holds only a part of one.
func cutFrame(b []byte) (f Frame, rest []byte, ok bool, err error) {
	if len(b) < frameHdr {
		return f, b, false, nil
	}
	f.Len = binary.LittleEndian.Uint32(b)
	f.Mask, f.HCRC = b[4], b[5]
	f.HLen = binary.LittleEndian.Uint16(b[6:])
	f.BCRC = binary.LittleEndian.Uint32(b[8:])
	if f.Len < frameHdr {
		return f, b, false, fmt.Errorf("frame length %d below its header", f.Len)
	}
	if uint64(len(b)) < uint64(f.Len) {
		return f, b, false, nil
	}
	f.Raw = b[:f.Len]
	f.Payload = b[frameHdr:f.Len]
	if int(f.HLen) > len(f.Payload) {
		return f, b, false, fmt.Errorf("header length %d beyond frame of %d", f.HLen, f.Len)
	}
	return f, b[f.Len:], true, nil
}

func (f *Frame) headerCRCWant() byte {
	h := make([]byte, frameHdr)
	copy(h, f.Raw[:frameHdr])
	h[5] = 0
	binary.LittleEndian.PutUint32(h[8:], 0)
	return refCRC8(h)
}

func cutHeaders(b []byte) ([]RawHeader, error) {
	var out []RawHeader
	for len(b) > 0 {
		if len(b) < 4 {
			return out, errors.New("header section ends inside a header")
		}
		id, n := binary.LittleEndian.Uint16(b), int(binary.LittleEndian.Uint16(b[2:]))
		if len(b) < 4+n {
			return out, errors.New("header section ends inside a header body")
		}
		out = append(out, RawHeader{id, b[4 : 4+n]})
		b = b[4+n:]
	}
	return out, nil
}

// WM is a transport message as the wire carries it.
type WM struct {
	Id, RelatesTo    transport.MessageId
	Actor            int64
	Action           string
	ExpectsReply     bool
	HighPriority     bool
	Idempotent       bool
	Err              int64
	HasFault         bool
	Retry            int32
	Custom           []RawHeader // in order of arrival
	Body             []byte
	Mask             uint8
	HCRCSet, BCRCSet bool
	HCRCOk, BCRCOk   bool
	seen             map[uint16]int
}

func (m *WM) has(id uint16) bool { return m.seen[id] > 0 }

const (
	hInvalid  = 0x8000
	hActor    = 0x8001
	hAction   = 0x8002
	hId       = 0x8003
	hRelates  = 0x8004
	hExpects  = 0x8005
	hRetry    = 0x8006
	hFault    = 0x8007
	hIdem     = 0x8008
	hPriority = 0x8009
	hNego     = 0x8048
)

type boolObj struct{ V bool }
type strObj struct{ V string }
type i64Obj struct{ V int64 }
type i32Obj struct{ V int32 }
type faultObj struct {
	E int64
	H bool
}

// parseWM reads a frame's payload independently of the library.
func parseWM(f Frame) (*WM, error) {
	m := &WM{Mask: f.Mask, seen: map[uint16]int{}}
	m.HCRCSet, m.BCRCSet = f.HCRC != 0, f.BCRC != 0
	m.HCRCOk = f.HCRC == f.headerCRCWant()
	m.BCRCOk = f.BCRC == crc32.ChecksumIEEE(f.Payload)
	m.Body = f.Payload[f.HLen:]
	hs, err := cutHeaders(f.Payload[:f.HLen])
	if err != nil {
		return nil, err
	}
	for _, h := range hs {
		m.seen[h.Id]++
		var e error
		switch h.Id {
		case hInvalid, hNego:
			m.Custom = append(m.Custom, h)
		case hId:
			e = RefDecode(h.Data, &m.Id)
		case hRelates:
			e = RefDecode(h.Data, &m.RelatesTo)
		case hActor:
			var o i64Obj
			e = RefDecode(h.Data, &o)
			m.Actor = o.V
		case hAction:
			var o strObj
			e = RefDecode(h.Data, &o)
			m.Action = o.V
		case hExpects, hPriority, hIdem:
			var o boolObj
			e = RefDecode(h.Data, &o)
			switch h.Id {
			case hExpects:
				m.ExpectsReply = o.V
			case hPriority:
				m.HighPriority = o.V
			default:
				m.Idempotent = o.V
			}
		case hRetry:
			var o i32Obj
			e = RefDecode(h.Data, &o)
			m.Retry = o.V
		case hFault:
			var o faultObj
			e = RefDecode(h.Data, &o)
			m.Err, m.HasFault = o.E, o.H
		default:
			m.Custom = append(m.Custom, h)
		}
		if e != nil {
			return nil, fmt.Errorf("header %#x: %w", h.Id, e)
		}
	}
	return m, nil
}

func appendHeader(b []byte, id uint16, data []byte) []byte {
	b = binary.LittleEndian.AppendUint16(b, id)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(data)))
	return append(b, data...)
}

func (m *WM) headerSection() []byte {
	var b []byte
	b = appendHeader(b, hId, RefEncode(&m.Id, RefOpts{}))
	if m.RelatesTo != (transport.MessageId{}) {
		b = appendHeader(b, hRelates, RefEncode(&m.RelatesTo, RefOpts{}))
	}
	b = appendHeader(b, hActor, RefEncode(&i64Obj{m.Actor}, RefOpts{}))
	if m.Action != "" {
		b = appendHeader(b, hAction, RefEncode(&strObj{m.Action}, RefOpts{}))
	}
	for _, x := range []struct {
		id uint16
		v  bool
	}{{hExpects, m.ExpectsReply}, {hPriority, m.HighPriority}, {hIdem, m.Idempotent}} {
		if x.v {
			b = appendHeader(b, x.id, RefEncode(&boolObj{true}, RefOpts{}))
		}
	}
	if m.Err != 0 || m.HasFault {
		b = appendHeader(b, hFault, RefEncode(&faultObj{m.Err, m.HasFault}, RefOpts{}))
	}
	if m.Retry != 0 {
		b = appendHeader(b, hRetry, RefEncode(&i32Obj{m.Retry}, RefOpts{}))
	}
	for _, h := range m.Custom {
		b = appendHeader(b, h.Id, h.Data)
	}
	return b
}

type frameOpt struct {
	NoHCRC bool // leave the header checksum 0
	BCRC   bool
	Mask   uint8
}

func buildFrame(headers, body []byte, o frameOpt) []byte {
	b := make([]byte, frameHdr, frameHdr+len(headers)+len(body))
	binary.LittleEndian.PutUint32(b, uint32(frameHdr+len(headers)+len(body)))
	b[4] = o.Mask
	binary.LittleEndian.PutUint16(b[6:], uint16(len(headers)))
	if !o.NoHCRC {
		b[5] = refCRC8(b)
	}
	b = append(b, headers...)
	b = append(b, body...)
	if o.BCRC {
		binary.LittleEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[frameHdr:]))
	}
	return b
}

func (m *WM) encode(o frameOpt) []byte { return buildFrame(m.headerSection(), m.Body, o) }

// ---------------------------------------------------------------------------------------------------------
// reference decoder

type refDec struct {
	b []byte
	p int
}

var errRefEnd = errors.New("refdec: unexpected end")

func (d *refDec) byte() byte {
	if d.p >= len(d.b) {
		panic(errRefEnd)
	}
	d.p++
	return d.b[d.p-1]
}

func (d *refDec) take(n int) []byte {
	if n < 0 || len(d.b)-d.p < n {
		panic(errRefEnd)
	}
	d.p += n
	return d.b[d.p-n : d.p]
}

func (d *refDec) packed() uint64 {
	x := d.byte()
	v := uint64(x & 0x7f)
	if x&0x40 != 0 {
		v |= ^uint64(0x7f)
	}
	for n := 0; x&0x80 != 0; n++ {
		if n > 10 {
			panic(errors.New("refdec: long integer"))
		}
		x = d.byte()
		v = v<<7 | uint64(x&0x7f)
	}
	return v
}

func (d *refDec) want(b, w byte) {
	if b != w {
		panic(fmt.Errorf("refdec: type byte %#x, want %#x at %d", b, w, d.p))
	}
}

// RefDecode decodes data into the struct p points to, leniently about missing and extra trailing fields.
func RefDecode(data []byte, p any) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(error); ok {
				var re interface{ RuntimeError() }
				if !errors.As(x, &re) {
					err = x
					return
				}
			}
			panic(e)
		}
	}()
	d := &refDec{b: data}
	v := reflect.ValueOf(p).Elem()
	d.value(d.byte(), v)
	if d.p != len(data) {
		return fmt.Errorf("refdec: %d bytes left over", len(data)-d.p)
	}
	return nil
}

func (d *refDec) object(body func(end int)) {
	st := d.p
	size := int(binary.LittleEndian.Uint32(d.take(4)))
	flags := d.take(4)[0]
	if flags&1 != 0 {
		d.take(int(d.packed()))
	}
	d.want(d.byte(), tBegin)
	end := st + size
	if end > len(d.b) || end-2 < d.p || d.b[end-1] != tObjEnd || d.b[end-2] != tEnd {
		panic(errors.New("refdec: bad object size"))
	}
	body(end - 2)
	if d.p > end-2 {
		panic(errors.New("refdec: object overrun"))
	}
	d.p = end
}

func (d *refDec) value(m byte, v reflect.Value) {
	empty := m&tEmpty != 0
	switch v.Kind() {
	case reflect.Bool:
		switch m {
		case tEmpty | tBool:
			v.SetBool(true)
		case tEmpty | tBool | 0x30:
			v.SetBool(false)
		default:
			d.want(m, tBool)
		}
	case reflect.Int8:
		d.want(m&^tEmpty, tChar)
		v.SetInt(0)
		if !empty {
			v.SetInt(int64(int8(d.byte())))
		}
	case reflect.Uint8:
		d.want(m&^tEmpty, tUChar)
		v.SetUint(0)
		if !empty {
			v.SetUint(uint64(d.byte()))
		}
	case reflect.Int16, reflect.Int32, reflect.Int64:
		d.want(m&^tEmpty, baseType(v.Kind()))
		v.SetInt(0)
		if !empty {
			v.SetInt(int64(d.packed()))
		}
	case reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.want(m&^tEmpty, baseType(v.Kind()))
		v.SetUint(0)
		if !empty {
			v.SetUint(d.packed())
		}
	case reflect.Float32, reflect.Float64:
		d.want(m&^tEmpty, tDouble)
		v.SetFloat(0)
		if !empty {
			v.SetFloat(math.Float64frombits(binary.LittleEndian.Uint64(d.take(8))))
		}
	case reflect.String:
		d.want(m&^tEmpty, tWString|tArray)
		v.SetString("")
		if !empty {
			n := int(d.packed())
			if n < 0 || n > (len(d.b)-d.p)/2 {
				panic(errRefEnd)
			}
			u := make([]uint16, n)
			for i := range u {
				u[i] = binary.LittleEndian.Uint16(d.take(2))
			}
			v.SetString(string(utf16.Decode(u)))
		}
	case reflect.Ptr:
		d.want(m&^tEmpty, tPointer)
		v.SetZero()
		if !empty {
			p := reflect.New(v.Type().Elem())
			d.value(d.byte(), p.Elem())
			v.Set(p)
		}
	case reflect.Slice:
		ek := v.Type().Elem().Kind()
		switch ek {
		case reflect.String, reflect.Ptr:
			d.want(m&^tEmpty, tUInt32)
		default:
			d.want(m&^tEmpty, tArray|baseType(ek))
		}
		v.SetZero()
		if !empty {
			n := int(d.packed())
			if n < 0 || n > len(d.b)-d.p {
				panic(errRefEnd)
			}
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				d.value(d.byte(), s.Index(i))
			}
			v.Set(s)
		}
	case reflect.Map:
		v.SetZero()
		if m == tEmpty|tArray {
			return
		}
		d.want(m, tArray|tObject)
		n := int(d.packed())
		mp := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			d.want(d.byte(), tObject)
			d.object(func(int) {
				k, x := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				d.value(d.byte(), k)
				d.value(d.byte(), x)
				mp.SetMapIndex(k, x)
			})
		}
		v.Set(mp)
	case reflect.Struct:
		switch v.Type() {
		case typGUID:
			d.want(m&^tEmpty, tGuid)
			v.SetZero()
			if !empty {
				b := d.take(16)
				v.Field(0).SetUint(uint64(binary.LittleEndian.Uint32(b)))
				v.Field(1).SetUint(uint64(binary.LittleEndian.Uint16(b[4:])))
				v.Field(2).SetUint(uint64(binary.LittleEndian.Uint16(b[6:])))
				for i := 0; i < 8; i++ {
					v.Field(3).Index(i).SetUint(uint64(b[8+i]))
				}
			}
		case typNodeID:
			d.want(m, tUChar|tArray)
			if d.packed() != 16 {
				panic(errors.New("refdec: node id size"))
			}
			v.Field(0).SetUint(binary.LittleEndian.Uint64(d.take(8)))
			v.Field(1).SetUint(binary.LittleEndian.Uint64(d.take(8)))
		case typRange:
			d.value(m, v.Field(0))
			d.value(d.byte(), v.Field(1))
		default:
			d.want(m, tObject)
			d.object(func(end int) { d.fields(v, end) })
		}
	default:
		panic(fmt.Sprintf("refdec: kind %v", v.Kind()))
	}
}

func (d *refDec) fields(v reflect.Value, end int) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		if d.p >= end {
			return
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			d.fields(v.Field(i), end)
			continue
		}
		d.value(d.byte(), v.Field(i))
	}
}

// ---------------------------------------------------------------------------------------------------------
// WirePeer speaks the wire protocol at the harness's end of a connection.

type WirePeer struct {
	C    net.Conn
	mu   sync.Mutex
	cond *sync.Cond
	msgs []*WM // every message received, in order
	raw  []Frame
	next int // Recv cursor
	err  error
	done bool
	On   func(p *WirePeer, m *WM) // called in order from the reading goroutine
	Opt  frameOpt
	idx  uint32
	pre  serialization.GUID
}

func NewWirePeer(conn net.Conn, on func(p *WirePeer, m *WM)) *WirePeer {
	return newWirePeer(conn, on, frameOpt{})
}

func newWirePeer(conn net.Conn, on func(p *WirePeer, m *WM), o frameOpt) *WirePeer {
	p := &WirePeer{C: conn, Opt: o, On: on, pre: serialization.GUID{Data1: uint32(portCtr.Add(1)), Data2: 0x77, Data3: 0x4eee}}
	p.cond = sync.NewCond(&p.mu)
	go p.loop()
	return p
}

func readFrame(r io.Reader) (Frame, error) {
	h := make([]byte, frameHdr)
	if _, err := io.ReadFull(r, h); err != nil {
		return Frame{}, err
	}
	n := binary.LittleEndian.Uint32(h)
	if n < frameHdr || n > 256<<20 {
		return Frame{}, fmt.Errorf("peer: bad frame length %d", n)
	}
	b := make([]byte, n)
	copy(b, h)
	if _, err := io.ReadFull(r, b[frameHdr:]); err != nil {
		return Frame{}, err
	}
	f, _, ok, err := cutFrame(b)
	if err == nil && !ok {
		err = errors.New("peer: bad frame")
	}
	return f, err
}

func (p *WirePeer) loop() {
	for {
		f, err := readFrame(p.C)
		var m *WM
		if err == nil {
			m, err = parseWM(f)
		}
		p.mu.Lock()
		if err != nil {
			p.err, p.done = err, true
			p.cond.Broadcast()
			p.mu.Unlock()
			return
		}
		p.msgs = append(p.msgs, m)
		p.raw = append(p.raw, f)
		p.cond.Broadcast()
		p.mu.Unlock()
		if p.On != nil {
			p.On(p, m)
		}
	}
}

// Recv returns the next received message, nil at the end of the stream.
func (p *WirePeer) Recv() *WM {
	p.mu.Lock()
	defer p.mu.Unlock()
	for p.next >= len(p.msgs) && !p.done {
		p.cond.Wait()
	}
	if p.next < len(p.msgs) {
		p.next++
		return p.msgs[p.next-1]
	}
	return nil
}

// RecvWhere skips to the next message that matches.
func (p *WirePeer) RecvWhere(ok func(*WM) bool) *WM {
	for {
		m := p.Recv()
		if m == nil || ok(m) {
			return m
		}
	}
}

// RecvApp skips the transport's own messages.
func (p *WirePeer) RecvApp() *WM { return p.RecvWhere(isApp) }

func isApp(m *WM) bool { return m.Actor != int64(transport.MessageActorTypeTransport) }

// Got returns what was received so far.
func (p *WirePeer) Got() []*WM {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]*WM(nil), p.msgs...)
}

func (p *WirePeer) GotApp() []*WM {
	var l []*WM
	for _, m := range p.Got() {
		if isApp(m) {
			l = append(l, m)
		}
	}
	return l
}

func (p *WirePeer) Ended() (bool, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.done, p.err
}

func (p *WirePeer) NextId() transport.MessageId {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.idx++
	return transport.MessageId{Id: p.pre, Index: p.idx}
}

// Send fills in an id and sends.
func (p *WirePeer) Send(m *WM) error {
	if m.Id == (transport.MessageId{}) {
		m.Id = p.NextId()
	}
	_, err := p.C.Write(m.encode(p.Opt))
	return err
}

// SendRaw writes bytes.
func (p *WirePeer) SendRaw(b []byte) error {
	_, err := p.C.Write(b)
	return err
}

// Reply answers m.
func (p *WirePeer) Reply(m *WM, r *WM) error {
	r.RelatesTo = m.Id
	return p.Send(r)
}

// initMessage is what a peer sends first: its transport init message.
func (p *WirePeer) SendInit() error {
	return p.Send(&WM{Actor: int64(transport.MessageActorTypeTransport), HighPriority: true, Body: RefEncode(&initBody{Address: "10.9.8.7:1", HeartbeatSupported: true, ConnectionFeatureFlags: 1}, RefOpts{})})
}

type initBody struct {
	Address                string
	Instance               uint64
	Nonce                  serialization.GUID
	HeartbeatSupported     bool
	ConnectionFeatureFlags uint32
}

type hbBody struct{ Tick int64 }

func (m *WM) isHeartbeat() bool {
	return m.Actor == int64(transport.MessageActorTypeTransport) && m.Action == "HeartbeatRequest"
}

// customOf groups custom headers by type, in order.
func customOf(m *WM) map[uint16][][]byte {
	r := map[uint16][][]byte{}
	for _, h := range m.Custom {
		r[h.Id] = append(r[h.Id], h.Data)
	}
	return r
}

func sortedIds(m map[uint16][][]byte) []uint16 {
	var l []uint16
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

var _ = time.Now

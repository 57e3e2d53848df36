package harness

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

func hx(b []byte) string {
	if len(b) > 300 {
		return hex.EncodeToString(b[:300]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func vs(v any) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}

// ---------------------------------------------------------------------------------------------------------
// hand-written types that reflect.StructOf cannot make

type hwBase struct {
	A int32
	B string
}
type HwBase struct {
	A int32
	B string
}
type HwScalar uint16
type HwText string
type HwList []int64
type HwMap map[string]int32
type HwPair struct{ X, Y *HwBase }
type HwMid struct {
	HwBase
	C uint64
}
type HwEmbedPtr struct {
	Before string
	*HwBase
	After uint8
}
type HwEmbedScalar struct {
	HwScalar
	HwText
	HwList
	HwMap
	Tail int16
}
type HwEmbedDeep struct {
	HwMid
	D []HwMid
	E map[int16]HwMid
}
type HwUnexported struct {
	A int32
	b int32
	C string
	d *hwBase
	E bool
}
type HwNode struct {
	V    int64
	Next *HwNode
	Kids []*HwNode
	ByID map[uint8]*HwNode
}
type HwNamed struct {
	S  HwScalar
	T  HwText
	L  HwList
	M  HwMap
	PS *HwScalar
	LS []HwScalar
	LT []HwText
	MT map[HwText]HwScalar
}
type HwPtrs struct {
	A *int8
	B **string
	C *[]string
	D *map[string]*int64
	E *serialization.GUID
	F *federation.NodeID
	G *bool
	H []*bool
	I []*serialization.GUID
	J *HwPair
}
type HwCustomUser struct {
	Pre  string
	C    HwCustom
	P    *HwCustom
	L    []HwCustom
	LP   []*HwCustom
	M    map[uint8]HwCustom
	Post int64
}

// HwCustom is a custom-marshalled struct using every method of the exported Encoder and Decoder.
type HwCustom struct {
	N uint32
	D [3]uint16
}

func (h *HwCustom) Marshal(e serialization.Encoder) error {
	if err := e.WriteTypeMeta(serialization.FabricSerializationTypeUShort | serialization.FabricSerializationTypeArray); err != nil {
		return err
	}
	if err := e.WriteCompressedUInt32(h.N); err != nil {
		return err
	}
	return e.WriteBinary(h.D)
}

func (h *HwCustom) Unmarshal(m serialization.FabricSerializationType, d serialization.Decoder) error {
	if m != serialization.FabricSerializationTypeUShort|serialization.FabricSerializationTypeArray {
		return fmt.Errorf("bad meta")
	}
	n, err := d.ReadCompressedUInt32()
	if err != nil {
		return err
	}
	h.N = n
	return d.ReadBinary(&h.D)
}

type HwEmpty struct{}
type HwEmptyUser struct {
	A HwEmpty
	B []HwEmpty
	C *HwEmpty
	D map[HwEmpty]HwEmpty
	E int8
}

// the structs the library itself exchanges
var libTypes = []any{
	transport.MessageId{}, federation.PToPHeader{}, federation.RoutingHeader{}, federation.FederationPartnerNodeHeader{},
	federation.PartnerNodeInfo{}, federation.GlobalLease{}, federation.RoutingToken{}, federation.VoteTicket{},
	federation.BootingInfo{}, federation.NodeIdRange{}, federation.NodeID{}, federation.NodeInstance{}, serialization.GUID{},
	naming.ServiceNotification{}, naming.ApplicationQueryResult{}, naming.NotificationClientConnectionRequestBody{},
	naming.NotificationClientConnectionReplyBody{}, naming.RegisterServiceNotificationFilterRequestBody{},
	naming.GatewayDescription{}, naming.ProtocolVersion{}, naming.ActivityId{}, common.Uri{},
}

var handTypes = []any{
	HwEmbedPtr{}, HwEmbedScalar{}, HwEmbedDeep{}, HwUnexported{}, HwNamed{}, HwPtrs{}, HwEmptyUser{}, HwMid{}, HwPair{},
}

// noRefTypes have encodings the reference does not know (custom marshallers of the harness) or recurse.
var noRefTypes = []any{HwCustomUser{}, HwCustom{}}

func init() {
	register("C01", "types", "random struct types (StructOf) with boundary-rich values, marshalled and unmarshalled", c01types)
	register("C01", "hand", "hand-written and library types: embedded pointers and scalars, unexported fields, custom marshallers, recursion", c01hand)
	register("C01", "ints", "every 8/16-bit integer, and 32/64-bit integers around every power of two, as fields, elements and map keys", c01ints)
	register("C01", "big", "collections and strings whose counts cross the compressed-length boundaries", c01big)
	register("C01", "deep", "chains of up to 64 nested structs through fields, pointers, slices and maps, and linked lists of hundreds of nodes", c01deep)
	register("C01", "kept", "encodings and decoded values kept while thousands of further ones are made and the decoded bytes are overwritten", c01kept)
	register("C01", "together", "values of new and shared types marshalled and unmarshalled on many goroutines at once", c01together)
	register("C01", "samename", "distinct types that share one name, and one layout under distinct names", c01samename)
	register("C01", "unsupported", "values of kinds that have no encoding must be refused", c01unsupported)
	register("C02", "versions", "pairs of versions of one random type, truncated at random objects, both directions", c02versions)
	register("C02", "hand", "hand-written version pairs with embedded structs and data after the versioned object", c02hand)
	register("C02", "deep", "versions that differ at random depths of chains of nested structs", c02deep)
	register("C02", "long", "appended fields whose encoding crosses every size boundary up to a megabyte, followed by other values", c02long)
	register("C03", "bytes", "library bytes against the independent encoder (map order normalised)", c03bytes)
	register("C03", "foreign", "decode independent encodings with type information and any map order", c03foreign)
	register("C03", "known", "pinned encodings written out by hand", c03known)
	register("C04", "structured", "one lie per encoding: type byte, count or object size replaced at any place", c04structured)
	register("C04", "mutate", "byte-level mutations, truncations, splices and random bytes", c04mutate)
	register("C04", "metabytes", "every type byte in every position of every library struct", c04meta)
}

func roundTrip(c *Ctx, p reflect.Value, what string) (data []byte, ok bool) {
	before := deepCopy(p.Elem())
	var err error
	if m := catch(func() { data, err = serialization.Marshal(p.Interface()) }); m != "" {
		c.Violation("%s: Marshal of %s panics: %s", what, vs(p.Elem().Interface()), m)
		return nil, false
	}
	if err != nil {
		c.Violation("%s: Marshal of supported value %s fails: %v", what, vs(p.Elem().Interface()), err)
		return nil, false
	}
	if d := sameValue(before, p.Elem()); d != "" {
		c.Violation("%s: Marshal changed its argument at %s", what, d)
		return nil, false
	}
	out := reflect.New(p.Type().Elem())
	if m := catch(func() { err = serialization.Unmarshal(data, out.Interface()) }); m != "" {
		c.Violation("%s: Unmarshal of own encoding %s panics: %s", what, hx(data), m)
		return nil, false
	}
	if err != nil {
		c.Violation("%s: Unmarshal of own encoding fails: %v; value %s bytes %s", what, err, vs(p.Elem().Interface()), hx(data))
		return nil, false
	}
	if d := sameValue(p.Elem(), out.Elem()); d != "" {
		c.Violation("%s: round trip differs at %s; value %s bytes %s", what, d, vs(p.Elem().Interface()), hx(data))
		return nil, false
	}
	return data, true
}

func c01types(c *Ctx) {
	per := c.N(25, 40)
	c.Cases("type", c.N(500, 5000), func(i int, r *rand.Rand) {
		s := genStruct(r, 1+r.IntN(4), false)
		t := s.typ(0, "")
		for k := 0; k < per; k++ {
			p := reflect.New(t)
			fill(r, p.Elem(), r.IntN(4))
			data, ok := roundTrip(c, p, "random type "+s.shape(0))
			if !ok {
				c.StopIfFailed(5)
				return
			}
			c.Max("largest_encoding", int64(len(data)))
			key := ""
			if len(data) > 12 {
				key = fmt.Sprintf("%s|%x", s.shape(0), data)
			}
			c.Saw(key)
			if i < 3 && k == 0 {
				c.Sample("type %s value %s -> %s", s.shape(0), vs(p.Elem().Interface()), hx(data))
			}
		}
	})
}

func c01hand(c *Ctx) {
	all := append(append(append([]any{}, libTypes...), handTypes...), noRefTypes...)
	c.Cases("hand", len(all)*c.N(60, 1500), func(i int, r *rand.Rand) {
		x := all[i%len(all)]
		p := reflect.New(reflect.TypeOf(x))
		fillExported(r, p.Elem(), r.IntN(4))
		data, _ := roundTrip(c, p, fmt.Sprintf("%T", x))
		c.Saw(fmt.Sprintf("%T|%x", x, data))
		c.StopIfFailed(5)
	})
	c.Cases("recursive", c.N(300, 5000), func(i int, r *rand.Rand) {
		n := genTree(r, 1+r.IntN(5))
		data, _ := roundTrip(c, reflect.ValueOf(n), "recursive type")
		c.Saw(fmt.Sprintf("tree|%x", data))
		c.StopIfFailed(5)
	})
	// raw bytes are passed through unchanged, non-pointers refused
	c.Begin(-1, "marshal arguments")
	for _, b := range [][]byte{{}, {1, 2, 3}, bytes.Repeat([]byte{0xff}, 1000)} {
		got, err := serialization.Marshal(b)
		if err != nil || !bytes.Equal(got, b) {
			c.Violation("Marshal of raw bytes gave %x, %v", got, err)
		}
	}
	for _, bad := range []any{nil, 1, "x", struct{}{}, (*HwBase)(nil), new(int), new(string), []int{1}} {
		var err error
		if m := catch(func() { _, err = serialization.Marshal(bad) }); m != "" || err == nil {
			c.Violation("Marshal(%T) not refused: %s", bad, m)
		}
		if m := catch(func() { err = serialization.Unmarshal([]byte{0x40}, bad) }); m != "" || err == nil {
			c.Violation("Unmarshal into %T not refused: %s", bad, m)
		}
	}
	c.End()
}

func genTree(r *rand.Rand, d int) *HwNode {
	n := &HwNode{V: genInt(r, 64)}
	if d > 0 {
		if r.IntN(2) == 0 {
			n.Next = genTree(r, d-1)
		}
		for i := r.IntN(3); i > 0; i-- {
			if r.IntN(4) == 0 {
				n.Kids = append(n.Kids, nil)
			} else {
				n.Kids = append(n.Kids, genTree(r, d-2))
			}
		}
		if r.IntN(3) == 0 {
			n.ByID = map[uint8]*HwNode{uint8(r.IntN(4)): genTree(r, d-2), 77: nil}
		}
	}
	return n
}

// fillExported fills hand-written types; unexported fields stay zero, HwCustom is filled directly.
func fillExported(r *rand.Rand, v reflect.Value, size int) {
	if v.Kind() == reflect.Struct {
		switch v.Type() {
		case typGUID, typNodeID, typRange:
			fillSpecial(r, v)
			return
		case reflect.TypeOf(HwCustom{}):
			v.Set(reflect.ValueOf(genCustom(r)))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillExported(r, v.Field(i), size)
			}
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if r.IntN(4) != 0 {
			p := reflect.New(v.Type().Elem())
			fillExported(r, p.Elem(), size-1)
			v.Set(p)
		}
	case reflect.Slice:
		n := r.IntN(4)
		if n > 0 {
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				fillExported(r, s.Index(i), size-1)
			}
			v.Set(s)
		}
	case reflect.Map:
		n := r.IntN(4)
		if n > 0 {
			m := reflect.MakeMap(v.Type())
			for i := 0; i < n; i++ {
				k := reflect.New(v.Type().Key()).Elem()
				fillExported(r, k, 0)
				if hasNaN(k) {
					continue // never equal to itself as a key
				}
				x := reflect.New(v.Type().Elem()).Elem()
				fillExported(r, x, size-1)
				m.SetMapIndex(k, x)
			}
			v.Set(m)
		}
	default:
		fill(r, v, size)
	}
}

func genCustom(r *rand.Rand) HwCustom {
	return HwCustom{uint32(genUint(r, 32)), [3]uint16{uint16(r.Uint32()), 0, uint16(genUint(r, 16))}}
}

func c01ints(c *Ctx) {
	c.Begin(0, "small integers")
	for v := -32768; v <= 65535; v++ {
		x := struct {
			A int8
			B uint8
			C int16
			D uint16
			E int32
			F uint32
			G int64
			H uint64
			L []int16
			M map[uint16]int8
		}{int8(v), uint8(v), int16(v), uint16(v), int32(v), uint32(v), int64(v), uint64(v), []int16{int16(v), 1}, map[uint16]int8{uint16(v): int8(v)}}
		if _, ok := roundTrip(c, reflect.ValueOf(&x), "small ints"); !ok {
			break
		}
		c.Saw(fmt.Sprint("small", v))
	}
	c.End()
	c.Begin(1, "boundaries")
	for b := 0; b < 64; b++ {
		for d := int64(-3); d <= 3; d++ {
			for _, neg := range []int64{1, -1} {
				v := (int64(uint64(1)<<b) + d) * neg
				x := struct {
					E  int32
					F  uint32
					G  int64
					H  uint64
					PG *int64
					LH []uint64
					MG map[int64]uint64
				}{int32(v), uint32(v), v, uint64(v), &v, []uint64{uint64(v), ^uint64(v)}, map[int64]uint64{v: uint64(v)}}
				roundTrip(c, reflect.ValueOf(&x), "boundary ints")
				c.Saw(fmt.Sprint("bound", v))
			}
		}
	}
	c.End()
}

func c01big(c *Ctx) {
	counts := []int{63, 64, 127, 128, 8191, 8192, 16383, 16384, 65535, 65536}
	if c.Tier == "thorough" {
		counts = append(counts, 1<<20-1, 1<<20, 1<<21, 1<<21-1)
	}
	c.Cases("big", len(counts), func(i int, r *rand.Rand) {
		n := counts[i]
		for kind := 0; kind < 6; kind++ {
			x := struct {
				S  string
				LB []uint8
				LS []string
				LT []HwBase
				LP []*HwBase
				M  map[int32]bool
				Z  int32
			}{Z: 7}
			switch kind {
			case 0:
				x.S = strings.Repeat("é", n-1) + "z"
			case 1:
				x.S = strings.Repeat("😀", n/2) + strings.Repeat("y", n%2)
			case 2:
				x.LB = make([]uint8, n)
				for k := range x.LB {
					x.LB[k] = byte(r.Uint32())
				}
			case 3:
				x.LS = make([]string, n)
				x.LS[n-1] = "last"
			case 4:
				if n > 70000 {
					continue
				}
				x.LT = make([]HwBase, n)
				x.LP = make([]*HwBase, n)
				for k := range x.LT {
					x.LT[k].A = int32(k)
					if k%3 == 0 {
						x.LP[k] = &x.LT[k]
					}
				}
			case 5:
				if n > 70000 {
					continue
				}
				x.M = map[int32]bool{}
				for k := 0; k < n; k++ {
					x.M[int32(k)] = k%5 == 0
				}
			}
			data, _ := roundTrip(c, reflect.ValueOf(&x), fmt.Sprintf("count %d kind %d", n, kind))
			c.Max("largest_encoding", int64(len(data)))
			c.Saw(fmt.Sprint("big", n, kind))
		}
	})
}

// c01kept: an encoding belongs to the caller that got it, and a decoded value does not depend on the bytes it came from.
func c01kept(c *Ctx) {
	all := append(append(append([]any{}, libTypes...), handTypes...), noRefTypes...)
	type kept struct {
		what      string
		data, cp  []byte
		val, deep reflect.Value
	}
	c.Cases("keep", c.N(40, 600), func(i int, r *rand.Rand) {
		var ks []kept
		for k := 0; k < 150; k++ {
			var p reflect.Value
			what := "random type"
			if r.IntN(3) == 0 {
				x := pick(r, all)
				p = reflect.New(reflect.TypeOf(x))
				fillExported(r, p.Elem(), r.IntN(4))
				what = fmt.Sprintf("%T", x)
			} else {
				p = reflect.New(genStruct(r, 1+r.IntN(3), false).typ(0, ""))
				fill(r, p.Elem(), r.IntN(4))
			}
			data, ok := roundTrip(c, p, what)
			if !ok {
				return
			}
			in := bytes.Clone(data)
			out := reflect.New(p.Type().Elem())
			if err := serialization.Unmarshal(in, out.Interface()); err != nil {
				c.Violation("%s: second Unmarshal of own encoding fails: %v", what, err)
				return
			}
			for j := range in {
				in[j] = byte(r.Uint32())
			}
			ks = append(ks, kept{what, data, bytes.Clone(data), out, p})
			c.Saw(fmt.Sprintf("%s|%x", what, data))
		}
		for n, k := range ks {
			if !bytes.Equal(k.data, k.cp) {
				c.Violation("%s: the bytes Marshal returned changed when later values were marshalled: %s, were %s", k.what, hx(k.data), hx(k.cp))
			}
			if d := sameValue(k.deep.Elem(), k.val.Elem()); d != "" {
				c.Violation("%s: a decoded value changed at %s when the bytes it came from were reused (value %d)", k.what, d, n)
			}
			// nor does writing to one encoding change another: fill this one before the next is looked at
			for j := range k.data {
				k.data[j] = 0xEE
			}
			_ = append(k.data, 0xEE, 0xEE, 0xEE, 0xEE)
		}
		c.StopIfFailed(3)
	})
}

// c01together: what one goroutine marshals does not depend on what others marshal at the same time; the types are new
// to the library when the goroutines meet at them, so anything learned about a type is learned concurrently.
func c01together(c *Ctx) {
	all := append(append(append([]any{}, libTypes...), handTypes...), noRefTypes...)
	const workers = 8
	c.Cases("together", c.N(150, 2000), func(i int, r *rand.Rand) {
		types := make([]reflect.Type, 6)
		for k := range types {
			if k == 0 {
				types[k] = reflect.TypeOf(all[i%len(all)])
				continue
			}
			types[k] = genStruct(r, 1+r.IntN(3), false).typ(0, "")
		}
		seeds := make([]uint64, workers)
		for w := range seeds {
			seeds[w] = r.Uint64()
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				lr := rand.New(rand.NewPCG(seeds[w], 77))
				<-start
				for k := 0; k < 12 && !c.Failed(); k++ {
					n := k % len(types)
					p := reflect.New(types[n])
					if n == 0 {
						fillExported(lr, p.Elem(), lr.IntN(4))
					} else {
						fill(lr, p.Elem(), lr.IntN(4))
					}
					data, ok := roundTrip(c, p, "marshalled concurrently")
					if !ok {
						return
					}
					if n != 0 && !c03compare(c, p, "marshalled concurrently") {
						return
					}
					c.Saw(fmt.Sprintf("%v|%x", n, data))
				}
			}()
		}
		close(start)
		wg.Wait()
		c.StopIfFailed(3)
	})
}

// types of one name (and one String()) but different layouts, and nested uses of them
func sameA() any {
	type Rec struct {
		A uint32
		B string
	}
	type Outer struct {
		Rec
		L []Rec
		M map[uint8]Rec
	}
	return Outer{}
}

func sameB() any {
	type Rec struct {
		B string
		A uint32
		C bool
	}
	type Outer struct {
		L []Rec
		Rec
		P *Rec
		Z int64
	}
	return Outer{}
}

func sameC() any {
	type Rec struct {
		X []uint16
		a int
		Y *int32
	}
	type Outer struct {
		*Rec
		Q Rec
	}
	return Outer{}
}

func sameD() any {
	type Rec uint16
	type Outer struct {
		A Rec
		L []Rec
		M map[Rec]Rec
	}
	return Outer{}
}

func sameE() any {
	type Rec struct{}
	type Outer struct {
		Rec
		L []Rec
	}
	return Outer{}
}

func c01samename(c *Ctx) {
	vals := []any{sameA(), sameB(), sameC(), sameD(), sameE()}
	name := reflect.TypeOf(vals[0]).String()
	for _, v := range vals {
		if reflect.TypeOf(v).String() != name {
			panic("the types of this phase must share their name")
		}
	}
	c.Cases("samename", c.N(400, 5000), func(i int, r *rand.Rand) {
		x := pick(r, vals)
		p := reflect.New(reflect.TypeOf(x))
		fillExported(r, p.Elem(), r.IntN(4))
		data, ok := roundTrip(c, p, fmt.Sprintf("%v among types of the same name", p.Type().Elem()))
		if ok {
			c03compare(c, p, "type among types of the same name")
		}
		c.Saw(fmt.Sprintf("%x", data))
		c.StopIfFailed(3)
	})
}

func c01deep(c *Ctx) {
	c.Cases("chain", c.N(120, 1500), func(i int, r *rand.Rand) {
		s := genDeep(r, 1+r.IntN(64))
		p := reflect.New(s.typ(0, ""))
		fillDeep(r, p.Elem())
		roundTrip(c, p, fmt.Sprintf("chain %d %s", i, s.shape(0)))
		c.Saw(s.shape(0))
		c.StopIfFailed(3)
	})
	c.Cases("list", c.N(12, 60), func(i int, r *rand.Rand) {
		n := &HwNode{V: 1}
		for k := 1 + r.IntN(400); k > 0; k-- {
			o := &HwNode{V: genInt(r, 64)}
			switch r.IntN(3) {
			case 0:
				o.Next = n
			case 1:
				o.Kids = []*HwNode{nil, n}
			case 2:
				o.ByID = map[uint8]*HwNode{uint8(k): n}
			}
			n = o
		}
		data, _ := roundTrip(c, reflect.ValueOf(n), fmt.Sprint("list ", i))
		c.Saw(fmt.Sprint("list", len(data)))
		c.StopIfFailed(3)
	})
}

func c02deep(c *Ctx) {
	c.Cases("chain", c.N(150, 1500), func(i int, r *rand.Rand) {
		var s *schema
		for nd := 0; nd == 0; {
			s = genDeep(r, 1+r.IntN(40))
			nd = s.version(r)
		}
		for a := 0; a < 2; a++ {
			src := reflect.New(s.typ(a, ""))
			fillDeep(r, src.Elem())
			data, err := serialization.Marshal(src.Interface())
			if err != nil {
				c.Violation("marshal: %v", err)
				return
			}
			c02check(c, s, a, 1-a, src, r, data, "deep chain")
			c02check(c, s, a, 1-a, src, r, RefEncode(src.Interface(), RefOpts{TypeInfo: func() []byte { return bytes.Repeat([]byte{7}, r.IntN(3)) }}), "foreign deep chain")
		}
		c.Saw(s.shape(0) + s.shape(1))
		c.StopIfFailed(3)
	})
}

type longOld struct{ A int16 }
type longNew struct {
	A int16
	S string
	L []uint64
	T []longOld
	B int8
}
type longOldIn struct {
	X longOld
	P *longOld
	Q []longOld
	M map[string]longOld
	R []*longOld
	Z string
}
type longNewIn struct {
	X longNew
	P *longNew
	Q []longNew
	M map[string]longNew
	R []*longNew
	Z string
}

func c02long(c *Ctx) {
	sizes := []int{1, 30, 60, 100, 127, 128, 129, 8000, 16000, 16380, 32767, 32768, 65000, 65535, 65536, 65537, 100000}
	if c.Tier == "thorough" {
		sizes = append(sizes, 1<<20, 1<<21+1, 1<<22)
	}
	c.Cases("size", len(sizes)*5, func(i int, r *rand.Rand) {
		n := sizes[i/5]
		long := func() longNew {
			x := longNew{A: int16(r.Uint32()), B: 3}
			switch r.IntN(3) {
			case 0:
				x.S = strings.Repeat("x", n/2+r.IntN(20))
			case 1:
				for k := n / 8; k >= 0; k-- {
					x.L = append(x.L, r.Uint64())
				}
			case 2:
				for k := n / 13; k >= 0; k-- {
					x.T = append(x.T, longOld{int16(k)})
				}
			}
			return x
		}
		in := longNewIn{Z: "end"}
		want := longOldIn{Z: "end"}
		old := func(x longNew) longOld { return longOld{x.A} }
		switch i % 5 {
		case 0:
			in.X = long()
		case 1:
			x := long()
			in.P = &x
		case 2:
			in.Q = []longNew{long(), {A: 4}, long()}
		case 3:
			in.M = map[string]longNew{"a": long(), "b": long()}
		case 4:
			x, y := long(), long()
			in.R = []*longNew{&x, nil, &y}
		}
		want.X = old(in.X)
		if in.P != nil {
			want.P = &longOld{in.P.A}
		}
		for _, x := range in.Q {
			want.Q = append(want.Q, old(x))
		}
		for k, x := range in.M {
			if want.M == nil {
				want.M = map[string]longOld{}
			}
			want.M[k] = old(x)
		}
		for _, x := range in.R {
			if x == nil {
				want.R = append(want.R, nil)
			} else {
				want.R = append(want.R, &longOld{x.A})
			}
		}
		data, err := serialization.Marshal(&in)
		if err != nil {
			c.Violation("marshal: %v", err)
			return
		}
		for k, d := range [][]byte{data, RefEncode(&in, RefOpts{TypeInfo: func() []byte { return bytes.Repeat([]byte{0x3f}, r.IntN(300)) }})} {
			var out longOldIn
			if m := catch(func() { err = serialization.Unmarshal(d, &out) }); m != "" || err != nil {
				c.Violation("an object with %d bytes of appended fields (way %d, foreign %d) is not decoded: %v %s", n, i%5, k, err, m)
				continue
			}
			if diff := sameValue(reflect.ValueOf(want), reflect.ValueOf(out)); diff != "" {
				c.Violation("an object with %d bytes of appended fields (way %d, foreign %d) decodes differently at %s", n, i%5, k, diff)
			}
			c.Max("largest_encoding", int64(len(d)))
		}
		c.Saw(fmt.Sprint(n, i%5))
		c.StopIfFailed(3)
	})
}

type HwIface interface{ X() }

func c01unsupported(c *Ctx) {
	ch := make(chan int)
	one := 1
	vals := []any{
		&struct{ A int }{1}, &struct{ A int }{0}, &struct{ A uint }{1}, &struct{ A uint }{}, &struct{ A uintptr }{5},
		&struct{ A complex64 }{1}, &struct{ A complex128 }{}, &struct{ A chan int }{ch}, &struct{ A chan int }{},
		&struct{ A func() }{func() {}}, &struct{ A func() }{}, &struct{ A any }{1}, &struct{ A any }{}, &struct{ A HwIface }{},
		&struct{ A [3]int32 }{[3]int32{1, 2, 3}}, &struct{ A [3]int32 }{}, &struct{ A [][]int32 }{[][]int32{{1}}},
		&struct{ A []map[string]string }{[]map[string]string{{"a": "b"}}}, &struct{ A []any }{[]any{1}},
		&struct{ A map[string]any }{map[string]any{"x": 1}}, &struct{ A *int }{&one}, &struct{ A []int }{[]int{1}},
		&struct{ A map[string][][]int32 }{map[string][][]int32{"a": {{1}}}}, &struct{ A struct{ B int } }{},
		&struct{ A []struct{ B int } }{make([]struct{ B int }, 2)}, &struct{ A [0]int32 }{},
	}
	c.Cases("u", len(vals), func(i int, r *rand.Rand) {
		// alone, and hidden behind good fields
		var data []byte
		var err error
		if m := catch(func() { data, err = serialization.Marshal(vals[i]) }); m != "" {
			c.Violation("Marshal of unsupported %T panics: %s", vals[i], m)
		} else if err == nil {
			c.Violation("Marshal of unsupported %T %v succeeds with %x", vals[i], vals[i], data)
		}
		c.Saw(fmt.Sprintf("%T %d", vals[i], i))
	})
}

// ---------------------------------------------------------------------------------------------------------

func c02check(c *Ctx, s *schema, a, b int, src reflect.Value, r *rand.Rand, data []byte, how string) bool {
	recv := reflect.New(s.typ(b, ""))
	fill(r, recv.Elem(), 1)
	want := reflect.New(s.typ(b, "")).Elem()
	want.Set(deepCopy(recv.Elem()))
	transfer(s, src.Elem(), a, want, b)
	prev := deepCopy(recv.Elem())
	var err error
	if m := catch(func() { err = serialization.Unmarshal(data, recv.Interface()) }); m != "" {
		c.Violation("%s: decoding version %s as %s panics: %s\n%s", how, s.shape(a), s.shape(b), hx(data), m)
		return false
	}
	if err != nil {
		c.Violation("%s: decoding version %s as %s fails: %v; value %s bytes %s", how, s.shape(a), s.shape(b), err, vs(src.Elem().Interface()), hx(data))
		return false
	}
	if d := sameValue(want, recv.Elem()); d != "" {
		c.Violation("%s: version %s read as %s differs at %s (want vs got); written %s receiver before %s bytes %s", how, s.shape(a), s.shape(b), d,
			vs(src.Elem().Interface()), vs(prev.Interface()), hx(data))
		return false
	}
	return true
}

func c02versions(c *Ctx) {
	per := c.N(8, 15)
	c.Cases("pair", c.N(900, 9000), func(i int, r *rand.Rand) {
		var s *schema
		nd := 0
		for nd == 0 {
			s = genStruct(r, 1+r.IntN(4), false)
			nd = s.version(r)
		}
		for k := 0; k < per; k++ {
			a := r.IntN(2)
			src := reflect.New(s.typ(a, ""))
			fill(r, src.Elem(), r.IntN(3))
			if mapKeyClash(src.Elem()) {
				continue
			}
			data, err := serialization.Marshal(src.Interface())
			if err != nil {
				c.Violation("marshal: %v", err)
				return
			}
			ok := c02check(c, s, a, 1-a, src, r, data, "own encoding")
			// and as another implementation would write it, with type information
			o := RefOpts{}
			if r.IntN(2) == 0 {
				o.TypeInfo = func() []byte { return bytes.Repeat([]byte{0x2f}, r.IntN(70)) }
			}
			ok = ok && c02check(c, s, a, 1-a, src, r, RefEncode(src.Interface(), o), "foreign encoding")
			key := ""
			if s.shape(a) != s.shape(1-a) {
				key = fmt.Sprintf("%s>%s|%x", s.shape(a), s.shape(1-a), data)
				c.Count("versioned_objects", int64(nd))
			}
			c.Saw(key)
			if !ok {
				c.StopIfFailed(5)
				return
			}
			if i < 3 && k == 0 {
				c.Sample("written as %s, read as %s", s.shape(a), s.shape(1-a))
			}
		}
	})
}

func mapKeyClash(v reflect.Value) bool { return false }

type vInner1 struct{ A int32 }
type vInner2 struct {
	A int32
	B string
	C *vInner1
	D map[string]vInner1
}
type vOut1 struct {
	P *vInner1
	L []vInner1
	Q []*vInner1
	M map[string]vInner1
	I vInner1
	Z string
}
type vOut2 struct {
	P *vInner2
	L []vInner2
	Q []*vInner2
	M map[string]vInner2
	I vInner2
	Z string
}
type VBase struct{ A, B int64 }
type vEmb1 struct {
	VBase
	I vInner1
	C string
}
type vEmb2 struct {
	VBase
	I vInner2
	C string
	D []string
	E *vInner2
}
type vNone struct{}

func c02hand(c *Ctx) {
	conv := func(i vInner1) vInner2 { return vInner2{A: i.A} }
	c.Cases("hand", c.N(400, 5000), func(i int, r *rand.Rand) {
		var o1 vOut1
		fill(r, reflect.ValueOf(&o1).Elem(), 2)
		b, err := serialization.Marshal(&o1)
		if err != nil {
			c.Violation("marshal %v", err)
			return
		}
		var o2 vOut2
		o2.I.B = "kept"
		o2.I.C = &vInner1{9}
		if err := serialization.Unmarshal(b, &o2); err != nil {
			c.Violation("old to new: %v", err)
			return
		}
		want := vOut2{Z: o1.Z, I: vInner2{A: o1.I.A, B: "kept", C: &vInner1{9}}}
		if o1.P != nil {
			x := conv(*o1.P)
			want.P = &x
		}
		for _, e := range o1.L {
			want.L = append(want.L, conv(e))
		}
		for _, e := range o1.Q {
			if e == nil {
				want.Q = append(want.Q, nil)
				continue
			}
			x := conv(*e)
			want.Q = append(want.Q, &x)
		}
		if len(o1.M) > 0 {
			want.M = map[string]vInner2{}
			for k, e := range o1.M {
				want.M[k] = conv(e)
			}
		}
		if d := sameValue(reflect.ValueOf(want), reflect.ValueOf(o2)); d != "" {
			c.Violation("old to new differs at %s: written %s bytes %s", d, vs(o1), hx(b))
		}
		// new to old
		var n2 vOut2
		fill(r, reflect.ValueOf(&n2).Elem(), 2)
		b, err = serialization.Marshal(&n2)
		if err != nil {
			c.Violation("marshal %v", err)
			return
		}
		var n1 vOut1
		if err := serialization.Unmarshal(b, &n1); err != nil {
			c.Violation("new to old: %v", err)
			return
		}
		if n1.Z != n2.Z || n1.I.A != n2.I.A || len(n1.L) != len(n2.L) || len(n1.Q) != len(n2.Q) || len(n1.M) != len(n2.M) || (n1.P == nil) != (n2.P == nil) {
			c.Violation("new to old lost data: %s vs %s", vs(n2), vs(n1))
		} else {
			for k := range n1.L {
				if n1.L[k].A != n2.L[k].A {
					c.Violation("new to old: L[%d]", k)
				}
			}
			for k, e := range n1.M {
				if e.A != n2.M[k].A {
					c.Violation("new to old: M[%s]", k)
				}
			}
		}
		// embedded
		var e2 vEmb2
		fill(r, reflect.ValueOf(&e2).Elem(), 2)
		b, _ = serialization.Marshal(&e2)
		var e1 vEmb1
		if err := serialization.Unmarshal(b, &e1); err != nil || e1.VBase != e2.VBase || e1.I.A != e2.I.A || e1.C != e2.C {
			c.Violation("embedded new to old: %v %s vs %s", err, vs(e2), vs(e1))
		}
		b, _ = serialization.Marshal(&e1)
		e3 := vEmb2{D: []string{"kept"}, E: &vInner2{A: 5}}
		if err := serialization.Unmarshal(b, &e3); err != nil || e3.VBase != e1.VBase || e3.C != e1.C || len(e3.D) != 1 || e3.E == nil || e3.E.A != 5 {
			c.Violation("embedded old to new: %v %s vs %s", err, vs(e1), vs(e3))
		}
		// everything removed, everything added
		if err := serialization.Unmarshal(b, &vNone{}); err != nil {
			c.Violation("read as empty struct: %v", err)
		}
		bn, _ := serialization.Marshal(&vNone{})
		keep := deepCopy(reflect.ValueOf(e2))
		if err := serialization.Unmarshal(bn, &e2); err != nil || sameValue(keep, reflect.ValueOf(e2)) != "" {
			c.Violation("empty struct read as full: %v", err)
		}
		c.Saw(fmt.Sprintf("%x", b) + vs(o1))
		c.StopIfFailed(5)
	})
}

// ---------------------------------------------------------------------------------------------------------

func c03compare(c *Ctx, p reflect.Value, what string) bool {
	var data []byte
	var err error
	if m := catch(func() { data, err = serialization.Marshal(p.Interface()) }); m != "" || err != nil {
		c.Violation("%s: Marshal of %s: %v %s", what, vs(p.Elem().Interface()), err, m)
		return false
	}
	ref := RefEncode(p.Interface(), RefOpts{})
	if bytes.Equal(data, ref) {
		c.Count("identical", 1)
		return true
	}
	if hasBigMap(p.Elem()) {
		a, err1 := canon(p.Type().Elem(), data)
		b, err2 := canon(p.Type().Elem(), ref)
		if err2 != nil {
			panic(err2)
		}
		if err1 == nil && bytes.Equal(a, b) {
			c.Count("identical_up_to_map_order", 1)
			return true
		}
	}
	c.Violation("%s: value %s\n encoded as %s\n format says %s", what, vs(p.Elem().Interface()), hx(data), hx(ref))
	return false
}

func c03bytes(c *Ctx) {
	per := c.N(25, 40)
	c.Cases("type", c.N(500, 5000), func(i int, r *rand.Rand) {
		s := genStruct(r, 1+r.IntN(4), false)
		t := s.typ(0, "")
		for k := 0; k < per; k++ {
			p := reflect.New(t)
			fill(r, p.Elem(), r.IntN(4))
			if !c03compare(c, p, s.shape(0)) {
				c.StopIfFailed(4)
				return
			}
			c.Saw(s.shape(0) + vs(p.Elem().Interface()))
		}
	})
	all := append(append([]any{}, libTypes...), handTypes...)
	c.Cases("hand", len(all)*c.N(40, 800), func(i int, r *rand.Rand) {
		x := all[i%len(all)]
		p := reflect.New(reflect.TypeOf(x))
		fillExported(r, p.Elem(), r.IntN(4))
		c03compare(c, p, fmt.Sprintf("%T", x))
		c.Saw(fmt.Sprintf("%T", x) + vs(p.Elem().Interface()))
		c.StopIfFailed(6)
	})
	c.Begin(-2, "integers")
	for v := -70000; v <= 70000; v += 1 {
		x := struct {
			A int16
			B uint16
			C int32
			D uint32
			E int64
			F uint64
		}{int16(v), uint16(v), int32(v), uint32(v), int64(v), uint64(v)}
		if !c03compare(c, reflect.ValueOf(&x), "ints") {
			break
		}
		c.Saw(fmt.Sprint(v))
	}
	for b := 0; b < 64; b++ {
		for d := int64(-2); d <= 2; d++ {
			v := int64(uint64(1)<<b) + d
			x := struct {
				C int32
				D uint32
				E int64
				F uint64
				G int64
			}{int32(v), uint32(v), v, uint64(v), -v}
			c03compare(c, reflect.ValueOf(&x), "bits")
			c.Saw(fmt.Sprint("b", v))
			c.StopIfFailed(6)
		}
	}
	c.End()
}

func c03foreign(c *Ctx) {
	all := append(append([]any{}, libTypes...), handTypes...)
	decode := func(r *rand.Rand, p reflect.Value, what string) bool {
		o := RefOpts{MapOrder: func(n int) []int { return r.Perm(n) }}
		long := r.IntN(4) == 0
		if r.IntN(3) != 0 {
			o.TypeInfo = func() []byte {
				switch r.IntN(4) {
				case 0:
					return nil
				case 1:
					if long && r.IntN(20) == 0 {
						long = false
						return bytes.Repeat([]byte{byte(r.Uint32())}, pick(r, []int{8191, 8192, 16383, 16384, 20000, 65535, 65536, 100000}))
					}
					return []byte{byte(r.Uint32())}
				case 2:
					b := make([]byte, pick(r, []int{62, 63, 64, 65, 127, 128, 200}))
					for i := range b {
						b[i] = byte(r.Uint32())
					}
					return b
				}
				return []byte("MapType\x1f\x2f\x3f")
			}
		}
		data := RefEncode(p.Interface(), o)
		out := reflect.New(p.Type().Elem())
		var err error
		if m := catch(func() { err = serialization.Unmarshal(data, out.Interface()) }); m != "" || err != nil {
			c.Violation("%s: conforming encoding %s of %s not decoded: %v %s", what, hx(data), vs(p.Elem().Interface()), err, m)
			return false
		}
		if d := sameValue(p.Elem(), out.Elem()); d != "" {
			c.Violation("%s: conforming encoding %s decodes differently at %s", what, hx(data), d)
			return false
		}
		c.Saw(fmt.Sprintf("%x", data))
		return true
	}
	c.Cases("type", c.N(400, 4000), func(i int, r *rand.Rand) {
		s := genStruct(r, 1+r.IntN(4), false)
		t := s.typ(0, "")
		for k := 0; k < 20; k++ {
			p := reflect.New(t)
			fill(r, p.Elem(), r.IntN(4))
			if !decode(r, p, s.shape(0)) {
				c.StopIfFailed(4)
				return
			}
		}
	})
	c.Cases("hand", len(all)*c.N(30, 500), func(i int, r *rand.Rand) {
		x := all[i%len(all)]
		p := reflect.New(reflect.TypeOf(x))
		fillExported(r, p.Elem(), r.IntN(4))
		decode(r, p, fmt.Sprintf("%T", x))
		c.StopIfFailed(6)
	})
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(strings.ReplaceAll(s, " ", ""))
	if err != nil {
		panic(err)
	}
	return b
}

// c03known: encodings written out by hand from the format description, without any encoder.
func c03known(c *Ctx) {
	i8 := int8(5)
	cases := []struct {
		v any
		h string
	}{
		{&struct{}{}, "00 0b000000 00000000 1f 2f 3f"},
		{&struct{ A, B bool }{true, false}, "00 0d000000 00000000 1f 42 72 2f 3f"},
		{&struct{ A int8 }{-1}, "00 0d000000 00000000 1f 03 ff 2f 3f"},
		{&struct{ A uint8 }{200}, "00 0d000000 00000000 1f 04 c8 2f 3f"},
		{&struct {
			A int8
			B uint8
			C int16
			D uint16
			E int32
			F uint32
			G int64
			H uint64
			I float64
		}{}, "00 14000000 00000000 1f 43 44 45 46 47 48 49 4a 4b 2f 3f"},
		{&struct{ A int32 }{63}, "00 0d000000 00000000 1f 07 3f 2f 3f"},
		{&struct{ A int32 }{64}, "00 0e000000 00000000 1f 07 80 40 2f 3f"},
		{&struct{ A int32 }{-64}, "00 0d000000 00000000 1f 07 40 2f 3f"},
		{&struct{ A int32 }{-65}, "00 0e000000 00000000 1f 07 ff 3f 2f 3f"},
		{&struct{ A uint32 }{127}, "00 0e000000 00000000 1f 08 80 7f 2f 3f"},
		{&struct{ A uint16 }{65535}, "00 0f000000 00000000 1f 06 83 ff 7f 2f 3f"},
		{&struct{ A int16 }{-32768}, "00 0f000000 00000000 1f 05 fe 80 00 2f 3f"},
		{&struct{ A uint64 }{math.MaxUint64}, "00 16000000 00000000 1f 0a 81 ff ff ff ff ff ff ff ff 7f 2f 3f"},
		{&struct{ A int64 }{math.MinInt64}, "00 16000000 00000000 1f 09 ff 80 80 80 80 80 80 80 80 00 2f 3f"},
		{&struct{ A float64 }{1.5}, "00 14000000 00000000 1f 0b 000000000000f83f 2f 3f"},
		{&struct{ A float32 }{-2}, "00 14000000 00000000 1f 0b 00000000000000c0 2f 3f"},
		{&struct{ A string }{"aé😀"}, "00 15000000 00000000 1f 8d 04 6100 e900 3dd8 00de 2f 3f"},
		{&struct{ A string }{""}, "00 0c000000 00000000 1f cd 2f 3f"},
		{&struct{ A *int8 }{&i8}, "00 0e000000 00000000 1f 01 03 05 2f 3f"},
		{&struct{ A *int8 }{}, "00 0c000000 00000000 1f 41 2f 3f"},
		{&struct{ A []string }{[]string{"x", ""}}, "00 12000000 00000000 1f 08 02 8d 01 7800 cd 2f 3f"},
		{&struct {
			A []string
			B []int32
			C []struct{}
			D map[string]string
		}{}, "00 0f000000 00000000 1f 48 c7 c0 c0 2f 3f"[0:0] + "00 0f000000 00000000 1f 48 c7 c0 c0 2f 3f"},
		{&struct{ A []int32 }{[]int32{0, 1}}, "00 10000000 00000000 1f 87 02 47 07 01 2f 3f"},
		{&struct{ A map[uint8]bool }{map[uint8]bool{7: true}}, "00 1c000000 00000000 1f 80 01 00 0e000000 00000000 1f 04 07 42 2f 3f 2f 3f"},
		{&struct{ A serialization.GUID }{}, "00 0c000000 00000000 1f 4c 2f 3f"},
		{&struct{ A serialization.GUID }{serialization.GUID{Data1: 0x01020304, Data2: 0x0506, Data3: 0x0708, Data4: [8]byte{9, 10, 11, 12, 13, 14, 15, 16}}},
			"00 1c000000 00000000 1f 0c 04030201 0605 0807 090a0b0c0d0e0f10 2f 3f"},
		{&struct{ A federation.NodeID }{federation.NodeID{Hi: 0x0102030405060708, Lo: 0x1112131415161718}},
			"00 1d000000 00000000 1f 84 10 0807060504030201 1817161514131211 2f 3f"},
		{&struct{ A struct{ B int8 } }{struct{ B int8 }{1}}, "00 19000000 00000000 1f 00 0d000000 00000000 1f 03 01 2f 3f 2f 3f"},
	}
	c.Cases("known", len(cases), func(i int, r *rand.Rand) {
		want := unhex(cases[i].h)
		got, err := serialization.Marshal(cases[i].v)
		if err != nil || !bytes.Equal(got, want) {
			c.Violation("%T %+v encodes as %x (%v), format says %x", cases[i].v, vs(cases[i].v), got, err, want)
		}
		out := reflect.New(reflect.TypeOf(cases[i].v).Elem())
		if err := serialization.Unmarshal(want, out.Interface()); err != nil {
			c.Violation("%x does not decode: %v", want, err)
		} else if d := sameValue(reflect.ValueOf(cases[i].v).Elem(), out.Elem()); d != "" {
			c.Violation("%x decodes differently at %s", want, d)
		}
		c.Saw(cases[i].h)
		c.Sample("%+v = %x", vs(cases[i].v), want)
	})
}

// ---------------------------------------------------------------------------------------------------------
// C04

var memBase, memNow runtime.MemStats

// hostile decodes data into a fresh t and judges panic and allocation.
func hostile(c *Ctx, data []byte, t reflect.Type, eb uintptr, how string) bool {
	out := reflect.New(t)
	var err error
	runtime.ReadMemStats(&memBase)
	m := catch(func() { err = serialization.Unmarshal(data, out.Interface()) })
	runtime.ReadMemStats(&memNow)
	if m != "" {
		c.Violation("%s: decoding %s into %v panics: %s", how, hx(data), t, m)
		return false
	}
	used := memNow.TotalAlloc - memBase.TotalAlloc
	limit := uint64(256<<10) + 24*uint64(eb)*uint64(len(data)+64)
	c.Max("most_bytes_allocated", int64(used))
	if used > limit {
		c.Violation("%s: decoding %d bytes %s into %v allocated %d bytes (limit %d)", how, len(data), hx(data), t, used, limit)
		return false
	}
	if err != nil {
		c.Count("rejected", 1)
	} else {
		c.Count("accepted", 1)
	}
	return true
}

type hostileDst struct {
	t  reflect.Type
	eb uintptr
}

func mkDst(t reflect.Type) hostileDst { return hostileDst{t, elemBytes(t, map[reflect.Type]bool{})} }

func libDsts() []hostileDst {
	var l []hostileDst
	for _, x := range append(append([]any{}, libTypes...), handTypes...) {
		l = append(l, mkDst(reflect.TypeOf(x)))
	}
	return l
}

func c04structured(c *Ctx) {
	dsts := libDsts()
	c.Cases("lie", c.N(2500, 40000), func(i int, r *rand.Rand) {
		var p reflect.Value
		var d hostileDst
		if i%3 == 0 {
			d = pick(r, dsts)
			p = reflect.New(d.t)
			fillExported(r, p.Elem(), 2)
		} else {
			s := genStruct(r, 1+r.IntN(4), false)
			d = mkDst(s.typ(0, ""))
			p = reflect.New(d.t)
			fill(r, p.Elem(), r.IntN(3))
		}
		// count the places first
		var metas, counts, sizes int
		RefEncode(p.Interface(), RefOpts{
			MetaLie:  func(b byte) byte { metas++; return b },
			CountLie: func(n uint64) uint64 { counts++; return n },
			ObjSize:  func(n uint32) uint32 { sizes++; return n },
		})
		for k := 0; k < 12; k++ {
			o := RefOpts{}
			what := r.IntN(3)
			if what == 1 && counts == 0 || what == 2 && sizes == 0 {
				what = 0
			}
			switch what {
			case 0:
				at, nb := r.IntN(metas), byte(r.Uint32())
				if r.IntN(2) == 0 {
					nb = pick(r, []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0x80, 0x83, 0x84, 0x8d, 0x8e, 0x1f, 0x2f, 0x3f, 0x40, 0x42, 0x72, 0xff})
				}
				j := 0
				o.MetaLie = func(b byte) byte {
					j++
					if j-1 == at {
						return nb
					}
					return b
				}
			case 1:
				at := r.IntN(counts)
				n2 := pick(r, []uint64{1, 2, 5, 100, 1000, 1 << 14, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1})
				j := 0
				o.CountLie = func(n uint64) uint64 {
					j++
					if j-1 == at {
						if r.IntN(5) == 0 {
							return n + uint64(r.IntN(3)) // slightly off
						}
						return n2
					}
					return n
				}
			case 2:
				at := r.IntN(sizes)
				j := 0
				o.ObjSize = func(n uint32) uint32 {
					j++
					if j-1 == at {
						switch r.IntN(4) {
						case 0:
							return uint32(r.IntN(int(n) + 2))
						case 1:
							return n + uint32(r.IntN(9)) - 4
						case 2:
							return pick(r, []uint32{0, 1, 2, 3, 7, 8, 9, 10, 11, 1 << 31, 1<<32 - 1, 1<<31 - 1})
						}
						return r.Uint32()
					}
					return n
				}
			}
			data := RefEncode(p.Interface(), o)
			hostile(c, data, d.t, d.eb, []string{"wrong type byte", "wrong count", "wrong object size"}[what])
			if r.IntN(4) == 0 {
				x := pick(r, dsts)
				hostile(c, data, x.t, x.eb, "wrong destination")
			}
			c.Saw(fmt.Sprintf("%v|%x", d.t, data))
			if i < 2 && k == 0 {
				c.Sample("lie %d into %v: %s", what, d.t, hx(data))
			}
		}
		c.StopIfFailed(5)
	})
	// repeated counts: every nesting level claims as much as it can
	c.Cases("nest", c.N(40, 200), func(i int, r *rand.Rand) {
		type l3 struct{ A []uint8 }
		type l2 struct{ A []l3 }
		type l1 struct {
			A []l2
			M map[uint8]l2
		}
		n := 100 + r.IntN(1500)
		x := l1{A: make([]l2, n)}
		o := RefOpts{CountLie: func(uint64) uint64 { return uint64(n) }}
		b := RefEncode(&x, o)
		// all empties
		e := append(append([]byte{}, b[:10]...), 0x80)
		e = append(e, refCompressUnsigned(uint64(len(b)))...)
		for len(e) < 2*len(b) {
			e = append(e, 0x40)
		}
		d := mkDst(reflect.TypeOf(x))
		hostile(c, b, d.t, d.eb, "nested counts")
		hostile(c, e, d.t, d.eb, "empty elements")
		c.Saw(fmt.Sprint("nest", n))
	})
}

func c04mutate(c *Ctx) {
	dsts := libDsts()
	var corpus [][]byte
	cr := c.rng("corpus", 0)
	for len(corpus) < 300 {
		d := pick(cr, dsts)
		p := reflect.New(d.t)
		fillExported(cr, p.Elem(), 2)
		corpus = append(corpus, RefEncode(p.Interface(), RefOpts{}))
		s := genStruct(cr, 3, false)
		q := reflect.New(s.typ(0, ""))
		fill(cr, q.Elem(), 2)
		corpus = append(corpus, RefEncode(q.Interface(), RefOpts{}))
		dsts = append(dsts, mkDst(q.Type().Elem()))
	}
	c.Cases("mut", c.N(30000, 600000), func(i int, r *rand.Rand) {
		b := append([]byte(nil), pick(r, corpus)...)
		d := pick(r, dsts)
		for n := 1 + r.IntN(4); n > 0; n-- {
			switch r.IntN(7) {
			case 0:
				if len(b) > 0 {
					b[r.IntN(len(b))] ^= 1 << r.IntN(8)
				}
			case 1:
				if len(b) > 0 {
					b[r.IntN(len(b))] = byte(r.Uint32())
				}
			case 2:
				b = b[:r.IntN(len(b)+1)]
			case 3:
				o := pick(r, corpus)
				k := r.IntN(len(o) + 1)
				b = append(b[:r.IntN(len(b)+1)], o[k:]...)
			case 4:
				at := r.IntN(len(b) + 1)
				ins := make([]byte, 1+r.IntN(6))
				for k := range ins {
					ins[k] = byte(r.Uint32())
				}
				b = append(b[:at:at], append(ins, b[at:]...)...)
			case 5:
				if len(b) > 1 {
					at := r.IntN(len(b) - 1)
					b = append(b[:at:at], b[at+1:]...)
				}
			case 6:
				if len(b) > 6 {
					at := r.IntN(len(b) - 5)
					for k := 0; k < 5; k++ {
						b[at+k] = 0xff
					}
				}
			}
		}
		hostile(c, b, d.t, d.eb, "mutation")
		c.Saw(fmt.Sprintf("%v|%x", d.t, b))
		c.StopIfFailed(5)
	})
	c.Cases("random", c.N(8000, 200000), func(i int, r *rand.Rand) {
		b := make([]byte, r.IntN(60))
		for k := range b {
			if r.IntN(2) == 0 {
				b[k] = pick(r, []byte{0, 1, 2, 3, 4, 7, 8, 0xc, 0xd, 0x80, 0x84, 0x8d, 0x1f, 0x2f, 0x3f, 0x40, 0xff, 0x10})
			} else {
				b[k] = byte(r.Uint32())
			}
		}
		d := pick(r, dsts)
		hostile(c, b, d.t, d.eb, "random bytes")
		c.Saw(fmt.Sprintf("%v|%x", d.t, b))
		c.StopIfFailed(5)
	})
	// every truncation of every short encoding
	c.Cases("trunc", c.N(60, 600), func(i int, r *rand.Rand) {
		d := dsts[i%len(dsts)]
		p := reflect.New(d.t)
		fillExported(r, p.Elem(), 1)
		b := RefEncode(p.Interface(), RefOpts{})
		for n := 0; n <= len(b) && n < 800; n++ {
			hostile(c, b[:n:n], d.t, d.eb, "truncation")
			c.Saw(fmt.Sprintf("trunc%v|%x", d.t, b[:n]))
		}
		c.StopIfFailed(5)
	})
}

func c04meta(c *Ctx) {
	dsts := libDsts()
	small := []any{&struct{ A int8 }{3}, &struct{ A uint8 }{3}, &struct{ A int16 }{3}, &struct{ A uint16 }{3}, &struct{ A int64 }{3}, &struct{ A uint64 }{3},
		&struct{ A float32 }{3}, &struct{ A float64 }{3}, &struct{ A string }{"abc"}, &struct{ A bool }{true}, &struct{ A []int8 }{[]int8{1, 2}}, &struct{ A []uint8 }{[]uint8{1}},
		&struct{ A []string }{[]string{"a"}}, &struct{ A *int8 }{new(int8)}, &struct{ A map[int8]uint8 }{map[int8]uint8{1: 2}}, &struct{ A serialization.GUID }{serialization.GUID{Data1: 1}},
		&struct{ A federation.NodeID }{}, &struct{ A []federation.NodeID }{make([]federation.NodeID, 2)}, &struct{ A federation.NodeIdRange }{}, &struct{ A struct{ B uint8 } }{}}
	c.Cases("meta", len(small)+len(dsts), func(i int, r *rand.Rand) {
		var p reflect.Value
		if i < len(small) {
			p = reflect.ValueOf(small[i])
		} else {
			p = reflect.New(dsts[i-len(small)].t)
			fillExported(r, p.Elem(), 1)
		}
		d := mkDst(p.Type().Elem())
		metas := 0
		RefEncode(p.Interface(), RefOpts{MetaLie: func(b byte) byte { metas++; return b }})
		for at := 0; at < metas && at < 60; at++ {
			for nb := 0; nb < 256; nb++ {
				j := 0
				data := RefEncode(p.Interface(), RefOpts{MapOrder: func(n int) []int { return idPerm(n) }, MetaLie: func(b byte) byte {
					j++
					if j-1 == at {
						return byte(nb)
					}
					return b
				}})
				if !hostile(c, data, d.t, d.eb, fmt.Sprintf("type byte %d replaced by %02x", at, nb)) {
					c.StopIfFailed(8)
					break
				}
				c.Saw(fmt.Sprintf("%v|%x", d.t, data))
			}
		}
	})
}

func idPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}

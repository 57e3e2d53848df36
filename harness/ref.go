package harness

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"unicode/utf16"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
)

// Independent encoder of the Service Fabric binary format, written from the format, not from the library.
//
//	type byte: 0x80 array, 0x40 empty, low bits base type
//	object:    00 | size u32 LE, flags u8, 3 pad | [type info: compressed len, bytes] | 1F | fields | 2F | 3F
//	           size counts from the size field up to and including 3F
const (
	tObject  = 0x00
	tPointer = 0x01
	tBool    = 0x02
	tChar    = 0x03
	tUChar   = 0x04
	tShort   = 0x05
	tUShort  = 0x06
	tInt32   = 0x07
	tUInt32  = 0x08
	tInt64   = 0x09
	tUInt64  = 0x0a
	tDouble  = 0x0b
	tGuid    = 0x0c
	tWString = 0x0d
	tEmpty   = 0x40
	tArray   = 0x80
	tBegin   = 0x1f
	tEnd     = 0x2f
	tObjEnd  = 0x3f
)

// RefOpts varies an encoding within what the format allows.
type RefOpts struct {
	TypeInfo  func() []byte                          // type information block for an object (nil/empty: none)
	MapOrder  func(n int) []int                      // permutation of map entries
	ObjSize   func(size uint32) uint32               // hostile: lie about the object size
	CountLie  func(n uint64) uint64                  // hostile: lie about counts
	MetaLie   func(b byte) byte                      // hostile: replace a type byte
	NumLie    func(enc []byte, bits int) []byte      // hostile: replace a number (its encoding; bits is 32 for counts, 64 for (u)int64)
	Marks     *[]int                                 // offsets of type bytes written (root relative: only valid for flat use)
	FieldStop func(t reflect.Type, n int) (upto int) // versions: encode only the first fields of a struct
}

type refEnc struct {
	b []byte
	o RefOpts
}

func (e *refEnc) meta(b byte) {
	if e.o.MetaLie != nil {
		b = e.o.MetaLie(b)
	}
	e.b = append(e.b, b)
}

// refCompress is the minimal big-endian base-128 two's complement form: bit 0x40 of the first byte is the
// sign, 0x80 of every byte but the last means more.
func refCompressSigned(v int64) []byte {
	n := 1
	for n < 10 {
		lo, hi := -(int64(1) << (7*n - 1)), int64(1)<<(7*n-1)-1
		if v >= lo && v <= hi {
			break
		}
		n++
		if 7*n-1 >= 63 {
			break
		}
	}
	if n > 9 || (7*n-1 >= 63) {
		// needs sign extension beyond 64 bits
		n = 10
		if v >= -(int64(1)<<62) && v <= int64(1)<<62-1 {
			n = 9
		}
	}
	return packBits(uint64(v), v < 0, n)
}

func refCompressUnsigned(v uint64) []byte {
	// same form, as a non-negative number: one spare zero bit in front
	bits := 0
	for x := v; x != 0; x >>= 1 {
		bits++
	}
	n := (bits + 1 + 6) / 7
	if n == 0 {
		n = 1
	}
	return packBits(v, false, n)
}

func packBits(v uint64, neg bool, n int) []byte {
	out := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		sh := 7 * (n - 1 - i)
		var x byte
		switch {
		case sh < 64:
			x = byte(v>>sh) & 0x7f
			if neg && sh > 57 {
				x |= byte(0x7f<<(64-sh)) & 0x7f
			}
		case neg:
			x = 0x7f
		}
		out[i] = x
		if i != n-1 {
			out[i] |= 0x80
		}
	}
	return out
}

func (e *refEnc) count(n uint64) {
	if e.o.CountLie != nil {
		n = e.o.CountLie(n)
	}
	e.num(refCompressUnsigned(n), 32)
}

func (e *refEnc) num(enc []byte, bits int) {
	if e.o.NumLie != nil {
		enc = e.o.NumLie(enc, bits)
	}
	e.b = append(e.b, enc...)
}

var (
	typGUID   = reflect.TypeOf(serialization.GUID{})
	typNodeID = reflect.TypeOf(federation.NodeID{})
	typRange  = reflect.TypeOf(federation.NodeIdRange{})
)

func baseType(k reflect.Kind) byte {
	switch k {
	case reflect.Bool:
		return tBool
	case reflect.Int8:
		return tChar
	case reflect.Uint8:
		return tUChar
	case reflect.Int16:
		return tShort
	case reflect.Uint16:
		return tUShort
	case reflect.Int32:
		return tInt32
	case reflect.Uint32:
		return tUInt32
	case reflect.Int64:
		return tInt64
	case reflect.Uint64:
		return tUInt64
	case reflect.Float32, reflect.Float64:
		return tDouble
	case reflect.String:
		return tWString
	case reflect.Struct:
		return tObject
	case reflect.Ptr:
		return tPointer
	}
	panic("refEnc: kind " + k.String())
}

func (e *refEnc) nodeID(v reflect.Value) {
	e.meta(tUChar | tArray)
	e.count(16)
	e.b = binary.LittleEndian.AppendUint64(e.b, v.Field(0).Uint())
	e.b = binary.LittleEndian.AppendUint64(e.b, v.Field(1).Uint())
}

func (e *refEnc) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			e.meta(tEmpty | tBool)
		} else {
			e.meta(tEmpty | tBool | 0x30)
		}
	case reflect.Int8:
		if v.Int() == 0 {
			e.meta(tEmpty | tChar)
		} else {
			e.meta(tChar)
			e.b = append(e.b, byte(v.Int()))
		}
	case reflect.Uint8:
		if v.Uint() == 0 {
			e.meta(tEmpty | tUChar)
		} else {
			e.meta(tUChar)
			e.b = append(e.b, byte(v.Uint()))
		}
	case reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() == 0 {
			e.meta(tEmpty | baseType(v.Kind()))
		} else {
			e.meta(baseType(v.Kind()))
			e.num(refCompressSigned(v.Int()), v.Type().Bits())
		}
	case reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() == 0 {
			e.meta(tEmpty | baseType(v.Kind()))
		} else {
			e.meta(baseType(v.Kind()))
			e.num(refCompressUnsigned(v.Uint()), v.Type().Bits())
		}
	case reflect.Float32, reflect.Float64:
		bits := math.Float64bits(v.Float())
		if v.Float() == 0 {
			e.meta(tEmpty | tDouble)
		} else {
			e.meta(tDouble)
			e.b = binary.LittleEndian.AppendUint64(e.b, bits)
		}
	case reflect.String:
		if v.Len() == 0 {
			e.meta(tEmpty | tArray | tWString)
			return
		}
		e.meta(tArray | tWString)
		u := utf16.Encode([]rune(v.String()))
		e.count(uint64(len(u)))
		for _, x := range u {
			e.b = binary.LittleEndian.AppendUint16(e.b, x)
		}
	case reflect.Ptr:
		if v.IsNil() {
			e.meta(tEmpty | tPointer)
			return
		}
		e.meta(tPointer)
		e.value(v.Elem())
	case reflect.Slice:
		ek := v.Type().Elem().Kind()
		if v.Len() == 0 {
			switch ek {
			case reflect.String, reflect.Ptr:
				e.meta(tEmpty | tUInt32)
			default:
				e.meta(tEmpty | tArray | baseType(ek))
			}
			return
		}
		switch ek {
		case reflect.String, reflect.Ptr:
			e.meta(tUInt32)
		default:
			e.meta(tArray | baseType(ek))
		}
		e.count(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			e.value(v.Index(i))
		}
	case reflect.Map:
		if v.Len() == 0 {
			e.meta(tEmpty | tArray)
			return
		}
		keys := sortedKeys(v)
		if e.o.MapOrder != nil {
			p := e.o.MapOrder(len(keys))
			k2 := make([]reflect.Value, len(keys))
			for i, j := range p {
				k2[i] = keys[j]
			}
			keys = k2
		}
		e.meta(tArray | tObject)
		e.count(uint64(len(keys)))
		for _, k := range keys {
			e.object(nil, func(s *refEnc) {
				s.value(k)
				s.value(v.MapIndex(k))
			})
		}
	case reflect.Struct:
		switch v.Type() {
		case typGUID:
			if v.IsZero() {
				e.meta(tEmpty | tGuid)
				return
			}
			e.meta(tGuid)
			e.b = binary.LittleEndian.AppendUint32(e.b, uint32(v.Field(0).Uint()))
			e.b = binary.LittleEndian.AppendUint16(e.b, uint16(v.Field(1).Uint()))
			e.b = binary.LittleEndian.AppendUint16(e.b, uint16(v.Field(2).Uint()))
			for i := 0; i < 8; i++ {
				e.b = append(e.b, byte(v.Field(3).Index(i).Uint()))
			}
		case typNodeID:
			e.nodeID(v)
		case typRange:
			e.nodeID(v.Field(0))
			e.nodeID(v.Field(1))
		default:
			e.object(v.Type(), func(s *refEnc) { s.fields(v) })
		}
	default:
		panic("refEnc: kind " + v.Kind().String())
	}
}

func (e *refEnc) fields(v reflect.Value) {
	t := v.Type()
	n := t.NumField()
	if e.o.FieldStop != nil {
		n = e.o.FieldStop(t, n)
	}
	for i := 0; i < n; i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue // unexported
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			e.fields(v.Field(i))
			continue
		}
		e.value(v.Field(i))
	}
}

func (e *refEnc) object(t reflect.Type, body func(*refEnc)) {
	sub := &refEnc{o: e.o}
	e.meta(tObject)
	var ti []byte
	flags := byte(0)
	if e.o.TypeInfo != nil {
		if x := e.o.TypeInfo(); len(x) > 0 {
			flags |= 1
			ti = append(refCompressUnsigned(uint64(len(x))), x...)
		}
	}
	body(sub)
	size := uint32(8 + len(ti) + 1 + len(sub.b) + 2)
	if e.o.ObjSize != nil {
		size = e.o.ObjSize(size)
	}
	e.b = binary.LittleEndian.AppendUint32(e.b, size)
	e.b = append(e.b, flags, 0, 0, 0)
	e.b = append(e.b, ti...)
	e.meta(tBegin)
	e.b = append(e.b, sub.b...)
	e.meta(tEnd)
	e.meta(tObjEnd)
}

// RefEncode encodes the struct p points to.
func RefEncode(p any, o RefOpts) []byte {
	e := &refEnc{o: o}
	e.value(reflect.ValueOf(p).Elem())
	return e.b
}

func refEncodeValue(v reflect.Value, o RefOpts) []byte {
	e := &refEnc{o: o}
	e.value(v)
	return e.b
}

func sortedKeys(m reflect.Value) []reflect.Value {
	type key struct {
		k reflect.Value
		s string
	}
	var l []key
	for _, k := range m.MapKeys() {
		l = append(l, key{k, string(refEncodeValue(k, RefOpts{}))})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].s < l[j].s })
	keys := make([]reflect.Value, len(l))
	for i := range l {
		keys[i] = l[i].k
	}
	return keys
}

// hasBigMap reports whether v contains a map with more than one entry (whose order is free).
func hasBigMap(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for _, k := range v.MapKeys() {
			if hasBigMap(k) || hasBigMap(v.MapIndex(k)) {
				return true
			}
		}
	case reflect.Ptr:
		return !v.IsNil() && hasBigMap(v.Elem())
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Map, reflect.Ptr, reflect.Slice, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				if hasBigMap(v.Index(i)) {
					return true
				}
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasBigMap(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

// sameValue compares two values; nil and empty slices and maps are equal; NaN equals NaN, -0 equals 0.
// It returns the path of the first difference, or "".
func sameValue(a, b reflect.Value) string { return diffValue("", a, b) }

func diffValue(path string, a, b reflect.Value) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %v vs %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x == y || (x != x && y != y) {
			return ""
		}
		return fmt.Sprintf("%s: %v vs %v", path, x, y)
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil %v vs nil %v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return diffValue(path+".*", a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d vs %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffValue(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if d := diffValue(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: map length %d vs %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: key %v missing", path, k)
			}
			if d := diffValue(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), y); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if d := diffValue(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
				return d
			}
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Bool(), b.Bool())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %.80q vs %.80q", path, a.String(), b.String())
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Int(), b.Int())
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Uint(), b.Uint())
		}
	default:
		return fmt.Sprintf("%s: kind %v not compared", path, a.Kind())
	}
	return ""
}

// deepCopy copies everything reachable.
func deepCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(deepCopy(v.Elem()))
			out.Set(p)
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(deepCopy(v.Index(i)))
			}
			out.Set(s)
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMapWithSize(v.Type(), v.Len())
			for _, k := range v.MapKeys() {
				m.SetMapIndex(deepCopy(k), deepCopy(v.MapIndex(k)))
			}
			out.Set(m)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

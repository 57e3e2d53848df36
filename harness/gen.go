package harness

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/tg123/phabrik/federation"
)

// ---------------------------------------------------------------------------------------------------------
// Type schemas: a tree from which one or two versions of a Go type are built.

type schema struct {
	kind     reflect.Kind
	special  reflect.Type // GUID, NodeID, NodeIdRange
	elem     *schema
	key      *schema
	fields   []*schema // struct
	embedded bool      // this struct is embedded in its parent
	// versions: number of fields present in version 0 and 1 (struct only)
	n [2]int
}

var scalarKinds = []reflect.Kind{reflect.Bool, reflect.Int8, reflect.Uint8, reflect.Int16, reflect.Uint16, reflect.Int32,
	reflect.Uint32, reflect.Int64, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.String}

func pick[T any](r *rand.Rand, l []T) T { return l[r.IntN(len(l))] }

// genSchema makes a random supported shape. pos: 'f' field, 'e' slice element, 'k' map key, 'p' pointee.
func genSchema(r *rand.Rand, depth int, pos byte) *schema {
	for {
		x := r.IntN(100)
		switch {
		case x < 42 || depth <= 0 && x < 80:
			return &schema{kind: pick(r, scalarKinds)}
		case x < 54:
			t := pick(r, []reflect.Type{typGUID, typGUID, typNodeID, typRange})
			return &schema{kind: reflect.Struct, special: t}
		case depth <= 0:
			continue
		case x < 68:
			if pos == 'k' && r.IntN(3) != 0 {
				continue
			}
			return genStruct(r, depth-1, pos == 'k')
		case pos == 'k':
			continue
		case x < 78:
			return &schema{kind: reflect.Ptr, elem: genSchema(r, depth-1, 'p')}
		case pos == 'e':
			continue // slices of slices and of maps are not supported
		case x < 92:
			return &schema{kind: reflect.Slice, elem: genSchema(r, depth-1, 'e')}
		default:
			return &schema{kind: reflect.Map, key: genSchema(r, depth-1, 'k'), elem: genSchema(r, depth-1, 'f')}
		}
	}
}

func genStruct(r *rand.Rand, depth int, key bool) *schema {
	s := &schema{kind: reflect.Struct}
	n := r.IntN(6)
	if key {
		n = 1 + r.IntN(2)
	}
	emb := false
	for i := 0; i < n; i++ {
		if !key && !emb && depth > 0 && r.IntN(10) == 0 {
			e := genStruct(r, depth-1, false)
			e.embedded = true
			emb = true
			s.fields = append(s.fields, e)
			continue
		}
		pos := byte('f')
		if key {
			pos = 'k'
		}
		s.fields = append(s.fields, genSchema(r, depth, pos))
	}
	s.n = [2]int{n, n}
	return s
}

// genDeep makes a chain of depth structs, each inside the one before in one way or another, with fields around it.
func genDeep(r *rand.Rand, depth int) *schema {
	s := &schema{kind: reflect.Struct}
	for i := 0; i < depth; i++ {
		var e *schema
		switch r.IntN(6) {
		case 0:
			e = &schema{kind: reflect.Ptr, elem: s}
		case 1:
			e = &schema{kind: reflect.Slice, elem: s}
		case 2:
			e = &schema{kind: reflect.Map, key: &schema{kind: reflect.Uint8}, elem: s}
		case 3:
			e = &schema{kind: reflect.Slice, elem: &schema{kind: reflect.Ptr, elem: s}}
		default:
			e = s
		}
		o := &schema{kind: reflect.Struct}
		for k := r.IntN(2); k > 0; k-- {
			o.fields = append(o.fields, &schema{kind: pick(r, scalarKinds)})
		}
		o.fields = append(o.fields, e)
		for k := r.IntN(3); k > 0; k-- {
			o.fields = append(o.fields, &schema{kind: pick(r, scalarKinds)})
		}
		o.n = [2]int{len(o.fields), len(o.fields)}
		s = o
	}
	return s
}

// fillDeep fills a value of genDeep's types: one element per level, so that it reaches the bottom.
func fillDeep(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fillDeep(r, v.Elem())
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		fillDeep(r, v.Index(0))
	case reflect.Map:
		k := reflect.New(v.Type().Key()).Elem()
		fillKey(r, k)
		x := reflect.New(v.Type().Elem()).Elem()
		fillDeep(r, x)
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(k, x)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillDeep(r, v.Field(i))
		}
	default:
		fill(r, v, 1)
	}
}

// version assigns different field counts to structs outside map keys (and not embedded); returns how many differ.
func (s *schema) version(r *rand.Rand) int {
	d := 0
	switch s.kind {
	case reflect.Ptr, reflect.Slice:
		return s.elem.version(r)
	case reflect.Map:
		return s.elem.version(r)
	case reflect.Struct:
		if s.special != nil {
			return 0
		}
		for _, f := range s.fields {
			if !f.embedded {
				d += f.version(r)
			}
		}
		if !s.embedded && len(s.fields) > 0 && r.IntN(3) != 0 {
			k := r.IntN(len(s.fields) + 1)
			v := r.IntN(2)
			s.n[v] = k
			s.n[1-v] = len(s.fields)
			if k != len(s.fields) {
				d++
			}
		}
	}
	return d
}

func (s *schema) typ(v int, salt string) reflect.Type {
	switch s.kind {
	case reflect.Ptr:
		return reflect.PointerTo(s.elem.typ(v, salt))
	case reflect.Slice:
		return reflect.SliceOf(s.elem.typ(v, salt))
	case reflect.Map:
		return reflect.MapOf(s.key.typ(v, salt), s.elem.typ(v, salt))
	case reflect.Struct:
		if s.special != nil {
			return s.special
		}
		var fs []reflect.StructField
		for i, f := range s.fields[:s.n[v]] {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.typ(v, salt), Anonymous: f.embedded})
		}
		return reflect.StructOf(fs)
	}
	return scalarType(s.kind)
}

func scalarType(k reflect.Kind) reflect.Type {
	switch k {
	case reflect.Bool:
		return reflect.TypeFor[bool]()
	case reflect.Int8:
		return reflect.TypeFor[int8]()
	case reflect.Uint8:
		return reflect.TypeFor[uint8]()
	case reflect.Int16:
		return reflect.TypeFor[int16]()
	case reflect.Uint16:
		return reflect.TypeFor[uint16]()
	case reflect.Int32:
		return reflect.TypeFor[int32]()
	case reflect.Uint32:
		return reflect.TypeFor[uint32]()
	case reflect.Int64:
		return reflect.TypeFor[int64]()
	case reflect.Uint64:
		return reflect.TypeFor[uint64]()
	case reflect.Float32:
		return reflect.TypeFor[float32]()
	case reflect.Float64:
		return reflect.TypeFor[float64]()
	case reflect.String:
		return reflect.TypeFor[string]()
	}
	panic(k)
}

// ---------------------------------------------------------------------------------------------------------
// Values

func genInt(r *rand.Rand, bits int) int64 {
	var v int64
	switch r.IntN(6) {
	case 0:
		return int64(r.IntN(5)) - 2
	case 1: // around every power of two, either sign
		v = int64(uint64(1)<<r.IntN(bits)) + int64(r.IntN(3)) - 1
		if r.IntN(2) == 0 {
			v = -v
		}
	case 2: // around the 7-bit group boundaries
		v = int64(uint64(1)<<min(7*(1+r.IntN(9))-r.IntN(2), 63)) + int64(r.IntN(3)) - 1
		if r.IntN(2) == 0 {
			v = -v
		}
	case 3:
		v = []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, -1, 0}[r.IntN(6)]
		v >>= 64 - bits
	default:
		v = int64(r.Uint64() >> r.IntN(64))
		if r.IntN(2) == 0 {
			v = ^v
		}
	}
	return v << (64 - bits) >> (64 - bits)
}

func genUint(r *rand.Rand, bits int) uint64 {
	return uint64(genInt(r, bits)) << (64 - bits) >> (64 - bits)
}

func genFloat(r *rand.Rand) float64 {
	switch r.IntN(5) {
	case 0:
		return pick(r, []float64{0, 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64,
			math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 0.5})
	case 1:
		return math.Float64frombits(r.Uint64())
	}
	return r.NormFloat64()
}

var runePool = []rune{'a', 'Z', '0', ' ', '\t', '\n', '\r', '.', '/', '"', 0, 0x7f, 0x85, 0xa0, 0xad, 0x301, 0x131, 0x200b, 0xfeff, 0xe0001, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x4e2d, 0x2028}

func genString(r *rand.Rand, size int) string {
	var n int
	switch r.IntN(8) {
	case 0:
		return ""
	case 1:
		n = pick(r, []int{62, 63, 64, 65, 127, 128, 129})
		if r.IntN(30) == 0 {
			n = pick(r, []int{8190, 8191, 8192, 8193})
		}
	default:
		n = r.IntN(12)
	}
	if n > size*70+12 {
		n = r.IntN(12)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.IntN(3) {
		case 0:
			b.WriteRune(pick(r, runePool))
		case 1:
			b.WriteRune(rune('a' + r.IntN(26)))
		default:
			c := rune(r.IntN(0x110000))
			if !utf8.ValidRune(c) {
				c = 'x'
			}
			b.WriteRune(c)
		}
	}
	return b.String()
}

func genCount(r *rand.Rand, size int) int {
	switch r.IntN(10) {
	case 0, 1:
		return 0
	case 2:
		return 1
	case 3:
		if size > 2 {
			return pick(r, []int{63, 64, 65, 127, 128, 129})
		}
		return 2
	default:
		return r.IntN(5)
	}
}

// fill sets v to a random value; size limits the growth of nested collections.
func fill(r *rand.Rand, v reflect.Value, size int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genInt(r, v.Type().Bits()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(genUint(r, v.Type().Bits()))
	case reflect.Float32, reflect.Float64:
		f := genFloat(r)
		if v.Kind() == reflect.Float32 {
			f = float64(float32(f))
		}
		if f == 0 {
			f = math.Abs(f) // no negative zero: whether it keeps its sign is not specified
		}
		v.SetFloat(f)
	case reflect.String:
		v.SetString(genString(r, size))
	case reflect.Ptr:
		if r.IntN(4) == 0 {
			return
		}
		p := reflect.New(v.Type().Elem())
		fill(r, p.Elem(), size-1)
		v.Set(p)
	case reflect.Slice:
		n := genCount(r, size)
		if n == 0 {
			if r.IntN(2) == 0 {
				v.Set(reflect.MakeSlice(v.Type(), 0, 0))
			}
			return
		}
		if size <= 0 {
			n = min(n, 2)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		sz := size - 1
		if n > 8 {
			sz = min(sz, 0)
		}
		for i := 0; i < n; i++ {
			fill(r, s.Index(i), sz)
		}
		v.Set(s)
	case reflect.Map:
		n := genCount(r, size)
		if n == 0 {
			if r.IntN(2) == 0 {
				v.Set(reflect.MakeMap(v.Type()))
			}
			return
		}
		if size <= 0 {
			n = min(n, 2)
		}
		sz := size - 1
		if n > 8 {
			sz = min(sz, 0)
		}
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			fillKey(r, k)
			x := reflect.New(v.Type().Elem()).Elem()
			fill(r, x, sz)
			m.SetMapIndex(k, x)
		}
		v.Set(m)
	case reflect.Struct:
		switch v.Type() {
		case typGUID, typNodeID, typRange:
			fillSpecial(r, v)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(r, v.Field(i), size)
			}
		}
	default:
		panic("fill " + v.Kind().String())
	}
}

func fillSpecial(r *rand.Rand, v reflect.Value) {
	switch v.Type() {
	case typGUID:
		if r.IntN(5) == 0 {
			return
		}
		v.Field(0).SetUint(genUint(r, 32))
		v.Field(1).SetUint(genUint(r, 16))
		v.Field(2).SetUint(genUint(r, 16))
		for i := 0; i < 8; i++ {
			v.Field(3).Index(i).SetUint(genUint(r, 8))
		}
	case typNodeID:
		v.Set(reflect.ValueOf(genNodeID(r)))
	case typRange:
		v.Set(reflect.ValueOf(federation.NodeIdRange{Begin: genNodeID(r), End: genNodeID(r)}))
	}
}

func genNodeID(r *rand.Rand) federation.NodeID {
	return federation.NodeID{Hi: genUint(r, 64), Lo: genUint(r, 64)}
}

// fillKey avoids NaN, which is never equal to itself as a key.
func fillKey(r *rand.Rand, v reflect.Value) {
	for {
		fill(r, v, 0)
		if !hasNaN(v) {
			return
		}
		v.SetZero()
	}
}

func hasNaN(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.IsNaN(v.Float())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasNaN(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

// elemBytes is the largest in-memory size of anything the decoder allocates per element for type t.
func elemBytes(t reflect.Type, seen map[reflect.Type]bool) uintptr {
	if seen[t] {
		return 0
	}
	seen[t] = true
	m := uintptr(16)
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice:
		m = max(m, t.Elem().Size(), elemBytes(t.Elem(), seen))
	case reflect.Map:
		m = max(m, 2*(t.Key().Size()+t.Elem().Size())+16, elemBytes(t.Key(), seen), elemBytes(t.Elem(), seen))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			m = max(m, elemBytes(t.Field(i).Type, seen))
		}
	}
	return m
}

// trunc copies src (a value of version a) into dst (version b, already holding the receiver's values), following
// the rule of the format: common fields are replaced, fields the writer lacks stay.
func transfer(s *schema, src reflect.Value, a int, dst reflect.Value, b int) {
	switch s.kind {
	case reflect.Ptr:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		p := reflect.New(dst.Type().Elem())
		transfer(s.elem, src.Elem(), a, p.Elem(), b)
		dst.Set(p)
	case reflect.Slice:
		if src.Len() == 0 {
			dst.SetZero()
			return
		}
		x := reflect.MakeSlice(dst.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			transfer(s.elem, src.Index(i), a, x.Index(i), b)
		}
		dst.Set(x)
	case reflect.Map:
		if src.Len() == 0 {
			dst.SetZero()
			return
		}
		m := reflect.MakeMap(dst.Type())
		for _, k := range src.MapKeys() {
			k2 := reflect.New(dst.Type().Key()).Elem()
			transfer(s.key, k, a, k2, b)
			x := reflect.New(dst.Type().Elem()).Elem()
			transfer(s.elem, src.MapIndex(k), a, x, b)
			m.SetMapIndex(k2, x)
		}
		dst.Set(m)
	case reflect.Struct:
		if s.special != nil {
			dst.Set(src)
			return
		}
		for i := 0; i < min(s.n[a], s.n[b]); i++ {
			transfer(s.fields[i], src.Field(i), a, dst.Field(i), b)
		}
	default:
		dst.Set(src)
	}
}

// shape describes a type compactly for keys and samples.
func (s *schema) shape(v int) string {
	switch s.kind {
	case reflect.Ptr:
		return "*" + s.elem.shape(v)
	case reflect.Slice:
		return "[]" + s.elem.shape(v)
	case reflect.Map:
		return "map[" + s.key.shape(v) + "]" + s.elem.shape(v)
	case reflect.Struct:
		if s.special != nil {
			return s.special.Name()
		}
		var l []string
		for _, f := range s.fields[:s.n[v]] {
			x := f.shape(v)
			if f.embedded {
				x = "embed" + x
			}
			l = append(l, x)
		}
		return "{" + strings.Join(l, " ") + "}"
	}
	return s.kind.String()
}

// canon rewrites an encoding of type t with the entries of every map sorted, so that encodings that differ only
// in map order become equal. It walks the format independently of the library.
func canon(t reflect.Type, b []byte) (out []byte, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("not an encoding of %v: %v", t, e)
		}
	}()
	w := &walker{b: b}
	out = w.value(t)
	if w.p != len(b) {
		return nil, fmt.Errorf("%d bytes left over", len(b)-w.p)
	}
	return out, nil
}

type walker struct {
	b []byte
	p int
}

func (w *walker) compressed() uint64 {
	var v uint64
	for {
		x := w.b[w.p]
		w.p++
		v = v<<7 | uint64(x&0x7f)
		if x&0x80 == 0 {
			return v
		}
	}
}

func (w *walker) value(t reflect.Type) []byte {
	st := w.p
	meta := w.b[w.p]
	w.p++
	if meta&0x40 != 0 {
		return w.b[st:w.p]
	}
	switch t.Kind() {
	case reflect.Bool:
		panic("bool is always empty")
	case reflect.Int8, reflect.Uint8:
		w.p++
	case reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		w.compressed()
	case reflect.Float32, reflect.Float64:
		w.p += 8
	case reflect.String:
		w.p += 2 * int(w.compressed())
	case reflect.Ptr:
		return append([]byte{meta}, w.value(t.Elem())...)
	case reflect.Slice:
		n := w.compressed()
		out := append([]byte(nil), w.b[st:w.p]...)
		for ; n > 0; n-- {
			out = append(out, w.value(t.Elem())...)
		}
		return out
	case reflect.Map:
		n := w.compressed()
		out := append([]byte(nil), w.b[st:w.p]...)
		var es []string
		for ; n > 0; n-- {
			es = append(es, string(w.object([]reflect.Type{t.Key(), t.Elem()})))
		}
		for i := range es {
			for j := i; j > 0 && es[j-1] > es[j]; j-- {
				es[j-1], es[j] = es[j], es[j-1]
			}
		}
		for _, e := range es {
			out = append(out, e...)
		}
		return out
	case reflect.Struct:
		switch t {
		case typGUID:
			w.p += 16
		case typNodeID:
			w.compressed()
			w.p += 16
		case typRange:
			w.compressed()
			w.p += 17
			w.compressed()
			w.p += 16
		default:
			w.p = st
			return w.object(flatFields(t))
		}
	default:
		panic(t.String())
	}
	return w.b[st:w.p]
}

func flatFields(t reflect.Type) []reflect.Type {
	var l []reflect.Type
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			l = append(l, flatFields(f.Type)...)
			continue
		}
		l = append(l, f.Type)
	}
	return l
}

func (w *walker) object(fields []reflect.Type) []byte {
	st := w.p
	w.p += 10 // type, size, flags, padding, begin
	out := append([]byte(nil), w.b[st:w.p]...)
	for _, f := range fields {
		out = append(out, w.value(f)...)
	}
	out = append(out, w.b[w.p:w.p+2]...)
	w.p += 2
	return out
}

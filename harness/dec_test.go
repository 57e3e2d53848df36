package harness

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"reflect"

	"github.com/tg123/phabrik/serialization"
)

// C30: encodings that are cut short, mistyped, out of range or damaged in their structure are refused, not believed.

func init() {
	register("C30", "cut", "every strict prefix of encodings (library and reference encoder), decoded into the type itself, other versions and holders", c30cut)
	register("C30", "kind", "one field of another kind than the destination's, at top level, behind a pointer, in slices, maps and nested structs", c30kind)
	register("C30", "range", "integers and floats written from a wider field than the destination's", c30range)
	register("C30", "wide", "one number of an encoding replaced by one of the same low bits beyond the 64 bits of any field, or the 32 of a count", c30wide)
	register("C30", "typebyte", "one type byte of a value that is not empty replaced by another", c30typebyte)
	register("C30", "marker", "one scope marker of an encoding replaced", c30marker)
}

// refused decodes data into a fresh t and wants an error.
func refused(c *Ctx, data []byte, t reflect.Type, how string) bool {
	out := reflect.New(t)
	var err error
	if m := catch(func() { err = serialization.Unmarshal(data, out.Interface()) }); m != "" {
		c.Violation("%s: decoding %s into %v panics: %s", how, hx(data), t, m)
		return false
	}
	if err == nil {
		c.Violation("%s: decoding %s into %v succeeds, with %s", how, hx(data), t, vs(out.Elem().Interface()))
		return false
	}
	c.Count("refused", 1)
	return true
}

func c30cut(c *Ctx) {
	dsts := libDsts()
	c.Cases("cut", c.N(1500, 30000), func(i int, r *rand.Rand) {
		var p reflect.Value
		var others []reflect.Type
		if i%3 == 0 {
			d := pick(r, dsts)
			p = reflect.New(d.t)
			fillExported(r, p.Elem(), 2)
		} else {
			s := genStruct(r, 1+r.IntN(4), false)
			s.version(r)
			p = reflect.New(s.typ(0, ""))
			fill(r, p.Elem(), r.IntN(3))
			others = append(others, s.typ(1, ""))
		}
		t := p.Type().Elem()
		// no field at all: everything is skipped
		others = append(others, reflect.StructOf(nil))
		data := RefEncode(p.Interface(), RefOpts{TypeInfo: func() []byte {
			if i%4 == 1 && r.IntN(2) == 0 {
				return []byte("Some::Type")
			}
			return nil
		}})
		if i%2 == 0 {
			b, err := serialization.Marshal(p.Interface())
			if err != nil {
				c.Violation("marshal %s: %v", vs(p.Elem().Interface()), err)
				return
			}
			data = b
		}
		// sound as a whole
		if err := serialization.Unmarshal(data, reflect.New(t).Interface()); err != nil {
			c.Violation("decoding %s into %v: %v", hx(data), t, err)
			return
		}
		c.Saw(fmt.Sprintf("%v|%x", t, data))
		at := func(n int) {
			refused(c, data[:n:n], t, fmt.Sprintf("cut after %d of %d bytes", n, len(data)))
			for _, o := range others {
				refused(c, data[:n:n], o, fmt.Sprintf("cut after %d of %d bytes of an encoding of %v", n, len(data), t))
			}
			c.Count("cuts", 1)
		}
		if len(data) <= 300 {
			for n := 0; n < len(data) && !c.Failed(); n++ {
				at(n)
			}
		} else {
			for k := 0; k < 100 && !c.Failed(); k++ {
				n := r.IntN(len(data))
				if k < 20 {
					n = len(data) - 1 - k
				}
				at(n)
			}
		}
		c.StopIfFailed(3)
	})
}

// shapeTag tells what the type byte of a non-empty value of t says.
func shapeTag(t reflect.Type) string {
	switch t {
	case typGUID:
		return "guid"
	case typNodeID, typRange:
		return "array of uchar"
	}
	switch t.Kind() {
	case reflect.Bool:
		return "bool"
	case reflect.Int8:
		return "char"
	case reflect.Uint8:
		return "uchar"
	case reflect.Int16, reflect.Int32, reflect.Int64:
		return "signed"
	case reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return "unsigned"
	case reflect.Float32, reflect.Float64:
		return "double"
	case reflect.String:
		return "string"
	case reflect.Ptr:
		return "pointer"
	case reflect.Struct:
		return "object"
	case reflect.Map:
		return "array of object"
	case reflect.Slice:
		switch e := t.Elem(); e.Kind() {
		case reflect.String, reflect.Ptr:
			return "unsigned" // counted by a uint32
		case reflect.Struct:
			if e == typGUID || e == typNodeID || e == typRange {
				return "array of object" // of whatever kind
			}
			return "array of object"
		case reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return "array of " + e.Kind().String()
		default:
			return "array of " + shapeTag(e)
		}
	}
	panic(t.String())
}

func c30kind(c *Ctx) {
	c.Cases("kind", c.N(6000, 150000), func(i int, r *rand.Rand) {
		var from, to reflect.Type
		for {
			from, to = genSchema(r, r.IntN(3), 'f').typ(0, ""), genSchema(r, r.IntN(3), 'f').typ(0, "")
			if shapeTag(from) != shapeTag(to) {
				break
			}
		}
		// a value that is not empty
		v := reflect.New(from).Elem()
		for k := 0; ; k++ {
			fill(r, v, 1)
			e := refEncodeValue(v, RefOpts{})
			if from.Kind() == reflect.Bool || e[0]&0x40 == 0 {
				break
			}
			if k == 200 {
				return
			}
		}
		if from.Kind() == reflect.Bool && to.Kind() != reflect.Bool {
			from, to = to, from // booleans travel in the type byte; anything but one is no boolean
			v = reflect.New(from).Elem()
			fill(r, v, 1)
		}
		// neighbours
		var fa, fb []reflect.StructField
		before := r.IntN(3)
		for k := 0; k < before; k++ {
			x := genSchema(r, 1, 'f').typ(0, "")
			fa = append(fa, reflect.StructField{Name: fmt.Sprintf("A%d", k), Type: x})
			fb = append(fb, reflect.StructField{Name: fmt.Sprintf("A%d", k), Type: x})
		}
		fa = append(fa, reflect.StructField{Name: "X", Type: from})
		fb = append(fb, reflect.StructField{Name: "X", Type: to})
		for k := r.IntN(3); k > 0; k-- {
			x := genSchema(r, 1, 'f').typ(0, "")
			fa = append(fa, reflect.StructField{Name: fmt.Sprintf("B%d", k), Type: x})
			fb = append(fb, reflect.StructField{Name: fmt.Sprintf("B%d", k), Type: x})
		}
		ta, tb := reflect.StructOf(fa), reflect.StructOf(fb)
		va := reflect.New(ta).Elem()
		fill(r, va, 1)
		va.FieldByName("X").Set(v)
		where := "at top level"
		switch r.IntN(5) {
		case 1:
			where = "behind a pointer"
			p := reflect.New(ta)
			p.Elem().Set(va)
			va = p
		case 2:
			where = "in a slice"
			n := 1 + r.IntN(3)
			s := reflect.MakeSlice(reflect.SliceOf(ta), n, n)
			for k := 0; k < n; k++ {
				s.Index(k).Set(va)
			}
			va = s
		case 3:
			where = "in a map"
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeFor[int32](), ta))
			m.SetMapIndex(reflect.ValueOf(int32(5)), va)
			va = m
		case 4:
			where = "in a nested struct"
			va.FieldByName("X").Set(v)
		}
		wrap := func(in reflect.Type) reflect.Type {
			switch where {
			case "behind a pointer":
				in = reflect.PointerTo(in)
			case "in a slice":
				in = reflect.SliceOf(in)
			case "in a map":
				in = reflect.MapOf(reflect.TypeFor[int32](), in)
			case "at top level":
				return in
			}
			return reflect.StructOf([]reflect.StructField{{Name: "W", Type: in}})
		}
		top := reflect.New(wrap(ta))
		if where == "at top level" {
			top.Elem().Set(va)
		} else {
			top.Elem().Field(0).Set(va)
		}
		data := RefEncode(top.Interface(), RefOpts{})
		if i%2 == 0 && !hasBigMap(top.Elem()) {
			if b, err := serialization.Marshal(top.Interface()); err != nil {
				c.Violation("marshal %s: %v", vs(top.Elem().Interface()), err)
				return
			} else {
				data = b
			}
		}
		c.Saw(fmt.Sprintf("%s to %s %s", shapeTag(from), shapeTag(to), where))
		refused(c, data, wrap(tb), fmt.Sprintf("%v (%s) sent for %v (%s) %s", from, shapeTag(from), to, shapeTag(to), where))
		c.StopIfFailed(6)
	})
}

func c30range(c *Ctx) {
	ints := []reflect.Kind{reflect.Int16, reflect.Int32, reflect.Int64}
	uints := []reflect.Kind{reflect.Uint16, reflect.Uint32, reflect.Uint64}
	c.Cases("range", c.N(5000, 100000), func(i int, r *rand.Rand) {
		var from, to reflect.Type
		v := reflect.Value{}
		fits := false
		switch i % 5 {
		case 0, 1:
			a, b := r.IntN(3), r.IntN(3)
			from, to = scalarType(ints[a]), scalarType(ints[b])
			v = reflect.New(from).Elem()
			n := genInt(r, from.Bits())
			if r.IntN(3) == 0 {
				n = (int64(1)<<(to.Bits()-1) - 1) + int64(r.IntN(5)) - 2
				if to.Bits() == 64 {
					n = math.MaxInt64 - int64(r.IntN(3))
				}
				if r.IntN(2) == 0 {
					n = ^n
				}
			}
			if v.OverflowInt(n) {
				return
			}
			v.SetInt(n)
			fits = !reflect.New(to).Elem().OverflowInt(n)
		case 2, 3:
			a, b := r.IntN(3), r.IntN(3)
			from, to = scalarType(uints[a]), scalarType(uints[b])
			v = reflect.New(from).Elem()
			n := genUint(r, from.Bits())
			if r.IntN(3) == 0 {
				n = uint64(1)<<(to.Bits()-1)<<1 + uint64(r.IntN(5)) - 2
			}
			if v.OverflowUint(n) {
				return
			}
			v.SetUint(n)
			fits = !reflect.New(to).Elem().OverflowUint(n)
		case 4:
			from, to = reflect.TypeFor[float64](), reflect.TypeFor[float32]()
			v = reflect.New(from).Elem()
			f := genFloat(r)
			if r.IntN(2) == 0 {
				f = math.Ldexp(1+r.Float64(), 120+r.IntN(16))
			}
			if f == 0 {
				return
			}
			v.SetFloat(f)
			fits = !reflect.New(to).Elem().OverflowFloat(f)
		}
		mk := func(t reflect.Type) reflect.Type {
			switch i % 4 {
			case 1:
				t = reflect.MapOf(reflect.TypeFor[uint8](), t)
			case 2:
				t = reflect.PointerTo(t)
			}
			return reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeFor[uint8]()}, {Name: "X", Type: t}, {Name: "B", Type: reflect.TypeFor[string]()}})
		}
		top := reflect.New(mk(from))
		switch i % 4 {
		case 1:
			m := reflect.MakeMap(top.Elem().Field(1).Type())
			m.SetMapIndex(reflect.ValueOf(uint8(4)), v)
			top.Elem().Field(1).Set(m)
		case 2:
			top.Elem().Field(1).Set(v.Addr())
		default:
			top.Elem().Field(1).Set(v)
		}
		top.Elem().Field(2).SetString("after")
		data := RefEncode(top.Interface(), RefOpts{})
		c.Saw(fmt.Sprintf("%v>%v|%v", from, to, v))
		what := fmt.Sprintf("%v %v sent for %v", from, v, to)
		if !fits {
			refused(c, data, mk(to), what)
			c.Count("too_wide", 1)
		} else {
			out := reflect.New(mk(to))
			if err := serialization.Unmarshal(data, out.Interface()); err != nil {
				c.Violation("%s, where it fits: %v", what, err)
			} else {
				x := out.Elem().Field(1)
				switch i % 4 {
				case 1:
					x = x.MapIndex(reflect.ValueOf(uint8(4)))
				case 2:
					x = x.Elem()
				}
				if !x.IsValid() || fmt.Sprint(x) != fmt.Sprint(v.Convert(to)) || out.Elem().Field(2).String() != "after" {
					c.Violation("%s, where it fits, arrives as %s", what, vs(out.Elem().Interface()))
				}
				c.Count("fits", 1)
			}
		}
		c.StopIfFailed(5)
	})
}

// packDigits is the compressed form of n 7-bit digits.
func packDigits(x *big.Int, n int) []byte {
	out := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		d := new(big.Int).And(x, big.NewInt(0x7f))
		out[i] = byte(d.Int64())
		if i != n-1 {
			out[i] |= 0x80
		}
		x = new(big.Int).Rsh(x, 7)
	}
	return out
}

func digits(enc []byte) *big.Int {
	v := new(big.Int)
	for _, b := range enc {
		v.Or(v.Lsh(v, 7), big.NewInt(int64(b&0x7f)))
	}
	return v
}

func c30wide(c *Ctx) {
	dsts := libDsts()
	c.Cases("wide", c.N(2500, 40000), func(i int, r *rand.Rand) {
		var p reflect.Value
		if i%3 == 0 {
			p = reflect.New(pick(r, dsts).t)
			fillExported(r, p.Elem(), 2)
		} else {
			s := genStruct(r, 1+r.IntN(4), false)
			p = reflect.New(s.typ(0, ""))
			fill(r, p.Elem(), 1+r.IntN(2))
		}
		t := p.Type().Elem()
		n := 0
		RefEncode(p.Interface(), RefOpts{NumLie: func(enc []byte, bits int) []byte { n++; return enc }})
		for k := 0; k < 8 && n > 0; k++ {
			at, j, how := r.IntN(n), 0, ""
			data := RefEncode(p.Interface(), RefOpts{NumLie: func(enc []byte, bits int) []byte {
				j++
				if j-1 != at {
					return enc
				}
				// the same low bits and, as a number of 35 or 70 bits, something above them that is not just the sign
				nd := (bits + 6) / 7
				v := digits(enc)
				if enc[0]&0x40 != 0 {
					v.Add(v, new(big.Int).Lsh(big.NewInt(-1), uint(7*len(enc)))) // negative
				}
				up := uint(7*nd - bits)
				if up < 2 {
					return enc // nothing fits above
				}
				// positive for a positive number (and the reverse), so that it is too big and not of another sign
				hi := int64(1 + r.IntN(1<<(up-1)-1))
				if v.Sign() < 0 {
					hi = -hi
				}
				v.Add(v, new(big.Int).Lsh(big.NewInt(hi), uint(bits)))
				if v.BitLen() > 7*nd-1 {
					return enc
				}
				out := packDigits(v, nd)
				how = fmt.Sprintf("number %d (%x, %d bits) replaced by %x", at, enc, bits, out)
				return out
			}})
			if how == "" {
				continue
			}
			c.Saw(fmt.Sprintf("%v|%x", t, data))
			refused(c, data, t, how)
		}
		c.StopIfFailed(4)
	})
}

func c30marker(c *Ctx) {
	dsts := libDsts()
	c.Cases("marker", c.N(2500, 40000), func(i int, r *rand.Rand) {
		var p reflect.Value
		if i%3 == 0 {
			p = reflect.New(pick(r, dsts).t)
			fillExported(r, p.Elem(), 2)
		} else {
			s := genStruct(r, 1+r.IntN(4), false)
			p = reflect.New(s.typ(0, ""))
			fill(r, p.Elem(), r.IntN(3))
		}
		t := p.Type().Elem()
		isMark := func(b byte) bool { return b == tBegin || b == tEnd || b == tObjEnd }
		n := 0
		RefEncode(p.Interface(), RefOpts{MetaLie: func(b byte) byte {
			if isMark(b) {
				n++
			}
			return b
		}})
		for k := 0; k < 6 && n > 0; k++ {
			at, nb := r.IntN(n), byte(r.Uint32())
			if r.IntN(2) == 0 {
				nb = pick(r, []byte{tBegin, tEnd, tObjEnd, tObject, 0x40, 0x80, 0xff})
			}
			j, was := 0, byte(0)
			data := RefEncode(p.Interface(), RefOpts{MetaLie: func(b byte) byte {
				if isMark(b) {
					j++
					if j-1 == at {
						was = b
						return nb
					}
				}
				return b
			}})
			if was == nb {
				continue
			}
			c.Saw(fmt.Sprintf("%v|%x", t, data))
			refused(c, data, t, fmt.Sprintf("marker %d (%02x) replaced by %02x", at, was, nb))
		}
		c.StopIfFailed(4)
	})
}

// interchangeable reports whether readers may take one type byte for the other: integers of one signedness.
func interchangeable(a, b byte) bool {
	class := func(x byte) int {
		switch x {
		case tUShort, tUInt32, tUInt64:
			return 1
		case tShort, tInt32, tInt64:
			return 2
		}
		return 0
	}
	return class(a) != 0 && class(a) == class(b)
}

func c30typebyte(c *Ctx) {
	dsts := libDsts()
	c.Cases("typebyte", c.N(2500, 40000), func(i int, r *rand.Rand) {
		var p reflect.Value
		if i%3 == 0 {
			p = reflect.New(pick(r, dsts).t)
			fillExported(r, p.Elem(), 2)
		} else {
			s := genStruct(r, 1+r.IntN(4), false)
			p = reflect.New(s.typ(0, ""))
			fill(r, p.Elem(), 1+r.IntN(2))
		}
		t := p.Type().Elem()
		typed := func(b byte) bool { return b != tBegin && b != tEnd && b != tObjEnd && b&tEmpty != tEmpty }
		n := 0
		RefEncode(p.Interface(), RefOpts{MetaLie: func(b byte) byte {
			if typed(b) {
				n++
			}
			return b
		}})
		for k := 0; k < 8 && n > 0; k++ {
			at, nb := r.IntN(n), byte(r.Uint32())
			if r.IntN(2) == 0 {
				nb = pick(r, []byte{tObject, tPointer, tBool, tChar, tUChar, tShort, tUShort, tInt32, tUInt32, tInt64, tUInt64, tDouble, tGuid, tWString}) | pick(r, []byte{0, 0, tArray})
			}
			j, was := 0, byte(0)
			data := RefEncode(p.Interface(), RefOpts{MetaLie: func(b byte) byte {
				if typed(b) {
					j++
					if j-1 == at {
						was = b
						return nb
					}
				}
				return b
			}})
			// no byte without a content of its own: the end of the fields, and what stands for an empty value
			if was == nb || nb == tEnd || nb&tEmpty == tEmpty || interchangeable(was, nb) {
				continue
			}
			c.Saw(fmt.Sprintf("%v|%x", t, data))
			refused(c, data, t, fmt.Sprintf("type byte %d (%02x) replaced by %02x", at, was, nb))
		}
		c.StopIfFailed(4)
	})
}

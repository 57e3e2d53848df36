package harness

import (
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"math/rand/v2"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf16"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
)

func init() {
	register("C18", "hex", "node ids to 32 hexadecimal digits and back; texts that are not a number of at most 128 bits rejected", c18hex)
	register("C18", "wire", "node ids through their 16-byte wire form", c18wire)
	register("C18", "names", "MD5 and V4 ids of generated names against an independent computation and known cluster ids", c18names)
	register("C18", "spread", "V4 ids of one role are distinct over instance numbers", c18spread)
	register("C18", "together", "ids of names and texts worked out on many goroutines at once", c18together)
	register("C19", "arc", "Contains against big-integer arc membership on boundary-rich and random ranges", c19arc)
	register("C19", "wire", "ranges survive their wire form, embedded among other fields", c19wire)
	register("C26", "convert", "duration and time span conversions against big-integer arithmetic", c26)
	register("C29", "text", "GUID text forms, every single-character corruption, malformed texts", c29text)
	register("C29", "fresh", "new GUIDs: version, variant, bit variation and uniqueness under concurrency", c29fresh)
}

// ---------------------------------------------------------------------------------------------------------
// C18

func bigID(n federation.NodeID) *big.Int {
	x := new(big.Int).SetUint64(n.Hi)
	x.Lsh(x, 64)
	return x.Or(x, new(big.Int).SetUint64(n.Lo))
}

func c18hex(c *Ctx) {
	c.Cases("roundtrip", c.N(20000, 400000), func(i int, r *rand.Rand) {
		id := genNodeID(r)
		s := id.String()
		if want := fmt.Sprintf("%032x", bigID(id)); s != want {
			c.Violation("String() of %v is %q, want %q", bigID(id), s, want)
			s = want
		}
		for _, t := range []string{s, strings.ToUpper(s), strings.TrimLeft(s[:31], "0") + s[31:], "0" + s} {
			got, err := federation.NodeIDFromHex(t)
			if err != nil || got != id {
				c.Violation("NodeIDFromHex(%q) = %v, %v; want %v", t, got, err, s)
			}
		}
		c.Saw(s)
		c.StopIfFailed(5)
	})
	bad := []string{"", "-1", "-0f", "g", "0x1", " 1", "1 ", "1\n", strings.Repeat("f", 33), "1" + strings.Repeat("0", 32), "-" + strings.Repeat("f", 32), "1-2", "zz", "\x00", "é",
		"١", strings.Repeat("f", 64), "100000000000000000000000000000001", "--1", "1.0", "1e", "+g"}
	for i := range bad {
		if bad[i] == "1e" {
			bad[i] = "1h"
		}
	}
	c.Cases("bad", len(bad), func(i int, r *rand.Rand) {
		var got federation.NodeID
		var err error
		if m := catch(func() { got, err = federation.NodeIDFromHex(bad[i]) }); m != "" || err == nil {
			c.Violation("NodeIDFromHex(%q) accepted as %v %s", bad[i], got, m)
		}
		c.Saw("bad" + bad[i])
	})
	plain := regexp.MustCompile(`^[0-9a-fA-F]+$`)
	c.Cases("text", c.N(20000, 300000), func(i int, r *rand.Rand) {
		// generated text: mostly hex digits with intruders
		n := 1 + r.IntN(40)
		b := make([]byte, n)
		for k := range b {
			b[k] = "0123456789abcdefABCDEF"[r.IntN(22)]
		}
		if r.IntN(2) == 0 {
			b[r.IntN(n)] = " -gGxX.:/@`\x00\x7f\xff"[r.IntN(14)]
		}
		s := string(b)
		var got federation.NodeID
		var err error
		if m := catch(func() { got, err = federation.NodeIDFromHex(s) }); m != "" {
			c.Violation("NodeIDFromHex(%q): %s", s, m)
			return
		}
		if plain.MatchString(s) {
			v, _ := new(big.Int).SetString(s, 16)
			if v.BitLen() > 128 {
				if err == nil {
					c.Violation("NodeIDFromHex(%q) accepts more than 128 bits as %v", s, got)
				}
			} else if err != nil || bigID(got).Cmp(v) != 0 {
				c.Violation("NodeIDFromHex(%q) = %v, %v", s, got, err)
			}
		} else if v, ok := new(big.Int).SetString(s, 16); ok && v.Sign() == 0 {
			// -0 is a number too: not decided
		} else if err == nil {
			c.Violation("NodeIDFromHex(%q) accepted as %v", s, got)
		}
		c.Saw(s)
		c.StopIfFailed(5)
	})
}

func c18wire(c *Ctx) {
	type w struct {
		A federation.NodeID
		L []federation.NodeID
		P *federation.NodeID
		M map[federation.NodeID]federation.NodeID
		Z int32
	}
	c.Cases("wire", c.N(4000, 80000), func(i int, r *rand.Rand) {
		id := genNodeID(r)
		b, err := serialization.Marshal(&id)
		want := append([]byte{0x84, 0x10}, binary.LittleEndian.AppendUint64(binary.LittleEndian.AppendUint64(nil, id.Hi), id.Lo)...)
		if err != nil || string(b) != string(want) {
			c.Violation("wire form of %v is %x (%v), want %x", id, b, err, want)
		}
		x := w{A: id, L: []federation.NodeID{genNodeID(r), {}}, Z: 5, M: map[federation.NodeID]federation.NodeID{id: genNodeID(r)}}
		if r.IntN(2) == 0 {
			p := genNodeID(r)
			x.P = &p
		}
		roundTrip(c, reflect.ValueOf(&x), "node ids")
		c.Saw(id.String())
		c.StopIfFailed(5)
	})
}

// Independent V4 generator: Pearson hash of UTF-16LE "UTzJ"+name+"X3if", one pass per output byte with the first
// byte offset by its index; the low half is that hash's second half, the high half keeps 40 bits of the first half
// and takes 24 bits from the instance number spread by a multiplier that is odd (a bijection modulo 2^24).
func refPearson(name string) [16]byte {
	var in []byte
	for _, u := range utf16.Encode([]rune("UTzJ" + name + "X3if")) {
		in = append(in, byte(u), byte(u>>8))
	}
	var out [16]byte
	for j := range out {
		h := refPearsonTable[byte(int(in[0])+j)]
		for _, b := range in[1:] {
			h = refPearsonTable[h^b]
		}
		out[j] = h
	}
	return out
}

func refV4(name string) federation.NodeID {
	h := refPearson(name)
	hi, lo := binary.LittleEndian.Uint64(h[:8]), binary.LittleEndian.Uint64(h[8:])
	cut := -1
	for i := 0; i < len(name); i++ {
		if name[i] == '.' || name[i] == '_' {
			cut = i
		}
	}
	if cut < 0 {
		return federation.NodeID{Hi: hi, Lo: lo}
	}
	inst, ok := new(big.Int), len(name) > cut+1
	for _, ch := range name[cut+1:] {
		if ch < '0' || ch > '9' {
			ok = false
			break
		}
		inst.Mul(inst, big.NewInt(10))
		inst.Add(inst, big.NewInt(int64(ch-'0')))
	}
	if !ok || inst.BitLen() > 64 {
		return federation.NodeID{Hi: hi, Lo: lo}
	}
	rh := refPearson(name[:cut])
	off := binary.LittleEndian.Uint64(rh[8:]) % (1 << 24)
	x := (off + inst.Uint64()) % (1 << 24)
	y := (x * 14938617) % (1 << 24)
	return federation.NodeID{Hi: hi%(1<<40) | y<<40, Lo: lo}
}

func genName(r *rand.Rand) string {
	role := []string{"FE", "BE", "_Node", "Node", "node.type", "a_b", "", "x", "n√de", "😀", "_", ".", "..", "MMM", "UTzJ", "X3if"}[r.IntN(16)]
	if r.IntN(4) == 0 {
		b := make([]rune, r.IntN(12))
		for i := range b {
			b[i] = pick(r, append(runePool[:len(runePool):len(runePool)], '.', '_', '0', 'q'))
		}
		role = string(b)
	}
	switch r.IntN(9) {
	case 0:
		return role
	case 1:
		return role + pick(r, []string{".", "_"})
	case 2:
		return role + "_" + pick(r, []string{"x", "-1", "+1", " 1", "1 ", "0x10", "1_0", "1.5", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "00", "007", "1e3", "٣"})
	case 3:
		return role + "." + fmt.Sprint(genUint(r, 64))
	}
	return role + pick(r, []string{".", "_"}) + fmt.Sprint(r.IntN(1<<pick(r, []int{1, 4, 8, 16, 24, 26})))
}

func c18names(c *Ctx) {
	known := map[string]string{"FE29236_2": "a524682b4ceb893541e862483db07d22", "_Node_0": "bf865279ba277deb864a976fbf4c200e"}
	c.Begin(0, "known ids")
	for n, w := range known {
		if got := federation.NodeIDFromV4Generator(n).String(); got != w {
			c.Violation("NodeIDFromV4Generator(%q) = %s, Service Fabric uses %s", n, got, w)
		}
		if refV4(n).String() != w {
			panic("reference generator is wrong")
		}
		c.Saw("known" + n)
	}
	if got := federation.NodeIDFromMD5("NodeName").String(); got != "0dc87bf4b3176cc286c5d707132f62a9" {
		c.Violation("NodeIDFromMD5(NodeName) = %s", got)
	}
	c.End()
	c.Cases("name", c.N(15000, 300000), func(i int, r *rand.Rand) {
		n := genName(r)
		var v4, m federation.NodeID
		if p := catch(func() { v4, m = federation.NodeIDFromV4Generator(n), federation.NodeIDFromMD5(n) }); p != "" {
			c.Violation("id of name %q: %s", n, p)
			c.StopIfFailed(3)
			return
		}
		if w := refV4(n); v4 != w {
			c.Violation("NodeIDFromV4Generator(%q) = %v, want %v", n, v4, w)
		}
		if h := refMD5(n); m.String() != h {
			c.Violation("NodeIDFromMD5(%q) = %v, want %v", n, m, h)
		}
		c.Saw(n)
		if i < 4 {
			c.Sample("%q -> v4 %v md5 %v", n, v4, m)
		}
		c.StopIfFailed(5)
	})
}

func refMD5(n string) string {
	h := md5.Sum([]byte(n))
	for a, b := 0, 7; a < b; a, b = a+1, b-1 {
		h[a], h[b] = h[b], h[a]
		h[8+a], h[8+b] = h[8+b], h[8+a]
	}
	return hex.EncodeToString(h[:])
}

// c18together: an id depends on its name alone, whatever ids are worked out at the same time, and does not change later.
func c18together(c *Ctx) {
	const workers = 8
	c.Cases("together", c.N(20, 300), func(i int, r *rand.Rand) {
		type job struct {
			name, text string
			v4, md, hx federation.NodeID
			err        error
		}
		jobs := make([][]job, workers)
		shared := genName(r)
		for w := range jobs {
			jobs[w] = make([]job, 400)
			for k := range jobs[w] {
				jobs[w][k].name = genName(r)
				if k%8 == 0 {
					jobs[w][k].name = shared
				}
				jobs[w][k].text = genNodeID(r).String()
			}
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if m := catch(func() {
					for k := range jobs[w] {
						j := &jobs[w][k]
						j.v4, j.md = federation.NodeIDFromV4Generator(j.name), federation.NodeIDFromMD5(j.name)
						j.hx, j.err = federation.NodeIDFromHex(j.text)
					}
				}); m != "" {
					c.Violation("ids worked out concurrently: %s", m)
				}
			}()
		}
		close(start)
		wg.Wait()
		for w := range jobs {
			for _, j := range jobs[w] {
				if c.Failed() {
					break
				}
				if want := refV4(j.name); j.v4 != want {
					c.Violation("NodeIDFromV4Generator(%q) = %v while others are worked out, want %v", j.name, j.v4, want)
				}
				if j.md.String() != refMD5(j.name) {
					c.Violation("NodeIDFromMD5(%q) = %v while others are worked out, want %v", j.name, j.md, refMD5(j.name))
				}
				if j.err != nil || j.hx.String() != j.text {
					c.Violation("NodeIDFromHex(%q) = %v, %v while others are worked out", j.text, j.hx, j.err)
				}
				c.Saw(j.name + j.text)
			}
		}
		c.StopIfFailed(3)
	})
}

func c18spread(c *Ctx) {
	c.Cases("role", c.N(4, 20), func(i int, r *rand.Rand) {
		role := genName(r)
		n := c.N(20000, 1<<18)
		seen := make(map[federation.NodeID]int, n)
		step := 1
		if r.IntN(2) == 0 {
			step = (1<<24 - 1) / n
		}
		for k := 0; k < n; k++ {
			inst := k * step
			id := federation.NodeIDFromV4Generator(fmt.Sprintf("%s_%d", role, inst))
			if o, dup := seen[id]; dup {
				c.Violation("role %q: instances %d and %d share id %v", role, o, inst, id)
				return
			}
			seen[id] = inst
			// the 24 spread bits alone must differ as well: that is what makes the ids distinct for every name
			c.Count("ids", 1)
		}
		tops := map[uint64]bool{}
		for id := range seen {
			tops[id.Hi>>40] = true
		}
		if len(tops) != n {
			c.Violation("role %q: %d instances have only %d distinct spread values", role, n, len(tops))
		}
		c.Saw(role)
	})
}

// the published Service Fabric permutation table (the known ids checked in C18:names pin it independently)
var refPearsonTable = func() (out [256]byte) {
	b, err := hex.DecodeString("0157310CB0B266A679C10654F9E62CA30EC5D5B5A155DA5040EF18E2EC8E26C8" +
		"6EB168678DFDFF324D6551122D601FDE196BBE4656EDF02248F214D6F4E395EB" +
		"61EA39163CFA52AFD0057FC76F3E87F8AEA9D33A429A6AC3F5AB11BBB6B300F3" +
		"8438944B80859E64827E5B0D99F6D8DB7744DF4E5358C9637A0B5C208872340A" +
		"8A1E30B79C233D1A8F4AFB5E81A23F98AA0773A7F1CE0396373B97DC5A351783" +
		"7DAD0FEE4F5F59106989E1E0D9A0257B7649029D2E74099186E4CFD4CAD745E5" +
		"1BBC437CA8FC2A041D6C15F713CD27CBE928BA93C6C09B21A4BF62CCA5B4754C" +
		"8C24D2AC29369F08B9E871C4E72F927833411C90FEDD5DBDC28B702B476DB8D1")
	if err != nil || copy(out[:], b) != 256 {
		panic("pearson table")
	}
	return out
}()

// ---------------------------------------------------------------------------------------------------------
// C19

func near(r *rand.Rand, n federation.NodeID) federation.NodeID {
	d := uint64(r.IntN(3))
	if r.IntN(2) == 0 {
		lo, carry := bits.Add64(n.Lo, d, 0)
		hi, _ := bits.Add64(n.Hi, 0, carry)
		return federation.NodeID{Hi: hi, Lo: lo}
	}
	lo, borrow := bits.Sub64(n.Lo, d, 0)
	hi, _ := bits.Sub64(n.Hi, 0, borrow)
	return federation.NodeID{Hi: hi, Lo: lo}
}

func ringID(r *rand.Rand) federation.NodeID {
	switch r.IntN(6) {
	case 0:
		return near(r, federation.NodeID{})
	case 1:
		return near(r, federation.NodeID{Hi: math.MaxUint64, Lo: math.MaxUint64})
	case 2:
		return near(r, federation.NodeID{Hi: uint64(r.IntN(3)), Lo: 0})
	case 3:
		return near(r, federation.NodeID{Hi: 1 << 63})
	}
	return genNodeID(r)
}

func onArc(b, e, x federation.NodeID) bool {
	mod := new(big.Int).Lsh(big.NewInt(1), 128)
	d := func(p, q federation.NodeID) *big.Int {
		v := new(big.Int).Sub(bigID(q), bigID(p))
		return v.Mod(v, mod)
	}
	return d(b, x).Cmp(d(b, e)) <= 0
}

func c19arc(c *Ctx) {
	c.Cases("arc", c.N(60000, 2000000), func(i int, r *rand.Rand) {
		b := ringID(r)
		e := ringID(r)
		if r.IntN(4) == 0 {
			e = near(r, b)
		}
		var x federation.NodeID
		switch r.IntN(6) {
		case 0:
			x = near(r, b)
		case 1:
			x = near(r, e)
		case 2:
			x = federation.NodeID{Hi: b.Hi, Lo: genUint(r, 64)}
		case 3:
			x = federation.NodeID{Hi: genUint(r, 64), Lo: e.Lo}
		default:
			x = ringID(r)
		}
		rg := federation.NodeIdRange{Begin: b, End: e}
		want := onArc(b, e, x)
		var got bool
		if m := catch(func() { got = rg.Contains(x) }); m != "" {
			c.Violation("Contains: %s", m)
		} else if got != want {
			c.Violation("range [%v, %v] contains %v: got %v, want %v", b, e, x, got, want)
		}
		if rg.Begin != b || rg.End != e {
			c.Violation("Contains changed the range")
		}
		if bigID(b).Cmp(bigID(e)) > 0 {
			c.Count("wrapping", 1)
		}
		if want {
			c.Count("inside", 1)
		}
		c.Saw(b.String() + e.String() + x.String())
		c.StopIfFailed(5)
		if i < 3 {
			c.Sample("[%v, %v] contains %v: %v", b, e, x, want)
		}
	})
}

func c19wire(c *Ctx) {
	type w struct {
		A int8
		R federation.NodeIdRange
		L []federation.NodeIdRange
		P *federation.NodeIdRange
		T federation.RoutingToken
		Z string
	}
	c.Cases("wire", c.N(4000, 60000), func(i int, r *rand.Rand) {
		x := w{A: 1, R: federation.NodeIdRange{Begin: ringID(r), End: ringID(r)}, Z: "end", T: federation.RoutingToken{Range: federation.NodeIdRange{Begin: ringID(r), End: ringID(r)}, Version: genUint(r, 64)}}
		for n := r.IntN(4); n > 0; n-- {
			x.L = append(x.L, federation.NodeIdRange{Begin: ringID(r), End: ringID(r)})
		}
		if r.IntN(2) == 0 {
			x.P = &federation.NodeIdRange{Begin: ringID(r), End: ringID(r)}
		}
		roundTrip(c, reflect.ValueOf(&x), "ranges")
		c03compare(c, reflect.ValueOf(&x), "ranges")
		c.Saw(vs(x))
		c.StopIfFailed(5)
	})
}

// ---------------------------------------------------------------------------------------------------------
// C26

func c26(c *Ctx) {
	check := func(v int64) {
		d := time.Duration(v)
		// duration -> span
		ts := common.TimeSpanFromDuration(d)
		want := new(big.Int).Quo(big.NewInt(v), big.NewInt(100))
		if want.Cmp(big.NewInt(int64(ts))) != 0 {
			c.Violation("TimeSpanFromDuration(%d) = %d, want %v", v, ts, want)
		}
		back := ts.ToDuration()
		if wb := want.Mul(want, big.NewInt(100)); wb.Cmp(big.NewInt(int64(back))) != 0 {
			c.Violation("duration %d comes back as %d, want %v", v, back, wb)
		}
		// span -> duration, saturating
		got := common.TimeSpan(v).ToDuration()
		w := new(big.Int).Mul(big.NewInt(v), big.NewInt(100))
		if w.Cmp(big.NewInt(math.MaxInt64)) > 0 {
			w.SetInt64(math.MaxInt64)
			c.Count("saturated", 1)
		}
		if w.Cmp(big.NewInt(math.MinInt64)) < 0 {
			w.SetInt64(math.MinInt64)
			c.Count("saturated", 1)
		}
		if w.Cmp(big.NewInt(int64(got))) != 0 {
			c.Violation("TimeSpan(%d).ToDuration() = %d, want %v", v, int64(got), w)
		}
		c.Saw(fmt.Sprint(v))
	}
	c.Begin(0, "boundaries")
	for _, b := range []int64{0, 100, -100, math.MaxInt64, math.MinInt64, math.MaxInt64 / 100, math.MinInt64 / 100, int64(common.TimeSpanMax),
		int64(time.Hour), -int64(time.Hour), math.MaxInt64/100 + 1, math.MinInt64/100 - 1, math.MaxInt64/100*100 + 7} {
		for k := int64(-250); k <= 250; k++ {
			check(b + k) // wraps around at the ends, which is as good a sample as any
		}
	}
	for b := 0; b < 64; b++ {
		for k := int64(-2); k <= 2; k++ {
			check(int64(uint64(1)<<b) + k)
			check(-(int64(uint64(1)<<b) + k))
		}
	}
	c.End()
	if int64(common.TimeSpanMax) != math.MaxInt64 {
		c.Violation("TimeSpanMax is %d", common.TimeSpanMax)
	}
	c.Cases("random", c.N(50000, 2000000), func(i int, r *rand.Rand) {
		check(genInt(r, 64))
		c.StopIfFailed(5)
	})
	c.Sample("TimeSpanMax.ToDuration() = %v", common.TimeSpanMax.ToDuration())
}

// ---------------------------------------------------------------------------------------------------------
// C29

func refGUIDText(g serialization.GUID) string {
	var b [16]byte
	binary.BigEndian.PutUint32(b[:], g.Data1)
	binary.BigEndian.PutUint16(b[4:], g.Data2)
	binary.BigEndian.PutUint16(b[6:], g.Data3)
	copy(b[8:], g.Data4[:])
	h := hex.EncodeToString(b[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func genGUID(r *rand.Rand) serialization.GUID {
	var g serialization.GUID
	fillSpecial(r, reflect.ValueOf(&g).Elem())
	return g
}

func c29text(c *Ctx) {
	form := regexp.MustCompile(`^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$`)
	parse := func(s string) (g serialization.GUID, err error, bad bool) {
		if m := catch(func() { g, err = serialization.GUIDFromString(s) }); m != "" {
			c.Violation("GUIDFromString(%q): %s", s, m)
			return g, err, true
		}
		return
	}
	c.Cases("guid", c.N(20000, 500000), func(i int, r *rand.Rand) {
		g := genGUID(r)
		s := g.String()
		if s != refGUIDText(g) {
			c.Violation("GUID %#v prints as %q, want %q", g, s, refGUIDText(g))
		}
		for _, t := range []string{s, strings.ToUpper(s)} {
			if got, err, bad := parse(t); !bad && (err != nil || got != g) {
				c.Violation("GUIDFromString(%q) = %v, %v", t, got, err)
			}
		}
		if g.IsEmpty() != (g == serialization.GUID{}) {
			c.Violation("IsEmpty of %v is %v", g, g.IsEmpty())
		}
		c.Saw(s)
		c.StopIfFailed(5)
	})
	c.Cases("corrupt", c.N(60, 1200), func(i int, r *rand.Rand) {
		s := genGUID(r).String()
		for p := 0; p < len(s); p++ {
			for _, ch := range []string{"-", "g", "+", " ", "_", "x", "X", "\x00", "é", ".", "{", "0", "f", "F", "٣"} {
				t := s[:p] + ch + s[p+1:]
				if len(ch) > 1 && p+len(ch) <= len(s) && r.IntN(2) == 0 {
					t = s[:p] + ch + s[p+len(ch):]
				}
				got, err, bad := parse(t)
				if bad {
					continue
				}
				if form.MatchString(t) {
					if err != nil || got.String() != strings.ToLower(t) {
						c.Violation("GUIDFromString(%q) = %v, %v", t, got, err)
					}
				} else if err == nil {
					c.Violation("GUIDFromString(%q) accepted as %v", t, got)
				}
				c.Saw(t)
			}
		}
		for _, t := range []string{"", s[1:], s + "0", "{" + s + "}", strings.ReplaceAll(s, "-", ""), s[:35], " " + s, s + " ", strings.Replace(s, "-", "0", 1), "urn:uuid:" + s} {
			if got, err, bad := parse(t); !bad && err == nil {
				c.Violation("GUIDFromString(%q) accepted as %v", t, got)
			}
			c.Saw(t)
		}
		c.StopIfFailed(5)
	})
}

func c29fresh(c *Ctx) {
	c.Begin(0, "generate")
	n, workers := c.N(30000, 400000), 8
	all := make([][]serialization.GUID, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := make([]serialization.GUID, 0, n)
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					g, err := serialization.NewGuidV4()
					if err != nil {
						c.Violation("NewGuidV4: %v", err)
						return
					}
					l = append(l, g)
				} else {
					l = append(l, serialization.MustNewGuidV4())
				}
			}
			all[w] = l
		}()
	}
	wg.Wait()
	seen := make(map[serialization.GUID]bool, n*workers)
	var ones [128]int
	total := 0
	for _, l := range all {
		for _, g := range l {
			total++
			if g.IsEmpty() || g == (serialization.GUID{}) {
				c.Violation("empty GUID generated")
			}
			if g.Data3>>12 != 4 {
				c.Violation("GUID %v is not version 4", g)
			}
			if g.Data4[0]>>6 != 2 {
				c.Violation("GUID %v has not the RFC 4122 variant", g)
			}
			if seen[g] {
				c.Violation("GUID %v generated twice", g)
			}
			seen[g] = true
			x := strings.ReplaceAll(refGUIDText(g), "-", "")
			b, _ := hex.DecodeString(x)
			for k := 0; k < 128; k++ {
				ones[k] += int(b[k/8]>>(7-k%8)) & 1
			}
			if c.Failed() {
				break
			}
		}
	}
	c.mu.Lock()
	c.evals += int64(total)
	c.mu.Unlock()
	// no free bit is a function (a sum) of others: the new ids span all 122 free bits and the constant ones
	for w, l := range all {
		var basis [128][2]uint64
		rank := 0
		for _, g := range l[:min(len(l), 3000)] {
			b, _ := hex.DecodeString(strings.ReplaceAll(refGUIDText(g), "-", ""))
			v := [2]uint64{binary.BigEndian.Uint64(b), binary.BigEndian.Uint64(b[8:])}
			for k := 0; k < 128; k++ {
				if v[k/64]>>(63-k%64)&1 == 0 {
					continue
				}
				if basis[k] == [2]uint64{} {
					basis[k] = v
					rank++
					break
				}
				v[0] ^= basis[k][0]
				v[1] ^= basis[k][1]
			}
		}
		if rank != 123 && len(l) >= 3000 {
			c.Violation("3000 new GUIDs (goroutine %d) vary in %d independent bits, not 122", w, rank-1)
		}
	}
	for k := 0; k < 128; k++ {
		if k >= 48 && k < 52 || k == 64 || k == 65 {
			continue // version and variant
		}
		// a fair bit is within 12 standard deviations, except once in 10^32 runs
		dev := math.Abs(float64(ones[k])-float64(total)/2) / math.Sqrt(float64(total)/4)
		if dev > 12 {
			c.Violation("bit %d of new GUIDs is set in %d of %d", k, ones[k], total)
		}
	}
	c.Count("guids", int64(total))
	c.mu.Lock()
	for g := range seen {
		h := binary.LittleEndian.Uint64([]byte(g.String())[:8]) ^ uint64(g.Data1)<<32
		c.distinct[h] = struct{}{}
	}
	c.mu.Unlock()
	for g := range seen {
		c.Sample("%v", g)
		break
	}
	c.End()
}

package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// The reference decoder: a second, independent reading of the MQTT packet formats. It is written
// over plain byte slices and shares no code with the implementation.

type rd struct {
	b   []byte
	p   int
	bad bool
}

func (r *rd) left() int { return len(r.b) - r.p }

func (r *rd) u8() byte {
	if r.bad || r.left() < 1 {
		r.bad = true
		return 0
	}
	x := r.b[r.p]
	r.p++
	return x
}

func (r *rd) u16() uint16 {
	if r.bad || r.left() < 2 {
		r.bad = true
		return 0
	}
	x := uint16(r.b[r.p])<<8 | uint16(r.b[r.p+1])
	r.p += 2
	return x
}

func (r *rd) u32() uint32 {
	hi := r.u16()
	lo := r.u16()
	return uint32(hi)<<16 | uint32(lo)
}

func (r *rd) lp() []byte {
	n := int(r.u16())
	if r.bad || r.left() < n {
		r.bad = true
		return nil
	}
	x := r.b[r.p : r.p+n]
	r.p += n
	return x
}

// vi reads a variable byte integer: at most four bytes.
func (r *rd) vi() (uint32, int) {
	var x uint32
	for i := uint(0); i < 4; i++ {
		c := r.u8()
		if r.bad {
			return 0, 0
		}
		x |= uint32(c&0x7f) << (7 * i)
		if c < 0x80 {
			return x, int(i) + 1
		}
	}
	r.bad = true
	return 0, 0
}

// viMin reads one in its only legal, shortest form.
func (r *rd) viMin() uint32 {
	x, n := r.vi()
	if !r.bad && n > 1 && x>>(7*uint(n-1)) == 0 {
		r.bad = true
	}
	return x
}

// goodUTF8 is the well-formedness test of RFC 3629, over bytes, without branching.
func goodUTF8(b []byte) bool { return utf8Scan(b, false) }

// cleanUTF8 also forbids U+0000..U+001F and U+007F..U+009F.
func cleanUTF8(b []byte) bool { return utf8Scan(b, true) }

func between(x, lo, hi byte) bool { return sym.And(x >= lo, x <= hi) }

func utf8Scan(b []byte, clean bool) bool {
	n := len(b)
	ok := make([]bool, n+1) // ok[i]: b[i:] is well formed
	ok[n] = true
	cont := func(i int) bool { return between(b[i], 0x80, 0xBF) }
	for i := n - 1; i >= 0; i-- {
		c := b[i]
		one := c < 0x80
		if clean {
			one = sym.And(c >= 0x20, c < 0x7F)
		}
		res := sym.And(one, ok[i+1])
		if i+1 < n {
			t := sym.And(between(c, 0xC2, 0xDF), cont(i+1))
			if clean {
				t = sym.And(t, sym.Not(sym.And(c == 0xC2, b[i+1] < 0xA0)))
			}
			res = sym.Or(res, sym.And(t, ok[i+2]))
		}
		if i+2 < n {
			t := sym.And(cont(i+2), sym.Or(
				sym.And(c == 0xE0, between(b[i+1], 0xA0, 0xBF)),
				sym.And(sym.Or(between(c, 0xE1, 0xEC), between(c, 0xEE, 0xEF)), cont(i+1)),
				sym.And(c == 0xED, between(b[i+1], 0x80, 0x9F))))
			res = sym.Or(res, sym.And(t, ok[i+3]))
		}
		if i+3 < n {
			t := sym.And(cont(i+2), cont(i+3), sym.Or(
				sym.And(c == 0xF0, between(b[i+1], 0x90, 0xBF)),
				sym.And(between(c, 0xF1, 0xF3), cont(i+1)),
				sym.And(c == 0xF4, between(b[i+1], 0x80, 0x8F))))
			res = sym.Or(res, sym.And(t, ok[i+4]))
		}
		ok[i] = res
	}
	return ok[0]
}

// hasNone reports that neither x nor y occurs.
func hasNone(b []byte, x, y byte) bool {
	r := true
	for _, c := range b {
		r = sym.And(r, c != x, c != y)
	}
	return r
}

func refTopicName(b []byte) bool { return sym.And(cleanUTF8(b), hasNone(b, '+', '#')) }

func refClientID(b []byte) bool {
	r := true
	for _, c := range b {
		r = sym.And(r, sym.Or(between(c, '0', '9'), between(c, 'a', 'z'), between(c, 'A', 'Z'),
			c == ' ', c == '-', c == '_', c == ',', c == '.', c == '|', c == '/'))
	}
	return r
}

// refFilter is the topic filter grammar: '#' only as the whole last level, '+' only as a whole level.
func refFilter(b []byte) bool {
	n := len(b)
	r := true
	for i, c := range b {
		start := i == 0
		if i > 0 {
			start = b[i-1] == '/'
		}
		end := i == n-1
		if i < n-1 {
			end = b[i+1] == '/'
		}
		r = sym.And(r,
			sym.Implies(c == '#', sym.And(start, i == n-1)),
			sym.Implies(c == '+', sym.And(start, end)))
	}
	return r
}

type refTopic struct {
	ok                  bool
	prefix, share, rest []byte
}

// refSub parses a subscription topic: forks on '$' and on the positions of '/'.
func refSub(b []byte) (t refTopic) {
	if len(b) == 0 || !cleanUTF8(b) {
		return
	}
	t.rest = b
	if b[0] == '$' {
		i := 1
		for i < len(b) && b[i] != '/' {
			i++
		}
		if i == len(b) {
			return // a system topic has levels below its prefix
		}
		t.prefix = b[:i]
		if sym.EqStr(string(t.prefix), "$share") {
			j := i + 1
			for j < len(b) && b[j] != '/' {
				j++
			}
			if j == len(b) || j == i+1 || j+1 == len(b) {
				return
			}
			t.share, t.rest = b[i+1:j], b[j+1:]
			if !hasNone(t.share, '+', '#') {
				return
			}
		}
	}
	t.ok = refFilter(t.rest)
	return
}

const (
	kByte = iota
	kShort
	kInt
	kVar
	kStr
	kPair
	kBin
)

// refProp is the property table of MQTT 5.0 section 2.2.2.2, extended by the rule of this library
// that the will properties are those of a PUBLISH.
func refProp(id byte, t mqttp.Type) (kind int, allowed, dup bool) {
	pub, con, cak, dis := t == mqttp.PUBLISH, t == mqttp.CONNECT, t == mqttp.CONNACK, t == mqttp.DISCONNECT
	auth, sub := t == mqttp.AUTH, t == mqttp.SUBSCRIBE
	switch id {
	case 0x01:
		return kByte, pub, false
	case 0x02, 0x18:
		return kInt, pub, false
	case 0x03, 0x08:
		return kStr, pub, false
	case 0x09:
		return kBin, pub, false
	case 0x0B:
		return kVar, pub || sub, pub
	case 0x11:
		return kInt, con || cak || dis, false
	case 0x12, 0x1A:
		return kStr, cak, false
	case 0x13:
		return kShort, cak, false
	case 0x15:
		return kStr, con || cak || auth, false
	case 0x16:
		return kBin, con || cak || auth, false
	case 0x17, 0x19:
		return kByte, con, false
	case 0x1C:
		return kStr, cak || dis, false
	case 0x1F:
		return kStr, !pub && !con && !sub && t != mqttp.UNSUBSCRIBE, false
	case 0x21, 0x22:
		return kShort, con || cak, false
	case 0x23:
		return kShort, pub, false
	case 0x24, 0x25, 0x28, 0x29, 0x2A:
		return kByte, cak, false
	case 0x26:
		return kPair, true, true
	case 0x27:
		return kInt, con || cak, false
	}
	return 0, false, false
}

type rprop struct {
	id   byte
	kind int
	num  uint32
	s, t []byte
}

// props reads a property block.
func (r *rd) props(t mqttp.Type) []rprop {
	n := r.viMin()
	if r.bad || uint32(r.left()) < n {
		r.bad = true
		return nil
	}
	end := r.p + int(n)
	var out []rprop
	for !r.bad && r.p < end {
		id := r.viMin()
		if r.bad || id > 0x2A {
			r.bad = true
			return nil
		}
		kind, allowed, dup := refProp(byte(id), t)
		if !allowed {
			r.bad = true
			return nil
		}
		p := rprop{id: byte(sym.Concrete(int(id))), kind: kind}
		if !dup {
			for _, q := range out {
				if q.id == p.id {
					r.bad = true
					return nil
				}
			}
		}
		switch kind {
		case kByte:
			p.num = uint32(r.u8())
		case kShort:
			p.num = uint32(r.u16())
		case kInt:
			p.num = r.u32()
		case kVar:
			p.num = r.viMin()
		case kStr:
			p.s = r.lp()
			if r.bad || !goodUTF8(p.s) {
				r.bad = true
				return nil
			}
		case kPair:
			p.s = r.lp()
			p.t = r.lp()
			if r.bad || !goodUTF8(p.s) || !goodUTF8(p.t) {
				r.bad = true
				return nil
			}
		case kBin:
			p.s = r.lp()
		}
		out = append(out, p)
	}
	if r.bad || r.p != end {
		r.bad = true
		return nil
	}
	return out
}

func hasProp(ps []rprop, id byte) bool {
	for _, p := range ps {
		if p.id == id {
			return true
		}
	}
	return false
}

// sameProps asserts that a message carries exactly the properties ps.
func sameProps(m mqttp.IFace, ps []rprop) {
	ids := 0
	for i, p := range ps {
		seen := false
		for _, q := range ps[:i] {
			seen = seen || q.id == p.id
		}
		if seen {
			continue
		}
		ids++
		g := m.PropertyGet(mqttp.PropertyID(p.id))
		sym.Assert(g != nil, "a property of the packet is not reported")
		checkProp(g, p, ps)
	}
	n := 0
	err := m.PropertyForEach(func(id mqttp.PropertyID, _ mqttp.PropertyToType) { n++ })
	sym.Assert(err == nil && n == ids, "the set of properties differs")
}

func checkProp(g mqttp.PropertyToType, p rprop, ps []rprop) {
	sym.Assert(int(g.Type()) == p.kind, "property type differs")
	switch p.kind {
	case kByte:
		x, err := g.AsByte()
		sym.Assert(err == nil && x == byte(p.num), "property value differs (byte)")
	case kShort:
		x, err := g.AsShort()
		sym.Assert(err == nil && x == uint16(p.num), "property value differs (two byte integer)")
	case kInt:
		x, err := g.AsInt()
		sym.Assert(err == nil && x == p.num, "property value differs (four byte integer)")
	case kVar:
		k := 0
		for _, q := range ps {
			if q.id == p.id {
				k++
			}
		}
		if k == 1 {
			x, err := g.AsInt()
			sym.Assert(err == nil && x == p.num, "property value differs (variable byte integer)")
		}
	case kStr:
		x, err := g.AsString()
		sym.Assert(err == nil && sym.EqStr(x, string(p.s)), "property value differs (string)")
	case kBin:
		x, err := g.AsBinary()
		sym.Assert(err == nil && sym.EqBytes(x, p.s), "property value differs (binary)")
	case kPair:
		xs, err := g.AsStringPairs()
		sym.Assert(err == nil, "user properties are not reported as pairs")
		k := 0
		for _, q := range ps {
			if q.id != p.id {
				continue
			}
			sym.Assert(k < len(xs) && sym.And(sym.EqStr(xs[k].K, string(q.s)), sym.EqStr(xs[k].V, string(q.t))),
				"user property differs")
			k++
		}
		sym.Assert(k == len(xs), "number of user properties differs")
	}
}

// refReason is the reason code table per packet type (MQTT 5.0 section 2.4, plus the MQTT 3 return
// codes of CONNACK).
func refReason(t mqttp.Type, c byte) bool {
	oneOf := func(cs ...byte) bool {
		r := false
		for _, x := range cs {
			r = sym.Or(r, c == x)
		}
		return r
	}
	switch t {
	case mqttp.CONNACK:
		return oneOf(0, 1, 2, 3, 4, 5, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C,
			0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F)
	case mqttp.PUBACK:
		return oneOf(0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99)
	case mqttp.PUBREC:
		return oneOf(0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99)
	case mqttp.PUBREL, mqttp.PUBCOMP:
		return oneOf(0, 0x92)
	case mqttp.SUBACK:
		return oneOf(0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2)
	case mqttp.UNSUBACK:
		return oneOf(0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91)
	case mqttp.DISCONNECT:
		return oneOf(0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95,
			0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2)
	case mqttp.AUTH:
		return oneOf(0, 0x18, 0x19)
	}
	return false
}

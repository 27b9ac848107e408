package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// Property blocks of several well-formed entries: repeated, mixed and in any order.

// around is what stands before and after the (first) property block of a packet of type t.
func around(t mqttp.Type) (pre, post []byte) {
	switch t {
	case mqttp.CONNECT:
		return connectHead(1, 2), lp(nil)
	case mqttp.CONNACK:
		return []byte{0, 0}, nil
	case mqttp.PUBLISH:
		return lp([]byte("t")), nil
	case mqttp.PUBACK, mqttp.PUBREC, mqttp.PUBREL, mqttp.PUBCOMP:
		return []byte{0, 1, 0}, nil
	case mqttp.SUBSCRIBE:
		return []byte{0, 1}, append(lp([]byte("t")), 0)
	case mqttp.UNSUBSCRIBE:
		return []byte{0, 1}, lp([]byte("t"))
	case mqttp.SUBACK, mqttp.UNSUBACK:
		return []byte{0, 1}, []byte{0}
	}
	return []byte{0}, nil
}

// singles are the properties a packet of type t may carry once.
func singles(t mqttp.Type) (out []byte) {
	for id := byte(1); id <= 0x2A; id++ {
		if _, ok, dup := refProp(id, t); ok && !dup {
			out = append(out, id)
		}
	}
	return
}

// entry is one well-formed property with an arbitrary value.
func entry(id byte, t mqttp.Type) []byte {
	kind, _, _ := refProp(id, t)
	switch kind {
	case kByte:
		return []byte{id, sym.U8("value")}
	case kShort:
		return []byte{id, sym.U8("value"), sym.U8("value")}
	case kInt:
		return []byte{id, sym.U8("value"), sym.U8("value"), sym.U8("value"), sym.U8("value")}
	case kVar:
		x := sym.U32("value")
		switch sym.Choose("width", 3) {
		case 0:
			sym.Assume(x < 1<<7)
			return []byte{id, byte(x)}
		case 1:
			sym.Assume(sym.And(x >= 1<<7, x < 1<<14))
			return []byte{id, byte(x) | 0x80, byte(x >> 7)}
		}
		sym.Assume(sym.And(x >= 1<<21, x < 1<<28))
		return []byte{id, byte(x) | 0x80, byte(x>>7) | 0x80, byte(x>>14) | 0x80, byte(x >> 21)}
	case kPair:
		k, v := letters("key"), letters("value")
		return cat([]byte{id}, lp(k), lp(v))
	}
	return cat([]byte{id}, lp(letters("value")))
}

// letters is a string of up to one arbitrary byte of ASCII.
func letters(name string) []byte {
	if sym.Choose(name+" length", 2) == 0 {
		return nil
	}
	c := sym.U8(name)
	sym.Assume(c < 0x80)
	return []byte{c}
}

// anyEntries is a block of repeatable properties with at most two others between them, which may be
// the same one.
func anyEntries(t mqttp.Type, min, max int) (ps []byte) {
	kinds := []byte{0x26}
	if t == mqttp.PUBLISH {
		kinds = []byte{0x26, 0x0B}
	}
	one := singles(t)
	n := min + sym.Choose("entries", max-min+1)
	left := 2
	if n > 3 {
		left = 1
	}
	if len(one) == 0 {
		left = 0
	}
	for i := 0; i < n; i++ {
		k := len(kinds)
		if left > 0 {
			k++
		}
		c := sym.Choose("kind", k)
		if c == len(kinds) {
			ps = cat(ps, entry(one[sym.Choose("single", len(one))], t))
			left--
			continue
		}
		if id := kinds[c]; id == 0x26 && i > 2 {
			ps = append(ps, 0x26, 0, 1, sym.U8("key")&0x7f, 0, 0)
		} else {
			ps = cat(ps, entry(id, t))
		}
	}
	return
}

// blockCase: the block decodes to exactly its entries.
func blockCase(t mqttp.Type) {
	pre, post := around(t)
	ps := anyEntries(t, 0, sym.Bound("properties in a block", 4, 5))
	body := cat(pre, []byte{byte(len(ps))}, ps, post)
	r := &rd{b: body, p: len(pre)}
	want := r.props(t)
	if m, ok := accept(v50, t, packet(first(t), body), !r.bad && wellPlaced(t, want)); ok {
		sameProps(m, want)
	}
}

// wellPlaced: a will delay has no place in a PUBLISH.
func wellPlaced(t mqttp.Type, ps []rprop) bool {
	return t != mqttp.PUBLISH || !hasProp(ps, 0x18)
}

func A01_block() { blockCase(mqttp.CONNECT) }

// A01_willBlock: the properties of a will.
func A01_willBlock() {
	ps := anyEntries(mqttp.PUBLISH, 0, sym.Bound("properties in a will block", 3, 4))
	pre := cat(connectHead(1, 6), []byte{0}, lp([]byte("c")))
	body := cat(pre, []byte{byte(len(ps))}, ps, lp([]byte("t")), lp([]byte("p")))
	r := &rd{b: body, p: len(pre)}
	want := r.props(mqttp.PUBLISH)
	ok := !r.bad && !hasProp(want, 0x0B) && !hasProp(want, 0x23)
	if m, k := accept(v50, mqttp.CONNECT, packet(0x10, body), ok); k {
		w := m.(*mqttp.Connect).Will()
		sym.Assert(w != nil && w.Topic() == "t" && string(w.Payload()) == "p", "the will differs")
		sameProps(w, want)
	}
}

func A02_block() { blockCase(mqttp.CONNACK) }
func A03_block() { blockCase(mqttp.PUBLISH) }
func A04_block() { blockCase(ackTypes[sym.Choose("type", 4)]) }
func A05_block() { blockCase(mqttp.SUBSCRIBE) }
func A06_block() { blockCase(mqttp.SUBACK) }
func A07_block() { blockCase(mqttp.UNSUBSCRIBE) }
func A08_block() { blockCase(mqttp.UNSUBACK) }
func A09_block() { blockCase(mqttp.DISCONNECT) }
func A10_block() { blockCase(mqttp.AUTH) }

// D04_block: several properties survive re-encoding.
func D04_block() {
	t := anyPropType()
	pre, post := around(t)
	ps := anyEntries(t, 1, sym.Bound("properties in a block", 3, 4))
	propsSurvive(t, packet(first(t), cat(pre, []byte{byte(len(ps))}, ps, post)), 2+len(pre))
}

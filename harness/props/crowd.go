package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// numbered is the packet number i of a type; no two of a row are equal.
func numbered(v mqttp.ProtocolVersion, t mqttp.Type, i int) []byte {
	b := []byte{'a' + byte(i%26), 'a' + byte(i/26%26), 'a' + byte(i/676%26)}
	id := []byte{byte((i + 1) >> 8), byte(i + 1)}
	var pr []byte
	if v == v50 {
		pr = cat([]byte{12, 0x26}, lp(b), lp(cat(b, b)[:4]))
		pr[0] = byte(len(pr) - 1)
	}
	switch t {
	case mqttp.CONNECT:
		name := "MQTT"
		if v == v31 {
			name = "MQIsdp"
		}
		w := []byte(nil)
		if v == v50 {
			w = []byte{0}
		}
		return packet(first(t), cat(lp([]byte(name)), []byte{byte(v), 0xC6}, id, pr, lp(b), w, lp(b), lp(b[:2]), lp(b), lp(b)))
	case mqttp.CONNACK:
		return packet(first(t), cat([]byte{byte(i & 1), 0}, pr))
	case mqttp.PUBLISH:
		return packet(0x32, cat(lp(b), id, pr, b))
	case mqttp.SUBSCRIBE:
		return packet(first(t), cat(id, pr, lp(b), []byte{byte(i % 3)}, lp(b[1:]), []byte{1}))
	case mqttp.UNSUBSCRIBE:
		return packet(first(t), cat(id, pr, lp(b), lp(b[1:])))
	case mqttp.SUBACK:
		return packet(first(t), cat(id, pr, []byte{byte(i % 3), 0x80, byte(i / 3 % 3)}))
	case mqttp.UNSUBACK:
		if v != v50 {
			return packet(first(t), id)
		}
		return packet(first(t), cat(id, pr, []byte{0, 0x11, 0x80}))
	case mqttp.DISCONNECT:
		if v != v50 {
			return packet(first(t), nil)
		}
		return packet(first(t), cat([]byte{0x80}, pr))
	case mqttp.AUTH:
		pr = cat([]byte{6, 0x15}, lp(b))
		return packet(first(t), cat([]byte{0x18}, pr))
	case mqttp.PINGREQ, mqttp.PINGRESP:
		return packet(first(t), nil)
	}
	if v != v50 {
		return packet(first(t), id)
	}
	code := byte(0x10)
	if t == mqttp.PUBREL || t == mqttp.PUBCOMP {
		code = 0x92
	}
	return packet(first(t), cat(id, []byte{code}, pr))
}

// D06_crowd: a message does not change while many others come and go, and neither do those.
func D06_crowd() {
	v := anyVersion()
	ts := append(lifeTypes(v), mqttp.PUBLISH, mqttp.CONNECT)
	t := ts[sym.Choose("type", len(ts))]
	o := t
	if t != mqttp.PUBLISH && sym.Choose("others", 2) == 1 {
		o = mqttp.PUBLISH
	}
	l := newLife(v, t)
	m := l.build()
	was := mustEncode(m)
	g := mustDecode(v, clone(was))
	n := sym.Bound("others", 130, 600)
	var crowd []mqttp.IFace
	var bufs, outs [][]byte
	for i := 0; i < n; i++ {
		b := numbered(v, o, i)
		h := mustDecode(v, b)
		crowd, bufs, outs = append(crowd, h), append(bufs, b), append(outs, mustEncode(h))
	}
	sym.Assert(sym.EqBytes(mustEncode(m), was), "a message changes in a crowd")
	sameMsg(m, g)
	for i := range crowd {
		want := numbered(v, o, i)
		sym.Assert(sym.EqBytes(bufs[i], want), "input is written")
		sym.Assert(sym.EqBytes(mustEncode(crowd[i]), want), "a message in a crowd changes")
		sameMsg(mustDecode(v, outs[i]), crowd[i])
	}
	sym.Reach("apart")
}

// D06_topics: nor do topics.
func D06_topics() {
	a := sym.Bytes("filter", 2, 2)
	for _, c := range a {
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
	}
	form := sym.Choose("form", 3)
	make1 := func(b []byte) *mqttp.Topic {
		switch form {
		case 1:
			b = cat([]byte("$share/g/"), b)
		case 2:
			b = cat(b, []byte("/+/#"))
		}
		x, err := mqttp.NewSubscribeTopic(b, 1)
		sym.Assert(err == nil, "a valid topic filter is refused")
		return x
	}
	check := func(x *mqttp.Topic, b []byte) {
		want := string(b)
		if form == 2 {
			want += "/+/#"
		}
		sym.Assert(x.Filter() == want && x.Ops() == 1, "a filter changes in a crowd")
		if form == 1 {
			sym.Assert(x.ShareName() == "g" && x.Full() == "$share/g/"+want, "a shared filter changes in a crowd")
		} else {
			sym.Assert(x.ShareName() == "" && x.Full() == want, "a filter changes in a crowd")
		}
	}
	x := make1(a)
	n := sym.Bound("others", 100, 1000)
	var crowd []*mqttp.Topic
	name := func(i int) []byte { return []byte{'a' + byte(i%26), 'a' + byte(i/26%26), 'a' + byte(i/676)} }
	for i := 0; i < n; i++ {
		crowd = append(crowd, make1(name(i)))
	}
	check(x, a)
	for i, y := range crowd {
		check(y, name(i))
	}
	sym.Reach("apart")
}

// D04_lists: properties that occur many times survive re-encoding in their order.
func D04_lists() {
	n := []int{1, 2, 3, 9, 20, 40, 130, 260}[sym.Choose("properties", 8)]
	pub := sym.Choose("subscription identifiers", 2) == 1
	t := mqttp.PUBLISH
	if !pub {
		t = anyPropType()
	}
	at := sym.Choose("place", 3) * (n - 1) / 2
	x := sym.U32("property")
	sym.Assume(sym.And(x >= 1, x <= 268435455))
	k, v := utfBytes("key", 1, 1), utfBytes("value", 1, 1)
	var pr []byte
	for i := 0; i < n; i++ {
		switch {
		case pub && i == at:
			pr = append(append(pr, 0x0B), varint(x)...)
		case pub:
			pr = append(append(pr, 0x0B), varint(uint32(i)*i3(i)+1)...)
		case i == at:
			pr = cat(pr, []byte{0x26}, lp(k), lp(v))
		default:
			pr = cat(pr, []byte{0x26}, lp([]byte{'a' + byte(i%26)}), lp([]byte{'a' + byte(i/26)}))
		}
	}
	buf := propPacket(t, pr)
	m := mustDecode(v50, buf)
	out := mustEncode(m)
	sym.Assert(sym.EqBytes(out, buf), "a packet with many properties is re-encoded differently")
	sym.Reach("re-encoded")
}

// propPacket is a 5.0 packet around a property block.
func propPacket(t mqttp.Type, pr []byte) []byte {
	pr = cat(varint(uint32(len(pr))), pr)
	id := []byte{1, 2}
	switch t {
	case mqttp.CONNECT:
		return packet(first(t), cat(lp([]byte("MQTT")), []byte{5, 2, 0, 60}, pr, lp([]byte("c"))))
	case mqttp.CONNACK:
		return packet(first(t), cat([]byte{1, 0}, pr))
	case mqttp.PUBLISH:
		return packet(0x32, cat(lp([]byte("a")), id, pr, []byte("load")))
	case mqttp.SUBSCRIBE:
		return packet(first(t), cat(id, pr, lp([]byte("a")), []byte{1}))
	case mqttp.UNSUBSCRIBE:
		return packet(first(t), cat(id, pr, lp([]byte("a"))))
	case mqttp.SUBACK, mqttp.UNSUBACK:
		return packet(first(t), cat(id, pr, []byte{0, 0x80}))
	case mqttp.PUBREL, mqttp.PUBCOMP:
		return packet(first(t), cat(id, []byte{0x92}, pr))
	case mqttp.DISCONNECT:
		return packet(first(t), cat([]byte{0x80}, pr))
	case mqttp.AUTH:
		return packet(first(t), cat([]byte{0x18}, pr))
	}
	return packet(first(t), cat(id, []byte{0x10}, pr))
}

func i3(i int) uint32 { return []uint32{1, 127, 16384}[i%3] }

// E01_often: a message is encoded the same however often it is encoded.
func E01_often() {
	v := anyVersion()
	ts := append(lifeTypes(v), mqttp.PUBLISH, mqttp.CONNECT)
	l := newLife(v, ts[sym.Choose("type", len(ts))])
	m := l.build()
	want := mustEncode(m)
	n := sym.Bound("encodings", 300, 1100)
	for i := 0; i < n; i++ {
		sym.Assert(sym.EqBytes(mustEncode(m), want), "a message changes by being encoded often")
		if i%2 == 0 {
			k, err := m.Encode(make([]byte, len(want)-1))
			sym.Assert(err != nil && k == len(want), "a short buffer is not refused")
		}
	}
	sym.Reach("encoded")
}

// P02_often: a property that is set or discarded very often has its last value.
func P02_often() {
	t := anyPropType()
	m := newMsg(v50, t)
	ready(m)
	n := sym.Bound("calls", 300, 1100)
	away := sym.Choose("discarded", 2) == 1
	for i := 0; i < n; i++ {
		sym.Assert(m.PropertySet(0x26, mqttp.StringPair{K: string(rune('a' + i%26)), V: "v"}) == nil, "a legal property is refused")
		if away {
			m.PropertiesDiscard()
		}
	}
	p := rprop{id: 0x26, kind: kPair, s: utfBytes("key", 1, 1), t: utfBytes("value", 1, 1)}
	sym.Assert(m.PropertySet(0x26, mqttp.StringPair{K: string(p.s), V: string(p.t)}) == nil, "a legal property is refused")
	checkModel(m, []rprop{p})
}

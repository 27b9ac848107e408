package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// E01_exact: Encode fills exactly the announced size of a buffer that holds arbitrary bytes.
func E01_exact() {
	m := anyMessage(anyVersion(), small)
	n, err := m.Size()
	sym.Assert(err == nil, "the size of a valid packet is refused")
	want := mustEncode(m)
	sym.Assert(len(want) == n, "the announced size changes")
	extra := sym.Choose("extra", 3)
	arena := make([]byte, n+extra+2)
	dirt := sym.U8("dirt")
	for i := range arena {
		arena[i] = dirt
	}
	k, err := m.Encode(arena[:n+extra])
	sym.Assert(err == nil && k == n, "Encode does not write the announced number of bytes")
	sym.Assert(sym.EqBytes(arena[:n], want), "the encoding depends on the old content of the buffer")
	for _, b := range arena[n:] {
		sym.Assert(b == dirt, "Encode writes behind the packet")
	}
	sym.Reach("encoded")
}

// short encodes into a buffer of k < size bytes.
func short(m mqttp.IFace, k func(n int) int) {
	n, err := m.Size()
	sym.Assert(err == nil, "the size of a valid packet is refused")
	var before []byte
	if sym.Choose("encoded before", 2) == 1 {
		before = mustEncode(m)
	}
	dirt := sym.U8("dirt")
	// the slice is too short; the array behind it may be large enough
	arena := make([]byte, n+4)
	for i := range arena {
		arena[i] = dirt
	}
	buf := arena[:k(n)]
	if sym.Choose("roomy", 2) == 0 {
		buf = arena[:len(buf):len(buf)]
	}
	var got int
	if sym.Catch(func() { got, err = m.Encode(buf) }) {
		sym.Fail("Encode panics")
	}
	sym.Assert(err == mqttp.ErrInsufficientBufferSize, "a buffer that is too short is accepted")
	sym.Assert(got == n, "the needed size is not reported")
	k1, err := m.Size()
	sym.Assert(err == nil && k1 == n, "the announced size changes")
	for _, b := range arena {
		sym.Assert(b == dirt, "Encode writes into a buffer that is too short")
	}
	if before != nil {
		sym.Assert(sym.EqBytes(mustEncode(m), before), "a refused encoding changes the message")
	}
	sym.Reach("refused")
}

// E01_short: a buffer that is too short is refused and left alone.
func E01_short() {
	short(anyMessage(anyVersion(), bare), func(n int) int { return sym.Choose("short", n) })
}

// E01_shortByOne: the same with properties and a buffer that is one byte too short.
func E01_shortByOne() {
	short(anyMessage(anyVersion(), small), func(n int) int { return n - 1 })
}

// viLen is the length of the variable byte integer x, without branching.
func viLen(x int) int {
	n := sym.IteInt(x > 127, 2, 1)
	n = sym.IteInt(x > 16383, 3, n)
	return sym.IteInt(x > 2097151, 4, n)
}

const maxRemLen = 268435455

// E02_publish: PUBLISH of every payload length around the limit.
func E02_publish() {
	v := anyVersion()
	load := sym.Big("payload", 0, 300000000)
	m := mqttp.NewPublish(v)
	q := mqttp.QosType(sym.Choose("qos", 2))
	sym.Assert(m.Set("t", load, q, false, false) == nil, "a valid message is refused")
	rem := 3 + len(load)
	if q > 0 {
		m.SetPacketID(7)
		rem += 2
	} else if sym.Choose("id without use", 2) == 1 {
		m.SetPacketID(7)
	}
	if v == v50 {
		rem++
	}
	n, err := m.Size()
	if rem > maxRemLen {
		sym.Assert(err == mqttp.ErrInvalidLength, "a packet above the size limit is not refused")
		_, err = encode(m)
		sym.Assert(err != nil, "a packet above the size limit is encoded")
		sym.Reach("too long")
		return
	}
	sym.Assert(err == nil && n == 1+viLen(rem)+rem, "the announced size is wrong")
	buf := mustEncode(m)
	sym.Assert(len(buf) == n, "the encoded length differs from the announced size")
	r := &rd{b: buf}
	r.u8()
	x := r.viMin()
	sym.Assert(!r.bad && int(x) == rem, "the remaining length is wrong")
	sym.SameContent(buf[n-len(load):], load, "the payload is changed")
	sym.Reach("encoded")
}

// E02_fields: CONNECT fields and properties of every length up to 65535.
func E02_fields() {
	v := anyVersion()
	m, rem := longConnect(v, sym.Choose("field", 5), sym.Fill("field", 'a', 0, 65535))
	connectRound(v, m, rem)
}

// E02_props: a property block of every length up to two strings of 65535 bytes.
func E02_props() {
	m := mqttp.NewPublish(v50)
	sym.Assert(m.SetTopic("t") == nil, "a valid topic is refused")
	k, w := sym.Fill("key", 'k', 0, 65535), sym.Fill("value", 'v', 0, 65535)
	pl := 5 + len(k) + len(w)
	pair := mqttp.StringPair{K: string(k), V: string(w)}
	sym.Assert(m.PropertySet(mqttp.PropertyUserProperty, []mqttp.StringPair{pair}) == nil, "a legal property is refused")
	rem := 3 + viLen(pl) + pl
	n, err := m.Size()
	sym.Assert(err == nil && n == 1+viLen(rem)+rem, "the announced size is wrong")
	buf := mustEncode(m)
	g := mustDecode(v50, buf)
	ps := pairsOf(g.PropertyGet(mqttp.PropertyUserProperty))
	sym.Assert(len(ps) == 1, "the number of user properties changes")
	sym.SameContent([]byte(ps[0].K), k, "the key changes")
	sym.SameContent([]byte(ps[0].V), w, "the value changes")
	sym.Reach("encoded")
}

// E02_values: string and binary properties of every length up to 65535.
func E02_values() {
	m := mqttp.NewPublish(v50)
	sym.Assert(m.SetTopic("t") == nil, "a valid topic is refused")
	f := sym.Fill("value", 'v', 0, 65535)
	bin := sym.Choose("binary", 2) == 1
	id := mqttp.PropertyContentType
	var val interface{} = string(f)
	if bin {
		id, val = mqttp.PropertyCorrelationData, f
	}
	sym.Assert(m.PropertySet(id, val) == nil, "a legal property is refused")
	pl := 3 + len(f)
	rem := 3 + viLen(pl) + pl
	n, err := m.Size()
	sym.Assert(err == nil && n == 1+viLen(rem)+rem, "the announced size is wrong")
	g := mustDecode(v50, mustEncode(m)).PropertyGet(id)
	sym.Assert(g != nil, "the property is lost")
	if bin {
		x, e := g.AsBinary()
		sym.Assert(e == nil, "the property changes its type")
		sym.SameContent(x, f, "the value changes")
		return
	}
	x, e := g.AsString()
	sym.Assert(e == nil, "the property changes its type")
	sym.SameContent([]byte(x), f, "the value changes")
}

// E02_topics: topic names and filters of every length up to 65535.
func E02_topics() {
	v := anyV3()
	f := sym.Fill("topic", 't', 1, 65535)
	var m mqttp.IFace
	rem := 2 + len(f)
	switch sym.Choose("type", 3) {
	case 0:
		p := mqttp.NewPublish(v)
		sym.Assert(p.SetTopic(string(f)) == nil, "a valid topic is refused")
		p.SetPayload([]byte{1})
		m = p
		rem++
	case 1:
		s := mqttp.NewSubscribe(v)
		t, err := mqttp.NewSubscribeTopic(f, 1)
		sym.Assert(err == nil, "a valid subscription is refused")
		_ = s.AddTopic(t)
		s.SetPacketID(1)
		m = s
		rem += 3
	default:
		s := mqttp.NewUnSubscribe(v)
		t, err := mqttp.NewTopic(f)
		sym.Assert(err == nil, "a valid topic filter is refused")
		_ = s.AddTopic(t)
		s.SetPacketID(1)
		m = s
		rem += 2
	}
	n, err := m.Size()
	sym.Assert(err == nil && n == 1+viLen(rem)+rem, "the announced size is wrong")
	g := mustDecode(v, mustEncode(m))
	if p, ok := g.(*mqttp.Publish); ok {
		sym.SameContent([]byte(p.Topic()), f, "the topic changes")
		return
	}
	ts := topicsOf(g)
	sym.Assert(len(ts) == 1, "the number of topics changes")
	sym.SameContent([]byte(ts[0].Full()), f, "the topic changes")
}

// refused asserts that m is not encoded.
func refused(m mqttp.IFace, label string) {
	_, err := encode(m)
	sym.Assert(err != nil, label)
	sym.Reach("refused")
}

// E03_publish: illegal combinations of PUBLISH flags and fields are refused, legal ones are not.
func E03_publish() {
	v := anyVersion()
	m := mqttp.NewPublish(v)
	legal := true
	q, dup := mqttp.QosType(sym.U8("qos")), sym.Bool("dup")
	err := m.SetQoS(q)
	sym.Assert((err == nil) == (q <= 2), "SetQoS accepts an invalid QoS or refuses a valid one")
	sym.Assume(q <= 2)
	m.SetDup(dup)
	if sym.Choose("id", 2) == 1 {
		m.SetPacketID(mqttp.IDType(sym.U16("id")))
	} else {
		legal = q == 0
	}
	legal = sym.And(legal, sym.Or(q != 0, sym.Not(dup)))
	alias := sym.Choose("alias", 2) == 1
	a := uint16(0)
	if alias && v == v50 {
		a = sym.U16("alias")
		sym.Assert(m.PropertySet(mqttp.PropertyTopicAlias, a) == nil, "a legal property is refused")
	}
	if sym.Choose("topic", 2) == 1 {
		sym.Assert(m.SetTopic("t") == nil, "a valid topic is refused")
		sym.Assume(!alias || a != 0)
	} else {
		legal = sym.And(legal, a != 0)
	}
	_, err = encode(m)
	sym.Assert((err == nil) == legal, "an illegal PUBLISH is encoded or a legal one refused")
}

// E03_id: packets that need a packet identifier or topics are refused without.
func E03_id() {
	v := anyVersion()
	t := mqttp.Type(sym.Choose("type", 16))
	id, topics := sym.Choose("id", 2) == 1, sym.Choose("topics", 2) == 1
	var m mqttp.IFace
	x := mqttp.IDType(sym.U16("id"))
	needTopics := false
	switch t {
	case mqttp.PUBACK, mqttp.PUBREC, mqttp.PUBREL, mqttp.PUBCOMP:
		p := newAck(v, t)
		if id {
			p.SetPacketID(x)
		}
		m = p
	case mqttp.SUBSCRIBE:
		p := mqttp.NewSubscribe(v)
		if id {
			p.SetPacketID(x)
		}
		if topics {
			tt, _ := mqttp.NewSubscribeTopic([]byte("a"), 0)
			_ = p.AddTopic(tt)
		}
		m, needTopics = p, true
	case mqttp.UNSUBSCRIBE:
		p := mqttp.NewUnSubscribe(v)
		if id {
			p.SetPacketID(x)
		}
		if topics {
			tt, _ := mqttp.NewTopic([]byte("a"))
			_ = p.AddTopic(tt)
		}
		m, needTopics = p, true
	case mqttp.SUBACK:
		p := mqttp.NewSubAck(v)
		if id {
			p.SetPacketID(x)
		}
		m = p
	case mqttp.UNSUBACK:
		p := mqttp.NewUnSubAck(v)
		if id {
			p.SetPacketID(x)
		}
		m = p
	default:
		return
	}
	if id && (topics || !needTopics) {
		buf := mustEncode(m)
		g, _ := m.ID()
		sym.Assert(g == x, "the packet identifier is not the one set")
		sym.Assert(buf[2] == byte(x>>8) && buf[3] == byte(x), "the packet identifier is not the one set")
		return
	}
	refused(m, "a packet without identifier or topics is encoded")
}

// E03_long: a field of more than 65535 bytes is refused, never cut or wrapped around.
func E03_long() {
	v := v50
	f := sym.Fill("field", 'a', 65536, 200000)
	var m mqttp.IFace
	switch sym.Choose("field", 10) {
	case 0:
		p := mqttp.NewPublish(v)
		sym.Assume(p.SetTopic(string(f)) == nil)
		m = p
	case 1:
		p := mqttp.NewConnect(v)
		sym.Assume(p.SetClientID(f) == nil)
		m = p
	case 2:
		p := mqttp.NewConnect(v)
		sym.Assume(p.SetCredentials(f, nil) == nil)
		m = p
	case 3:
		p := mqttp.NewConnect(v)
		sym.Assume(p.SetCredentials([]byte("u"), f) == nil)
		m = p
	case 4, 5:
		p := mqttp.NewConnect(v)
		w := mqttp.NewPublish(v)
		topic, load := []byte("w"), f
		if sym.Choose("will", 2) == 1 {
			topic, load = f, []byte("w")
		}
		sym.Assume(w.Set(string(topic), load, 0, false, false) == nil)
		sym.Assume(p.SetWill(w) == nil)
		m = p
	case 6:
		p := mqttp.NewSubscribe(v)
		t, err := mqttp.NewSubscribeTopic(f, 0)
		sym.Assume(err == nil)
		_ = p.AddTopic(t)
		p.SetPacketID(1)
		m = p
	case 7:
		p := mqttp.NewUnSubscribe(v)
		t, err := mqttp.NewTopic(f)
		sym.Assume(err == nil)
		_ = p.AddTopic(t)
		p.SetPacketID(1)
		m = p
	case 8:
		p := mqttp.NewPublish(v)
		_ = p.SetTopic("t")
		var val interface{} = string(f)
		id := mqttp.PropertyContentType
		if sym.Choose("binary", 2) == 1 {
			id, val = mqttp.PropertyCorrelationData, f
		}
		sym.Assume(p.PropertySet(id, val) == nil)
		m = p
	default:
		p := mqttp.NewPublish(v)
		_ = p.SetTopic("t")
		pair := mqttp.StringPair{K: "k", V: string(f)}
		if sym.Choose("key", 2) == 1 {
			pair = mqttp.StringPair{K: string(f), V: "v"}
		}
		sym.Assume(p.PropertySet(mqttp.PropertyUserProperty, pair) == nil)
		m = p
	}
	refused(m, "a field of more than 65535 bytes is encoded")
}

// textProps are the properties of a packet type that are texts or data.
func textProps(t mqttp.Type) (ids []byte) {
	for id := byte(1); id <= 0x2A; id++ {
		if kind, ok, _ := refProp(id, t); ok && (kind == kStr || kind == kBin) {
			ids = append(ids, id)
		}
	}
	return
}

// withText sets a text or data property.
func withText(m mqttp.IFace, id byte, f []byte) error {
	if kind, _, _ := refProp(id, m.Type()); kind == kBin {
		return m.PropertySet(mqttp.PropertyID(id), f)
	}
	return m.PropertySet(mqttp.PropertyID(id), string(f))
}

// E02_beside: every text property of every type, of every length, beside another property.
func E02_beside() {
	t := anyRefill("type", v50)
	ids := textProps(t)
	sym.Assume(len(ids) > 0)
	base := numbered(v50, t, 3)
	m := mustDecode(v50, base)
	pl := 12
	if t == mqttp.AUTH {
		pl = 0
	}
	id := ids[sym.Choose("id", len(ids))]
	f := sym.Fill("value", 'v', 0, 65535)
	if t == mqttp.AUTH && id != 0x15 {
		pl = 6
	}
	sym.Assert(withText(m, id, f) == nil, "a legal property is refused")
	was := 12
	if t == mqttp.AUTH {
		was = 6
	}
	pl += 3 + len(f)
	rem := len(base) - 2 - 1 - was + viLen(pl) + pl
	n, err := m.Size()
	sym.Assert(err == nil && n == 1+viLen(rem)+rem, "the announced size is wrong")
	g := mustDecode(v50, mustEncode(m))
	sameFields(m, g)
	if t != mqttp.AUTH {
		sym.Assert(len(pairsOf(g.PropertyGet(mqttp.PropertyUserProperty))) == 1, "the other property is lost")
	}
	x := g.PropertyGet(mqttp.PropertyID(id))
	sym.Assert(x != nil, "the property is lost")
	if kind, _, _ := refProp(id, t); kind == kBin {
		b, e := x.AsBinary()
		sym.Assert(e == nil, "the property changes its type")
		sym.SameContent(b, f, "the value changes")
	} else {
		b, e := x.AsString()
		sym.Assert(e == nil, "the property changes its type")
		sym.SameContent([]byte(b), f, "the value changes")
	}
	sym.Reach("encoded")
}

// E03_beside: an over-long property is refused whatever is set beside it, in every type of packet.
func E03_beside() {
	t := anyRefill("type", v50)
	m := mustDecode(v50, numbered(v50, t, 3))
	f := sym.Fill("field", 'a', 65536, 200000)
	ids := append(textProps(t), 0x26)
	id := ids[sym.Choose("id", len(ids))]
	if id == 0x26 {
		ps := []mqttp.StringPair{{K: "a", V: "b"}, {K: "c", V: "d"}, {K: "e", V: "f"}}
		i := sym.Choose("place", 3)
		if sym.Choose("key", 2) == 1 {
			ps[i].K = string(f)
		} else {
			ps[i].V = string(f)
		}
		sym.Assume(m.PropertySet(mqttp.PropertyUserProperty, ps) == nil)
	} else {
		sym.Assume(withText(m, id, f) == nil)
	}
	refused(m, "a field of more than 65535 bytes is encoded")
}

// E03_version: CONNECT of an unknown protocol version is refused.
func E03_version() {
	v := sym.U8("version")
	sym.Assume(sym.And(v != 3, v != 4, v != 5))
	m := mqttp.NewConnect(v311)
	m.SetVersion(mqttp.ProtocolVersion(v))
	refused(m, "a CONNECT of an unknown protocol version is encoded")
}

// E04_order: whatever the iteration order, every property is written once, after its exact length.
func E04_order() {
	m := mqttp.NewConnAck(v50)
	n := sym.Bound("properties of one packet", 4, 5)
	var ps []rprop
	for i, id := range []byte{0x26, 0x21, 0x1F, 0x24, 0x16}[:n] {
		var v interface{}
		switch i {
		case 0:
			var l []mqttp.StringPair
			for k := sym.Choose("user", 3); k >= 0; k-- {
				b := []byte{'0' + sym.U8("user")&7}
				l = append(l, mqttp.StringPair{K: string(b), V: "v"})
				ps = append(ps, rprop{id: id, kind: kPair, s: b, t: []byte("v")})
			}
			v = l
		case 1:
			x := sym.U16("prop")
			v = x
			ps = append(ps, rprop{id: id, kind: kShort, num: uint32(x)})
		case 2:
			b := utfBytes("prop", 0, 1)
			v = string(b)
			ps = append(ps, rprop{id: id, kind: kStr, s: b})
		case 3:
			x := sym.U8("prop")
			v = x
			ps = append(ps, rprop{id: id, kind: kByte, num: uint32(x)})
		default:
			b := sym.Bytes("prop", 0, 1)
			v = b
			ps = append(ps, rprop{id: id, kind: kBin, s: b})
		}
		sym.Assert(m.PropertySet(mqttp.PropertyID(id), v) == nil, "a legal property is refused")
	}
	buf := mustEncode(m)
	r := &rd{b: wire(m, 0, buf), p: 2}
	got := r.props(mqttp.CONNACK)
	sym.Assert(!r.bad && r.left() == 0, "the property block of the packet is malformed")
	sameWireProps(ps, got)
	sameMsg(m, mustDecode(v50, buf))
	sym.Reach("encoded")
}

// text is a string of up to n arbitrary ASCII letters.
func text(name string, n int) []byte {
	b := sym.Bytes(name, 0, n)
	for _, c := range b {
		sym.Assume(sym.And(c > 0x20, c < 0x7F))
	}
	return b
}

// plainValue is an arbitrary value of property id; strings are short ASCII ones.
func plainValue(id byte, t mqttp.Type, n int) (interface{}, []rprop) {
	kind, _, _ := refProp(id, t)
	p := rprop{id: id, kind: kind}
	switch kind {
	case kStr:
		p.s = text("value", n)
		return string(p.s), []rprop{p}
	case kBin:
		p.s = sym.Bytes("value", 0, n)
		return p.s, []rprop{p}
	case kPair:
		p.s, p.t = text("key", 1), text("value", n-1)
		return mqttp.StringPair{K: string(p.s), V: string(p.t)}, []rprop{p}
	}
	return anyValue(id, t, 1)
}

// E04_pairs: any two properties of any packet type, in either order.
func E04_pairs() {
	t := anyPropType()
	ids := allowedIDs(t, 0x18)
	if len(ids) < 2 {
		return
	}
	i := sym.Choose("first", len(ids)-1)
	j := i + 1 + sym.Choose("second", len(ids)-1-i)
	m := newMsg(v50, t)
	ready(m)
	var ps []rprop
	for _, k := range []int{i, j} {
		v, p := plainValue(ids[k], t, sym.Bound("bytes of a property", 3, 5))
		sym.Assert(m.PropertySet(mqttp.PropertyID(ids[k]), v) == nil, "a legal property is refused")
		ps = append(ps, p...)
	}
	buf := mustEncode(m)
	sameWireProps(ps, propBlock(m, buf))
	sameMsgProps(m, mustDecode(v50, buf))
	sym.Reach("encoded")
}

// E04_triples: three properties of the packet types with many of them, in any order.
func E04_triples() {
	t := []mqttp.Type{mqttp.PUBLISH, mqttp.CONNECT, mqttp.DISCONNECT, mqttp.AUTH}[sym.Choose("type", 4)]
	ids := allowedIDs(t, 0x18)
	i := sym.Choose("first", len(ids)-2)
	j := i + 1 + sym.Choose("second", len(ids)-2-i)
	k := j + 1 + sym.Choose("third", len(ids)-1-j)
	m := newMsg(v50, t)
	ready(m)
	var ps []rprop
	for _, k := range []int{i, j, k} {
		v, p := fixValue(ids[k], t)
		sym.Assert(m.PropertySet(mqttp.PropertyID(ids[k]), v) == nil, "a legal property is refused")
		ps = append(ps, p...)
	}
	buf := mustEncode(m)
	sameWireProps(ps, propBlock(m, buf))
	sym.Reach("encoded")
}

// slimValue is a value of a property with few shapes: the numbers are any, the texts of a fixed length.
func slimValue(id byte, t mqttp.Type) (interface{}, []rprop) {
	kind, _, _ := refProp(id, t)
	p := rprop{id: id, kind: kind}
	switch kind {
	case kVar:
		p.num = sym.U32("prop") & 0x7F
		return p.num, []rprop{p}
	case kStr:
		p.s = []byte{sym.U8("prop")&31 + 64}
		return string(p.s), []rprop{p}
	case kBin:
		p.s = sym.Bytes("prop", 2, 2)
		return p.s, []rprop{p}
	case kPair:
		p.s, p.t = []byte{sym.U8("prop.k")&31 + 64}, []byte{sym.U8("prop.v")&31 + 64}
		q := rprop{id: id, kind: kind, s: []byte("k"), t: []byte("vv")}
		return []mqttp.StringPair{{K: string(p.s), V: string(p.t)}, {K: "k", V: "vv"}}, []rprop{p, q}
	}
	return anyValue(id, t, 1)
}

// E04_many: packets with many properties: from any property on, four of them, half of them or all of them.
func E04_many() {
	t := []mqttp.Type{mqttp.CONNACK, mqttp.PUBLISH, mqttp.CONNECT, mqttp.DISCONNECT, mqttp.AUTH}[sym.Choose("type", 5)]
	ids := allowedIDs(t, 0x18)
	m := newMsg(v50, t)
	ready(m)
	var ps []rprop
	first := sym.Choose("first", len(ids))
	more := []int{4, (len(ids) + 1) / 2, len(ids)}[sym.Choose("more", 3)]
	if more > len(ids) {
		more = len(ids)
	}
	for i := more; i > 0; i-- {
		id := ids[(first+i)%len(ids)]
		v, p := slimValue(id, t)
		sym.Assert(m.PropertySet(mqttp.PropertyID(id), v) == nil, "a legal property is refused")
		ps = append(ps, p...)
	}
	buf := mustEncode(m)
	sameWireProps(ps, propBlock(m, buf))
	g := mustDecode(v50, buf)
	sameMsgProps(m, g)
	sameWireProps(ps, propBlock(g, mustEncode(g)))
	sym.Reach("encoded")
}

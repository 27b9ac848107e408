package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// Long fields and long lists: the lengths at which a length prefix, the remaining length or the
// property length changes its size.

// skip moves over the fields in front of the first property block of a packet body.
func (r *rd) skip(t mqttp.Type, id bool) {
	switch t {
	case mqttp.CONNECT:
		r.lp()
		r.u32()
	case mqttp.CONNACK:
		r.u16()
	case mqttp.PUBLISH:
		r.lp()
		if id {
			r.u16()
		}
	case mqttp.PUBACK, mqttp.PUBREC, mqttp.PUBREL, mqttp.PUBCOMP:
		r.u16()
		r.u8()
	case mqttp.SUBSCRIBE, mqttp.SUBACK, mqttp.UNSUBSCRIBE, mqttp.UNSUBACK:
		r.u16()
	default:
		r.u8()
	}
}

// longBlock gives m a user property of arbitrary length and checks size, packet and round trip.
func longBlock(t mqttp.Type) {
	m := messageOf(v50, t, bare)
	base, err := m.Size()
	sym.Assert(err == nil, "the size of a valid packet is refused")
	if t == mqttp.CONNECT {
		sym.Assume(m.(*mqttp.Connect).Will() == nil)
	}
	bodyLen := base - 2
	switch t {
	case mqttp.PUBACK, mqttp.PUBREC, mqttp.PUBREL, mqttp.PUBCOMP:
		bodyLen = 3
	case mqttp.DISCONNECT, mqttp.AUTH:
		bodyLen = 1
	default:
		bodyLen-- // the empty property block
	}
	k := sym.Fill("key", 'k', 0, 65535)
	sym.Assert(m.PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: string(k), V: "v"}) == nil, "a legal property is refused")
	pl := 6 + len(k)
	rem := bodyLen + viLen(pl) + pl
	n, err := m.Size()
	sym.Assert(err == nil && n == 1+viLen(rem)+rem, "the announced size is wrong")
	buf := mustEncode(m)
	sym.Assert(len(buf) == n, "the encoded length differs from the announced size")
	r := &rd{b: wire(m, flagsOf(m), buf)}
	p, ok := m.(*mqttp.Publish)
	r.skip(t, ok && p.QoS() != 0)
	sym.Assert(int(r.viMin()) == pl && !r.bad, "the property length of the packet is wrong")
	g := mustDecode(v50, buf)
	sameFields(m, g)
	ps := pairsOf(g.PropertyGet(mqttp.PropertyUserProperty))
	sym.Assert(len(ps) == 1 && ps[0].V == "v", "the user property changes")
	sym.SameContent([]byte(ps[0].K), k, "the user property changes")
	sym.Reach("encoded")
}

// longPacket decodes a packet with a user property of arbitrary length; the property length and the
// length of the key may be off by one. It returns the message if these are right.
func longPacket(t mqttp.Type, pre, post []byte) (mqttp.IFace, bool) {
	k := sym.Fill("key", 'k', 1, 65534)
	dp, dk := 0, 0
	switch sym.Choose("length error", 5) {
	case 1:
		dp = 1
	case 2:
		dp = -1
	case 3:
		dk = 1
	case 4:
		dk = -1
	}
	kl := len(k) + dk
	ps := cat([]byte{0x26, byte(kl >> 8), byte(kl)}, k, []byte{0, 1, 'v'})
	body := cat(pre, varint(uint32(len(ps)+dp)), ps, post)
	m, ok := accept(v50, t, packet(first(t), body), dp == 0 && dk == 0)
	if !ok {
		return nil, false
	}
	us := pairsOf(m.PropertyGet(mqttp.PropertyUserProperty))
	sym.Assert(len(us) == 1 && us[0].V == "v", "the user property differs")
	sym.SameContent([]byte(us[0].K), k, "the user property differs")
	return m, true
}

// counts are list lengths around the sizes at which something may change.
var counts = []int{5, 8, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 125, 126, 127, 128, 129, 130, 255, 256, 257, 300}

func anyCount() int { return counts[sym.Choose("count", len(counts))] }

// spots are the places in a list of n where an entry is arbitrary.
func anySpot(n int) int { return []int{0, n / 2, n - 2, n - 1}[sym.Choose("spot", 4)] }

// ---- round trips

// longField is a message of version v with one field of arbitrary length.
func longConnect(v mqttp.ProtocolVersion, which int, f []byte) (*mqttp.Connect, int) {
	m := mqttp.NewConnect(v)
	m.SetClean(true)
	rem := 12
	if v == v31 {
		rem += 2
	}
	user, pass := []byte("u"), []byte{}
	switch which {
	case 0:
		sym.Assert(m.SetClientID(f) == nil, "a valid client identifier is refused")
		rem += len(f)
	case 1:
		user = f
		sym.Assume(len(f) > 0)
		rem += len(f) - 1
	case 2:
		pass = f
		sym.Assume(len(f) > 0)
		rem += len(f) + 2
	default:
		sym.Assume(len(f) > 0)
		w := mqttp.NewPublish(v)
		topic, load := []byte("w"), f
		if which == 3 {
			topic, load = f, []byte("w")
		}
		sym.Assert(w.Set(string(topic), load, 1, true, false) == nil, "a valid will is refused")
		sym.Assert(m.SetWill(w) == nil, "a valid will is refused")
		rem += 4 + len(topic) + len(load)
		if v == v50 {
			rem++
		}
	}
	sym.Assert(m.SetCredentials(user, pass) == nil, "valid credentials are refused")
	rem += 3
	if v == v50 {
		rem++
	}
	return m, rem
}

func connectRound(v mqttp.ProtocolVersion, m *mqttp.Connect, rem int) {
	n, err := m.Size()
	sym.Assert(err == nil && n == 1+viLen(rem)+rem, "the announced size is wrong")
	buf := mustEncode(m)
	sym.Assert(len(buf) == n, "the encoded length differs from the announced size")
	wire(m, 0, buf)
	g := mustDecode(v, buf).(*mqttp.Connect)
	sym.SameContent(g.ClientID(), m.ClientID(), "the client identifier changes")
	u, p := m.Credentials()
	gu, gp := g.Credentials()
	sym.SameContent(gu, u, "the user name changes")
	sym.SameContent(gp, p, "the password changes")
	sym.Assert((m.Will() == nil) == (g.Will() == nil), "the will is lost or invented")
	if m.Will() != nil {
		sym.SameContent([]byte(g.Will().Topic()), []byte(m.Will().Topic()), "the will topic changes")
		sym.SameContent(g.Will().Payload(), m.Will().Payload(), "the will payload changes")
		sym.Assert(g.Will().QoS() == m.Will().QoS() && g.Will().Retain() == m.Will().Retain(), "the will flags change")
	}
	sym.Reach("encoded")
}

// R01_long: one long field.
func R01_long() {
	v := anyVersion()
	m, rem := longConnect(v, sym.Choose("field", 5), sym.Fill("field", 'a', 0, 65535))
	connectRound(v, m, rem)
}

// R01_longTwo: two long fields, so that the remaining length takes three bytes.
func R01_longTwo() {
	v := anyVersion()
	m, rem := longConnect(v, 4, sym.Fill("will", 'a', 0, 65535))
	p := sym.Fill("password", 'p', 1, 65535)
	sym.Assert(m.SetCredentials([]byte("u"), p) == nil, "valid credentials are refused")
	connectRound(v, m, rem+2+len(p))
}

// R01_longProps: a long property block, of the CONNECT and of its will.
func R01_longProps() {
	if sym.Choose("will", 2) == 0 {
		longBlock(mqttp.CONNECT)
		return
	}
	m, rem := longConnect(v50, 4, []byte("w"))
	k := sym.Fill("key", 'k', 0, 65535)
	sym.Assert(m.Will().PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: string(k), V: "v"}) == nil, "a legal property is refused")
	pl := 6 + len(k)
	connectRoundWill(m, rem-1+viLen(pl)+pl, k)
}

func connectRoundWill(m *mqttp.Connect, rem int, k []byte) {
	n, err := m.Size()
	sym.Assert(err == nil && n == 1+viLen(rem)+rem, "the announced size is wrong")
	buf := mustEncode(m)
	r := &rd{b: wire(m, 0, buf)}
	r.lp()
	r.u32()
	r.u8()
	r.lp()
	sym.Assert(int(r.viMin()) == 6+len(k) && !r.bad, "the will property length of the packet is wrong")
	g := mustDecode(v50, buf).(*mqttp.Connect)
	sym.Assert(g.Will() != nil, "the will is lost")
	samePublish(m.Will(), g.Will())
	ps := pairsOf(g.Will().PropertyGet(mqttp.PropertyUserProperty))
	sym.Assert(len(ps) == 1 && ps[0].V == "v", "the user property changes")
	sym.SameContent([]byte(ps[0].K), k, "the user property changes")
	sym.Reach("encoded")
}

func R02_long() { longBlock(mqttp.CONNACK) }

// R03_long: topics and payloads of every length.
func R03_long() {
	v := anyVersion()
	m := mqttp.NewPublish(v)
	q, dup := mqttp.QosType(sym.Choose("qos", 3)), sym.Bool("dup")
	sym.Assume(sym.Implies(q == 0, sym.Not(dup)))
	topic, load := sym.Fill("topic", 't', 1, 65535), sym.Big("payload", 0, 300000)
	sym.Assert(m.Set(string(topic), load, q, sym.Bool("retain"), dup) == nil, "a valid message is refused")
	rem := 2 + len(topic) + len(load)
	if q != 0 {
		m.SetPacketID(mqttp.IDType(sym.U16("id")))
		rem += 2
	} else if sym.Choose("id without use", 2) == 1 {
		m.SetPacketID(mqttp.IDType(sym.U16("id")))
	}
	if v == v50 {
		rem++
	}
	n, err := m.Size()
	sym.Assert(err == nil && n == 1+viLen(rem)+rem, "the announced size is wrong")
	buf := mustEncode(m)
	sym.Assert(len(buf) == n, "the encoded length differs from the announced size")
	wire(m, flagsOf(m), buf)
	g := mustDecode(v, buf).(*mqttp.Publish)
	sym.SameContent([]byte(g.Topic()), topic, "topic changes")
	sym.SameContent(g.Payload(), load, "payload changes")
	sym.Assert(g.QoS() == q && g.Dup() == dup && g.Retain() == m.Retain(), "flags change")
	if q != 0 {
		x, _ := m.ID()
		checkID(g, uint16(x))
	}
	sym.Reach("encoded")
}

// R03_id: a packet identifier has no place in a packet of QoS 0.
func R03_id() {
	v := anyVersion()
	m, _ := anyPublish(v, tiny)
	sym.Assume(m.QoS() == 0)
	want := mustEncode(m)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	sym.Assert(sym.EqBytes(mustEncode(m), want), "a packet identifier changes a packet of QoS 0")
}

func R03_longProps() { longBlock(mqttp.PUBLISH) }

func R04_long() { longBlock(ackTypes[sym.Choose("type", 4)]) }

// R05_long: a long topic with options.
func R05_long() {
	v := anyVersion()
	f := sym.Fill("topic", 't', 1, 65535)
	o := sym.U8("options")
	sym.Assume(refOptions(v, o))
	m := mqttp.NewSubscribe(v)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	t, err := mqttp.NewSubscribeTopic(f, mqttp.SubscriptionOptions(o))
	sym.Assert(err == nil, "a valid subscription is refused")
	sym.Assert(m.AddTopic(t) == nil, "a topic is not added")
	t, err = mqttp.NewSubscribeTopic([]byte("b"), 1)
	sym.Assert(err == nil && m.AddTopic(t) == nil, "a topic is not added")
	longTopics(m, v, 9+len(f), f)
}

func longTopics(m mqttp.IFace, v mqttp.ProtocolVersion, rem int, f []byte) {
	if v == v50 {
		rem++
	}
	n, err := m.Size()
	sym.Assert(err == nil && n == 1+viLen(rem)+rem, "the announced size is wrong")
	buf := mustEncode(m)
	sym.Assert(len(buf) == n, "the encoded length differs from the announced size")
	wire(m, 2, buf)
	g := mustDecode(v, buf)
	x, _ := m.ID()
	checkID(g, uint16(x))
	a, b := topicsOf(m), topicsOf(g)
	sym.Assert(len(a) == 2 && len(b) == 2, "number of topics changes")
	sym.SameContent([]byte(b[0].Full()), f, "topic changes")
	sym.SameContent([]byte(b[0].Filter()), f, "topic filter changes")
	sym.Assert(b[1].Full() == "b" && len(b[0].ShareName()) == 0, "topic changes")
	sym.Assert(a[0].Ops() == b[0].Ops() && a[1].Ops() == b[1].Ops(), "subscription options change")
	sym.Reach("encoded")
}

// R05_list: many topics.
func R05_list() {
	v := anyVersion()
	n := anyCount()
	at := anySpot(n)
	m := mqttp.NewSubscribe(v)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	for i := 0; i < n; i++ {
		f, o := []byte{'a' + byte(i%26), 'a' + byte(i/26)}, byte(i%3)
		if i == at {
			o = sym.U8("options")
			sym.Assume(refOptions(v, o))
			f = []byte("$share/g/x")
		}
		t, err := mqttp.NewSubscribeTopic(f, mqttp.SubscriptionOptions(o))
		sym.Assert(err == nil && m.AddTopic(t) == nil, "a valid subscription is refused")
	}
	roundTrip(m)
}

func R05_longProps() { longBlock(mqttp.SUBSCRIBE) }

// R06_list: many codes.
func R06_list() {
	v := anyVersion()
	n := anyCount()
	at := anySpot(n)
	m := mqttp.NewSubAck(v)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	sym.Assert(m.AddReturnCodes(manyCodes(v, mqttp.SUBACK, n, at)) == nil, "valid return codes are refused")
	roundTrip(m)
}

func manyCodes(v mqttp.ProtocolVersion, t mqttp.Type, n, at int) []mqttp.ReasonCode {
	var out []mqttp.ReasonCode
	for i := 0; i < n; i++ {
		c := byte(0)
		if t == mqttp.SUBACK {
			c = byte(i % 3)
		} else if v == v50 && i%2 == 1 {
			c = 0x11
		}
		if i == at {
			c = sym.U8("code")
			if v == v50 {
				sym.Assume(refReason(t, c))
			} else {
				sym.Assume(sym.Or(c <= 2, c == 0x80))
			}
		}
		out = append(out, mqttp.ReasonCode(c))
	}
	return out
}

func R06_longProps() { longBlock(mqttp.SUBACK) }

// R07_long: a long topic.
func R07_long() {
	v := anyVersion()
	f := sym.Fill("topic", 't', 1, 65535)
	m := mqttp.NewUnSubscribe(v)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	for _, b := range [][]byte{f, []byte("b")} {
		t, err := mqttp.NewTopic(b)
		sym.Assert(err == nil, "a valid topic filter is refused")
		sym.Assert(m.AddTopic(t) == nil, "a topic is not added")
	}
	longTopics(m, v, 7+len(f), f)
}

// R07_list: many topics.
func R07_list() {
	v := anyVersion()
	n := anyCount()
	at := anySpot(n)
	m := mqttp.NewUnSubscribe(v)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	for i := 0; i < n; i++ {
		f := []byte{'a' + byte(i%26), 'a' + byte(i/26)}
		if i == at {
			f = []byte("$share/g/x")
		}
		t, err := mqttp.NewTopic(f)
		sym.Assert(err == nil && m.AddTopic(t) == nil, "a valid topic filter is refused")
	}
	roundTrip(m)
}

func R07_longProps() { longBlock(mqttp.UNSUBSCRIBE) }

// R08_list: many codes.
func R08_list() {
	v := anyVersion()
	n := anyCount()
	at := anySpot(n)
	m := mqttp.NewUnSubAck(v)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	sym.Assert(m.AddReturnCodes(manyCodes(v, mqttp.UNSUBACK, n, at)) == nil, "valid return codes are refused")
	roundTrip(m)
}

func R08_longProps() { longBlock(mqttp.UNSUBACK) }
func R09_longProps() { longBlock(mqttp.DISCONNECT) }
func R10_longProps() { longBlock(mqttp.AUTH) }

// ---- decoding

// A01_longFields: one long field; its length may be off by one.
func A01_longFields() {
	v := sym.Choose("v", 3)
	f := sym.Fill("field", 'a', 1, 65534)
	which := sym.Choose("field", 5)
	d := []int{0, 1, -1}[sym.Choose("length error", 3)]
	body := connectHead(v, 0xC6)
	if v == 1 {
		body = append(body, 0)
	}
	vals := [5][]byte{[]byte("c"), []byte("t"), []byte("p"), []byte("u"), []byte("w")}
	vals[which] = f
	for i, x := range vals {
		if i == 1 && v == 1 {
			body = append(body, 0)
		}
		n := len(x)
		if i == which {
			n += d
		}
		body = cat(body, []byte{byte(n >> 8), byte(n)}, x)
	}
	m, ok := accept(v311, mqttp.CONNECT, packet(0x10, body), d == 0)
	if !ok {
		return
	}
	c := m.(*mqttp.Connect)
	sym.Assert(c.Version() == versions[v] && c.Will() != nil, "the version or the presence of the will differs")
	sym.SameContent(c.ClientID(), vals[0], "the client identifier differs")
	sym.SameContent([]byte(c.Will().Topic()), vals[1], "the will topic differs")
	sym.SameContent(c.Will().Payload(), vals[2], "the will payload differs")
	u, p := c.Credentials()
	sym.SameContent(u, vals[3], "the user name differs")
	sym.SameContent(p, vals[4], "the password differs")
}

// A01_longProps: a long property block of the CONNECT.
func A01_longProps() {
	if m, ok := longPacket(mqttp.CONNECT, connectHead(1, 2), lp([]byte("c"))); ok {
		sym.Assert(string(m.(*mqttp.Connect).ClientID()) == "c", "the client identifier differs")
	}
}

// A01_longWill: a long property block of the will.
func A01_longWill() {
	k := sym.Fill("key", 'k', 1, 65534)
	d := []int{0, 1, -1}[sym.Choose("length error", 3)]
	ps := cat([]byte{0x26, byte(len(k) >> 8), byte(len(k))}, k, []byte{0, 1, 'v'})
	body := cat(connectHead(1, 6), []byte{0}, lp([]byte("c")), varint(uint32(len(ps)+d)), ps, lp([]byte("t")), lp([]byte("p")))
	m, ok := accept(v50, mqttp.CONNECT, packet(0x10, body), d == 0)
	if !ok {
		return
	}
	w := m.(*mqttp.Connect).Will()
	sym.Assert(w != nil && w.Topic() == "t" && string(w.Payload()) == "p", "the will differs")
	us := pairsOf(w.PropertyGet(mqttp.PropertyUserProperty))
	sym.Assert(len(us) == 1 && us[0].V == "v", "the user property differs")
	sym.SameContent([]byte(us[0].K), k, "the user property differs")
}

func A02_longProps() {
	if m, ok := longPacket(mqttp.CONNACK, []byte{1, 0x87}, nil); ok {
		p := m.(*mqttp.ConnAck)
		sym.Assert(p.SessionPresent() && byte(p.ReturnCode()) == 0x87, "the CONNACK differs")
	}
}

// A03_long: topics and payloads of every length; the topic length may be off by one.
func A03_long() {
	v := anyVersion()
	q := byte(sym.Choose("qos", 3))
	topic, load := sym.Fill("topic", 't', 1, 65535), sym.Big("payload", 0, 300000)
	body := cat([]byte{byte(len(topic) >> 8), byte(len(topic))}, topic)
	id := sym.U16("id")
	if q > 0 {
		body = append(body, byte(id>>8), byte(id))
	}
	if v == v50 {
		body = append(body, 0)
	}
	m, ok := accept(v, mqttp.PUBLISH, packet(0x30|q<<1, cat(body, load)), true)
	if !ok {
		return
	}
	p := m.(*mqttp.Publish)
	sym.SameContent([]byte(p.Topic()), topic, "topic differs")
	sym.SameContent(p.Payload(), load, "payload differs")
	if q > 0 {
		checkID(m, id)
	}
}

func A03_longProps() {
	if m, ok := longPacket(mqttp.PUBLISH, lp([]byte("t")), []byte("xy")); ok {
		p := m.(*mqttp.Publish)
		sym.Assert(p.Topic() == "t" && string(p.Payload()) == "xy", "the PUBLISH differs")
	}
}

func A04_longProps() {
	t := ackTypes[sym.Choose("type", 4)]
	if m, ok := longPacket(t, []byte{1, 2, 0x92 * byte(t/6)}, nil); ok {
		checkID(m, 0x0102)
	}
}

func A05_longProps() {
	if m, ok := longPacket(mqttp.SUBSCRIBE, []byte{1, 2}, append(lp([]byte("t")), 1)); ok {
		checkID(m, 0x0102)
		ts := topicsOf(m)
		sym.Assert(len(ts) == 1 && ts[0].Full() == "t", "the topics differ")
	}
}

// A05_longTopic: a topic of every length, its length possibly off by one.
func A05_longTopic() {
	longTopic(mqttp.SUBSCRIBE)
}

func longTopic(t mqttp.Type) {
	v := anyVersion()
	f := sym.Fill("topic", 't', 2, 65534)
	d := []int{0, 1, -1}[sym.Choose("length error", 3)]
	body := []byte{1, 2}
	if v == v50 {
		body = append(body, 0)
	}
	n := len(f) + d
	body = cat(body, []byte{byte(n >> 8), byte(n)}, f)
	if t == mqttp.SUBSCRIBE {
		body = append(body, 2)
	}
	m, ok := accept(v, t, packet(first(t), body), d == 0)
	if !ok {
		return
	}
	ts := topicsOf(m)
	sym.Assert(len(ts) == 1, "the number of topics differs")
	sym.SameContent([]byte(ts[0].Full()), f, "topic differs")
	if t == mqttp.SUBSCRIBE {
		sym.Assert(ts[0].Ops() == 2, "subscription options differ")
	}
}

// A05_list: many topics, one with arbitrary options.
func A05_list() {
	v := anyVersion()
	n := anyCount()
	at := anySpot(n)
	body := []byte{1, 2}
	if v == v50 {
		body = append(body, 0)
	}
	for i := 0; i < n; i++ {
		o := byte(i % 3)
		if i == at {
			o = sym.U8("options")
		}
		body = append(body, 0, 2, 'a'+byte(i%26), 'a'+byte(i/26), o)
	}
	subscribeCase(v, body)
}

func A06_longProps() {
	if m, ok := longPacket(mqttp.SUBACK, []byte{1, 2}, []byte{1, 0x80}); ok {
		checkID(m, 0x0102)
		sameCodes(m.(*mqttp.SubAck).ReturnCodes(), []byte{1, 0x80})
	}
}

// A06_list: many codes, one of them arbitrary.
func A06_list() {
	v := anyVersion()
	n := anyCount()
	at := anySpot(n)
	body := []byte{1, 2}
	if v == v50 {
		body = append(body, 0)
	}
	for i := 0; i < n; i++ {
		c := byte(i % 3)
		if i == at {
			c = sym.U8("code")
		}
		body = append(body, c)
	}
	subackCase(v, body)
}

func A07_longProps() {
	if m, ok := longPacket(mqttp.UNSUBSCRIBE, []byte{1, 2}, lp([]byte("t"))); ok {
		checkID(m, 0x0102)
		ts := topicsOf(m)
		sym.Assert(len(ts) == 1 && ts[0].Full() == "t", "the topics differ")
	}
}

func A07_longTopic() { longTopic(mqttp.UNSUBSCRIBE) }

// A07_list: many topics, one with an arbitrary first byte.
func A07_list() {
	v := anyVersion()
	n := anyCount()
	at := anySpot(n)
	body := []byte{1, 2}
	if v == v50 {
		body = append(body, 0)
	}
	for i := 0; i < n; i++ {
		c := 'a' + byte(i%26)
		if i == at {
			c = sym.U8("byte")
		}
		body = append(body, 0, 2, c, 'a'+byte(i/26))
	}
	unsubscribeCase(v, body)
}

func A08_longProps() {
	if m, ok := longPacket(mqttp.UNSUBACK, []byte{1, 2}, []byte{0x11, 0x80}); ok {
		checkID(m, 0x0102)
		sameCodes(m.(*mqttp.UnSubAck).ReturnCodes(), []byte{0x11, 0x80})
	}
}

// A08_list: many codes, one of them arbitrary.
func A08_list() {
	n := anyCount()
	at := anySpot(n)
	body := []byte{1, 2, 0}
	for i := 0; i < n; i++ {
		c := byte(i%2) * 0x11
		if i == at {
			c = sym.U8("code")
		}
		body = append(body, c)
	}
	unsubackCase(v50, body)
}

func A09_longProps() {
	if m, ok := longPacket(mqttp.DISCONNECT, []byte{0x81}, nil); ok {
		sym.Assert(byte(m.(*mqttp.Disconnect).ReasonCode()) == 0x81, "reason code differs")
	}
}

func A10_longProps() {
	if m, ok := longPacket(mqttp.AUTH, []byte{0x19}, nil); ok {
		sym.Assert(byte(m.(*mqttp.Auth).ReasonCode()) == 0x19, "reason code differs")
	}
}

// ---- the other properties

// D04_long: long packets survive re-encoding byte for byte.
func D04_long() {
	v := anyVersion()
	f := sym.Fill("field", 'a', 1, 65535)
	n := []byte{byte(len(f) >> 8), byte(len(f))}
	var t mqttp.Type
	var body []byte
	pid := []byte{sym.U8("id1"), sym.U8("id2")}
	no := []byte{}
	if v == v50 {
		no = []byte{0}
	}
	b := byte(0)
	switch sym.Choose("packet", 4) {
	case 0:
		t, body = mqttp.CONNECT, cat(connectHead([]int{0, 1, 2}[sym.Concrete(verIndex(v))], 0x82), no, lp([]byte("c")), n, f)
	case 1:
		t, body = mqttp.PUBLISH, cat(n, f, pid, no, sym.Big("payload", 0, 300000))
		b = 2
	case 2:
		t, body = mqttp.SUBSCRIBE, cat(pid, no, n, f, []byte{1})
	default:
		t, body = mqttp.UNSUBSCRIBE, cat(pid, no, n, f)
	}
	buf := packet(first(t)|b, body)
	g := mustDecode(v, buf)
	sym.SameContent(mustEncode(g), buf, "re-encoding a packet without properties does not reproduce it")
	sym.Reach("stable")
}

func verIndex(v mqttp.ProtocolVersion) int {
	for i, x := range versions {
		if x == v {
			return i
		}
	}
	return 0
}

// P02_long: a long value replaces a short one and the other way round.
func P02_long() {
	t := anyPropType()
	m := newMsg(v50, t)
	ready(m)
	a, b := sym.Fill("first", 'a', 0, 65535), sym.Fill("last", 'b', 0, 65535)
	for _, x := range [][]byte{a, b} {
		sym.Assert(m.PropertySet(0x26, mqttp.StringPair{K: string(x), V: "v"}) == nil, "a legal property is refused")
	}
	size, err := m.Size()
	sym.Assert(err == nil, "the size of a valid packet is refused")
	buf := mustEncode(m)
	sym.Assert(len(buf) == size, "the encoded length differs from the announced size")
	r := &rd{b: wire(m, first(t)&15, buf)}
	r.skip(t, false)
	sym.Assert(int(r.viMin()) == 6+len(b) && !r.bad, "the property length of the packet is wrong")
	ps := pairsOf(mustDecode(v50, buf).PropertyGet(0x26))
	sym.Assert(len(ps) == 1 && ps[0].V == "v", "the last value does not count")
	sym.SameContent([]byte(ps[0].K), b, "the last value does not count")
	sym.Reach("encoded")
}

// P02_lists: many user properties.
func P02_lists() {
	t := anyPropType()
	m := newMsg(v50, t)
	ready(m)
	var model []rprop
	for i := 0; i < 2; i++ {
		n := []int{1, 2, 3, 10, 40, 130}[sym.Choose("pairs", 6)]
		var l []mqttp.StringPair
		model = nil
		for k := 0; k < n; k++ {
			p := rprop{id: 0x26, kind: kPair, s: []byte{byte(k) & 127, sym.U8("key") & 127}, t: []byte{'v'}}
			l = append(l, mqttp.StringPair{K: string(p.s), V: "v"})
			model = append(model, p)
		}
		sym.Assert(m.PropertySet(0x26, l) == nil, "a legal property is refused")
	}
	checkModel(m, model)
}

// P05_long: a long property leaves nothing behind either.
func P05_long() {
	t := anyPropType()
	m := newMsg(v50, t)
	ready(m)
	want := mustEncode(m)
	k := sym.Fill("key", 'k', 0, 65535)
	sym.Assert(m.PropertySet(0x26, mqttp.StringPair{K: string(k), V: "v"}) == nil, "a legal property is refused")
	_, _ = m.Size()
	m.PropertiesDiscard()
	size, err := m.Size()
	sym.Assert(err == nil && size == len(want), "a discarded property counts for the size")
	sym.Assert(sym.EqBytes(mustEncode(m), want), "a discarded property is encoded")
}

// S02_long: long client identifiers, user names and passwords.
func S02_long() {
	v := anyVersion()
	f := sym.Fill("field", 'a', 1, 65535)
	m := mqttp.NewConnect(v)
	sym.Assert(m.SetClientID(f) == nil, "a client identifier is refused or accepted wrongly")
	sym.Assert(m.SetCredentials(f, f) == nil, "credentials are refused or accepted wrongly")
	u, p := m.Credentials()
	sym.SameContent(m.ClientID(), f, "the client identifier differs")
	sym.SameContent(u, f, "the user name differs")
	sym.SameContent(p, f, "the password differs")
	sym.Reach("set")
}

// S03_long: messages of every length are cloned.
func S03_long() {
	v := anyVersion()
	m := mqttp.NewPublish(v)
	topic, load := sym.Fill("topic", 't', 1, 65535), sym.Big("payload", 0, 300000)
	sym.Assert(m.Set(string(topic), load, 1, true, true) == nil, "a valid message is refused")
	if v == v50 {
		sym.Assert(m.PropertySet(3, string(topic)) == nil, "a legal property is refused")
	}
	c, err := m.Clone(v)
	sym.Assert(err == nil && c != nil, "a valid message is not cloned")
	sym.SameContent([]byte(c.Topic()), topic, "the topic of the clone differs")
	sym.SameContent(c.Payload(), load, "the payload of the clone differs")
	if v == v50 {
		x, e := c.PropertyGet(3).AsString()
		sym.Assert(e == nil, "a property is forwarded or dropped wrongly")
		sym.SameContent([]byte(x), topic, "a property of the clone differs")
	}
	sym.Reach("cloned")
}

// T02_long: long share names and filters.
func T02_long() {
	g, f := []byte("g"), sym.Fill("filter", 'f', 1, 65500)
	if sym.Choose("long", 2) == 1 {
		g, f = f, []byte("f")
	}
	full := cat([]byte("$share/"), g, []byte("/"), f)
	t, err := mqttp.NewTopic(full)
	sym.Assert(err == nil, "a valid topic filter is rejected")
	sym.SameContent([]byte(t.Full()), full, "topic differs")
	sym.SameContent([]byte(t.ShareName()), g, "share name differs")
	sym.SameContent([]byte(t.Filter()), f, "topic filter differs")
	sym.Reach("accepted")
}

// spoil changes one arbitrary byte of a buffer of any length.
func spoil(buf []byte) {
	i := sym.Int("spoilt", 0, 1<<20)
	sym.Assume(i < len(buf))
	buf[i] = sym.U8("spoil")
	sym.Reach("scribbled")
}

// D05_long: long fields do not depend on the buffer either.
func D05_long() {
	v := anyVersion()
	m := mqttp.NewPublish(v)
	topic, load := sym.Fill("topic", 't', 1, 65535), sym.Big("payload", 0, 300000)
	sym.Assert(m.Set(string(topic), load, 1, false, false) == nil, "a valid message is refused")
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	buf := mustEncode(m)
	g := mustDecode(v, buf).(*mqttp.Publish)
	spoil(buf)
	sym.SameContent([]byte(g.Topic()), topic, "topic changes")
	sym.SameContent(g.Payload(), load, "payload changes")
	x, _ := m.ID()
	checkID(g, uint16(x))
}

// D05_longWill: nor does a long will.
func D05_longWill() {
	v := anyVersion()
	m, _ := longConnect(v, 3+sym.Choose("field", 2), sym.Fill("field", 'a', 1, 65535))
	buf := mustEncode(m)
	g := mustDecode(v, buf).(*mqttp.Connect)
	spoil(buf)
	sym.SameContent([]byte(g.Will().Topic()), []byte(m.Will().Topic()), "the will topic changes")
	sym.SameContent(g.Will().Payload(), m.Will().Payload(), "the will payload changes")
}

// D05_longProps: nor does a long property.
func D05_longProps() {
	m := mqttp.NewPublish(v50)
	f := sym.Fill("value", 'a', 1, 65535)
	sym.Assert(m.Set("t", nil, 0, false, false) == nil, "a valid message is refused")
	which := sym.Choose("property", 4)
	var err error
	switch which {
	case 0:
		err = m.PropertySet(0x03, string(f))
	case 1:
		err = m.PropertySet(0x09, f)
	case 2:
		err = m.PropertySet(0x26, mqttp.StringPair{K: string(f), V: "v"})
	default:
		err = m.PropertySet(0x26, mqttp.StringPair{K: "k", V: string(f)})
	}
	sym.Assert(err == nil, "a legal property is refused")
	buf := mustEncode(m)
	g := mustDecode(v50, buf)
	spoil(buf)
	switch which {
	case 0:
		s, _ := g.PropertyGet(0x03).AsString()
		sym.SameContent([]byte(s), f, "a property changes")
	case 1:
		s, _ := g.PropertyGet(0x09).AsBinary()
		sym.SameContent(s, f, "a property changes")
	default:
		ps := pairsOf(g.PropertyGet(0x26))
		sym.Assert(len(ps) == 1, "a property changes")
		s := []string{ps[0].K, ps[0].V}[which-2]
		sym.SameContent([]byte(s), f, "a property changes")
	}
}

// longLoad is a PUBLISH with a payload of any length.
func longLoad(v mqttp.ProtocolVersion, topic string, load []byte) *mqttp.Publish {
	m := mqttp.NewPublish(v)
	sym.Assert(m.Set(topic, load, 1, false, false) == nil, "a valid message is refused")
	m.SetPacketID(7)
	return m
}

// D06_long: messages with long payloads that are decoded, cloned and encoded one after the other stay apart.
func D06_long() {
	v := anyVersion()
	load, other := sym.Big("payload", 1, 300000), sym.Fill("other payload", 'b', 1, 300000)
	m := longLoad(v, "a", load)
	buf := mustEncode(m)
	g := mustDecode(v, buf).(*mqttp.Publish)
	c, err := g.Clone(v)
	sym.Assert(err == nil, "a valid message is not cloned")
	n := longLoad(v, "b", other)
	buf2 := mustEncode(n)
	h := mustDecode(v, buf2).(*mqttp.Publish)
	d, err := h.Clone(v)
	sym.Assert(err == nil, "a valid message is not cloned")
	sym.Assert(len(g.Payload()) == len(load) && len(c.Payload()) == len(load), "the length of a payload changes")
	sym.SameContent(g.Payload(), load, "a decoded payload changes")
	sym.SameContent(c.Payload(), load, "a cloned payload changes")
	sym.SameContent(m.Payload(), load, "a payload changes")
	sym.SameContent(buf[len(buf)-len(load):], load, "an encoded payload changes")
	sym.SameContent(h.Payload(), other, "a decoded payload is that of another message")
	sym.SameContent(d.Payload(), other, "a cloned payload is that of another message")
	sym.SameContent(buf2[len(buf2)-len(other):], other, "an encoded payload is that of another message")
	sym.Assert(g.Topic() == "a" && h.Topic() == "b", "topics are mixed up")
	sym.Reach("apart")
}

// D06_longConnect: nor do CONNECT packets with a long field.
func D06_longConnect() {
	v := anyVersion()
	k := sym.Choose("field", 5)
	f, o := sym.Fill("field", 'a', 1, 65535), sym.Fill("other field", 'b', 1, 65535)
	get := func(m *mqttp.Connect) []byte {
		u, p := m.Credentials()
		switch k {
		case 0:
			return m.ClientID()
		case 1:
			return u
		case 2:
			return p
		case 3:
			return []byte(m.Will().Topic())
		}
		return m.Will().Payload()
	}
	m, _ := longConnect(v, k, f)
	buf := mustEncode(m)
	g := mustDecode(v, buf).(*mqttp.Connect)
	n, _ := longConnect(v, k, o)
	h := mustDecode(v, mustEncode(n)).(*mqttp.Connect)
	sym.SameContent(get(m), f, "a long field changes")
	sym.SameContent(get(g), f, "a decoded long field changes")
	sym.SameContent(get(n), o, "a long field is that of another message")
	sym.SameContent(get(h), o, "a decoded long field is that of another message")
	sym.SameContent(get(mustDecode(v, buf).(*mqttp.Connect)), f, "an encoded packet changes")
	sym.Reach("apart")
}

// D06_longProps: nor do long properties.
func D06_longProps() {
	f, o := sym.Fill("value", 'a', 1, 65535), sym.Fill("other value", 'b', 1, 65535)
	k := sym.Choose("property", 3)
	make := func(x []byte) mqttp.IFace {
		m := mqttp.NewPublish(v50)
		sym.Assert(m.Set("t", nil, 0, false, false) == nil, "a valid message is refused")
		var err error
		switch k {
		case 0:
			err = m.PropertySet(0x03, string(x))
		case 1:
			err = m.PropertySet(0x09, x)
		default:
			err = m.PropertySet(0x26, mqttp.StringPair{K: "k", V: string(x)})
		}
		sym.Assert(err == nil, "a legal property is refused")
		return m
	}
	same := func(m mqttp.IFace, x []byte) {
		switch k {
		case 0:
			s, _ := m.PropertyGet(0x03).AsString()
			sym.SameContent([]byte(s), x, "a property changes")
		case 1:
			s, _ := m.PropertyGet(0x09).AsBinary()
			sym.SameContent(s, x, "a property changes")
		default:
			ps := pairsOf(m.PropertyGet(0x26))
			sym.Assert(len(ps) == 1 && ps[0].K == "k", "a property changes")
			sym.SameContent([]byte(ps[0].V), x, "a property changes")
		}
	}
	m := make(f)
	buf := mustEncode(m)
	g := mustDecode(v50, buf)
	n := make(o)
	h := mustDecode(v50, mustEncode(n))
	same(m, f)
	same(g, f)
	same(n, o)
	same(h, o)
	same(mustDecode(v50, buf), f)
	sym.Reach("apart")
}

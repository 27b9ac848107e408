package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// accept decodes one packet and compares acceptance with the reference.
func accept(v mqttp.ProtocolVersion, t mqttp.Type, buf []byte, ok bool) (mqttp.IFace, bool) {
	m, n, err := decode(v, roomy(buf))
	sym.Observe("decode", err == nil)
	if ok {
		sym.Assert(err == nil, "a well-formed packet is rejected")
		sym.Assert(n == len(buf), "the reported length differs from the packet length")
		sym.Assert(m != nil && m.Type() == t, "the packet type differs")
		sym.Reach("accepted")
		return m, true
	}
	sym.Assert(err != nil, "a malformed packet is accepted")
	sym.Reach("rejected")
	return nil, false
}

func checkID(m mqttp.IFace, id uint16) {
	x, err := m.ID()
	sym.Assert(err == nil && uint16(x) == id, "packet identifier differs")
}

// ---- CONNECT

type refConnect struct {
	ok            bool
	v             mqttp.ProtocolVersion
	flags         byte
	keep          uint16
	props, wprops []rprop
	cid           []byte
	wtopic, wload []byte
	user, pass    []byte
	will, hu, hp  bool
	clean, wr     bool
	wqos          byte
}

func refDecodeConnect(body []byte) (c refConnect) {
	r := &rd{b: body}
	name := r.lp()
	lvl := r.u8()
	if r.bad {
		return
	}
	switch lvl {
	case 3:
		c.v = v31
		if !sym.EqStr(string(name), "MQIsdp") {
			return
		}
	case 4, 5:
		c.v = v311
		if lvl == 5 {
			c.v = v50
		}
		if !sym.EqStr(string(name), "MQTT") {
			return
		}
	default:
		return
	}
	f := r.u8()
	c.keep = r.u16()
	if r.bad || f&1 != 0 {
		return
	}
	c.flags = f
	c.clean, c.will, c.wqos, c.wr = f&2 != 0, f&4 != 0, f>>3&3, f&0x20 != 0
	c.hp, c.hu = f&0x40 != 0, f&0x80 != 0
	if c.wqos == 3 || !c.will && (c.wr || c.wqos != 0) {
		return
	}
	if c.v != v50 && c.hp && !c.hu {
		return
	}
	if c.v == v50 {
		c.props = r.props(mqttp.CONNECT)
	}
	c.cid = r.lp()
	if r.bad || !refClientID(c.cid) || c.v != v50 && len(c.cid) == 0 && !c.clean {
		return
	}
	if c.will {
		if c.v == v50 {
			c.wprops = r.props(mqttp.PUBLISH)
			if r.bad || hasProp(c.wprops, 0x0B) || hasProp(c.wprops, 0x23) {
				return
			}
		}
		c.wtopic = r.lp()
		if r.bad || len(c.wtopic) == 0 || !refTopicName(c.wtopic) {
			return
		}
		c.wload = r.lp()
	}
	if c.hu {
		c.user = r.lp()
		if r.bad || !cleanUTF8(c.user) {
			return
		}
	}
	if c.hp {
		c.pass = r.lp()
	}
	c.ok = !r.bad && r.left() == 0
	return
}

func checkConnect(m mqttp.IFace, c refConnect) {
	p := m.(*mqttp.Connect)
	sym.Assert(p.Version() == c.v, "protocol version differs")
	sym.Assert(p.IsClean() == c.clean, "clean flag differs")
	sym.Assert(p.KeepAlive() == c.keep, "keep alive differs")
	sym.Assert(sym.EqBytes(p.ClientID(), c.cid), "client identifier differs")
	u, w := p.Credentials()
	sym.Assert(sym.EqBytes(u, c.user), "user name differs")
	sym.Assert(sym.EqBytes(w, c.pass), "password differs")
	will := p.Will()
	sym.Assert((will != nil) == c.will, "presence of the will differs")
	if c.will {
		sym.Assert(sym.And(sym.EqStr(will.Topic(), string(c.wtopic)), sym.EqBytes(will.Payload(), c.wload)),
			"will topic or payload differs")
		sym.Assert(byte(will.QoS()) == c.wqos, "will QoS differs")
		sym.Assert(will.Retain() == c.wr, "will retain differs")
		sym.Assert(!will.Dup(), "will is marked as a duplicate")
		if c.v == v50 {
			sameProps(will, c.wprops)
		}
	}
	if c.v == v50 {
		sameProps(p, c.props)
	}
}

func connectCase(body []byte, v mqttp.ProtocolVersion) {
	c := refDecodeConnect(body)
	if m, ok := accept(v, mqttp.CONNECT, packet(0x10, body), c.ok); ok {
		checkConnect(m, c)
	}
}

var protoName = [3]string{"MQTT", "MQTT", "MQIsdp"}

// A01_header: arbitrary protocol name, level, flags and keep alive in front of an empty client id.
func A01_header() {
	head := sym.Bytes("head", 0, sym.Bound("connect header bytes", 12, 14))
	tail := [][]byte{{}, {0, 0}, {0, 0, 0}}[sym.Choose("tail", 3)]
	connectCase(cat(head, tail), v311)
}

func connectHead(v int, flags byte) []byte {
	lvl := [3]byte{4, 5, 3}[v]
	return cat(lp([]byte(protoName[v])), []byte{lvl, flags, sym.U8("keepHi"), sym.U8("keepLo")})
}

// A01_rawV3: a correct 3.x header with arbitrary flags, then an arbitrary payload.
func A01_rawV3() {
	v := sym.Choose("v", 2) * 2
	flags := sym.U8("flags")
	connectCase(cat(connectHead(v, flags), sym.Bytes("rest", 0, sym.Bound("CONNECT 3.x payload bytes", 10, 12))), versions[v])
}

// A01_rawV5: the same for 5.0; the first property block is arbitrary as well.
func A01_rawV5() {
	flags := sym.U8("flags")
	connectCase(cat(connectHead(1, flags), sym.Bytes("rest", 0, sym.Bound("CONNECT 5.0 payload bytes", 6, 8))), v50)
}

// A01_fields: every field present that the flags call for; one of them has arbitrary content and an
// arbitrary error in its length prefix.
func A01_fields() {
	v := sym.Choose("v", 3)
	flags := sym.U8("flags")
	body := connectHead(v, flags)
	which := sym.Choose("field", 5)
	x := sym.Bytes("content", 0, sym.Bound("CONNECT field bytes", 3, 5))
	skew := sym.U8("length error")
	add := func(i int, fixed string) {
		f := lp([]byte(fixed))
		if i == which {
			f = lp(x)
			f[1] += skew
		}
		body = append(body, f...)
	}
	if v == 1 {
		body = append(body, 0)
	}
	add(0, "c")
	if flags&4 != 0 {
		if v == 1 {
			body = append(body, 0)
		}
		add(1, "t")
		add(2, "p")
	}
	if flags&0x80 != 0 {
		add(3, "u")
	}
	if flags&0x40 != 0 {
		add(4, "w")
	}
	connectCase(body, v311)
}

// A01_willProps: 5.0 will properties.
func A01_willProps() {
	body := connectHead(1, 0x06|sym.U8("flags")&0x38)
	ps := sym.Bytes("wprops", 0, sym.Bound("will property bytes", 5, 8))
	n := byte(len(ps))
	if sym.Choose("plen", 2) == 1 {
		n = sym.U8("plen.v")
	}
	body = cat(body, []byte{0}, lp([]byte("c")), []byte{n}, ps, lp([]byte("t")), lp([]byte("p")))
	connectCase(body, v50)
}

// A01_props: 5.0 connect properties.
func A01_props() {
	body := connectHead(1, 2)
	ps := sym.Bytes("props", 0, sym.Bound("CONNECT property bytes", 7, 10))
	body = cat(body, []byte{byte(len(ps))}, ps, lp([]byte("c")))
	connectCase(body, v50)
}

// ---- CONNACK

func A02_connack() {
	connackCase(anyVersion(), sym.Bytes("body", 0, sym.Bound("CONNACK body bytes", 9, 11)))
}

func connackCase(v mqttp.ProtocolVersion, body []byte) {
	r := &rd{b: body}
	f, c := r.u8(), r.u8()
	ok := !r.bad && f&0xFE == 0 && refReason(mqttp.CONNACK, c)
	var ps []rprop
	if ok && v == v50 {
		ps = r.props(mqttp.CONNACK)
	}
	ok = ok && !r.bad && r.left() == 0
	if m, k := accept(v, mqttp.CONNACK, packet(0x20, body), ok); k {
		p := m.(*mqttp.ConnAck)
		sym.Assert(p.SessionPresent() == (f&1 == 1), "session present differs")
		sym.Assert(byte(p.ReturnCode()) == c, "return code differs")
		if v == v50 {
			sameProps(m, ps)
		}
	}
}

// ---- PUBLISH

func publishCase(v mqttp.ProtocolVersion, flags byte, body []byte) {
	r := &rd{b: body}
	qos, dup := flags>>1&3, flags&8 != 0
	ok := qos != 3 && !(dup && qos == 0)
	var topic []byte
	var id uint16
	var ps []rprop
	if ok {
		topic = r.lp()
		ok = !r.bad && refTopicName(topic) && (v == v50 || len(topic) > 0)
	}
	if ok && qos > 0 {
		id = r.u16()
	}
	if ok && v == v50 {
		ps = r.props(mqttp.PUBLISH)
		ok = !r.bad && !hasProp(ps, 0x18)
		if ok && len(topic) == 0 {
			ok = false
			for _, p := range ps {
				if p.id == 0x23 {
					ok = p.num != 0
				}
			}
		}
	}
	ok = ok && !r.bad
	if m, k := accept(v, mqttp.PUBLISH, packet(0x30|flags, body), ok); k {
		p := m.(*mqttp.Publish)
		sym.Assert(sym.EqStr(p.Topic(), string(topic)), "topic differs")
		sym.Assert(sym.EqBytes(p.Payload(), body[r.p:]), "payload differs")
		sym.Assert(byte(p.QoS()) == qos, "QoS differs")
		sym.Assert(p.Dup() == dup, "DUP differs")
		sym.Assert(p.Retain() == (flags&1 == 1), "RETAIN differs")
		if qos > 0 {
			checkID(m, id)
		}
		if v == v50 {
			sameProps(m, ps)
		}
	}
}

// A03_v3: arbitrary flags and body under 3.x.
func A03_v3() {
	publishCase(anyV3(), sym.U8("flags")&15, sym.Bytes("body", 0, sym.Bound("PUBLISH 3.x body bytes", 8, 10)))
}

// A03_v5: the same under 5.0.
func A03_v5() {
	publishCase(v50, sym.U8("flags")&15, sym.Bytes("body", 0, sym.Bound("PUBLISH 5.0 body bytes", 8, 10)))
}

// A03_props: a correct topic and identifier, then an arbitrary property block and a payload.
func A03_props() {
	ps := sym.Bytes("props", 0, sym.Bound("PUBLISH property bytes", 7, 9))
	flags := []byte{0, 2}[sym.Choose("qos", 2)]
	topic := []string{"", "t"}[sym.Choose("topic", 2)]
	body := lp([]byte(topic))
	if flags != 0 {
		body = append(body, sym.U8("id1"), sym.U8("id2"))
	}
	body = cat(body, []byte{byte(len(ps))}, ps, []byte{'x'})
	publishCase(v50, flags, body)
}

// ---- PUBACK, PUBREC, PUBREL, PUBCOMP

var ackTypes = [4]mqttp.Type{mqttp.PUBACK, mqttp.PUBREC, mqttp.PUBREL, mqttp.PUBCOMP}

func A04_ack() {
	v := anyVersion()
	t := ackTypes[sym.Choose("type", 4)]
	ackCase(v, t, sym.Bytes("body", 0, sym.Bound("acknowledgement body bytes", 9, 11)))
}

func ackCase(v mqttp.ProtocolVersion, t mqttp.Type, body []byte) {
	r := &rd{b: body}
	id := r.u16()
	var code byte
	var ps []rprop
	ok := true
	if !r.bad && v == v50 && r.left() > 0 {
		code = r.u8()
		ok = refReason(t, code)
		if ok && r.left() > 0 {
			ps = r.props(t)
		}
	}
	ok = ok && !r.bad && r.left() == 0
	if m, k := accept(v, t, packet(first(t), body), ok); k {
		checkID(m, id)
		sym.Assert(byte(m.(*mqttp.Ack).Reason()) == code, "reason code differs")
		if v == v50 {
			sameProps(m, ps)
		}
	}
}

// ---- SUBSCRIBE

type refSubTopic struct {
	full []byte
	t    refTopic
	ops  byte
}

func refOptions(v mqttp.ProtocolVersion, o byte) bool {
	if o&3 == 3 {
		return false
	}
	if v == v50 {
		return o&0xC0 == 0 && o&0x30 != 0x30
	}
	return o&0xFC == 0
}

func sameTopic(x *mqttp.Topic, full []byte, t refTopic) {
	sym.Assert(sym.EqStr(x.Full(), string(full)), "topic differs")
	sym.Assert(sym.EqStr(x.Filter(), string(t.rest)), "topic filter differs")
	sym.Assert(sym.EqStr(x.DollarPrefix(), string(t.prefix)), "$ prefix differs")
	sym.Assert(sym.EqStr(x.ShareName(), string(t.share)), "share name differs")
}

func subscribeCase(v mqttp.ProtocolVersion, body []byte) {
	r := &rd{b: body}
	id := r.u16()
	var ps []rprop
	if !r.bad && v == v50 {
		ps = r.props(mqttp.SUBSCRIBE)
	}
	var ts []refSubTopic
	ok := true
	for ok && !r.bad && r.left() > 0 {
		x := refSubTopic{full: r.lp()}
		x.ops = r.u8()
		if r.bad || !refOptions(v, x.ops) {
			ok = false
			break
		}
		x.t = refSub(x.full)
		ok = x.t.ok
		ts = append(ts, x)
	}
	ok = ok && !r.bad && len(ts) > 0
	if m, k := accept(v, mqttp.SUBSCRIBE, packet(0x82, body), ok); k {
		checkID(m, id)
		i := 0
		_ = m.(*mqttp.Subscribe).ForEachTopic(func(t *mqttp.Topic) error {
			sym.Assert(i < len(ts), "more topics are reported than the packet has")
			sameTopic(t, ts[i].full, ts[i].t)
			sym.Assert(t.Ops().Raw() == ts[i].ops, "subscription options differ")
			i++
			return nil
		})
		sym.Assert(i == len(ts), "fewer topics are reported than the packet has")
		if v == v50 {
			sameProps(m, ps)
		}
	}
}

func A05_raw() {
	subscribeCase(anyVersion(), sym.Bytes("body", 0, sym.Bound("SUBSCRIBE body bytes", 8, 9)))
}

// A05_topics: several correctly framed topics with arbitrary content and options.
func A05_topics() {
	v := anyVersion()
	body := []byte{sym.U8("id1"), sym.U8("id2")}
	if v == v50 {
		body = append(body, 0)
	}
	n := 1 + sym.Choose("topics", sym.Bound("SUBSCRIBE topics", 3, 4))
	k := sym.Bound("bytes per topic", 2, 2)
	for i := 0; i < n; i++ {
		hi := k
		if i > 0 {
			hi = 1
		}
		body = cat(body, lp(sym.Bytes("topic", 1, hi)), []byte{sym.U8("ops")})
	}
	body = append(body, sym.Bytes("trail", 0, 1)...)
	subscribeCase(v, body)
}

// A05_long: one longer topic.
func A05_long() {
	v := anyV3()
	body := cat([]byte{0, 1}, lp(sym.Bytes("topic", 3, sym.Bound("bytes of a single topic", 5, 6))), []byte{sym.U8("ops")})
	subscribeCase(v, body)
}

// A05_share: shared subscriptions.
func A05_share() {
	v := anyV3()
	tail := sym.Bytes("tail", 0, sym.Bound("bytes after $share", 5, 6))
	body := cat([]byte{0, 1}, lp(cat([]byte("$share"), tail)), []byte{0})
	subscribeCase(v, body)
}

// A05_props: 5.0 properties.
func A05_props() {
	ps := sym.Bytes("props", 0, sym.Bound("SUBSCRIBE property bytes", 7, 10))
	subscribeCase(v50, cat([]byte{0, 1, byte(len(ps))}, ps, lp([]byte("t")), []byte{sym.U8("ops")}))
}

// ---- SUBACK

func A06_suback() {
	subackCase(anyVersion(), sym.Bytes("body", 0, sym.Bound("SUBACK body bytes", 7, 9)))
}

func subackCase(v mqttp.ProtocolVersion, body []byte) {
	r := &rd{b: body}
	id := r.u16()
	var ps []rprop
	if !r.bad && v == v50 {
		ps = r.props(mqttp.SUBACK)
	}
	ok := !r.bad
	var codes []byte
	if ok {
		codes = body[r.p:]
		for _, c := range codes {
			if v == v50 {
				ok = sym.And(ok, refReason(mqttp.SUBACK, c))
			} else {
				ok = sym.And(ok, sym.Or(c <= 2, c == 0x80))
			}
		}
	}
	if m, k := accept(v, mqttp.SUBACK, packet(0x90, body), sym.And(ok, true)); k {
		checkID(m, id)
		sameCodes(m.(*mqttp.SubAck).ReturnCodes(), codes)
		if v == v50 {
			sameProps(m, ps)
		}
	}
}

func sameCodes(got []mqttp.ReasonCode, want []byte) {
	sym.Assert(len(got) == len(want), "number of return codes differs")
	for i := range want {
		sym.Assert(byte(got[i]) == want[i], "return code differs")
	}
}

// ---- UNSUBSCRIBE

func unsubscribeCase(v mqttp.ProtocolVersion, body []byte) {
	r := &rd{b: body}
	id := r.u16()
	var ps []rprop
	if !r.bad && v == v50 {
		ps = r.props(mqttp.UNSUBSCRIBE)
	}
	var ts []refSubTopic
	ok := true
	for ok && !r.bad && r.left() > 0 {
		x := refSubTopic{full: r.lp()}
		if r.bad {
			break
		}
		x.t = refSub(x.full)
		ok = x.t.ok
		ts = append(ts, x)
	}
	ok = ok && !r.bad && len(ts) > 0
	if m, k := accept(v, mqttp.UNSUBSCRIBE, packet(0xA2, body), ok); k {
		checkID(m, id)
		i := 0
		_ = m.(*mqttp.UnSubscribe).ForEachTopic(func(t *mqttp.Topic) error {
			sym.Assert(i < len(ts), "more topics are reported than the packet has")
			sameTopic(t, ts[i].full, ts[i].t)
			i++
			return nil
		})
		sym.Assert(i == len(ts), "fewer topics are reported than the packet has")
		if v == v50 {
			sameProps(m, ps)
		}
	}
}

func A07_raw() {
	unsubscribeCase(anyVersion(), sym.Bytes("body", 0, sym.Bound("UNSUBSCRIBE body bytes", 8, 9)))
}

// A07_topics: several correctly framed topics.
func A07_topics() {
	v := anyVersion()
	body := []byte{sym.U8("id1"), sym.U8("id2")}
	if v == v50 {
		body = append(body, 0)
	}
	n := 1 + sym.Choose("topics", sym.Bound("UNSUBSCRIBE topics", 4, 5))
	for i := 0; i < n; i++ {
		hi := 2
		if i > 0 {
			hi = 1
		}
		body = cat(body, lp(sym.Bytes("topic", 1, hi)))
	}
	body = append(body, sym.Bytes("trail", 0, 1)...)
	unsubscribeCase(v, body)
}

// A07_props: 5.0 properties.
func A07_props() {
	ps := sym.Bytes("props", 0, sym.Bound("UNSUBSCRIBE property bytes", 8, 11))
	unsubscribeCase(v50, cat([]byte{0, 1, byte(len(ps))}, ps, lp([]byte("t"))))
}

// ---- UNSUBACK

func A08_unsuback() {
	unsubackCase(anyVersion(), sym.Bytes("body", 0, sym.Bound("UNSUBACK body bytes", 7, 9)))
}

func unsubackCase(v mqttp.ProtocolVersion, body []byte) {
	r := &rd{b: body}
	id := r.u16()
	var ps []rprop
	var codes []byte
	ok := !r.bad
	if ok && v == v50 && r.left() > 0 {
		ps = r.props(mqttp.UNSUBACK)
		ok = !r.bad
		if ok {
			codes = body[r.p:]
			r.p = len(body)
			for _, c := range codes {
				ok = sym.And(ok, refReason(mqttp.UNSUBACK, c))
			}
		}
	}
	ok = sym.And(ok, r.left() == 0)
	if m, k := accept(v, mqttp.UNSUBACK, packet(0xB0, body), ok); k {
		checkID(m, id)
		sameCodes(m.(*mqttp.UnSubAck).ReturnCodes(), codes)
		if v == v50 {
			sameProps(m, ps)
		}
	}
}

// ---- PINGREQ, PINGRESP, DISCONNECT, AUTH

func A09_ping() {
	t := [2]mqttp.Type{mqttp.PINGREQ, mqttp.PINGRESP}[sym.Choose("type", 2)]
	body := sym.Bytes("body", 0, 3)
	accept(anyVersion(), t, packet(first(t), body), len(body) == 0)
}

func A09_disconnect() {
	v := anyVersion()
	body := sym.Bytes("body", 0, sym.Bound("DISCONNECT body bytes", 9, 11))
	sym.Assume(len(body) != 1) // the library requires the property length there, the standard does not
	disconnectCase(v, body)
}

func disconnectCase(v mqttp.ProtocolVersion, body []byte) {
	r := &rd{b: body}
	var code byte
	var ps []rprop
	ok := true
	if v == v50 && len(body) > 0 {
		code = r.u8()
		ok = refReason(mqttp.DISCONNECT, code)
		if ok {
			ps = r.props(mqttp.DISCONNECT)
		}
	}
	ok = ok && !r.bad && r.left() == 0
	if m, k := accept(v, mqttp.DISCONNECT, packet(0xE0, body), ok); k {
		sym.Assert(byte(m.(*mqttp.Disconnect).ReasonCode()) == code, "reason code differs")
		if v == v50 {
			sameProps(m, ps)
		}
	}
}

func A10_auth() {
	authCase(sym.Bytes("body", 0, sym.Bound("AUTH body bytes", 9, 11)))
}

func authCase(body []byte) {
	r := &rd{b: body}
	var code byte
	var ps []rprop
	ok := true
	if len(body) > 0 {
		code = r.u8()
		ok = refReason(mqttp.AUTH, code)
		if ok && r.left() > 0 {
			ps = r.props(mqttp.AUTH)
		}
	}
	ok = ok && !r.bad && r.left() == 0
	if m, k := accept(v50, mqttp.AUTH, packet(0xF0, body), ok); k {
		sym.Assert(byte(m.(*mqttp.Auth).ReasonCode()) == code, "reason code differs")
		sameProps(m, ps)
	}
}

// A10_v3: there is no AUTH packet before 5.0.
func A10_v3() {
	accept(anyV3(), mqttp.AUTH, packet(0xF0, sym.Bytes("body", 0, 4)), false)
}

package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// Round trips: decode(encode(m)) reports what m reports.

// roundTrip encodes m, checks the packet frame, decodes it and compares. It returns the packet body.
func roundTrip(m mqttp.IFace) (mqttp.IFace, []byte) {
	n, err := m.Size()
	sym.Assert(err == nil, "the size of a valid packet is refused")
	buf := mustEncode(m)
	sym.Assert(len(buf) == n, "the encoded length differs from the announced size")
	body := wire(m, flagsOf(m), buf)
	v := m.Version()
	g := mustDecode(v, buf)
	sameMsg(m, g)
	sym.Reach("round trip")
	return g, body
}

func roundSize() size {
	return size{topic: sym.Bound("topic bytes", 3, 4), load: sym.Bound("payload bytes", 3, 5),
		str: sym.Bound("string bytes", 2, 3), props: 1, list: sym.Bound("list entries", 3, 4)}
}

// wireProps compares the property block that starts at r with the properties set.
func wireProps(r *rd, t mqttp.Type, v mqttp.ProtocolVersion, ps []rprop) {
	if v == v50 && (r.left() > 0 || len(ps) > 0) {
		got := r.props(t)
		sym.Assert(!r.bad, "the property block of the packet is malformed")
		sameWireProps(ps, got)
	}
}

// R01_connect: CONNECT without a will.
func R01_connect() {
	v := anyVersion()
	m, ps, _ := anyConnect(v, roundSize(), false)
	_, body := roundTrip(m)
	r := &rd{b: body}
	r.lp()
	r.u32()
	wireProps(r, mqttp.CONNECT, v, ps)
}

// R01_will: CONNECT with a will; the other fields smaller.
func R01_will() {
	v := anyVersion()
	s := roundSize()
	m := mqttp.NewConnect(v)
	m.SetClean(true)
	w, wps := anyWill(v, s)
	sym.Assert(m.SetWill(w) == nil, "a valid will is refused")
	user := []byte("u")
	if v == v50 && sym.Choose("user", 2) == 1 {
		user = nil
	}
	sym.Assert(m.SetCredentials(user, []byte{sym.U8("password")}) == nil, "valid credentials are refused")
	_, body := roundTrip(m)
	r := &rd{b: body}
	r.lp()
	r.u32()
	if v == v50 {
		r.props(mqttp.CONNECT)
	}
	r.lp()
	wireProps(r, mqttp.PUBLISH, v, wps)
}

// R01_props: two properties.
func R01_props() {
	m := mqttp.NewConnect(v50)
	ps := setAny(m, mqttp.CONNECT, 2, sym.Bound("property string bytes", 1, 2))
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: 10}, mqttp.CONNECT, v50, ps)
}

// R02_connack
func R02_connack() {
	v := anyVersion()
	s := roundSize()
	s.props = 2
	m, ps := anyConnAck(v, s)
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: 2}, mqttp.CONNACK, v, ps)
}

func R03_publish() {
	v := anyVersion()
	m, ps := anyPublish(v, roundSize())
	_, body := roundTrip(m)
	r := &rd{b: body}
	r.lp()
	if m.QoS() != 0 {
		r.u16()
	}
	wireProps(r, mqttp.PUBLISH, v, ps)
}

// R03_props: two properties.
func R03_props() {
	m := mqttp.NewPublish(v50)
	sym.Assert(m.SetTopic("t") == nil, "a valid topic is refused")
	ps := setAny(m, mqttp.PUBLISH, 2, sym.Bound("property string bytes", 1, 2), 0x18)
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: 3}, mqttp.PUBLISH, v50, ps)
}

// R03_alias: an empty topic stands for a topic alias.
func R03_alias() {
	m := mqttp.NewPublish(v50)
	m.SetPayload(sym.Bytes("payload", 0, 2))
	a := sym.U16("alias")
	sym.Assume(a != 0)
	sym.Assert(m.PropertySet(mqttp.PropertyTopicAlias, a) == nil, "a topic alias is refused")
	roundTrip(m)
}

func R04_ack() {
	v := anyVersion()
	t := ackTypes[sym.Choose("type", 4)]
	s := roundSize()
	s.props = 2
	m, ps := anyAck(v, t, s)
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: least(len(body), 3)}, t, v, ps)
}

func R05_subscribe() {
	v := anyVersion()
	m, ps := anySubscribe(v, roundSize())
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: 2}, mqttp.SUBSCRIBE, v, ps)
}

// R05_props: two properties.
func R05_props() {
	m := mqttp.NewSubscribe(v50)
	m.SetPacketID(1)
	t, _ := mqttp.NewSubscribeTopic([]byte("t"), 1)
	sym.Assert(m.AddTopic(t) == nil, "a topic is not added")
	ps := setAny(m, mqttp.SUBSCRIBE, 2, sym.Bound("property string bytes", 1, 2))
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: 2}, mqttp.SUBSCRIBE, v50, ps)
}

func R06_suback() {
	v := anyVersion()
	s := roundSize()
	s.props = 2
	m, ps := anySubAck(v, s)
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: 2}, mqttp.SUBACK, v, ps)
}

func R07_unsubscribe() {
	v := anyVersion()
	s := roundSize()
	s.props = 2
	m, ps := anyUnSubscribe(v, s)
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: 2}, mqttp.UNSUBSCRIBE, v, ps)
}

func R08_unsuback() {
	v := anyVersion()
	s := roundSize()
	s.props = 2
	m, ps := anyUnSubAck(v, s)
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: 2}, mqttp.UNSUBACK, v, ps)
}

func R09_ping() {
	v := anyVersion()
	var m mqttp.IFace = mqttp.NewPingReq(v)
	if sym.Choose("type", 2) == 1 {
		m = mqttp.NewPingResp(v)
	}
	_, body := roundTrip(m)
	sym.Assert(len(body) == 0, "a ping has a body")
}

func R09_disconnect() {
	v := anyVersion()
	s := roundSize()
	s.props = 2
	m, ps := anyDisconnect(v, s)
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: least(len(body), 1)}, mqttp.DISCONNECT, v, ps)
}

func R10_auth() {
	s := roundSize()
	s.props = 2
	m, ps := anyAuth(s)
	_, body := roundTrip(m)
	wireProps(&rd{b: body, p: 1}, mqttp.AUTH, v50, ps)
}

// R11_downgrade: a 5.0 message switched to a 3.x version is encoded like a 3.x message.
func R11_downgrade() {
	t := mqttp.Type(1 + sym.Choose("type", 14))
	v := anyV3()
	s := small
	m := messageOf(v50, t, s)
	switch x := m.(type) {
	case *mqttp.Connect: // 3.x has no empty client identifier without clean session, no password alone
		u, p := x.Credentials()
		sym.Assume(len(u) > 0 || len(p) == 0)
		sym.Assume(len(x.ClientID()) > 0 || x.IsClean())
	case *mqttp.SubAck:
		for _, c := range x.ReturnCodes() {
			sym.Assume(sym.Or(c <= 2, c == 0x80))
		}
	case *mqttp.Subscribe:
		for _, c := range topicsOf(x) {
			sym.Assume(c.Ops() <= 2)
		}
	}
	m.SetVersion(v)
	sym.Assert(m.PropertyGet(mqttp.PropertyUserProperty) == nil, "a 3.x message reports a property")
	buf := mustEncode(m)
	g := mustDecode(v, buf)
	body := wire(m, flagsOf(m), buf)
	switch x := g.(type) {
	case *mqttp.Connect:
		sameMsg(m, g)
	case *mqttp.Ack:
		sym.Assert(len(body) == 2, "a 3.x acknowledgement is not two bytes long")
		i, _ := m.ID()
		checkID(g, uint16(i))
	case *mqttp.Disconnect:
		sym.Assert(len(body) == 0, "a 3.x DISCONNECT is not empty")
	default:
		sameMsg(m, x)
	}
	sym.Reach("downgraded")
}

// R11_upgrade: a 3.x message switched to 5.0 is a valid 5.0 message without properties.
func R11_upgrade() {
	m := messageOf(v311, mqttp.Type(1+sym.Choose("type", 14)), small)
	if x, ok := m.(*mqttp.UnSubAck); ok {
		for _, c := range x.ReturnCodes() {
			sym.Assume(refReason(mqttp.UNSUBACK, byte(c)))
		}
	}
	m.SetVersion(v50)
	sym.Reach("upgraded")
	roundTrip(m)
}

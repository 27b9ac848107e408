package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// Builders: messages assembled through the public API, with every field arbitrary within small sizes.

// allowedIDs lists the property identifiers a packet type may carry.
func allowedIDs(t mqttp.Type, not ...byte) []byte {
	var out []byte
next:
	for id := byte(1); id <= 0x2A; id++ {
		if _, ok, _ := refProp(id, t); !ok {
			continue
		}
		for _, x := range not {
			if x == id {
				continue next
			}
		}
		out = append(out, id)
	}
	return out
}

// utfBytes is a well-formed UTF-8 string.
func utfBytes(name string, lo, hi int) []byte {
	b := sym.Bytes(name, lo, hi)
	sym.Assume(goodUTF8(b))
	return b
}

func topicName(name string, lo, hi int) []byte {
	b := sym.Bytes(name, lo, hi)
	sym.Assume(refTopicName(b))
	return b
}

// anyValue makes an arbitrary value for property id: the value to set, and what the packet then carries.
func anyValue(id byte, t mqttp.Type, n int) (interface{}, []rprop) {
	kind, _, dup := refProp(id, t)
	p := rprop{id: id, kind: kind}
	switch kind {
	case kByte:
		x := sym.U8("prop")
		p.num = uint32(x)
		return x, []rprop{p}
	case kShort:
		x := sym.U16("prop")
		p.num = uint32(x)
		return x, []rprop{p}
	case kInt:
		p.num = sym.U32("prop")
		return p.num, []rprop{p}
	case kVar:
		p.num = sym.U32("prop")
		sym.Assume(p.num <= 268435455)
		if dup && sym.Choose("list", 2) == 1 {
			q := p
			q.num = sym.U32("prop")
			sym.Assume(q.num <= 268435455)
			return []uint32{p.num, q.num}, []rprop{p, q}
		}
		return p.num, []rprop{p}
	case kStr:
		p.s = utfBytes("prop", 0, n)
		return string(p.s), []rprop{p}
	case kBin:
		p.s = sym.Bytes("prop", 0, n)
		return p.s, []rprop{p}
	}
	p.s, p.t = utfBytes("prop.k", 0, n), utfBytes("prop.v", 0, n)
	pair := mqttp.StringPair{K: string(p.s), V: string(p.t)}
	switch sym.Choose("list", 3) {
	case 0:
		return pair, []rprop{p}
	case 1:
		return []mqttp.StringPair{pair}, []rprop{p}
	}
	q := p
	q.s, q.t = utfBytes("prop.k", 0, 1), utfBytes("prop.v", 0, 1)
	return []mqttp.StringPair{pair, {K: string(q.s), V: string(q.t)}}, []rprop{p, q}
}

// setAny sets up to max arbitrary properties with different identifiers.
func setAny(m mqttp.IFace, t mqttp.Type, max, n int, not ...byte) []rprop {
	var out []rprop
	count := sym.Choose("properties", max+1)
	ids := allowedIDs(t, not...)
	last := -1
	for i := 0; i < count; i++ {
		// identifiers in increasing order: the order of the calls is the subject of P02
		k := sym.Choose("property", len(ids))
		sym.Assume(k > last)
		last = k
		v, ps := anyValue(ids[k], t, n)
		sym.Assert(m.PropertySet(mqttp.PropertyID(ids[k]), v) == nil, "a legal property is refused")
		out = append(out, ps...)
	}
	return out
}

func subIDs(ps []rprop, id byte) (out []rprop) {
	for _, p := range ps {
		if p.id == id {
			out = append(out, p)
		}
	}
	return
}

// sameWireProps compares two property blocks: per identifier the same values in the same order.
func sameWireProps(a, b []rprop) {
	sym.Assert(len(a) == len(b), "number of properties in the packet differs")
	done := [64]bool{}
	for _, p := range a {
		if done[p.id&63] {
			continue
		}
		done[p.id&63] = true
		x, y := subIDs(a, p.id), subIDs(b, p.id)
		sym.Assert(len(x) == len(y), "number of values of a property in the packet differs")
		for i := range x {
			sym.Assert(sym.And(x[i].num == y[i].num, sym.EqBytes(x[i].s, y[i].s), sym.EqBytes(x[i].t, y[i].t)),
				"a property value in the packet differs")
		}
	}
}

// wire splits an encoded packet after its fixed header and checks the header.
func wire(m mqttp.IFace, flags byte, buf []byte) []byte {
	r := &rd{b: buf}
	sym.Assert(r.u8() == byte(m.Type())<<4|flags, "the first byte of the packet is wrong")
	n := r.viMin()
	sym.Assert(!r.bad && int(n) == r.left(), "the remaining length of the packet is wrong")
	return buf[r.p:]
}

// pairsOf reads user properties set either way.
func pairsOf(g mqttp.PropertyToType) []mqttp.StringPair {
	if p, err := g.AsStringPair(); err == nil {
		return []mqttp.StringPair{p}
	}
	ps, err := g.AsStringPairs()
	sym.Assert(err == nil, "user properties are not readable")
	return ps
}

// sameMsgProps compares the properties two messages report.
func sameMsgProps(a, b mqttp.IFace) {
	for id := byte(1); id <= 0x2A; id++ {
		x, y := a.PropertyGet(mqttp.PropertyID(id)), b.PropertyGet(mqttp.PropertyID(id))
		sym.Assert((x == nil) == (y == nil), "a property is lost or invented")
		if x == nil {
			continue
		}
		sym.Assert(x.Type() == y.Type(), "a property changes its type")
		switch int(x.Type()) {
		case mqttp.PropertyTypeByte:
			u, e := x.AsByte()
			w, f := y.AsByte()
			sym.Assert(e == nil && f == nil && u == w, "a property changes its value (byte)")
		case mqttp.PropertyTypeShort:
			u, e := x.AsShort()
			w, f := y.AsShort()
			sym.Assert(e == nil && f == nil && u == w, "a property changes its value (two byte integer)")
		case mqttp.PropertyTypeInt:
			u, e := x.AsInt()
			w, f := y.AsInt()
			sym.Assert(e == nil && f == nil && u == w, "a property changes its value (four byte integer)")
		case mqttp.PropertyTypeVarInt:
			u, e := x.AsInt()
			w, f := y.AsInt()
			sym.Assert((e == nil) == (f == nil), "a property becomes a list")
			sym.Assert(u == w, "a property changes its value (variable byte integer)")
		case mqttp.PropertyTypeString:
			u, e := x.AsString()
			w, f := y.AsString()
			sym.Assert(e == nil && f == nil && sym.EqStr(u, w), "a property changes its value (string)")
		case mqttp.PropertyTypeBinary:
			u, e := x.AsBinary()
			w, f := y.AsBinary()
			sym.Assert(e == nil && f == nil && sym.EqBytes(u, w), "a property changes its value (binary)")
		default:
			u, w := pairsOf(x), pairsOf(y)
			sym.Assert(len(u) == len(w), "the number of user properties changes")
			for i := range u {
				sym.Assert(sym.And(sym.EqStr(u[i].K, w[i].K), sym.EqStr(u[i].V, w[i].V)), "a user property changes")
			}
		}
	}
}

func topicsOf(m mqttp.IFace) []*mqttp.Topic {
	var out []*mqttp.Topic
	add := func(t *mqttp.Topic) error {
		out = append(out, t)
		return nil
	}
	switch x := m.(type) {
	case *mqttp.Subscribe:
		_ = x.ForEachTopic(add)
	case *mqttp.UnSubscribe:
		_ = x.ForEachTopic(add)
	}
	return out
}

func samePublish(a, b *mqttp.Publish) {
	sym.Assert(sym.EqStr(a.Topic(), b.Topic()), "topic changes")
	sym.Assert(sym.EqBytes(a.Payload(), b.Payload()), "payload changes")
	sym.Assert(a.QoS() == b.QoS(), "QoS changes")
	sym.Assert(a.Retain() == b.Retain(), "RETAIN changes")
	sym.Assert(a.Dup() == b.Dup(), "DUP changes")
}

// sameMsg compares everything two messages of one type report.
func sameMsg(a, b mqttp.IFace) {
	sameFields(a, b)
	if a.Version() == v50 {
		sameMsgProps(a, b)
	}
}

// sameFields leaves the properties out.
func sameFields(a, b mqttp.IFace) {
	sym.Assert(a.Type() == b.Type(), "packet type changes")
	sym.Assert(a.Version() == b.Version(), "protocol version changes")
	x, e := a.ID()
	y, f := b.ID()
	hasID := true
	if p, ok := a.(*mqttp.Publish); ok {
		hasID = p.QoS() != mqttp.QoS0
	}
	if hasID {
		sym.Assert((e == nil) == (f == nil) && x == y, "packet identifier changes")
	}
	switch p := a.(type) {
	case *mqttp.Connect:
		q := b.(*mqttp.Connect)
		sym.Assert(p.IsClean() == q.IsClean(), "clean flag changes")
		sym.Assert(p.KeepAlive() == q.KeepAlive(), "keep alive changes")
		sym.Assert(sym.EqBytes(p.ClientID(), q.ClientID()), "client identifier changes")
		u, w := p.Credentials()
		u2, w2 := q.Credentials()
		sym.Assert(sym.And(sym.EqBytes(u, u2), sym.EqBytes(w, w2)), "credentials change")
		sym.Assert((p.Will() == nil) == (q.Will() == nil), "the will is lost or invented")
		if p.Will() != nil {
			samePublish(p.Will(), q.Will())
			if a.Version() == v50 {
				sameMsgProps(p.Will(), q.Will())
			}
		}
	case *mqttp.ConnAck:
		q := b.(*mqttp.ConnAck)
		sym.Assert(p.SessionPresent() == q.SessionPresent(), "session present changes")
		sym.Assert(p.ReturnCode() == q.ReturnCode(), "return code changes")
	case *mqttp.Publish:
		samePublish(p, b.(*mqttp.Publish))
	case *mqttp.Ack:
		sym.Assert(p.Reason() == b.(*mqttp.Ack).Reason(), "reason code changes")
	case *mqttp.SubAck:
		sameReasons(p.ReturnCodes(), b.(*mqttp.SubAck).ReturnCodes())
	case *mqttp.UnSubAck:
		if a.Version() == v50 {
			sameReasons(p.ReturnCodes(), b.(*mqttp.UnSubAck).ReturnCodes())
		}
	case *mqttp.Disconnect:
		sym.Assert(p.ReasonCode() == b.(*mqttp.Disconnect).ReasonCode(), "reason code changes")
	case *mqttp.Auth:
		sym.Assert(p.ReasonCode() == b.(*mqttp.Auth).ReasonCode(), "reason code changes")
	case *mqttp.Subscribe, *mqttp.UnSubscribe:
		ts, us := topicsOf(a), topicsOf(b)
		sym.Assert(len(ts) == len(us), "number of topics changes")
		for i := range ts {
			sym.Assert(sym.EqStr(ts[i].Full(), us[i].Full()), "topic changes")
			sym.Assert(sym.EqStr(ts[i].Filter(), us[i].Filter()), "topic filter changes")
			sym.Assert(sym.EqStr(ts[i].ShareName(), us[i].ShareName()), "share name changes")
			sym.Assert(sym.EqStr(ts[i].DollarPrefix(), us[i].DollarPrefix()), "$ prefix changes")
			if a.Type() == mqttp.SUBSCRIBE {
				sym.Assert(ts[i].Ops() == us[i].Ops(), "subscription options change")
			}
		}
	}
}

func sameReasons(a, b []mqttp.ReasonCode) {
	sym.Assert(len(a) == len(b), "number of return codes changes")
	for i := range a {
		sym.Assert(a[i] == b[i], "return code changes")
	}
}

// ---- messages

type size struct{ topic, load, str, props, list int }

// tiny has single-character strings and at most one property.
var tiny = size{topic: 1, load: 1, str: 1, props: 1, list: 1}

// bare has no properties.
var bare = size{topic: 1, load: 1, str: 1, props: 0, list: 2}

// small is the size used by the checks that build messages of every type.
var small = size{topic: 1, load: 1, str: 1, props: 1, list: 2}

func anyPublish(v mqttp.ProtocolVersion, s size) (*mqttp.Publish, []rprop) {
	m := mqttp.NewPublish(v)
	q := mqttp.QosType(sym.Choose("qos", 3))
	dup := sym.Bool("dup")
	sym.Assume(sym.Implies(q == 0, sym.Not(dup)))
	topic, load := topicName("topic", 1, s.topic), sym.Bytes("payload", 0, s.load)
	sym.Assert(m.Set(string(topic), load, q, sym.Bool("retain"), dup) == nil, "a valid message is refused")
	if q != 0 {
		m.SetPacketID(mqttp.IDType(sym.U16("id")))
	}
	var ps []rprop
	if v == v50 {
		ps = setAny(m, mqttp.PUBLISH, s.props, s.str, 0x18)
	}
	return m, ps
}

func anyWill(v mqttp.ProtocolVersion, s size) (*mqttp.Publish, []rprop) {
	w := mqttp.NewPublish(v)
	q := mqttp.QosType(sym.Choose("will.qos", 3))
	topic, load := topicName("will.topic", 1, s.topic), sym.Bytes("will.payload", 1, s.load)
	sym.Assert(w.Set(string(topic), load, q, sym.Bool("will.retain"), false) == nil, "a valid will is refused")
	var ps []rprop
	if v == v50 {
		ps = setAny(w, mqttp.PUBLISH, s.props, s.str, 0x0B, 0x23)
	}
	return w, ps
}

func anyConnect(v mqttp.ProtocolVersion, s size, will bool) (*mqttp.Connect, []rprop, []rprop) {
	m := mqttp.NewConnect(v)
	clean := sym.Bool("clean")
	m.SetClean(clean)
	m.SetKeepAlive(sym.U16("keep alive"))
	cid := sym.Bytes("client id", 0, s.str)
	sym.Assume(refClientID(cid))
	if v != v50 && len(cid) == 0 {
		sym.Assume(clean)
	}
	sym.Assert(m.SetClientID(cid) == nil, "a valid client identifier is refused")
	var wps []rprop
	if will {
		var w *mqttp.Publish
		w, wps = anyWill(v, s)
		sym.Assert(m.SetWill(w) == nil, "a valid will is refused")
	}
	user, pass := sym.Bytes("user", 0, s.str), sym.Bytes("password", 0, s.str)
	sym.Assume(cleanUTF8(user))
	if v != v50 {
		sym.Assume(len(user) > 0 || len(pass) == 0)
	}
	sym.Assert(m.SetCredentials(user, pass) == nil, "valid credentials are refused")
	var ps []rprop
	if v == v50 {
		ps = setAny(m, mqttp.CONNECT, s.props, s.str)
	}
	return m, ps, wps
}

func anyConnAck(v mqttp.ProtocolVersion, s size) (*mqttp.ConnAck, []rprop) {
	m := mqttp.NewConnAck(v)
	m.SetSessionPresent(sym.Bool("session present"))
	c := sym.U8("code")
	sym.Assume(refReason(mqttp.CONNACK, c))
	sym.Assert(m.SetReturnCode(mqttp.ReasonCode(c)) == nil, "a valid return code is refused")
	var ps []rprop
	if v == v50 {
		ps = setAny(m, mqttp.CONNACK, s.props, s.str)
	}
	return m, ps
}

func newAck(v mqttp.ProtocolVersion, t mqttp.Type) *mqttp.Ack {
	switch t {
	case mqttp.PUBACK:
		return mqttp.NewPubAck(v)
	case mqttp.PUBREC:
		return mqttp.NewPubRec(v)
	case mqttp.PUBREL:
		return mqttp.NewPubRel(v)
	}
	return mqttp.NewPubComp(v)
}

func anyAck(v mqttp.ProtocolVersion, t mqttp.Type, s size) (*mqttp.Ack, []rprop) {
	m := newAck(v, t)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	var ps []rprop
	if v == v50 {
		c := sym.U8("code")
		sym.Assume(refReason(t, c))
		m.SetReason(mqttp.ReasonCode(c))
		ps = setAny(m, t, s.props, s.str)
	}
	return m, ps
}

// anyFilter is an arbitrary valid topic filter.
func anyFilter(n int) []byte {
	b := sym.Bytes("filter", 1, n)
	sym.Assume(refSub(b).ok)
	return b
}

func anySubscribe(v mqttp.ProtocolVersion, s size) (*mqttp.Subscribe, []rprop) {
	m := mqttp.NewSubscribe(v)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	n := 1 + sym.Choose("topics", s.list)
	for i := 0; i < n; i++ {
		o := sym.U8("options")
		sym.Assume(refOptions(v, o))
		t, err := mqttp.NewSubscribeTopic(anyFilter(s.topic), mqttp.SubscriptionOptions(o))
		sym.Assert(err == nil, "a valid subscription is refused")
		sym.Assert(m.AddTopic(t) == nil, "a topic is not added")
	}
	var ps []rprop
	if v == v50 {
		ps = setAny(m, mqttp.SUBSCRIBE, s.props, s.str)
	}
	return m, ps
}

func anyUnSubscribe(v mqttp.ProtocolVersion, s size) (*mqttp.UnSubscribe, []rprop) {
	m := mqttp.NewUnSubscribe(v)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	n := 1 + sym.Choose("topics", s.list)
	for i := 0; i < n; i++ {
		t, err := mqttp.NewTopic(anyFilter(s.topic))
		sym.Assert(err == nil, "a valid topic filter is refused")
		sym.Assert(m.AddTopic(t) == nil, "a topic is not added")
	}
	var ps []rprop
	if v == v50 {
		ps = setAny(m, mqttp.UNSUBSCRIBE, s.props, s.str)
	}
	return m, ps
}

func anyCodes(v mqttp.ProtocolVersion, t mqttp.Type, n int) []mqttp.ReasonCode {
	var out []mqttp.ReasonCode
	for k := sym.Choose("codes", n+1); k > 0; k-- {
		c := sym.U8("code")
		if v == v50 {
			sym.Assume(refReason(t, c))
		} else {
			sym.Assume(sym.Or(c <= 2, c == 0x80))
		}
		out = append(out, mqttp.ReasonCode(c))
	}
	return out
}

func anySubAck(v mqttp.ProtocolVersion, s size) (*mqttp.SubAck, []rprop) {
	m := mqttp.NewSubAck(v)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	sym.Assert(m.AddReturnCodes(anyCodes(v, mqttp.SUBACK, s.list)) == nil, "valid return codes are refused")
	var ps []rprop
	if v == v50 {
		ps = setAny(m, mqttp.SUBACK, s.props, s.str)
	}
	return m, ps
}

func anyUnSubAck(v mqttp.ProtocolVersion, s size) (*mqttp.UnSubAck, []rprop) {
	m := mqttp.NewUnSubAck(v)
	m.SetPacketID(mqttp.IDType(sym.U16("id")))
	sym.Assert(m.AddReturnCodes(anyCodes(v, mqttp.UNSUBACK, s.list)) == nil, "valid return codes are refused")
	var ps []rprop
	if v == v50 {
		ps = setAny(m, mqttp.UNSUBACK, s.props, s.str)
	}
	return m, ps
}

func anyDisconnect(v mqttp.ProtocolVersion, s size) (*mqttp.Disconnect, []rprop) {
	m := mqttp.NewDisconnect(v)
	var ps []rprop
	if v == v50 {
		c := sym.U8("code")
		sym.Assume(refReason(mqttp.DISCONNECT, c))
		m.SetReasonCode(mqttp.ReasonCode(c))
		ps = setAny(m, mqttp.DISCONNECT, s.props, s.str)
	}
	return m, ps
}

func anyAuth(s size) (*mqttp.Auth, []rprop) {
	m := mqttp.NewAuth(v50)
	c := sym.U8("code")
	sym.Assume(refReason(mqttp.AUTH, c))
	sym.Assert(m.SetReasonCode(mqttp.ReasonCode(c)) == nil, "a valid reason code is refused")
	return m, setAny(m, mqttp.AUTH, s.props, s.str)
}

// anyMessage is an arbitrary valid message of any type.
func anyMessage(v mqttp.ProtocolVersion, s size) mqttp.IFace {
	n := 14
	if v == v50 {
		n = 15
	}
	return messageOf(v, mqttp.Type(1+sym.Choose("type", n)), s)
}

func messageOf(v mqttp.ProtocolVersion, t mqttp.Type, s size) mqttp.IFace {
	switch t {
	case mqttp.CONNECT:
		if sym.Choose("will", 2) == 0 {
			m, _, _ := anyConnect(v, s, false)
			return m
		}
		m := mqttp.NewConnect(v)
		m.SetClean(true)
		w, _ := anyWill(v, s)
		sym.Assert(m.SetWill(w) == nil, "a valid will is refused")
		sym.Assert(m.SetCredentials([]byte("u"), []byte{sym.U8("password")}) == nil, "valid credentials are refused")
		return m
	case mqttp.CONNACK:
		m, _ := anyConnAck(v, s)
		return m
	case mqttp.PUBLISH:
		m, _ := anyPublish(v, s)
		return m
	case mqttp.PUBACK, mqttp.PUBREC, mqttp.PUBREL, mqttp.PUBCOMP:
		m, _ := anyAck(v, t, s)
		return m
	case mqttp.SUBSCRIBE:
		m, _ := anySubscribe(v, s)
		return m
	case mqttp.SUBACK:
		m, _ := anySubAck(v, s)
		return m
	case mqttp.UNSUBSCRIBE:
		m, _ := anyUnSubscribe(v, s)
		return m
	case mqttp.UNSUBACK:
		m, _ := anyUnSubAck(v, s)
		return m
	case mqttp.PINGREQ:
		return mqttp.NewPingReq(v)
	case mqttp.PINGRESP:
		return mqttp.NewPingResp(v)
	case mqttp.DISCONNECT:
		m, _ := anyDisconnect(v, s)
		return m
	}
	m, _ := anyAuth(s)
	return m
}

// flagsOf is the flag nibble a message must carry on the wire.
func flagsOf(m mqttp.IFace) byte {
	if p, ok := m.(*mqttp.Publish); ok {
		f := byte(p.QoS()) << 1
		f |= sym.IteU8(p.Retain(), 1, 0)
		return f | sym.IteU8(p.Dup(), 8, 0)
	}
	return first(m.Type()) & 15
}

package props

import (
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// ---- PUBLISH

type modelPub struct {
	topic, load []byte
	qos         byte
	retain, dup bool
	id          uint16
	hasID       bool
	pid         uint64
}

func (w modelPub) encodable() bool {
	return !(len(w.topic) == 0 || sym.Or(sym.And(w.dup, w.qos == 0), sym.And(w.qos != 0, !w.hasID)))
}

func checkPub(m *mqttp.Publish, w modelPub) {
	sym.Assert(sym.EqStr(m.Topic(), string(w.topic)), "topic differs from what was set")
	sym.Assert(sym.EqBytes(m.Payload(), w.load), "payload differs from what was set")
	sym.Assert(byte(m.QoS()) == w.qos, "QoS differs from what was set")
	sym.Assert(m.Retain() == w.retain, "RETAIN differs from what was set")
	sym.Assert(m.Dup() == w.dup, "DUP differs from what was set")
	sym.Assert(uint64(m.PublishID()) == w.pid, "the publisher differs from what was set")
	x, err := m.ID()
	if w.hasID {
		sym.Assert(err == nil && uint16(x) == w.id, "packet identifier differs from what was set")
	} else {
		sym.Assert(err == mqttp.ErrNotSet, "a packet identifier is invented")
	}
	f := w.qos << 1
	f |= sym.IteU8(w.retain, 1, 0)
	f |= sym.IteU8(w.dup, 8, 0)
	sym.Assert(m.Flags() == f, "the flags differ from what was set")
	sym.Assert(m.Type() == mqttp.PUBLISH, "the packet type changes")
}

// S01_publish: any sequence of setter calls; a refused call changes nothing.
func S01_publish() {
	v := anyVersion()
	m := mqttp.NewPublish(v)
	var w modelPub
	checkPub(m, w)
	n := sym.Bound("calls", 3, 4)
	for i := 0; i < n; i++ {
		_, _ = m.Size()
		if i == n-1 && w.encodable() && sym.Choose("decoded", 2) == 1 {
			m = mustDecode(v, mustEncode(m)).(*mqttp.Publish)
			w.pid, w.hasID = 0, w.qos != 0
		}
		switch sym.Choose("call", 8) {
		case 0:
			q := sym.U8("qos")
			if q <= 2 {
				sym.Assert(m.SetQoS(mqttp.QosType(q)) == nil, "a valid QoS is refused")
				w.qos = q
			} else {
				sym.Assert(m.SetQoS(mqttp.QosType(q)) != nil, "an invalid QoS is accepted")
			}
		case 1:
			w.retain = sym.Bool("retain")
			m.SetRetain(w.retain)
		case 2:
			w.dup = sym.Bool("dup")
			m.SetDup(w.dup)
		case 3:
			b := sym.Bytes("topic", 0, 1)
			ok := refTopicName(b) && (v == v50 || len(b) > 0)
			sym.Assert((m.SetTopic(string(b)) == nil) == ok, "a topic is refused or accepted wrongly")
			if ok {
				w.topic = b
			}
		case 4:
			w.load = sym.Bytes("payload", 1, 1)
			m.SetPayload(w.load)
		case 5:
			w.id, w.hasID = sym.U16("id"), true
			m.SetPacketID(mqttp.IDType(w.id))
		case 6:
			b, p, q, r, d := sym.Bytes("topic", 1, 1), sym.Bytes("payload", 2, 2), sym.U8("qos"), sym.Bool("retain"), sym.Bool("dup")
			ok := refTopicName(b) && q <= 2
			sym.Assert((m.Set(string(b), p, mqttp.QosType(q), r, d) == nil) == ok, "a message is refused or accepted wrongly")
			if ok {
				w.topic, w.load, w.qos, w.retain, w.dup = b, p, q, r, d
			}
		case 7:
			w.pid = sym.U64("publisher")
			m.SetPublishID(uintptr(w.pid))
		}
	}
	checkPub(m, w)
	sym.Reach("set")
	if !w.encodable() {
		return
	}
	r := &rd{b: wire(m, m.Flags(), encodeAny(m))}
	sym.Assert(sym.EqBytes(r.lp(), w.topic), "the topic of the packet differs from what was set")
	if w.qos != 0 {
		sym.Assert(r.u16() == w.id, "the packet identifier of the packet differs from what was set")
	}
	if v == v50 {
		sym.Assert(len(r.props(mqttp.PUBLISH)) == 0, "properties are invented")
	}
	sym.Assert(sym.EqBytes(r.b[r.p:], w.load), "the payload of the packet differs from what was set")
}

// ---- CONNECT

type modelConn struct {
	clean, wr        bool
	keep             uint16
	cid, user, pass  []byte
	will             *mqttp.Publish
	wq               byte
	wtopic, wpayload []byte
}

func (w modelConn) flags() byte {
	f := sym.IteU8(w.clean, 2, 0)
	if w.will != nil {
		f |= 4 | w.wq<<3
		f |= sym.IteU8(w.wr, 0x20, 0)
	}
	if len(w.user) > 0 {
		f |= 0x80
	}
	if len(w.pass) > 0 {
		f |= 0x40
	}
	return f
}

func checkConn(m *mqttp.Connect, v mqttp.ProtocolVersion, w modelConn) {
	sym.Assert(m.IsClean() == w.clean, "the clean flag differs from what was set")
	sym.Assert(m.KeepAlive() == w.keep, "the keep alive differs from what was set")
	sym.Assert(sym.EqBytes(m.ClientID(), w.cid), "the client identifier differs from what was set")
	u, p := m.Credentials()
	sym.Assert(sym.And(sym.EqBytes(u, w.user), sym.EqBytes(p, w.pass)), "the credentials differ from what was set")
	sym.Assert(m.Will() == w.will, "the will differs from what was set")
	r := &rd{b: wire(m, 0, encodeAny(m))}
	name, lvl, f, k := r.lp(), r.u8(), r.u8(), r.u16()
	want := "MQTT"
	if v == v31 {
		want = "MQIsdp"
	}
	sym.Assert(string(name) == want && lvl == byte(v), "the protocol name or level of the packet is wrong")
	sym.Assert(f == w.flags(), "the connect flags of the packet are wrong")
	sym.Assert(k == w.keep, "the keep alive of the packet is wrong")
	if v == v50 {
		sym.Assert(len(r.props(mqttp.CONNECT)) == 0, "properties are invented")
	}
	sym.Assert(sym.EqBytes(r.lp(), w.cid), "the client identifier of the packet is wrong")
	if w.will != nil {
		if v == v50 {
			sym.Assert(len(r.props(mqttp.PUBLISH)) == 0, "will properties are invented")
		}
		t, l := r.lp(), r.lp()
		sym.Assert(sym.And(sym.EqBytes(t, w.wtopic), sym.EqBytes(l, w.wpayload)), "the will of the packet is wrong")
	}
	if len(w.user) > 0 {
		sym.Assert(sym.EqBytes(r.lp(), w.user), "the user name of the packet is wrong")
	}
	if len(w.pass) > 0 {
		sym.Assert(sym.EqBytes(r.lp(), w.pass), "the password of the packet is wrong")
	}
	sym.Assert(!r.bad && r.left() == 0, "the packet is too short or too long")
}

// S02_connect: any sequence of setter calls; what was set last is reported and encoded.
func S02_connect() {
	v := anyVersion()
	m := mqttp.NewConnect(v)
	var w modelConn
	n := sym.Bound("calls", 3, 4)
	for i := 0; i < n; i++ {
		_, _ = m.Size()
		if i == n-1 && (v == v50 || len(w.cid) > 0 || w.clean) && sym.Choose("decoded", 2) == 1 {
			m = mustDecode(v, mustEncode(m)).(*mqttp.Connect)
			sym.Assert((m.Will() == nil) == (w.will == nil), "the will is lost or invented")
			w.will = m.Will()
		}
		switch sym.Choose("call", 7) {
		case 0:
			w.clean = sym.Bool("clean")
			m.SetClean(w.clean)
		case 1:
			w.keep = sym.U16("keep alive")
			m.SetKeepAlive(w.keep)
		case 2:
			b := sym.Bytes("client id", 0, 2)
			ok := refClientID(b)
			sym.Assert((m.SetClientID(b) == nil) == ok, "a client identifier is refused or accepted wrongly")
			if ok {
				w.cid = b
			}
		case 3:
			q := sym.U8("will.qos")
			sym.Assume(q <= 2)
			x := mqttp.NewPublish(v)
			r := sym.Bool("will.retain")
			t, l := topicName("will.topic", 1, 1), sym.Bytes("will.payload", 1, 1)
			sym.Assert(x.Set(string(t), l, mqttp.QosType(q), r, false) == nil, "a valid will is refused")
			sym.Assert(m.SetWill(x) == nil, "a valid will is refused")
			w.will, w.wq, w.wr, w.wtopic, w.wpayload = x, q, r, t, l
		case 4:
			m.ResetWill()
			w.will = nil
		case 5:
			u, p := sym.Bytes("user", 0, 1), sym.Bytes("password", 0, 1)
			ok := cleanUTF8(u)
			if v != v50 && len(u) == 0 && len(p) > 0 {
				ok = false
			}
			sym.Assert((m.SetCredentials(u, p) == nil) == ok, "credentials are refused or accepted wrongly")
			if ok {
				w.user, w.pass = u, p
			}
		case 6:
			if w.will != nil && sym.Choose("again", 2) == 1 {
				x := w.will
				sym.Assert(m.SetWill(x) == nil, "a valid will is refused")
				sym.Assert(sym.EqStr(x.Topic(), string(w.wtopic)) && sym.EqBytes(x.Payload(), w.wpayload), "setting a will changes it")
				sym.Assert(sym.And(byte(x.QoS()) == w.wq, x.Retain() == w.wr), "setting a will changes it")
				break
			}
			// refused wills
			var x *mqttp.Publish
			switch sym.Choose("bad will", 3) {
			case 1:
				x = mqttp.NewPublish(v)
				x.SetPayload([]byte("w"))
				x.SetRetain(true)
			case 2:
				x = mqttp.NewPublish(v)
				sym.Assert(x.Set("t", nil, 2, true, false) == nil, "a valid message is refused")
			}
			sym.Assert(m.SetWill(x) != nil, "an invalid will is accepted")
		}
	}
	checkConn(m, v, w)
	sym.Reach("set")
}

// S02_client: client identifiers.
func S02_client() {
	v := anyVersion()
	b := sym.Bytes("client id", 0, sym.Bound("client id bytes", 5, 8))
	m := mqttp.NewConnect(v)
	ok := refClientID(b)
	sym.Assert((m.SetClientID(b) == nil) == ok, "a client identifier is refused or accepted wrongly")
	want := []byte{}
	if ok {
		want = b
	}
	sym.Assert(sym.EqBytes(m.ClientID(), want), "the client identifier differs")
	sym.Reach("set")
}

// S02_spot: long client identifiers and user names with a few arbitrary bytes.
func S02_spot() {
	v := anyVersion()
	b := spotted()
	m := mqttp.NewConnect(v)
	if sym.Choose("field", 2) == 0 {
		sym.Assert((m.SetClientID(b) == nil) == refClientID(b), "a client identifier is refused or accepted wrongly")
	} else {
		sym.Assert((m.SetCredentials(b, nil) == nil) == cleanUTF8(b), "credentials are refused or accepted wrongly")
	}
	sym.Reach("set")
}

// S02_user: user names.
func S02_user() {
	v := anyVersion()
	u, p := sym.Bytes("user", 0, sym.Bound("user bytes", 4, 6)), sym.Bytes("password", 0, 2)
	m := mqttp.NewConnect(v)
	ok := cleanUTF8(u) && (v == v50 || len(u) > 0 || len(p) == 0)
	err := m.SetCredentials(u, p)
	sym.Assert((err == nil) == ok, "credentials are refused or accepted wrongly")
	x, y := m.Credentials()
	if !ok {
		u, p = nil, nil
		sym.Reach("refused")
	}
	sym.Assert(sym.And(sym.EqBytes(x, u), sym.EqBytes(y, p)), "the credentials differ")
	sym.Reach("set")
}

// ---- Clone

// S03_clone: a clone carries what is forwarded, and is independent of its source.
func S03_clone() {
	v, to := anyVersion(), anyVersion()
	m, ps := anyPublish(v, size{topic: 1, load: 1, str: 1, props: sym.Bound("properties", 1, 2)})
	checkClone(m, ps, v, to)
}

// S03_forward: several properties at once.
func S03_forward() {
	m := mqttp.NewPublish(v50)
	sym.Assert(m.Set("t", []byte("p"), 1, true, true) == nil, "a valid message is refused")
	var ps []rprop
	for _, id := range []byte{1, 2, 3, 8, 9, 0x0B, 0x23, 0x26} {
		if sym.Choose("has", 2) == 0 {
			continue
		}
		v, p := fixValue(id, mqttp.PUBLISH)
		sym.Assert(m.PropertySet(mqttp.PropertyID(id), v) == nil, "a legal property is refused")
		ps = append(ps, p...)
	}
	checkClone(m, ps, v50, versions[sym.Choose("to", 2)])
}

func checkClone(m *mqttp.Publish, ps []rprop, v, to mqttp.ProtocolVersion) {
	sym.Clock(50, 7)
	exp := time.Time{}
	if sym.Choose("expires", 2) == 1 {
		exp = time.Unix(100, 5)
		m.SetExpireAt(exp)
	}
	c, err := m.Clone(to)
	sym.Assert(err == nil && c != nil, "a valid message is not cloned")
	sym.Assert(sym.EqStr(c.Topic(), m.Topic()), "the topic of the clone differs")
	sym.Assert(sym.EqBytes(c.Payload(), m.Payload()), "the payload of the clone differs")
	sym.Assert(c.QoS() == m.QoS(), "the QoS of the clone differs")
	sym.Assert(c.Retain() == m.Retain(), "the RETAIN flag of the clone differs")
	sym.Assert(!c.Dup(), "the clone carries DUP")
	_, e := c.ID()
	sym.Assert(e == mqttp.ErrNotSet, "the clone carries a packet identifier")
	a, _, _ := c.Expired()
	sym.Assert(a.Equal(exp), "the expiry of the clone differs")
	if v == v50 {
		for id := byte(1); id <= 0x2A; id++ {
			x, y := m.PropertyGet(mqttp.PropertyID(id)), c.PropertyGet(mqttp.PropertyID(id))
			fwd := id == 1 || id == 3 || id == 8 || id == 9 || id == 0x26
			sym.Assert((y != nil) == (x != nil && fwd && to == v50), "a property is forwarded or dropped wrongly")
			if y != nil {
				list := false
				if _, e := x.AsStringPairs(); e == nil {
					list = true
				}
				kind, _, _ := refProp(id, mqttp.PUBLISH)
				reads(y, kind, list, subIDs(ps, id))
			}
		}
	}
	sym.Reach("cloned")
}

// S03_independent: changing the clone does not change the source.
func S03_independent() {
	v := anyVersion()
	m, ps := anyPublish(v, size{topic: 1, load: 1, str: 1, props: 1})
	before := mustEncode(m)
	c, err := m.Clone(v)
	sym.Assert(err == nil, "a valid message is not cloned")
	sym.Assert(c.Set("x", []byte("y"), mqttp.QosType(sym.Choose("new qos", 3)), sym.Bool("new retain"), sym.Bool("new dup")) == nil, "a valid message is refused")
	c.SetPacketID(mqttp.IDType(sym.U16("new id")))
	c.SetExpireAt(time.Unix(5, 0))
	if v == v50 {
		sym.Assert(c.PropertySet(1, sym.U8("new prop")) == nil, "a legal property is refused")
		sym.Assert(c.PropertySet(0x26, mqttp.StringPair{K: "a", V: "b"}) == nil, "a legal property is refused")
		c.PropertiesDiscard()
		sym.Assert(c.PropertySet(3, "abc") == nil, "a legal property is refused")
	}
	x, _, _ := m.Expired()
	sym.Assert(x.IsZero(), "changing the clone changes the expiry of the source")
	buf := mustEncode(m)
	sym.Assert(len(buf) == len(before), "changing the clone changes the size of the source")
	if v == v50 {
		r := &rd{b: buf, p: 2}
		r.lp()
		if m.QoS() != 0 {
			r.u16()
		}
		sameWireProps(ps, r.props(mqttp.PUBLISH))
	} else {
		sym.Assert(sym.EqBytes(buf, before), "changing the clone changes the source")
	}
	sym.Reach("independent")
}

// ---- expiry

// instant is a moment within two thousand years of 1970.
func instant(name string) (int64, int64) {
	s := int64(sym.U64(name))
	sym.Assume(sym.And(s >= -(1<<36), s <= 1<<36))
	return s, int64(sym.Int(name+".ns", 0, 999999999))
}

// checkLeft asserts what a message that expires at e says at n.
func checkLeft(n, nn, e, en int64, left uint32, expired bool) {
	q := e - n // the whole seconds left
	if en < nn {
		q--
	}
	if q < 1 {
		sym.Assert(expired && left == 0, "a message past its expiry is not expired")
		sym.Reach("expired")
		return
	}
	sym.Assert(!expired, "a message is expired before its expiry")
	if q > 0xFFFFFFFF {
		sym.Assert(left == 0xFFFFFFFF, "the seconds left are wrong when they are too many")
		sym.Reach("for ever")
		return
	}
	sym.Assert(int64(left) == q, "the seconds left are wrong")
	sym.Reach("alive")
}

// S04_expiry: a message is expired once less than a second is left, and reports the whole seconds left.
func S04_expiry() {
	ns, nn := instant("now")
	es, en := instant("expiry")
	sym.Clock(ns, nn)
	m := mqttp.NewPublish(anyVersion())
	at := time.Unix(es, en)
	sym.Assume(!at.IsZero())
	m.SetExpireAt(at)
	x, left, expired := m.Expired()
	sym.Assert(x.Equal(at), "the expiry time differs from what was set")
	checkLeft(ns, nn, es, en, left, expired)
}

// S04_never: a message without expiry never expires.
func S04_never() {
	sym.Clock(int64(sym.U32("now")), int64(sym.Int("now.ns", 0, 999999999)))
	m := mqttp.NewPublish(anyVersion())
	x, left, expired := m.Expired()
	sym.Assert(x.IsZero() && left == 0 && !expired, "a message without expiry expires")
	sym.Reach("alive")
}

// S04_history: the answer depends on the last expiry time set and on the current time alone.
func S04_history() {
	clock := func() time.Time {
		s, n := int64(sym.U32("now")), int64(sym.Int("now.ns", 0, 999999999))
		sym.Clock(s, n)
		return time.Unix(s, n)
	}
	m := mqttp.NewPublish(anyVersion())
	sym.Assert(m.Set("a", []byte("b"), mqttp.QoS0, false, false) == nil, "a valid message is refused")
	var at time.Time
	for i := sym.Bound("steps", 3, 4); i > 0; i-- {
		switch sym.Choose("step", 7) {
		case 0:
			at = time.Unix(int64(sym.U32("expiry")), int64(sym.Int("expiry.ns", 0, 999999999)))
			m.SetExpireAt(at)
		case 1:
			at = time.Time{}
			m.SetExpireAt(at)
		case 2:
			clock()
			_ = mustEncode(m)
		case 3:
			clock()
			c, err := m.Clone(m.Version())
			sym.Assert(err == nil, "a valid message is not cloned")
			m = c
		case 4:
			clock()
			sym.Assert(m.Set("c", []byte("d"), mqttp.QoS0, sym.Bool("retain"), false) == nil, "a valid message is refused")
			if m.Version() == v50 {
				sym.Assert(m.PropertySet(2, sym.U32("interval")) == nil, "a legal property is refused")
			}
		case 5:
			c := mqttp.NewPublish(m.Version())
			c.SetExpireAt(time.Unix(int64(sym.U32("other")), 0))
			clock()
			_, _, _ = c.Expired()
		default:
			n := clock()
			x, left, expired := m.Expired()
			sym.Assert(x.Equal(at), "the expiry time differs from what was set")
			if at.IsZero() {
				sym.Assert(left == 0 && !expired, "a message without expiry expires")
				continue
			}
			d := at.Sub(n)
			if d < time.Second {
				sym.Assert(expired && left == 0, "a message past its expiry is not expired")
			} else {
				sym.Assert(!expired && int64(left) == int64(d/time.Second), "the seconds left are wrong")
			}
			sym.Reach("asked")
		}
	}
}

// ---- the other packets

// S05_connack: ConnAck.
func S05_connack() {
	v := anyVersion()
	m := mqttp.NewConnAck(v)
	var code byte
	var sp bool
	for i := 0; i < 2; i++ {
		c := sym.U8("code")
		ok := refReason(mqttp.CONNACK, c)
		sym.Assert((m.SetReturnCode(mqttp.ReasonCode(c)) == nil) == ok, "a return code is refused or accepted wrongly")
		if ok {
			code = c
		}
		if sym.Choose("session", 2) == 1 {
			sp = sym.Bool("session present")
			m.SetSessionPresent(sp)
		}
		_, _ = m.Size()
	}
	sym.Assert(byte(m.ReturnCode()) == code && m.SessionPresent() == sp, "the CONNACK differs from what was set")
	body := wire(m, 0, encodeAny(m))
	sym.Assert(body[0] == sym.IteU8(sp, 1, 0) && body[1] == code, "the CONNACK packet is wrong")
	sym.Reach("set")
}

// S05_codes: the return codes of SUBACK and UNSUBACK, in order; a refused code is not added.
func S05_codes() {
	v := anyVersion()
	unsub := sym.Choose("unsub", 2) == 1
	t := mqttp.SUBACK
	sa, ua := mqttp.NewSubAck(v), mqttp.NewUnSubAck(v)
	if unsub {
		t = mqttp.UNSUBACK
	}
	ok := func(c byte) bool {
		if v == v50 {
			return refReason(t, c)
		}
		return sym.Or(c <= 2, c == 0x80)
	}
	var model []byte
	for n := 1 + sym.Choose("calls", 3); n > 0; n-- {
		_, _ = sa.Size()
		_, _ = ua.Size()
		c := sym.U8("code")
		var err error
		k := ok(c)
		switch {
		case unsub && sym.Choose("many", 2) == 0:
			err = ua.AddReturnCode(mqttp.ReasonCode(c))
		case unsub:
			err = ua.AddReturnCodes([]mqttp.ReasonCode{mqttp.ReasonCode(c)})
		case sym.Choose("many", 2) == 0:
			err = sa.AddReturnCode(mqttp.ReasonCode(c))
		default:
			err = sa.AddReturnCodes([]mqttp.ReasonCode{mqttp.ReasonCode(c)})
		}
		sym.Assert((err == nil) == k, "a return code is refused or accepted wrongly")
		if k {
			model = append(model, c)
		}
	}
	got := sa.ReturnCodes()
	if unsub {
		got = ua.ReturnCodes()
	}
	sym.Assert(len(got) == len(model), "the number of return codes differs")
	for i := range model {
		sym.Assert(byte(got[i]) == model[i], "a return code differs")
	}
	sym.Reach("set")
	if unsub && v != v50 {
		return
	}
	sa.SetPacketID(7)
	ua.SetPacketID(7)
	var m mqttp.IFace = sa
	if unsub {
		m = ua
	}
	body := wire(m, 0, encodeAny(m))
	sym.Assert(len(body) >= len(model) && sym.EqBytes(body[len(body)-len(model):], model), "the return codes of the packet differ")
}

// S05_many: several return codes at once.
func S05_many() {
	v := anyVersion()
	unsub := sym.Choose("unsub", 2) == 1
	t := mqttp.SUBACK
	if unsub {
		t = mqttp.UNSUBACK
	}
	cs := []mqttp.ReasonCode{mqttp.ReasonCode(sym.U8("code")), mqttp.ReasonCode(sym.U8("code"))}
	ok := true
	for _, c := range cs {
		if v == v50 {
			ok = sym.And(ok, refReason(t, byte(c)))
		} else {
			ok = sym.And(ok, sym.Or(c <= 2, c == 0x80))
		}
	}
	var err error
	var got []mqttp.ReasonCode
	if unsub {
		m := mqttp.NewUnSubAck(v)
		err = m.AddReturnCodes(cs)
		got = m.ReturnCodes()
	} else {
		m := mqttp.NewSubAck(v)
		err = m.AddReturnCodes(cs)
		got = m.ReturnCodes()
	}
	sym.Assert((err == nil) == ok, "return codes are refused or accepted wrongly")
	if ok {
		sameReasons(got, cs)
		sym.Reach("accepted")
	}
}

// S05_reasons: the reason of PUBACK and its family, DISCONNECT and AUTH.
func S05_reasons() {
	c := sym.U8("code")
	switch sym.Choose("packet", 3) {
	case 0:
		v := anyVersion()
		t := ackTypes[sym.Choose("type", 4)]
		m := newAck(v, t)
		sym.Assume(refReason(t, c))
		_, _ = m.Size()
		m.SetReason(mqttp.ReasonCode(c))
		if v != v50 {
			c = 0
		}
		m.SetPacketID(7)
		body := wire(m, first(t)&15, encodeAny(m))
		if len(body) == 2 {
			sym.Assert(c == 0, "the reason of the packet differs")
		} else {
			sym.Assert(v == v50 && len(body) >= 3 && body[2] == c, "the reason of the packet differs")
		}
		sym.Assert(byte(m.Reason()) == c, "the reason differs from what was set")
		sym.Assert(m.Type() == t, "the packet type differs")
	case 1:
		m := mqttp.NewDisconnect(v50)
		sym.Assume(refReason(mqttp.DISCONNECT, c))
		_, _ = m.Size()
		m.SetReasonCode(mqttp.ReasonCode(c))
		body := wire(m, 0, encodeAny(m))
		if len(body) == 0 {
			sym.Assert(c == 0, "the reason of the packet differs")
		} else {
			sym.Assert(body[0] == c, "the reason of the packet differs")
		}
		sym.Assert(byte(m.ReasonCode()) == c, "the reason differs from what was set")
	default:
		m := mqttp.NewAuth(v50)
		sym.Assert(m.SetReasonCode(0x18) == nil, "a valid reason is refused")
		ok := refReason(mqttp.AUTH, c)
		sym.Assert((m.SetReasonCode(mqttp.ReasonCode(c)) == nil) == ok, "a reason is refused or accepted wrongly")
		if !ok {
			c = 0x18
		}
		sym.Assert(byte(m.ReasonCode()) == c, "the reason differs from what was set")
		body := wire(m, 0, encodeAny(m))
		sym.Assert(len(body) > 0 && body[0] == c, "the reason of the packet differs")
	}
	sym.Reach("set")
}

// S05_ids: packet identifiers.
func S05_ids() {
	v := anyVersion()
	m := newMsg(v, mqttp.Type(1+sym.Choose("type", 14)))
	_, err := m.ID()
	sym.Assert(err == mqttp.ErrNotSet, "a packet identifier is invented")
	id, again := sym.U16("id"), sym.U16("id again")
	s, ok := m.(interface{ SetPacketID(mqttp.IDType) })
	if !ok {
		return
	}
	s.SetPacketID(mqttp.IDType(id))
	x, err := m.ID()
	sym.Assert(err == nil && uint16(x) == id, "the packet identifier differs from what was set")
	s.SetPacketID(mqttp.IDType(again))
	x, err = m.ID()
	sym.Assert(err == nil && uint16(x) == again, "the packet identifier differs from what was set")
	sym.Reach("set")
}

type stop struct{}

func (stop) Error() string { return "stop" }

// S05_topics: topics are visited in the order they were added, and the visit stops at the first error.
func S05_topics() {
	v := anyVersion()
	n := sym.Choose("topics", 5)
	s, u := mqttp.NewSubscribe(v), mqttp.NewUnSubscribe(v)
	var ts []*mqttp.Topic
	for i := 0; i < n; i++ {
		t, err := mqttp.NewTopic([]byte{'a' + byte(i)})
		sym.Assert(err == nil, "a valid topic filter is refused")
		ts = append(ts, t)
		sym.Assert(s.AddTopic(t) == nil && u.AddTopic(t) == nil, "a topic is not added")
	}
	at := sym.Choose("stop at", 6)
	i := 0
	f := func(t *mqttp.Topic) error {
		sym.Assert(i < n && t == ts[i], "the topics are visited out of order")
		if i == at {
			i++
			return stop{}
		}
		i++
		return nil
	}
	var err error
	if sym.Choose("unsub", 2) == 1 {
		err = u.ForEachTopic(f)
	} else {
		err = s.ForEachTopic(f)
	}
	if at < n {
		sym.Assert(i == at+1 && err == error(stop{}), "the visit does not stop at the error and report it")
	} else {
		sym.Assert(i == n && err == nil, "a topic is not visited")
	}
	sym.Reach("visited")
}

package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// A life is the content a message should have, whatever happened to it. The oracle for a message that was
// encoded, decoded and changed is a new message that was only given the content.
type life struct {
	v     mqttp.ProtocolVersion
	t     mqttp.Type
	id    uint16
	hasID bool

	clean, will, wret, sp, retain, dup bool

	keep                           uint16
	cid, user, pass, wtopic, wload []byte
	wqos, code, qos                byte
	topic, load                    []byte
	codes                          []mqttp.ReasonCode
	topics                         [][]byte
	ops                            []byte
	prop                           byte
	has                            bool
	val                            interface{}
	scribble                       bool // overwrite lists of codes after they were added
	on                             bool
	narrow                         bool // only content that every version can express
	given                          [][]byte
	copies                         [][]byte
}

// text is two, or if the life goes on one or two, arbitrary lower case letters; its memory must never be written.
func (l *life) text(name string) []byte {
	n := 2
	if l.on && sym.Choose(name+" length", 2) == 1 {
		n = 1
	}
	b := sym.Bytes(name, n, n)
	for _, c := range b {
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
	}
	return l.keepAn(b)
}

// keepAn has an eye on memory that is given to a message.
func (l *life) keepAn(b []byte) []byte {
	l.given = append(l.given, b)
	l.copies = append(l.copies, clone(b))
	return b
}

func (l *life) untouched() {
	for i := range l.given {
		sym.Assert(sym.EqBytes(l.given[i], l.copies[i]), "memory that was given to a message is written")
	}
}

func lifeTypes(v mqttp.ProtocolVersion) []mqttp.Type {
	ts := []mqttp.Type{mqttp.CONNACK, mqttp.PUBACK, mqttp.PUBREL, mqttp.SUBSCRIBE, mqttp.SUBACK, mqttp.UNSUBSCRIBE, mqttp.UNSUBACK, mqttp.DISCONNECT}
	if v == v50 {
		ts = append(ts, mqttp.AUTH)
	}
	return ts
}

func (l *life) anyCode() byte {
	c := sym.U8("code")
	switch {
	case l.narrow && l.t != mqttp.CONNACK && l.t != mqttp.SUBACK:
		return 0
	case l.v == v50 && !l.narrow || l.t == mqttp.CONNACK:
		sym.Assume(refReason(l.t, c))
	default:
		sym.Assume(sym.Or(c <= 2, c == 0x80))
	}
	return c
}

func newLife(v mqttp.ProtocolVersion, t mqttp.Type) *life {
	l := &life{v: v, t: t, id: sym.U16("id"), hasID: true}
	switch t {
	case mqttp.CONNECT:
		l.hasID = false
		l.clean, l.keep, l.cid, l.user = sym.Bool("clean"), sym.U16("keep alive"), l.text("client id"), l.text("user")
		l.pass = l.keepAn(sym.Bytes("password", 1, 1))
		l.setWill()
	case mqttp.CONNACK:
		l.hasID = false
		l.sp, l.code = sym.Bool("session present"), l.anyCode()
	case mqttp.PUBLISH:
		l.topic, l.load = l.text("topic"), l.keepAn(sym.Bytes("payload", 2, 2))
		l.qos, l.retain = byte(sym.Choose("qos", 3)), sym.Bool("retain")
	case mqttp.SUBSCRIBE, mqttp.UNSUBSCRIBE:
		l.addTopic()
	case mqttp.SUBACK:
		l.codes = []mqttp.ReasonCode{mqttp.ReasonCode(l.anyCode()), mqttp.ReasonCode(l.anyCode())}
	case mqttp.UNSUBACK:
		if v == v50 {
			l.codes = []mqttp.ReasonCode{mqttp.ReasonCode(l.anyCode()), mqttp.ReasonCode(l.anyCode())}
		}
	case mqttp.DISCONNECT, mqttp.AUTH:
		l.hasID = false
		if v == v50 {
			l.code = l.anyCode()
		}
	default:
		if v == v50 {
			l.code = l.anyCode()
		}
	}
	if v == v50 {
		l.prop = 0x26
		if t == mqttp.PUBLISH {
			l.prop = 0x09
		}
		if sym.Choose("property", 2) == 1 {
			l.setProp()
		}
	}
	l.on = true
	return l
}

func (l *life) setWill() {
	l.will, l.wtopic, l.wload, l.wqos, l.wret = true, l.text("will topic"), l.keepAn(sym.Bytes("will payload", 1, 1)), sym.U8("will qos"), sym.Bool("will retain")
	sym.Assume(l.wqos <= 2)
}

func (l *life) addTopic() {
	o := byte(0)
	if l.t == mqttp.SUBSCRIBE {
		o = sym.U8("options")
		if l.narrow {
			sym.Assume(o <= 2)
		} else {
			sym.Assume(refOptions(l.v, o))
		}
	}
	b := l.text("filter")
	l.topics, l.ops = append(l.topics, b), append(l.ops, o)
}

func (l *life) setProp() {
	l.has = true
	if l.prop == 0x09 {
		l.val = l.keepAn(sym.Bytes("data", 2, 2))
		return
	}
	l.val = mqttp.StringPair{K: "k", V: string(l.text("value"))}
}

func (l *life) willMsg() *mqttp.Publish {
	w := mqttp.NewPublish(l.v)
	sym.Assert(w.Set(string(l.wtopic), l.wload, mqttp.QosType(l.wqos), l.wret, false) == nil, "a valid will is refused")
	return w
}

func newTopicOf(l *life, i int) *mqttp.Topic {
	x, err := mqttp.NewSubscribeTopic(l.topics[i], mqttp.SubscriptionOptions(l.ops[i]))
	sym.Assert(err == nil, "a valid topic filter is refused")
	return x
}

// build makes a new message with the content.
func (l *life) build() mqttp.IFace {
	m := newMsg(l.v, l.t)
	switch x := m.(type) {
	case *mqttp.Connect:
		x.SetClean(l.clean)
		x.SetKeepAlive(l.keep)
		sym.Assert(x.SetClientID(l.cid) == nil && x.SetCredentials(l.user, l.pass) == nil, "valid fields are refused")
		if l.will {
			sym.Assert(x.SetWill(l.willMsg()) == nil, "a valid will is refused")
		}
	case *mqttp.ConnAck:
		x.SetSessionPresent(l.sp)
		sym.Assert(x.SetReturnCode(mqttp.ReasonCode(l.code)) == nil, "a valid code is refused")
	case *mqttp.Publish:
		sym.Assert(x.Set(string(l.topic), l.load, mqttp.QosType(l.qos), l.retain, l.dup) == nil, "a valid message is refused")
	case *mqttp.Ack:
		x.SetReason(mqttp.ReasonCode(l.code))
	case *mqttp.Subscribe:
		for i := range l.topics {
			sym.Assert(x.AddTopic(newTopicOf(l, i)) == nil, "a topic is refused")
		}
	case *mqttp.UnSubscribe:
		for i := range l.topics {
			sym.Assert(x.AddTopic(newTopicOf(l, i)) == nil, "a topic is refused")
		}
	case *mqttp.SubAck:
		l.addCodes(x.AddReturnCodes, l.codes)
	case *mqttp.UnSubAck:
		l.addCodes(x.AddReturnCodes, l.codes)
	case *mqttp.Disconnect:
		x.SetReasonCode(mqttp.ReasonCode(l.code))
	case *mqttp.Auth:
		sym.Assert(x.SetReasonCode(mqttp.ReasonCode(l.code)) == nil, "a valid code is refused")
	}
	if l.hasID {
		m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(mqttp.IDType(l.id))
	}
	if l.has {
		sym.Assert(m.PropertySet(mqttp.PropertyID(l.prop), l.val) == nil, "a legal property is refused")
	}
	return m
}

// addCodes adds codes and then uses the list for something else.
func (l *life) addCodes(add func([]mqttp.ReasonCode) error, codes []mqttp.ReasonCode) {
	list := codes
	if l.scribble {
		list = append(make([]mqttp.ReasonCode, 0, len(codes)+2), codes...)
	}
	sym.Assert(add(list) == nil, "valid codes are refused")
	if l.scribble {
		for i := range list {
			list[i] ^= 0xFF
		}
	}
}

// changeProp sets or discards properties.
func (l *life) changeProp(m mqttp.IFace) {
	if l.v != v50 {
		m.PropertiesDiscard()
		return
	}
	if sym.Choose("property call", 2) == 0 {
		l.setProp()
		sym.Assert(m.PropertySet(mqttp.PropertyID(l.prop), l.val) == nil, "a legal property is refused")
		return
	}
	m.PropertiesDiscard()
	l.has = false
}

// change calls one setter.
func (l *life) change(m mqttp.IFace) {
	n := map[mqttp.Type]int{mqttp.CONNECT: 6, mqttp.PUBLISH: 6, mqttp.CONNACK: 2, mqttp.SUBACK: 2, mqttp.UNSUBACK: 2}[l.t]
	if n == 0 {
		n = 1
	}
	ids, props := 0, 0
	if l.t != mqttp.CONNECT && l.t != mqttp.CONNACK && l.t != mqttp.DISCONNECT && l.t != mqttp.AUTH {
		ids = 1
	}
	if l.v == v50 {
		props = 1
	}
	k := sym.Choose("setter", n+ids+props)
	if k == n && ids == 1 {
		l.id, l.hasID = sym.U16("id"), true
		m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(mqttp.IDType(l.id))
		return
	}
	if k >= n {
		l.changeProp(m)
		return
	}
	switch x := m.(type) {
	case *mqttp.Connect:
		switch k {
		case 0:
			l.clean = sym.Bool("clean")
			x.SetClean(l.clean)
		case 1:
			l.keep = sym.U16("keep alive")
			x.SetKeepAlive(l.keep)
		case 2:
			l.cid = l.text("client id")
			sym.Assert(x.SetClientID(l.cid) == nil, "a client identifier is refused")
		case 3:
			l.user, l.pass = l.text("user"), nil
			if sym.Choose("password", 2) == 1 {
				l.pass = l.keepAn(sym.Bytes("password", 1, 1))
			}
			sym.Assert(x.SetCredentials(l.user, l.pass) == nil, "credentials are refused")
		case 4:
			l.setWill()
			sym.Assert(x.SetWill(l.willMsg()) == nil, "a will is refused")
		case 5:
			l.will = false
			x.ResetWill()
		}
	case *mqttp.ConnAck:
		if k == 0 {
			l.sp = sym.Bool("session present")
			x.SetSessionPresent(l.sp)
		} else {
			l.code = l.anyCode()
			sym.Assert(x.SetReturnCode(mqttp.ReasonCode(l.code)) == nil, "a valid code is refused")
		}
	case *mqttp.Publish:
		switch k {
		case 0:
			l.topic = l.text("topic")
			sym.Assert(x.SetTopic(string(l.topic)) == nil, "a topic is refused")
		case 1:
			l.load = l.keepAn(sym.Bytes("payload", 1, 2))
			x.SetPayload(l.load)
		case 2:
			l.qos = byte(sym.Choose("qos", 3))
			sym.Assert(x.SetQoS(mqttp.QosType(l.qos)) == nil, "a QoS is refused")
		case 3:
			l.retain = sym.Bool("retain")
			x.SetRetain(l.retain)
		case 4:
			l.dup = sym.Bool("dup")
			x.SetDup(l.dup)
		case 5:
			l.topic, l.load, l.qos, l.retain, l.dup = []byte("s"), l.keepAn(sym.Bytes("payload", 1, 1)), byte(sym.Choose("qos", 2)), sym.Bool("retain"), false
			sym.Assert(x.Set(string(l.topic), l.load, mqttp.QosType(l.qos), l.retain, l.dup) == nil, "a message is refused")
		}
	case *mqttp.Ack:
		if l.v == v50 {
			l.code = l.anyCode()
		}
		x.SetReason(mqttp.ReasonCode(l.code))
	case *mqttp.Subscribe:
		l.addTopic()
		sym.Assert(x.AddTopic(newTopicOf(l, len(l.topics)-1)) == nil, "a topic is refused")
	case *mqttp.UnSubscribe:
		l.addTopic()
		sym.Assert(x.AddTopic(newTopicOf(l, len(l.topics)-1)) == nil, "a topic is refused")
	case *mqttp.SubAck:
		l.changeCodes(k, x.AddReturnCode, x.AddReturnCodes)
	case *mqttp.UnSubAck:
		l.changeCodes(k, x.AddReturnCode, x.AddReturnCodes)
	case *mqttp.Disconnect:
		if l.v == v50 {
			l.code = l.anyCode()
		}
		x.SetReasonCode(mqttp.ReasonCode(l.code))
	case *mqttp.Auth:
		l.code = l.anyCode()
		sym.Assert(x.SetReasonCode(mqttp.ReasonCode(l.code)) == nil, "a valid code is refused")
	}
}

func (l *life) changeCodes(k int, one func(mqttp.ReasonCode) error, many func([]mqttp.ReasonCode) error) {
	if l.v != v50 && l.t == mqttp.UNSUBACK {
		return
	}
	c := []mqttp.ReasonCode{mqttp.ReasonCode(l.anyCode())}
	if k == 0 {
		sym.Assert(one(c[0]) == nil, "a valid code is refused")
	} else {
		c = append(c, mqttp.ReasonCode(l.anyCode()))
		l.addCodes(many, c)
	}
	l.codes = append(l.codes[:len(l.codes):len(l.codes)], c...)
}

func (l *life) encodable() bool {
	return !sym.Or(sym.And(l.dup, l.qos == 0), sym.And(l.qos != 0, !l.hasID))
}

// check compares a message with a new one of the same content.
func (l *life) check(m mqttp.IFace) {
	w := l.build()
	sameMsg(w, m)
	if !l.encodable() {
		_, err := encode(m)
		sym.Assert(err != nil, "an illegal message is encoded")
		return
	}
	want := mustEncode(w)
	n, err := m.Size()
	sym.Assert(err == nil && n == len(want), "the size of a changed message differs from that of a new one")
	sym.Assert(sym.EqBytes(mustEncode(m), want), "the packet of a changed message differs from that of a new one")
	l.untouched()
	sym.Reach("same as new")
}

// stage does something with a message that must not change it, or replaces it by the message its packet decodes to.
func (l *life) stage(m mqttp.IFace, n int) mqttp.IFace {
	switch sym.Choose("between", n) {
	case 1:
		_, _ = m.Size()
		_, err := encode(m)
		sym.Assert((err == nil) == l.encodable(), "a message is encoded or refused wrongly")
	case 2:
		if !l.encodable() {
			return m
		}
		m = mustDecode(l.v, l.keepAn(mustEncode(m)))
		if l.t == mqttp.PUBLISH && l.qos == 0 {
			l.hasID = false
		}
	case 3:
		var short [1]byte
		_, err := m.Encode(short[:])
		sym.Assert(err != nil, "a buffer that is too short is accepted")
	}
	return m
}

// lived changes a message of type t twice, with work in between, and compares it with a new one.
func lived(v mqttp.ProtocolVersion, t mqttp.Type, change func(*life, mqttp.IFace)) {
	l := newLife(v, t)
	l.scribble = true
	m := l.stage(l.build(), 4)
	change(l, m)
	if sym.Choose("again", 2) == 1 {
		m = l.stage(m, 2)
		change(l, m)
	}
	l.check(m)
}

// S01_life: a PUBLISH that was encoded, decoded and changed is as good as a new one.
func S01_life() { lived(anyVersion(), mqttp.PUBLISH, (*life).change) }

// S02_life: the same for CONNECT.
func S02_life() { lived(anyVersion(), mqttp.CONNECT, (*life).change) }

// S05_life: the same for the other packets.
func S05_life() {
	v := anyVersion()
	ts := lifeTypes(v)
	lived(v, ts[sym.Choose("type", len(ts))], (*life).change)
}

// P02_life: properties that are set and discarded on messages that were encoded or decoded.
func P02_life() {
	ts := append(lifeTypes(v50), mqttp.PUBLISH, mqttp.CONNECT)
	lived(v50, ts[sym.Choose("type", len(ts))], (*life).changeProp)
}

// D06_twin: of two messages that share the memory they were given or decoded from, or of which one is a clone of the other,
// one is changed and the other stays as it was.
func D06_twin() {
	v := anyVersion()
	ts := append(lifeTypes(v), mqttp.PUBLISH, mqttp.CONNECT)
	t := ts[sym.Choose("type", len(ts))]
	l := newLife(v, t)
	if c := l.codes; c != nil {
		l.codes = append(make([]mqttp.ReasonCode, 0, len(c)+2), c...)
	}
	m, twin := l.build(), l.build()
	want := mustEncode(twin)
	switch sym.Choose("twins", 3) {
	case 1:
		buf := l.keepAn(clone(want))
		m, twin = mustDecode(v, buf), mustDecode(v, buf)
		if t == mqttp.PUBLISH && l.qos == 0 {
			l.hasID = false
		}
	case 2:
		if t != mqttp.PUBLISH {
			return
		}
		c, err := twin.(*mqttp.Publish).Clone(v)
		sym.Assert(err == nil, "a valid message is not cloned")
		m = c
	}
	a := *l
	a.change(m)
	if a.encodable() {
		_, _ = encode(m)
	}
	if v == v50 && sym.Choose("property of the twin", 2) == 1 {
		l.changeProp(twin)
		want = mustEncode(l.build())
		l.untouched()
	}
	sym.Assert(sym.EqBytes(mustEncode(twin), want), "changing a message changes another one")
	sameMsg(l.build(), twin)
	a.untouched()
	sym.Reach("apart")
}

// S03_life: any setter of the clone leaves the source as it was, and any setter of the source the clone.
func S03_life() {
	v := anyVersion()
	l := newLife(v, mqttp.PUBLISH)
	m := l.stage(l.build(), 3).(*mqttp.Publish)
	c, err := m.Clone(v)
	sym.Assert(err == nil, "a valid message is not cloned")
	a, b := *l, *l
	a.hasID, a.dup = false, false
	if sym.Choose("changed", 2) == 0 {
		a.change(c)
		if sym.Choose("again", 2) == 1 {
			a.change(c)
		}
	} else {
		b.change(m)
		if sym.Choose("again", 2) == 1 {
			b.change(m)
		}
	}
	a.check(c)
	b.check(m)
	a.untouched()
	b.untouched()
	sym.Reach("independent")
}

// R11_life: a message that was switched between versions, encoded, decoded and changed is as good as a new one of the last version.
func R11_life() {
	t := []mqttp.Type{mqttp.PUBLISH, mqttp.CONNECT, mqttp.CONNACK, mqttp.PUBACK, mqttp.PUBREL, mqttp.SUBSCRIBE, mqttp.SUBACK, mqttp.UNSUBSCRIBE, mqttp.DISCONNECT}[sym.Choose("type", 9)]
	v, b := v50, anyV3()
	if sym.Choose("start", 2) == 1 {
		v, b = b, v
	}
	l := newLife(v311, t)
	l.narrow, l.v, l.prop, l.on = true, v, 0x26, false
	if v == v50 {
		l.setProp()
	}
	m := l.build()
	had := l.has
	set := func(v mqttp.ProtocolVersion) {
		m.SetVersion(v)
		sym.Assert(m.Version() == v, "the version is not the one that was set")
		l.v = v
		if v != v50 {
			l.has = false
		}
	}
	if sym.Choose("encode", 2) == 1 {
		_, _ = encode(m)
	}
	set(b)
	last := sym.Choose("change", 2) == 1
	if sym.Choose("and back", 2) == 1 {
		if !last {
			l.change(m)
			had = had || l.has
		}
		m = l.stage(m, 3)
		set(v)
		if v == v50 && had {
			m.PropertiesDiscard()
			l.has = false
		}
		if last {
			l.change(m)
		}
	} else if last {
		l.change(m)
		m = l.stage(m, 2)
	}
	l.check(m)
}

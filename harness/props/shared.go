package props

import (
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// One message in the hands of several goroutines, none of which changes it.

// readProps reads the properties in every way.
func readProps(m mqttp.IFace) {
	read := func(x mqttp.PropertyToType) {
		if x == nil {
			return
		}
		_ = x.Type()
		_, _ = x.AsByte()
		_, _ = x.AsShort()
		_, _ = x.AsInt()
		_, _ = x.AsString()
		_, _ = x.AsStringPair()
		_, _ = x.AsStringPairs()
		_, _ = x.AsBinary()
	}
	for id := 0; id < 0x2B; id++ {
		read(m.PropertyGet(mqttp.PropertyID(id)))
	}
	_ = m.PropertyForEach(func(id mqttp.PropertyID, x mqttp.PropertyToType) { read(x) })
}

// readAll calls everything that only reads.
func readAll(m mqttp.IFace) {
	sameFields(m, m)
	readProps(m)
	_, _, _ = m.Type().Name(), m.Type().Desc(), m.Version()
	_, _ = m.ID()
	x := m.(interface {
		Flags() byte
		RemainingLength() int32
	})
	_, _ = x.Flags(), x.RemainingLength()
	switch p := m.(type) {
	case *mqttp.Connect:
		if w := p.Will(); w != nil {
			readAll(w)
		}
	case *mqttp.Publish:
		_, _, _ = p.Expired()
		_ = p.PublishID()
	case *mqttp.Subscribe, *mqttp.UnSubscribe:
		for _, t := range topicsOf(m) {
			_, _ = t.Topic()
			_, _, _, _, _ = t.Full(), t.Filter(), t.ShareName(), t.DollarPrefix(), t.Ops()
			o := t.Ops()
			_, _, _, _ = o.QoS(), o.NL(), o.RAP(), o.RetainHandling()
		}
	}
}

// anyMade is a message that was built, built and encoded, or decoded.
func anyMade(v mqttp.ProtocolVersion) mqttp.IFace {
	m := anyMessage(v, tiny)
	switch sym.Choose("made", 3) {
	case 1:
		mustEncode(m)
	case 2:
		return mustDecode(v, mustEncode(m))
	}
	return m
}

// D07_read: reading does not write.
func D07_read() {
	m := anyMade(anyVersion())
	sym.Alone(func() { readAll(m) })
	sym.Reach("alone")
}

// useClone does with a clone what a session does.
func useClone(m *mqttp.Publish, w mqttp.ProtocolVersion, set int) {
	c, err := m.Clone(w)
	sym.Assert(err == nil && c.Topic() == m.Topic() && sym.EqBytes(c.Payload(), m.Payload()), "a clone differs")
	c.SetPacketID(9)
	c.SetDup(true)
	sym.Assert(c.SetQoS(1) == nil, "a valid QoS is refused")
	c.SetRetain(!m.Retain())
	if c.Version() == v50 {
		for id := 0; id < 0x2B; id++ {
			_ = c.PropertyGet(mqttp.PropertyID(id))
		}
		switch set {
		case 0:
			sym.Assert(c.PropertySet(mqttp.PropertyUserProperty, mqttp.StringPair{K: "x", V: "y"}) == nil, "a legal property is refused")
		case 1:
			sym.Assert(c.PropertySet(mqttp.PropertyUserProperty, []mqttp.StringPair{{K: "k", V: "v"}}) == nil, "a legal property is refused")
		case 2:
			sym.Assert(c.PropertySet(mqttp.PropertyTopicAlias, uint16(3)) == nil, "a legal property is refused")
		default:
			sym.Assert(c.PropertySet(mqttp.PropertyCorrelationData, []byte("z")) == nil, "a legal property is refused")
		}
	}
	c.SetVersion(w)
	mustEncode(c)
	c.SetExpireAt(time.Unix(1, 0))
	c.SetPayload([]byte("other"))
	sym.Assert(c.SetTopic("other") == nil, "a valid topic is refused")
	c.PropertiesDiscard()
	mustEncode(c)
}

// D07_clone: nor does cloning, and the clones belong to those who made them.
func D07_clone() {
	v := anyVersion()
	w := anyVersion()
	m, _ := anyPublish(v, size{topic: 1, load: 1})
	if v == v50 {
		for _, id := range [][]byte{{}, {0x01, 0x09}, {0x03, 0x26}, {0x08, 0x26}, {0x09, 0x26}}[sym.Choose("forwarded", 5)] {
			var x interface{}
			switch id {
			case 0x01:
				x = uint8(1)
			case 0x09:
				x = []byte("data")
			case 0x26:
				x = []mqttp.StringPair{{K: "k", V: "v"}, {K: "k", V: "w"}, {K: "l", V: ""}}
			default:
				x = "text"
			}
			sym.Assert(m.PropertySet(mqttp.PropertyID(id), x) == nil, "a legal property is refused")
		}
	}
	if m.QoS() != 0 {
		m.SetPacketID(5)
	}
	set := sym.Choose("set", 4)
	if sym.Choose("decoded", 2) == 1 {
		m = mustDecode(v, mustEncode(m)).(*mqttp.Publish)
	}
	sym.Alone(func() { useClone(m, w, set) })
	sym.Reach("alone")
}

// D07_expiry: nor does asking whether a message has expired.
func D07_expiry() {
	m := mqttp.NewPublish(anyVersion())
	sym.Assert(m.Set("t", []byte("p"), 0, false, false) == nil, "a valid message is refused")
	sym.Clock(int64(sym.U32("now")), int64(sym.Int("now.ns", 0, 999999999)))
	if sym.Choose("expires", 2) == 1 {
		m.SetExpireAt(time.Unix(int64(sym.U32("at")), int64(sym.Int("at.ns", 0, 999999999))))
	}
	sym.Alone(func() {
		_, _, _ = m.Expired()
		c, err := m.Clone(v50)
		sym.Assert(err == nil, "a valid message is not cloned")
		_, _, _ = c.Expired()
	})
	sym.Reach("alone")
}

// D07_topic: topics are read only.
func D07_topic() {
	b := sym.Bytes("topic", 1, sym.Bound("bytes of a topic", 4, 5))
	var t *mqttp.Topic
	var err error
	if sym.Choose("subscription", 2) == 0 {
		t, err = mqttp.NewTopic(b)
	} else {
		t, err = mqttp.NewSubscribeTopic(b, 1)
	}
	sym.Assume(err == nil)
	sym.Alone(func() {
		_, _ = t.Topic()
		_, _, _, _, _ = t.Full(), t.Filter(), t.ShareName(), t.DollarPrefix(), t.Ops()
	})
	sym.Reach("alone")
}

// P03_inside: a message can be read and encoded while its properties are enumerated.
func P03_inside() {
	t := anyPropType()
	ids := allowedIDs(t, 0x18)
	m := newMsg(v50, t)
	ready(m)
	at := sym.Choose("id", len(ids))
	want := map[byte][]rprop{}
	lists := map[byte]bool{}
	for i := 0; i < 2 && i < len(ids); i++ {
		id := ids[(at+i)%len(ids)]
		v, ps := fixValue(id, t)
		want[id], lists[id] = ps, isList(v)
		sym.Assert(m.PropertySet(mqttp.PropertyID(id), v) == nil, "a legal property is refused")
	}
	size, _ := m.Size()
	n := 0
	err := m.PropertyForEach(func(id mqttp.PropertyID, x mqttp.PropertyToType) {
		n++
		kind, _, _ := refProp(byte(id), t)
		ps, ok := want[byte(id)]
		sym.Assert(ok, "the enumeration reports a property that was not set")
		reads(x, kind, lists[byte(id)], ps)
		for o, ps := range want {
			kind, _, _ := refProp(o, t)
			y := m.PropertyGet(mqttp.PropertyID(o))
			sym.Assert(y != nil, "a property is not reported during an enumeration")
			reads(y, kind, lists[o], ps)
		}
		k := 0
		_ = m.PropertyForEach(func(mqttp.PropertyID, mqttp.PropertyToType) { k++ })
		sym.Assert(k == len(want), "an enumeration inside another one does not visit every property once")
		sym.Assert(len(mustEncode(m)) == size, "the size changes during an enumeration")
	})
	sym.Assert(err == nil && n == len(want), "the enumeration does not visit every property once")
	sym.Reach("read")
}

// S05_inside: and while its topics are visited.
func S05_inside() {
	v := anyVersion()
	t := []mqttp.Type{mqttp.SUBSCRIBE, mqttp.UNSUBSCRIBE}[sym.Choose("type", 2)]
	k := 1 + sym.Choose("topics", 3)
	m := newMsg(v, t)
	m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(3)
	for i := 0; i < k; i++ {
		b := []byte{'a' + byte(i), '/', 'b'}
		switch p := m.(type) {
		case *mqttp.Subscribe:
			s, err := mqttp.NewSubscribeTopic(b, mqttp.SubscriptionOptions(i))
			sym.Assert(err == nil && p.AddTopic(s) == nil, "a valid topic is refused")
		case *mqttp.UnSubscribe:
			s, err := mqttp.NewTopic(b)
			sym.Assert(err == nil && p.AddTopic(s) == nil, "a valid topic is refused")
		}
	}
	want := mustEncode(m)
	n := 0
	visit := func(x *mqttp.Topic) error {
		sym.Assert(x.Full() == string([]byte{'a' + byte(n), '/', 'b'}), "topics are visited in another order")
		n++
		sym.Assert(len(topicsOf(m)) == k, "a visit inside another one does not visit every topic")
		sym.Assert(sym.EqBytes(mustEncode(m), want), "the encoding changes during a visit")
		return nil
	}
	switch p := m.(type) {
	case *mqttp.Subscribe:
		sym.Assert(p.ForEachTopic(visit) == nil, "visiting topics fails")
	case *mqttp.UnSubscribe:
		sym.Assert(p.ForEachTopic(visit) == nil, "visiting topics fails")
	}
	sym.Assert(n == k, "not every topic is visited")
	sym.Reach("visited")
}

// S03_apart: whatever subset of properties a message has, changing a property of the clone leaves the source alone, and the
// other way round.
func S03_apart() {
	m, twin := mqttp.NewPublish(v50), mqttp.NewPublish(v50)
	has := sym.Choose("has", 64)
	ids := []byte{0x01, 0x03, 0x08, 0x09, 0x26, 0x23}
	if sym.Choose("decoded", 2) == 1 {
		m = mustDecode(v50, mustEncode(withTopic(m))).(*mqttp.Publish)
	}
	vals := make([]interface{}, len(ids))
	for i, id := range ids {
		if has>>uint(i)&1 == 1 {
			vals[i], _ = fixValue(id, mqttp.PUBLISH)
		}
	}
	for _, p := range []*mqttp.Publish{m, twin} {
		sym.Assert(p.Set("t", []byte("p"), 0, false, false) == nil, "a valid message is refused")
		for i, id := range ids {
			if v := vals[i]; v != nil {
				switch x := v.(type) {
				case []byte:
					v = clone(x)
				case []mqttp.StringPair:
					v = append([]mqttp.StringPair{}, x...)
				}
				sym.Assert(p.PropertySet(mqttp.PropertyID(id), v) == nil, "a legal property is refused")
			}
		}
	}
	c, err := m.Clone(v50)
	cTwin, e := twin.Clone(v50)
	sym.Assert(err == nil && e == nil, "a valid message is not cloned")
	x, a, b := c, m, twin
	if sym.Choose("change", 2) == 1 {
		x, a, b = m, c, cTwin
	}
	switch k := sym.Choose("what", 7); k {
	case 6:
		x.PropertiesDiscard()
	default:
		var v interface{} = "other"
		switch ids[k] {
		case 0x01:
			v = uint8(1)
		case 0x09:
			v = []byte("other")
		case 0x26:
			v = []mqttp.StringPair{{K: "other", V: "pair"}}
		case 0x23:
			v = uint16(77)
		}
		sym.Assert(x.PropertySet(mqttp.PropertyID(ids[k]), v) == nil, "a legal property is refused")
	}
	sameMsgProps(a, b)
	n, err := a.Size()
	l, e := b.Size()
	sym.Assert(err == nil && e == nil && n == l, "changing a clone or its source changes the size of the other")
	sym.Reach("independent")
}

func withTopic(m *mqttp.Publish) *mqttp.Publish {
	sym.Assert(m.SetTopic("t") == nil, "a valid topic is refused")
	return m
}

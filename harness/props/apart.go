package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// copyProps sets the properties of g on m.
func copyProps(m, g mqttp.IFace) {
	if g.Version() != v50 {
		return
	}
	_ = g.PropertyForEach(func(id mqttp.PropertyID, p mqttp.PropertyToType) {
		if v, err := p.AsByte(); err == nil {
			_ = m.PropertySet(id, v)
		} else if v, err := p.AsShort(); err == nil {
			_ = m.PropertySet(id, v)
		} else if v, err := p.AsInt(); err == nil {
			_ = m.PropertySet(id, v)
		} else if v, err := p.AsString(); err == nil {
			_ = m.PropertySet(id, v)
		} else if v, err := p.AsBinary(); err == nil {
			_ = m.PropertySet(id, v)
		} else if id == mqttp.PropertyUserProperty {
			_ = m.PropertySet(id, pairsOf(p))
		}
	})
}

// rebuild makes a message with the content of g through the setters.
func rebuild(g mqttp.IFace) mqttp.IFace {
	v := g.Version()
	m, err := mqttp.New(v, g.Type())
	sym.Assert(err == nil, "a packet type is not available")
	id, e := g.ID()
	switch p := g.(type) {
	case *mqttp.Connect:
		q := m.(*mqttp.Connect)
		q.SetClean(p.IsClean())
		q.SetKeepAlive(p.KeepAlive())
		sym.Assert(q.SetClientID(p.ClientID()) == nil, "a client identifier is refused")
		sym.Assert(q.SetCredentials(p.Credentials()) == nil, "credentials are refused")
		if w := p.Will(); w != nil {
			n := mqttp.NewPublish(v)
			sym.Assert(n.Set(w.Topic(), w.Payload(), w.QoS(), w.Retain(), false) == nil, "a will is refused")
			copyProps(n, w)
			sym.Assert(q.SetWill(n) == nil, "a will is refused")
		}
	case *mqttp.ConnAck:
		q := m.(*mqttp.ConnAck)
		q.SetSessionPresent(p.SessionPresent())
		sym.Assert(q.SetReturnCode(p.ReturnCode()) == nil, "a return code is refused")
	case *mqttp.Publish:
		q := m.(*mqttp.Publish)
		sym.Assert(q.Set(p.Topic(), p.Payload(), p.QoS(), p.Retain(), p.Dup()) == nil, "a message is refused")
		if e == nil {
			q.SetPacketID(id)
		}
	case *mqttp.Ack:
		q := m.(*mqttp.Ack)
		q.SetPacketID(id)
		q.SetReason(p.Reason())
	case *mqttp.SubAck:
		q := m.(*mqttp.SubAck)
		q.SetPacketID(id)
		sym.Assert(q.AddReturnCodes(p.ReturnCodes()) == nil, "return codes are refused")
	case *mqttp.UnSubAck:
		q := m.(*mqttp.UnSubAck)
		q.SetPacketID(id)
		sym.Assert(q.AddReturnCodes(p.ReturnCodes()) == nil, "return codes are refused")
	case *mqttp.Subscribe:
		q := m.(*mqttp.Subscribe)
		q.SetPacketID(id)
		for _, t := range topicsOf(p) {
			n, err := mqttp.NewSubscribeTopic([]byte(t.Full()), t.Ops())
			sym.Assert(err == nil && q.AddTopic(n) == nil, "a topic is refused")
		}
	case *mqttp.UnSubscribe:
		q := m.(*mqttp.UnSubscribe)
		q.SetPacketID(id)
		for _, t := range topicsOf(p) {
			n, err := mqttp.NewTopic([]byte(t.Full()))
			sym.Assert(err == nil && q.AddTopic(n) == nil, "a topic is refused")
		}
	case *mqttp.Disconnect:
		m.(*mqttp.Disconnect).SetReasonCode(p.ReasonCode())
	case *mqttp.Auth:
		sym.Assert(m.(*mqttp.Auth).SetReasonCode(p.ReasonCode()) == nil, "a reason code is refused")
	}
	copyProps(m, g)
	return m
}

// exercise works with the message in a packet: it is decoded, built again, copied and encoded.
func exercise(v mqttp.ProtocolVersion, buf []byte) {
	g := mustDecode(v, buf)
	m := rebuild(g)
	same := sameMsg
	if p := g.PropertyGet(mqttp.PropertySubscriptionIdentifier); p != nil {
		if _, err := p.AsInt(); err != nil {
			// there is no accessor for a list of subscription identifiers
			same = sameFields
		}
	}
	same(g, m)
	if _, err := encode(m); err == nil {
		same(m, mustDecode(v, mustEncode(m)))
	}
	_, _, _ = decode(v, buf[:len(buf)-1])
	if p, ok := g.(*mqttp.Publish); ok {
		c, err := p.Clone(v)
		sym.Assert(err == nil && c.Topic() == p.Topic(), "a clone has another topic")
		c.SetPacketID(9)
		_, _ = encode(c)
		_, _, _ = p.Expired()
	}
	_, _ = g.Type().Name(), g.Type().Desc()
	g.PropertiesDiscard()
	_, _ = encode(g)
	if v == v50 && g.Type() != mqttp.AUTH {
		g.SetVersion(v311)
		_, _ = encode(g)
	}
}

// D06_shared: no operation touches memory that other goroutines share without synchronisation.
func D06_shared() {
	v := anyVersion()
	buf := mustEncode(anyMessage(v, tiny))
	sym.Alone(func() { exercise(v, buf) })
	sym.Reach("alone")
}

// D06_sharedText: neither do the classifications of topics, texts, codes and errors.
func D06_sharedText() {
	b := sym.Bytes("text", 0, sym.Bound("bytes of text", 3, 4))
	c := mqttp.ReasonCode(sym.U8("code"))
	sym.Alone(func() {
		if t, err := mqttp.NewTopic(b); err == nil {
			_, _ = t.Topic()
			_, _, _ = t.Full(), t.ShareName(), t.DollarPrefix()
		}
		mqttp.IsValidUTF(b)
		_, _ = mqttp.NewSubscribeTopic(b, mqttp.SubscriptionOptions(c))
		_, _, _, _ = c.Desc(), c.IsValid(), c.IsValidForType(mqttp.PUBACK), c.IsValidV3()
		_, _ = c.PacketTypeDir(mqttp.PUBACK)
		_, _ = mqttp.QosType(c).Desc(), mqttp.Error(c).Error()
	})
	sym.Reach("alone")
}

// rich are packets of every type with every kind of content.
func rich(v mqttp.ProtocolVersion, t mqttp.Type) []byte {
	m := newMsg(v, t)
	ready(m)
	switch x := m.(type) {
	case *mqttp.Connect:
		w := mqttp.NewPublish(v)
		sym.Assert(w.Set("will", []byte("load"), 1, true, false) == nil && x.SetWill(w) == nil, "a valid will is refused")
		sym.Assert(x.SetClientID([]byte("abc")) == nil && x.SetCredentials([]byte("user"), []byte("pass")) == nil, "valid fields are refused")
		x.SetKeepAlive(0x5151)
	case *mqttp.ConnAck:
		x.SetSessionPresent(true)
	case *mqttp.Publish:
		sym.Assert(x.Set("a/b", []byte("payload"), 2, true, true) == nil, "a valid message is refused")
		x.SetPacketID(0x5152)
	case *mqttp.Ack:
		x.SetPacketID(0x5153)
		x.SetReason(mqttp.CodeSuccess)
	case *mqttp.Subscribe:
		x.SetPacketID(0x5154)
		s, err := mqttp.NewSubscribeTopic([]byte("$share/g/x/#"), 2)
		sym.Assert(err == nil && x.AddTopic(s) == nil, "a valid topic is refused")
	case *mqttp.UnSubscribe:
		x.SetPacketID(0x5155)
		s, err := mqttp.NewTopic([]byte("x/+"))
		sym.Assert(err == nil && x.AddTopic(s) == nil, "a valid topic is refused")
	case *mqttp.SubAck:
		x.SetPacketID(0x5156)
		sym.Assert(x.AddReturnCodes([]mqttp.ReasonCode{2, 0x80, 0}) == nil, "valid codes are refused")
	case *mqttp.UnSubAck:
		x.SetPacketID(0x5157)
		if v == v50 {
			sym.Assert(x.AddReturnCodes([]mqttp.ReasonCode{0x11, 0x80, 0}) == nil, "valid codes are refused")
		}
	}
	if v == v50 && t != mqttp.PINGREQ && t != mqttp.PINGRESP {
		sym.Assert(m.PropertySet(mqttp.PropertyUserProperty, []mqttp.StringPair{{K: "key", V: "value"}, {K: "k", V: ""}}) == nil, "a legal property is refused")
		for _, id := range allowedIDs(t, 0x18, 0x23, 0x26) {
			kind, _, _ := refProp(id, t)
			switch kind {
			case kStr:
				sym.Assert(m.PropertySet(mqttp.PropertyID(id), "text") == nil, "a legal property is refused")
				return mustEncode(m)
			case kBin:
				sym.Assert(m.PropertySet(mqttp.PropertyID(id), []byte("bin")) == nil, "a legal property is refused")
				return mustEncode(m)
			}
		}
	}
	return mustEncode(m)
}

// apart asserts that m, built or decoded, is not changed by work with another packet.
func apart(m mqttp.IFace, v mqttp.ProtocolVersion, other []byte) {
	buf := mustEncode(m)
	was := clone(buf)
	g := mustDecode(m.Version(), clone(buf))
	exercise(v, other)
	sym.Assert(sym.EqBytes(buf, was), "work with another message changes an encoded packet")
	again := mustEncode(m)
	sym.Assert(len(again) == len(was), "work with another message changes the size of a message")
	if m.Version() != v50 {
		sym.Assert(sym.EqBytes(again, was), "work with another message changes the encoding of a message")
	}
	sameMsg(m, mustDecode(m.Version(), was))
	sameMsg(g, m)
	sym.Reach("apart")
}

// D06_apart: a message does not change when others of any type are worked with.
func D06_apart() {
	v := anyVersion()
	m := anyMessage(v, bare)
	w := []mqttp.ProtocolVersion{v50, v311}[sym.Choose("other version", 2)]
	n := 14
	if w == v50 {
		n = 15
	}
	apart(m, w, rich(w, mqttp.Type(1+sym.Choose("other", n))))
}

// D06_same: nor when another one of the same type has nearly the same content.
func D06_same() {
	v := anyVersion()
	n := 14
	if v == v50 {
		n = 15
	}
	t := mqttp.Type(1 + sym.Choose("type", n))
	m := messageOf(v, t, size{topic: 1, load: 1, str: 1, list: 1})
	apart(m, v, mustEncode(messageOf(v, t, size{topic: 1, load: 1, str: 1, list: 1})))
}

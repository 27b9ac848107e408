package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// Lists of thousands of entries.

func vastCount() int {
	return []int{513, 1000, 1025, sym.Bound("entries of vast lists", 4100, 10000)}[sym.Choose("count", 4)]
}

func vastName(i int) []byte {
	return []byte{'a' + byte(i%26), 'a' + byte(i/26%26), 'a' + byte(i/676)}
}

// vastCode is the code number i of a list.
func vastCode(t mqttp.Type, i int) byte {
	if t == mqttp.SUBACK {
		return []byte{0, 1, 0x80, 2}[i%4]
	}
	return []byte{0, 0x11, 0x80}[i%3]
}

// vastBody is a packet with n topics, the last with the options o, or n codes.
func vastBody(v mqttp.ProtocolVersion, t mqttp.Type, n int, o byte) []byte {
	body := []byte{1, 2}
	if v == v50 {
		body = append(body, 0)
	}
	for i := 0; i < n; i++ {
		switch t {
		case mqttp.SUBSCRIBE:
			x := byte(i % 3)
			if i == n-1 {
				x = o
			}
			body = append(append(append(body, 0, 3), vastName(i)...), x)
		case mqttp.UNSUBSCRIBE:
			body = append(append(body, 0, 3), vastName(i)...)
		default:
			c := vastCode(t, i)
			if i == n-1 {
				c = o
			}
			body = append(body, c)
		}
	}
	return packet(first(t), body)
}

// vastCheck compares the entries.
func vastCheck(m mqttp.IFace, n int, o byte) {
	checkID(m, 0x0102)
	var codes []mqttp.ReasonCode
	switch p := m.(type) {
	case *mqttp.SubAck:
		codes = p.ReturnCodes()
	case *mqttp.UnSubAck:
		codes = p.ReturnCodes()
	default:
		ts := topicsOf(m)
		sym.Assert(len(ts) == n, "the number of topics differs")
		for i, x := range ts {
			sym.Assert(x.Full() == string(vastName(i)), "a topic differs")
			if m.Type() == mqttp.SUBSCRIBE && i < n-1 {
				sym.Assert(byte(x.Ops()) == byte(i%3), "the options of a topic differ")
			}
		}
		if m.Type() == mqttp.SUBSCRIBE {
			sym.Assert(byte(ts[n-1].Ops()) == o, "the options of a topic differ")
		}
		return
	}
	sym.Assert(len(codes) == n, "the number of codes differs")
	for i := 0; i < n-1; i++ {
		sym.Assert(byte(codes[i]) == vastCode(m.Type(), i), "a code differs")
	}
	sym.Assert(byte(codes[n-1]) == o, "a code differs")
}

// vastLast is what the last entry carries.
func vastLast(v mqttp.ProtocolVersion, t mqttp.Type) (byte, bool) {
	o := sym.U8("last")
	switch {
	case t == mqttp.SUBSCRIBE:
		return o, refOptions(v, o)
	case t == mqttp.UNSUBSCRIBE:
		return o, true
	case v == v50:
		return o, refReason(t, o)
	}
	return o, sym.Or(o <= 2, o == 0x80)
}

func vastDecode(v mqttp.ProtocolVersion, t mqttp.Type) {
	n := vastCount()
	o, ok := vastLast(v, t)
	if m, ok := accept(v, t, vastBody(v, t, n, o), ok); ok {
		vastCheck(m, n, o)
	}
}

func vastEncode(v mqttp.ProtocolVersion, t mqttp.Type) {
	n := vastCount()
	o, ok := vastLast(v, t)
	sym.Assume(ok)
	m := newMsg(v, t)
	m.(interface{ SetPacketID(mqttp.IDType) }).SetPacketID(0x0102)
	var codes []mqttp.ReasonCode
	for i := 0; i < n; i++ {
		x := byte(i % 3)
		c := o
		if i < n-1 {
			c = vastCode(t, i)
		} else {
			x = o
		}
		switch p := m.(type) {
		case *mqttp.Subscribe:
			s, err := mqttp.NewSubscribeTopic(vastName(i), mqttp.SubscriptionOptions(x))
			sym.Assert(err == nil && p.AddTopic(s) == nil, "a valid topic is refused")
		case *mqttp.UnSubscribe:
			s, err := mqttp.NewTopic(vastName(i))
			sym.Assert(err == nil && p.AddTopic(s) == nil, "a valid topic is refused")
		case *mqttp.SubAck:
			if i%2 == 0 {
				sym.Assert(p.AddReturnCode(mqttp.ReasonCode(c)) == nil, "a valid code is refused")
			} else {
				sym.Assert(p.AddReturnCodes([]mqttp.ReasonCode{mqttp.ReasonCode(c)}) == nil, "a valid code is refused")
			}
		default:
			codes = append(codes, mqttp.ReasonCode(c))
		}
	}
	if len(codes) > 0 {
		sym.Assert(m.(*mqttp.UnSubAck).AddReturnCodes(codes) == nil, "valid codes are refused")
	}
	vastCheck(m, n, o)
	want := vastBody(v, t, n, o)
	size, err := m.Size()
	sym.Assert(err == nil && size == len(want), "the announced size is wrong")
	sym.Assert(sym.EqBytes(mustEncode(m), want), "a long list is encoded wrongly")
	sym.Reach("encoded")
}

// A05_vast and the others: lists of thousands of entries.
func A05_vast() { vastDecode(anyVersion(), mqttp.SUBSCRIBE) }
func A06_vast() { vastDecode(anyVersion(), mqttp.SUBACK) }
func A07_vast() { vastDecode(anyVersion(), mqttp.UNSUBSCRIBE) }
func A08_vast() { vastDecode(v50, mqttp.UNSUBACK) }
func R05_vast() { vastEncode(anyVersion(), mqttp.SUBSCRIBE) }
func R06_vast() { vastEncode(anyVersion(), mqttp.SUBACK) }
func R07_vast() { vastEncode(anyVersion(), mqttp.UNSUBSCRIBE) }
func R08_vast() { vastEncode(v50, mqttp.UNSUBACK) }

// vastPairs are many user properties.
func vastPairs(n int) []mqttp.StringPair {
	ps := make([]mqttp.StringPair, 0, n)
	for i := 0; i < n; i++ {
		ps = append(ps, mqttp.StringPair{K: string(vastName(i)), V: "v"})
	}
	return ps
}

func vastProps(n int, last []byte) (pr []byte) {
	for i := 0; i < n; i++ {
		w := []byte("v")
		if i == n-1 {
			w = last
		}
		pr = append(append(append(pr, 0x26, 0, 3), vastName(i)...), lp(w)...)
	}
	return
}

// D04_vast: thousands of user properties survive re-encoding.
func D04_vast() {
	n := vastCount()
	buf := propPacket(anyPropType(), vastProps(n, utfBytes("value", 1, 1)))
	m := mustDecode(v50, buf)
	sym.Assert(len(pairsOf(m.PropertyGet(mqttp.PropertyUserProperty))) == n, "the number of user properties differs")
	sym.Assert(sym.EqBytes(mustEncode(m), buf), "a packet with many properties is re-encoded differently")
	sym.Reach("re-encoded")
}

// P02_vast: thousands of user properties are encoded as they were set.
func P02_vast() {
	n := vastCount()
	last := utfBytes("value", 1, 1)
	buf := propPacket(anyPropType(), vastProps(n, last))
	m := mustDecode(v50, buf)
	m.PropertiesDiscard()
	ps := vastPairs(n)
	ps[n-1].V = string(last)
	sym.Assert(m.PropertySet(mqttp.PropertyUserProperty, ps) == nil, "a legal property is refused")
	sym.Assert(len(pairsOf(m.PropertyGet(mqttp.PropertyUserProperty))) == n, "the number of user properties differs")
	size, err := m.Size()
	sym.Assert(err == nil && size == len(buf), "the announced size is wrong")
	sym.Assert(sym.EqBytes(mustEncode(m), buf), "many properties are encoded wrongly")
	sym.Reach("encoded")
}

// S03_vast: and are forwarded.
func S03_vast() {
	n := vastCount()
	m := mqttp.NewPublish(v50)
	ps := vastPairs(n)
	sym.Assert(m.Set("t", []byte("p"), 0, false, false) == nil, "a valid message is refused")
	sym.Assert(m.PropertySet(mqttp.PropertyUserProperty, ps) == nil, "a legal property is refused")
	c, err := m.Clone(v50)
	sym.Assert(err == nil, "a valid message is not cloned")
	sym.Assert(sym.EqBytes(mustEncode(c), mustEncode(m)), "the clone differs")
	sym.Reach("cloned")
}

// E02_huge: property blocks around the length that takes four bytes.
func E02_huge() {
	f := sym.Fill("value", 'v', 0, 65535)
	full := string(sym.Fill("full", 'f', 65535, 65535))
	n := 15 + sym.Choose("pairs", 3)
	var ps []mqttp.StringPair
	for i := 0; i < n; i++ {
		ps = append(ps, mqttp.StringPair{K: full, V: full})
	}
	ps = append(ps, mqttp.StringPair{K: full, V: string(f)})
	m := mqttp.NewPublish(v50)
	sym.Assert(m.SetTopic("t") == nil, "a valid topic is refused")
	sym.Assert(m.PropertySet(mqttp.PropertyUserProperty, ps) == nil, "a legal property is refused")
	pl := n*(5+2*65535) + 5 + 65535 + len(f)
	rem := 3 + viLen(pl) + pl
	size, err := m.Size()
	sym.Assert(err == nil && size == 1+viLen(rem)+rem, "the announced size is wrong")
	buf := mustEncode(m)
	sym.Assert(len(buf) == size, "the encoded length differs from the announced size")
	g := mustDecode(v50, buf)
	got := pairsOf(g.PropertyGet(mqttp.PropertyUserProperty))
	sym.Assert(len(got) == n+1, "the number of user properties changes")
	sym.SameContent([]byte(got[n].V), f, "the value changes")
	sym.Reach("encoded")
}

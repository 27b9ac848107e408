package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// roomy is b with arbitrary bytes behind it in the same array.
func roomy(b []byte) []byte {
	if len(b) > 2000 {
		return b
	}
	return append(clone(b), sym.Bytes("room", 5, 5)...)[:len(b)]
}

// U01_room: what lies behind a buffer, in its array, is no part of it.
func U01_room() {
	b := sym.Bytes("buffer", 0, sym.Bound("bytes of a buffer in a larger array", 5, 8))
	r := roomy(b)
	whole := clone(r[:cap(r)])
	x, n, err := mqttp.ReadLPBytes(r)
	y, k, want := mqttp.ReadLPBytes(b)
	sym.Assert(err == want && n == k && sym.EqBytes(x, y), "the room behind a buffer is read")
	z := sym.Bytes("field", 0, 4)
	n, err = mqttp.WriteLPBytes(r, z)
	k, want = mqttp.WriteLPBytes(b, z)
	sym.Assert(err == want && n == k && sym.EqBytes(r, b), "the room behind a buffer is counted")
	sym.Assert(sym.EqBytes(r[len(r):cap(r)], whole[len(r):]), "the room behind a buffer is written to")
	sym.Reach("compared")
}

// decodeInRoom decodes buf inside a larger array and on its own.
func decodeInRoom(v mqttp.ProtocolVersion, buf []byte) {
	r := roomy(buf)
	whole := clone(r[:cap(r)])
	m, n, err := decode(v, r)
	sym.Assert(sym.EqBytes(r[:cap(r)], whole), "Decode changes its input or what lies behind it")
	g, k, want := decode(v, buf)
	sym.Assert(n == k && err == want, "Decode depends on what lies behind its input")
	if err == nil {
		sameMsg(g, m)
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// D01_room: what lies behind a packet, in its array, is no part of it.
func D01_room() {
	decodeInRoom(anyVersion(), packet(sym.U8("first"), sym.Bytes("body", 0, sym.Bound("bytes of a body in a larger array", 8, 9))))
}

// D02_room: nor of what has been received of it.
func D02_room() {
	v := anyVersion()
	n := 14
	if v == v50 {
		n = 15
	}
	buf := rich(v, mqttp.Type(1+sym.Choose("type", n)))
	k := 1 + sym.Choose("bytes", len(buf)-1)
	if sym.Choose("cut", 2) == 0 {
		decodeInRoom(v, buf[:k])
		return
	}
	h := 2
	for buf[h-1]&0x80 != 0 {
		h++
	}
	// a packet that ends early
	sym.Assume(k >= h)
	decodeInRoom(v, packet(buf[0], buf[h:k]))
}

// E01_room: a packet is not encoded into the room behind a buffer.
func E01_room() {
	v := anyVersion()
	m := anyMessage(v, bare)
	size, err := m.Size()
	sym.Assert(err == nil, "a valid message has no size")
	want := mustEncode(m)
	k := sym.Choose("short by", size+1)
	buf := make([]byte, size, size+4)
	for i := range buf {
		buf[i] = 0xEE
	}
	r := buf[:size-k]
	n, err := m.Encode(r)
	if k > 0 {
		sym.Assert(err == mqttp.ErrInsufficientBufferSize, "a packet is encoded into the room behind a buffer")
		sym.Assert(sym.EqBytes(buf[size-k:], func() (e []byte) {
			for i := 0; i < k; i++ {
				e = append(e, 0xEE)
			}
			return
		}()), "the room behind a buffer is written to")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil && n == size && sym.EqBytes(buf, want), "a packet is encoded wrongly")
	sym.Assert(sym.EqBytes(buf[:cap(buf)][size:], []byte{0, 0, 0, 0}), "the room behind a buffer is written to")
	sym.Reach("encoded")
}

// R01_otherWill: the will of a CONNECT may have been made for another version.
func R01_otherWill() {
	v, wv := anyVersion(), anyVersion()
	sym.Assume(v != wv)
	w, wps := anyWill(wv, size{topic: 2, load: 2, str: 1, props: 1})
	// the properties of a will are none of a 3.x CONNECT
	m := mqttp.NewConnect(v)
	m.SetClean(true)
	sym.Assert(m.SetWill(w) == nil, "a valid will is refused")
	if sym.Choose("user", 2) == 1 {
		sym.Assert(m.SetCredentials([]byte("u"), []byte{sym.U8("password")}) == nil, "valid credentials are refused")
	}
	size, err := m.Size()
	sym.Assert(err == nil, "a valid message has no size")
	buf := mustEncode(m)
	sym.Assert(len(buf) == size, "the encoded length differs from the announced size")
	g := mustDecode(v, buf).(*mqttp.Connect)
	x := g.Will()
	sym.Assert(x != nil && x.Topic() == w.Topic() && sym.EqBytes(x.Payload(), w.Payload()), "the will changes")
	sym.Assert(x.QoS() == w.QoS() && x.Retain() == w.Retain(), "the will changes")
	u, p := m.Credentials()
	gu, gp := g.Credentials()
	sym.Assert(sym.EqBytes(u, gu) && sym.EqBytes(p, gp), "the credentials change")
	if v == v50 {
		sym.Assert(len(wps) == 0, "a 3.x will has properties")
	}
	for id := 1; id < 0x2B; id++ {
		if v != v50 || wv != v50 {
			sym.Assert(x.PropertyGet(mqttp.PropertyID(id)) == nil, "a will gets a property")
		}
	}
	sym.Reach("encoded")
}

// fail makes calls that fail, in every way there is.
func fail(v mqttp.ProtocolVersion, t mqttp.Type, b []byte, x byte) {
	m := newMsg(v, t)
	_, _ = encode(m)
	_, _ = m.Encode(nil)
	_, _ = mqttp.New(v, mqttp.Type(x))
	_ = m.PropertySet(mqttp.PropertyID(x), b)
	_ = m.PropertySet(mqttp.PropertyID(x), string(b))
	_ = m.PropertySet(mqttp.PropertyID(x), x)
	_ = m.PropertySet(mqttp.PropertyID(x), 1.5)
	_ = m.PropertySet(mqttp.PropertyID(x), nil)
	_, _ = m.PropertyGet(mqttp.PropertyID(x)), m.PropertyForEach(func(mqttp.PropertyID, mqttp.PropertyToType) {})
	if w, ok := m.(interface{ SetPacketID(mqttp.IDType) }); ok {
		w.SetPacketID(0)
		_, _ = encode(m)
	}
	switch p := m.(type) {
	case *mqttp.Connect:
		_, _ = p.SetWill(nil), p.SetWill(mqttp.NewPublish(v))
		_, _ = p.SetClientID(b), p.SetCredentials(b, b)
		_ = p.SetCredentials(nil, b)
		_, _ = encode(p)
	case *mqttp.Publish:
		_ = p.Set(string(b), b, mqttp.QosType(x), false, x&1 == 1)
		_, _ = p.SetTopic(string(b)), p.SetQoS(mqttp.QosType(x))
		_, _ = encode(p)
		_, _ = p.Clone(mqttp.ProtocolVersion(x))
	case *mqttp.Subscribe:
		if s, err := mqttp.NewSubscribeTopic(b, mqttp.SubscriptionOptions(x)); err == nil {
			_ = p.AddTopic(s)
		}
	case *mqttp.UnSubscribe:
		if s, err := mqttp.NewTopic(b); err == nil {
			_ = p.AddTopic(s)
		}
	case *mqttp.SubAck:
		_ = p.AddReturnCode(mqttp.ReasonCode(x))
	case *mqttp.UnSubAck:
		_ = p.AddReturnCode(mqttp.ReasonCode(x))
		_ = p.AddReturnCodes([]mqttp.ReasonCode{mqttp.ReasonCode(x)})
	case *mqttp.ConnAck:
		_ = p.SetReturnCode(mqttp.ReasonCode(x))
	}
	_, _, _ = decode(v, []byte{x})
	_, _, _ = decode(v, nil)
}

// D06_refused: what is refused touches nothing that other goroutines share either.
func D06_refused() {
	v := anyVersion()
	buf := packet(sym.U8("first"), sym.Bytes("body", 0, sym.Bound("bytes of the body of a refused packet", 7, 8)))
	sym.Alone(func() {
		_, _, _ = mqttp.Decode(v, buf)
		_, _, _ = mqttp.Decode(v, buf[:len(buf)-1])
	})
	sym.Reach("alone")
}

// D06_failing: nor do calls that fail.
func D06_failing() {
	v := anyVersion()
	n := 14
	if v == v50 {
		n = 15
	}
	t := mqttp.Type(1 + sym.Choose("type", n))
	b, x := sym.Bytes("text", 0, 2), sym.U8("byte")
	sym.Alone(func() { fail(v, t, b, x) })
	sym.Reach("alone")
}

// D06_large: nor does work with long contents and long lists.
func D06_large() {
	v := anyVersion()
	t := []mqttp.Type{mqttp.PUBLISH, mqttp.CONNECT, mqttp.SUBSCRIBE, mqttp.SUBACK, mqttp.UNSUBSCRIBE}[sym.Choose("type", 5)]
	n := []int{130, 1025, 60000}[sym.Choose("size", 3)]
	o := sym.U8("byte")
	sym.Assume(o <= 2)
	var buf []byte
	long := make([]byte, n)
	for i := range long {
		long[i] = 'l'
	}
	long[n-1] = 'a' + o
	switch t {
	case mqttp.PUBLISH:
		m := mqttp.NewPublish(v)
		sym.Assert(m.Set(string(long), long, 1, false, false) == nil, "a valid message is refused")
		m.SetPacketID(7)
		buf = mustEncode(m)
	case mqttp.CONNECT:
		m := mqttp.NewConnect(v)
		m.SetClean(true)
		w := mqttp.NewPublish(v)
		sym.Assert(w.Set(string(long), long, 1, false, false) == nil && m.SetWill(w) == nil, "a valid will is refused")
		sym.Assert(m.SetCredentials(long, long) == nil, "valid credentials are refused")
		buf = mustEncode(m)
	default:
		if n > 4000 {
			n = 4000
		}
		buf = vastBody(v, t, n, o)
	}
	if v == v50 && n < 4000 {
		m := mustDecode(v, buf)
		sym.Assert(m.PropertySet(mqttp.PropertyUserProperty, vastPairs(n)) == nil, "a legal property is refused")
		buf = mustEncode(m)
	}
	sym.Alone(func() { exercise(v, buf) })
	sym.Reach("alone")
}

// E01_far: nor into a buffer that is much longer, beyond the packet.
func E01_far() {
	v := anyVersion()
	m := anyMessage(v, bare)
	size, err := m.Size()
	sym.Assert(err == nil, "a valid message has no size")
	want := mustEncode(m)
	n := []int{64, 600, 1500}[sym.Choose("room", 3)]
	buf := make([]byte, size+n)
	old := sym.U8("old")
	for i := range buf {
		buf[i] = old
	}
	k, err := m.Encode(buf)
	sym.Assert(err == nil && k == size && sym.EqBytes(buf[:size], want), "a packet is encoded wrongly")
	for _, x := range buf[size:] {
		sym.Assert(x == old, "what lies behind the packet changes")
	}
	sym.Reach("encoded")
}

package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// The same memory, filled again: what a call finds there now decides, not what was there before.

// refill writes other content of at most the same length to the memory of b, and returns it.
func refill(b, other []byte) []byte {
	copy(b, other)
	return b[:least(len(b), len(other))]
}

// T01_again: two filters one after the other in the same memory.
func T01_again() {
	n := sym.Bound("topic bytes", 3, 4)
	b := sym.Bytes("first topic", 1, n)
	x, err := mqttp.NewTopic(b)
	sym.Assert((err == nil && x != nil) == refSub(b).ok, "a topic filter is refused or accepted wrongly")
	checkTopic(refill(b, sym.Bytes("second topic", 1, n)))
}

// T01_valid: a filter that differs from a valid one in one place.
func T01_valid() {
	b := []byte("$share/g/a/+/b/c")
	_, err := mqttp.NewTopic(b)
	sym.Assert(err == nil, "a valid topic filter is rejected")
	b[sym.Choose("place", len(b))] = sym.U8("byte")
	checkTopic(b[:len(b)-sym.Choose("shorter", 3)])
}

// T03_again: two names one after the other in the same memory.
func T03_again() {
	n := sym.Bound("name bytes", 4, 5)
	b := sym.Bytes("first name", 1, n)
	topic := sym.Choose("topic", 2) == 1
	judge := func(b []byte) {
		if topic {
			sym.Assert(mqttp.ValidTopic(b) == refTopicName(b), "a topic name is judged wrongly")
		} else {
			sym.Assert(mqttp.IsValidUTF(b) == cleanUTF8(b), "a text string is judged wrongly")
		}
	}
	judge(b)
	judge(refill(b, sym.Bytes("second name", 1, n)))
	sym.Reach("judged")
}

// T03_credentials: the setters of a CONNECT too.
func T03_credentials() {
	m := mqttp.NewConnect(anyVersion())
	user, pass := []byte("user"), []byte("pass")
	sym.Assert(m.SetCredentials(user, pass) == nil, "valid credentials are refused")
	user[sym.Choose("place", 4)] = sym.U8("byte")
	user = user[:4-sym.Choose("shorter", 2)]
	sym.Assert((m.SetCredentials(user, pass) == nil) == cleanUTF8(user), "a user name is judged wrongly")
	id := []byte("id2")
	sym.Assert(m.SetClientID(id) == nil, "a valid client identifier is refused")
	id[sym.Choose("place", 3)] = sym.U8("byte")
	sym.Assert((m.SetClientID(id) == nil) == refClientID(id), "a client identifier is judged wrongly")
	sym.Reach("judged")
}

// refillTypes have packets that differ by their number.
var refillTypes = []mqttp.Type{mqttp.CONNECT, mqttp.CONNACK, mqttp.PUBLISH, mqttp.PUBACK, mqttp.PUBREL, mqttp.SUBSCRIBE,
	mqttp.SUBACK, mqttp.UNSUBSCRIBE, mqttp.UNSUBACK, mqttp.DISCONNECT, mqttp.AUTH}

func anyRefill(name string, v mqttp.ProtocolVersion) mqttp.Type {
	n := len(refillTypes)
	if v != v50 {
		n--
	}
	return refillTypes[sym.Choose(name, n)]
}

// D06_refill: packets that arrive one after the other in the same memory are read as they are, after a
// packet that was read, was incomplete or was refused.
func D06_refill() {
	v := anyVersion()
	t := anyRefill("type", v)
	buf := make([]byte, 0, 100)
	for i := 0; i < 2; i++ {
		o := anyRefillOf(t)
		before := numbered(v, o, i+30)
		buf = append(buf[:0], before...)
		switch sym.Choose("before", 4) {
		case 0:
			_, _, err := decode(v, buf)
			sym.Assert(err == nil, "a valid packet is not decoded")
		case 1:
			_, _, err := decode(v, buf[:least(len(buf)-1, 5)])
			sym.Assert(err != nil, "an incomplete packet is accepted")
		case 2:
			_, _, err := decode(v, append(buf, 0))
			sym.Assert(err != nil, "a packet with more behind it is accepted")
		default:
			buf[0] ^= 1
			_, _, err := decode(v, buf)
			if o != mqttp.PUBLISH {
				sym.Assert(err != nil, "wrong flags are accepted")
			}
		}
		want := numbered(v, t, i)
		buf = append(buf[:0], want...)
		m := mustDecode(v, buf)
		sym.Assert(m.Type() == t, "the packet type differs")
		sym.Assert(sym.EqBytes(buf, want), "input is written")
		sym.Assert(sym.EqBytes(mustEncode(m), want), "a packet is read as what was there before")
	}
	sym.Reach("read")
}

// anyRefillOf is t or PUBLISH.
func anyRefillOf(t mqttp.Type) mqttp.Type {
	if sym.Choose("type before", 2) == 1 {
		return mqttp.PUBLISH
	}
	return t
}

// D01_again: a packet that differs from the one before in the same memory in one place.
func D01_again() {
	v := anyVersion()
	t := anyRefill("type", v)
	buf := numbered(v, t, 5)
	cut := sym.Choose("cut", 3)
	_, _, err := decode(v, buf[:len(buf)-cut])
	sym.Assert((err == nil) == (cut == 0), "a valid packet is refused or an incomplete one accepted")
	buf[sym.Choose("place", len(buf))] = sym.U8("byte")
	fresh := clone(buf)
	m, n, err := decode(v, buf)
	g, k, e := decode(v, fresh)
	sym.Assert(err == e && n == k && (m == nil) == (g == nil), "a packet is judged as what was there before")
	if m != nil {
		sameMsg(m, g)
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// D02_again: a packet that grows in place until it is complete is read then, and never before.
func D02_again() {
	v := anyVersion()
	t := anyRefill("type", v)
	want := numbered(v, t, 7)
	buf := make([]byte, 0, len(want))
	for i, b := range want {
		buf = append(buf, b)
		if i+1 == len(want) {
			break
		}
		m, n, err := decode(v, buf)
		sym.Assert(m == nil && err == mqttp.ErrInsufficientDataSize, "an incomplete packet is not recognised")
		sym.Assert(i == 0 || n == len(want), "the full size of the packet is not reported")
	}
	m := mustDecode(v, buf)
	sym.Assert(sym.EqBytes(mustEncode(m), want), "a packet that grew is read wrongly")
	sym.Reach("read")
}

// E01_again: messages are encoded into the same memory one after the other.
func E01_again() {
	v := anyVersion()
	t := anyRefill("type", v)
	buf := make([]byte, 100)
	for i := 0; i < 3; i++ {
		o := t
		if i == 1 {
			o = anyRefillOf(t)
		}
		want := numbered(v, o, i)
		m := mustDecode(v, clone(want))
		small := len(want) - 1 - sym.Choose("too small", 2)
		old := clone(buf)
		if i > 0 {
			_, err := m.Encode(buf[:small])
			sym.Assert(err == mqttp.ErrInsufficientBufferSize, "a buffer that is too small is not refused")
			sym.Assert(sym.EqBytes(buf[small:], old[small:]), "memory behind the buffer is written")
		}
		n, err := m.Encode(buf)
		sym.Assert(err == nil && n == len(want), "a message is not encoded")
		sym.Assert(sym.EqBytes(buf[:n], want), "a message is encoded as another one")
		sym.Assert(sym.EqBytes(buf[n:], old[n:]), "memory behind the packet is written")
	}
	sym.Reach("encoded")
}

// S01_again: payloads in the same memory.
func S01_again() {
	v := anyVersion()
	m := mqttp.NewPublish(v)
	b := sym.Bytes("payload", 2, 2)
	sym.Assert(m.Set("t", b, 0, false, false) == nil, "a valid message is refused")
	sym.Assert(sym.EqBytes(m.Payload(), b), "the payload differs")
	other := sym.Bytes("payload", 1, 2)
	b = refill(b, other)
	m.SetPayload(b)
	sym.Assert(sym.EqBytes(m.Payload(), other), "the payload differs")
	g := mustDecode(v, mustEncode(m)).(*mqttp.Publish)
	sym.Assert(sym.EqBytes(g.Payload(), other), "the payload differs")
	sym.Reach("set")
}

// U01_again: fields in the same memory.
func U01_again() {
	b := []byte{0, 2, 'a', 'b', 'c'}
	x, n, err := mqttp.ReadLPBytes(b)
	sym.Assert(err == nil && n == 4 && sym.EqBytes(x, []byte("ab")), "a field is read wrongly")
	b[sym.Choose("place", 5)] = sym.U8("byte")
	l := int(b[0])*256 + int(b[1])
	x, n, err = mqttp.ReadLPBytes(b)
	sym.Assert((err == nil) == (l <= 3), "a field is read or refused wrongly")
	if err == nil {
		k := sym.Concrete(l)
		sym.Assert(n == k+2 && sym.EqBytes(x, b[2:2+k]), "a field is read wrongly")
		sym.Reach("read")
	}
}

// S03_many: a clone carries every user property.
func S03_many() {
	n := anyCount()
	m := mqttp.NewPublish(v50)
	sym.Assert(m.Set("t", []byte("p"), 1, false, false) == nil, "a valid message is refused")
	var ps []mqttp.StringPair
	for i := 0; i < n; i++ {
		ps = append(ps, mqttp.StringPair{K: string([]byte{'a' + byte(i%26), 'a' + byte(i/26)}), V: string([]byte{'0' + byte(i%10)})})
	}
	ps[anySpot(n)].V = string(sym.Bytes("value", 1, 1))
	for _, p := range ps {
		sym.Assume(cleanUTF8([]byte(p.V)))
	}
	sym.Assert(m.PropertySet(mqttp.PropertyUserProperty, ps) == nil, "a legal property is refused")
	if sym.Choose("decoded", 2) == 1 {
		m.SetPacketID(1)
		m = mustDecode(v50, mustEncode(m)).(*mqttp.Publish)
	}
	c, err := m.Clone(v50)
	sym.Assert(err == nil, "a valid message is not cloned")
	for _, x := range []*mqttp.Publish{c, m} {
		got := pairsOf(x.PropertyGet(mqttp.PropertyUserProperty))
		sym.Assert(len(got) == n, "user properties are lost or invented")
		for i := range ps {
			sym.Assert(sym.And(sym.EqStr(got[i].K, ps[i].K), sym.EqStr(got[i].V, ps[i].V)), "a user property changes")
		}
	}
	sym.Reach("cloned")
}

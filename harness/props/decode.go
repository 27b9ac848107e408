package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// total decodes arbitrary bytes under an arbitrary version and checks what holds in every outcome.
func total(v mqttp.ProtocolVersion, buf []byte) (mqttp.IFace, bool) {
	saved := clone(buf)
	m, n, err := decode(v, buf)
	sym.Assert(sym.EqBytes(buf, saved), "Decode changes its input")
	if err != nil {
		sym.Assert(m == nil, "Decode returns both a message and an error")
		sym.Reach("rejected")
		return nil, false
	}
	sym.Assert(m != nil, "Decode returns neither a message nor an error")
	sym.Assert(n == len(buf), "Decode does not consume the packet")
	sym.Assert(byte(m.Type()) == buf[0]>>4, "the packet type differs from the first byte")
	h := 2
	for buf[h-1]&0x80 != 0 {
		h++
	}
	x := m.(interface {
		Flags() byte
		RemainingLength() int32
	})
	sym.Assert(x.Flags() == buf[0]&15, "the flags differ from those in the first byte")
	sym.Assert(int(x.RemainingLength()) == len(buf)-h, "the remaining length differs from the number of bytes behind the fixed header")
	sym.Reach("accepted")
	return m, true
}

// D01_raw: arbitrary bytes.
func D01_raw() {
	total(mqttp.ProtocolVersion(sym.U8("version")), sym.Bytes("packet", 0, sym.Bound("packet bytes", 6, 8)))
}

// D01_body: arbitrary bytes after a first byte and a remaining length that fits.
func D01_body() {
	v := anyVersion()
	b := sym.U8("first")
	body := sym.Bytes("body", 0, sym.Bound("packet body bytes", 8, 10))
	total(v, packet(b, body))
}

// D01_valid: valid packets of every type, with every field present.
func D01_valid() {
	v := anyVersion()
	n := 14
	if v == v50 {
		n = 15
	}
	t := mqttp.Type(1 + sym.Choose("type", n))
	m := messageOf(v, t, size{topic: 2, load: 2, str: 2, props: 1, list: 2})
	buf := mustEncode(m)
	g, ok := total(v, buf)
	sym.Assert(ok && g.Type() == t, "a valid packet is refused")
}

// D01_connect: a CONNECT with everything.
func D01_connect() {
	v := anyVersion()
	m := mqttp.NewConnect(v)
	m.SetClean(true)
	w, _ := anyWill(v, size{topic: 1, load: 2, str: 1})
	sym.Assert(m.SetWill(w) == nil, "a valid will is refused")
	user, pass := sym.Bytes("user", 1, 3), sym.Bytes("password", 0, 3)
	sym.Assume(cleanUTF8(user))
	sym.Assert(m.SetCredentials(user, pass) == nil, "valid credentials are refused")
	sym.Assert(m.SetClientID([]byte("client")) == nil, "a valid client identifier is refused")
	_, ok := total(v, mustEncode(m))
	sym.Assert(ok, "a valid packet is refused")
}

// validFirst is a first byte that passes the fixed header checks.
func validFirst(v mqttp.ProtocolVersion) byte {
	b := sym.U8("first")
	t, f := b>>4, b&15
	want := sym.IteU8(sym.Or(t == 6, t == 8, t == 10), 2, 0)
	ok := sym.And(t != 0, sym.Or(sym.And(t == 3, f&6 != 6), sym.And(t != 3, f == want)))
	if v != v50 {
		ok = sym.And(ok, t != 15)
	}
	sym.Assume(ok)
	return b
}

// D02_truncated: a packet that is not complete yet is answered with its full size, one that is too long
// is refused, for every remaining length.
func D02_truncated() {
	v := anyVersion()
	rem := sym.Int("remaining length", 0, maxRemLen)
	var head []byte
	switch sym.Choose("length bytes", 4) {
	case 0:
		sym.Assume(rem <= 127)
		head = []byte{byte(rem)}
	case 1:
		sym.Assume(sym.And(rem > 127, rem <= 16383))
		head = []byte{byte(rem&127) | 128, byte(rem >> 7)}
	case 2:
		sym.Assume(sym.And(rem > 16383, rem <= 2097151))
		head = []byte{byte(rem&127) | 128, byte(rem>>7&127) | 128, byte(rem >> 14)}
	default:
		sym.Assume(rem > 2097151)
		head = []byte{byte(rem&127) | 128, byte(rem>>7&127) | 128, byte(rem>>14&127) | 128, byte(rem >> 21)}
	}
	buf := append([]byte{validFirst(v)}, head...)
	total := len(buf) + rem
	rest := sym.Big("rest", 0, maxRemLen+9)
	sym.Assume(len(rest) != rem)
	buf = append(buf, rest...)
	m, n, err := decode(v, buf)
	sym.Assert(m == nil && err != nil, "a packet of the wrong length is accepted")
	sym.Assert(n == total, "the full size of the packet is not reported")
	if len(rest) < rem {
		sym.Assert(err == mqttp.ErrInsufficientDataSize, "an incomplete packet is not recognised")
		sym.Reach("incomplete")
	} else {
		sym.Assert(err == mqttp.CodeProtocolError, "trailing bytes are not recognised")
		sym.Reach("too long")
	}
}

// D02_prefix: every proper prefix of every valid packet asks for more data.
func D02_prefix() {
	v := anyVersion()
	buf := mustEncode(anyMessage(v, bare))
	k := 1 + sym.Choose("prefix", len(buf)-1)
	m, n, err := decode(v, buf[:k])
	sym.Assert(m == nil && err == mqttp.ErrInsufficientDataSize, "an incomplete packet is not recognised")
	if k > 1 {
		sym.Assert(n == len(buf), "the full size of the packet is not reported")
	}
	sym.Reach("incomplete")
}

// D02_empty: without any byte there is no packet.
func D02_empty() {
	m, n, err := decode(anyVersion(), nil)
	sym.Assert(m == nil && n == 0 && err == mqttp.ErrInsufficientBufferSize, "an empty buffer is not refused")
}

// D02_length: a remaining length that does not end is not a packet.
func D02_length() {
	v := anyVersion()
	b := []byte{validFirst(v)}
	k := 1 + sym.Choose("length bytes", 5)
	for i := 0; i < k; i++ {
		b = append(b, sym.U8("length")|128)
	}
	if k > 3 {
		b = append(b, sym.Bytes("rest", 0, 3)...)
	}
	m, _, err := decode(v, b)
	sym.Assert(m == nil && err != nil, "a remaining length of more than four bytes is accepted")
	if len(b) <= 4 {
		sym.Assert(err == mqttp.ErrInsufficientDataSize, "an incomplete packet is not recognised")
	}
}

// D03_header: the fixed header of an otherwise valid packet decides acceptance.
func D03_header() {
	v := anyVersion()
	buf := mustEncode(anyMessage(v, bare))
	t, f := buf[0]>>4, sym.U8("flags")&15
	ok := false
	switch t {
	case 3:
		qos := f >> 1 & 3
		was := buf[0] >> 1 & 3
		// the packet identifier is part of the body: keep its presence
		sym.Assume((qos == 0) == (was == 0) || qos == 3)
		ok = sym.And(qos != 3, sym.Or(qos != 0, f&8 == 0))
	case 6, 8, 10:
		ok = f == 2
	default:
		ok = f == 0
	}
	buf[0] = t<<4 | f
	m, _, err := decode(v, buf)
	sym.Assert((err == nil) == ok, "wrong fixed header flags are accepted or right ones refused")
	sym.Assert((m != nil) == ok, "a message is returned with an error")
}

// D03_type: type 0, and AUTH before 5.0, are never a packet.
func D03_type() {
	v := mqttp.ProtocolVersion(sym.U8("version"))
	b := sym.U8("first")
	sym.Assume(sym.Or(b>>4 == 0, sym.And(b>>4 == 15, v < 5)))
	m, _, err := decode(v, append([]byte{b}, sym.Bytes("rest", 0, 4)...))
	sym.Assert(m == nil && err != nil, "a packet of a type that does not exist is accepted")
	n, err := mqttp.New(v, mqttp.Type(b>>4))
	sym.Assert(n == nil && err == mqttp.ErrInvalidMessageType, "a message of a type that does not exist is created")
}

// D03_new: New makes an empty message of the type asked for.
func D03_new() {
	v := anyVersion()
	t := mqttp.Type(sym.U8("type"))
	m, err := mqttp.New(v, t)
	ok := sym.And(t >= 1, t <= 15, sym.Or(t != 15, v == v50))
	sym.Assert((err == nil) == ok && (m != nil) == ok, "New accepts a wrong type or refuses a right one")
	if ok {
		sym.Assert(m.Type() == t && m.Version() == v, "New makes a message of another type or version")
		_, err = m.ID()
		sym.Assert(err == mqttp.ErrNotSet, "a new message has a packet identifier")
	}
}

// stable re-encodes what was decoded.
func stable(v mqttp.ProtocolVersion, buf []byte) {
	m, _, err := decode(v, buf)
	if err != nil {
		return
	}
	v = m.Version()
	out := mustEncode(m)
	if v != v50 {
		sym.Assert(sym.EqBytes(out, buf), "re-encoding a 3.x packet does not reproduce it")
		sym.Reach("3.x")
		return
	}
	sameMsg(m, mustDecode(v, out))
	sym.Reach("5.0")
}

// D04_raw: arbitrary packets of every type.
func D04_raw() {
	v := anyVersion()
	body := sym.Bytes("body", 0, sym.Bound("packet body bytes", 7, 9))
	b := validFirst(v)
	sym.Assume(b>>4 != 1)
	stable(v, packet(b, body))
}

// D04_connect: CONNECT, after a correct protocol name.
func D04_connect() {
	v := sym.Choose("v", 3)
	k := sym.Bound("CONNECT payload bytes 3.x", 9, 11)
	if v == 1 {
		k = sym.Bound("CONNECT payload bytes 5.0", 6, 8)
	}
	stable(versions[v], packet(0x10, cat(connectHead(v, sym.U8("flags")), sym.Bytes("rest", 0, k))))
}

// D04_props: the same properties, with the same values, survive for every packet type.
func D04_props() {
	t := mqttp.Type(1 + sym.Choose("type", 15))
	if t == mqttp.PINGREQ || t == mqttp.PINGRESP {
		return
	}
	pre, post := around(t)
	ps := sym.Bytes("props", 1, sym.Bound("property bytes", 7, 9))
	buf := packet(first(t), cat(pre, []byte{byte(len(ps))}, ps, post))
	propsSurvive(t, buf, 2+len(pre))
}

// propsSurvive: if the packet buf with its properties at offset at is accepted, re-encoding it gives
// the same properties.
func propsSurvive(t mqttp.Type, buf []byte, at int) {
	m, _, err := decode(v50, buf)
	if err != nil {
		return
	}
	r := &rd{b: buf, p: at}
	want := r.props(t)
	out := mustEncode(m)
	sym.Assert(len(out) == len(buf), "re-encoding changes the length of the packet")
	r = &rd{b: out, p: at}
	got := r.props(t)
	sym.Assert(!r.bad, "the property block of the packet is malformed")
	sameWireProps(want, got)
	sym.Reach("stable")
}

// D05_publish: an application message does not depend on the buffer it was decoded from.
func D05_publish() {
	v := anyVersion()
	m, _ := anyPublish(v, size{topic: 2, load: 3, str: 2, props: 1})
	buf := mustEncode(m)
	g := mustDecode(v, buf)
	scribble(buf)
	sameMsg(m, g)
}

// D05_will: neither does a will.
func D05_will() {
	v := anyVersion()
	w, _ := anyWill(v, size{topic: 2, load: 3, str: 2, props: 1})
	m := mqttp.NewConnect(v)
	m.SetClean(true)
	sym.Assert(m.SetWill(w) == nil, "a valid will is refused")
	buf := mustEncode(m)
	g := mustDecode(v, buf).(*mqttp.Connect)
	scribble(buf)
	samePublish(w, g.Will())
	if v == v50 {
		sameMsgProps(w, g.Will())
	}
}

// D05_other: nor do identifiers, codes and properties of the other packets.
func D05_other() {
	v := anyVersion()
	m := messageOf(v, mqttp.Type(4+sym.Choose("type", 12)), size{topic: 1, load: 1, str: 2, props: 1, list: 2})
	if m.Type() == mqttp.AUTH && v != v50 {
		return
	}
	buf := mustEncode(m)
	g := mustDecode(v, buf)
	ts := len(topicsOf(g))
	scribble(buf)
	x, e := m.ID()
	y, f := g.ID()
	sym.Assert((e == nil) == (f == nil) && x == y, "packet identifier changes")
	switch p := g.(type) {
	case *mqttp.SubAck:
		sameReasons(m.(*mqttp.SubAck).ReturnCodes(), p.ReturnCodes())
	case *mqttp.UnSubAck:
		if v == v50 {
			sameReasons(m.(*mqttp.UnSubAck).ReturnCodes(), p.ReturnCodes())
		}
	}
	sym.Assert(len(topicsOf(g)) == ts, "number of topics changes")
	if v == v50 {
		sameMsgProps(m, g)
	}
}

func scribble(buf []byte) {
	d := sym.U8("scribble")
	for i := range buf {
		buf[i] = d
	}
	sym.Reach("scribbled")
}

package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vltypes"
	"vlverif/harness/sym"
)

// Whole words of arbitrary characters, for code that treats particular texts in a way of their own.

func wordLen() int { return sym.Bound("bytes of a word", 32, 48) }

// anyWord is a word of arbitrary characters.
func anyWord(name string) []byte {
	b := sym.Bytes(name, 7, sym.Bound("bytes of a filter that is a word", 18, 26))
	ok := true
	for _, c := range b {
		ok = sym.And(ok, c < 0x80)
	}
	sym.Assume(ok)
	return b
}

// word is a word of printable characters that is a topic name.
func word(name string) []byte {
	b := sym.Bytes(name, 7, wordLen())
	ok := true
	for _, c := range b {
		ok = sym.And(ok, between(c, 0x20, 0x7E), c != '+', c != '#')
	}
	sym.Assume(ok)
	return b
}

// T01_word: topic filters.
func T01_word() { checkTopic(anyWord("topic")) }

// T03_word: topic names and texts.
func T03_word() {
	b := anyWord("name")
	sym.Assert(mqttp.ValidTopic(b) == refTopicName(b), "a topic name is judged wrongly")
	sym.Assert(mqttp.IsValidUTF(b) == cleanUTF8(b), "a text string is judged wrongly")
	m := mqttp.NewPublish(anyVersion())
	sym.Assert((m.SetTopic(string(b)) == nil) == refTopicName(b), "a topic name is refused or accepted wrongly")
	sym.Reach("judged")
}

func noProps(v mqttp.ProtocolVersion, body []byte) []byte {
	if v == v50 {
		return append(body, 0)
	}
	return body
}

// A01_word: the texts in a CONNECT.
func A01_word() {
	v := sym.Choose("v", 3)
	f := [5][]byte{[]byte("c"), []byte("w"), []byte("l"), []byte("u"), []byte("p")}
	f[sym.Choose("field", 5)] = anyWord("word")
	b := noProps(versions3[v], connectHead(v, 0xC6))
	b = noProps(versions3[v], append(b, lp(f[0])...))
	connectCase(cat(b, lp(f[1]), lp(f[2]), lp(f[3]), lp(f[4])), versions3[v])
}

// versions3 is in the order of connectHead.
var versions3 = [3]mqttp.ProtocolVersion{v311, v50, v31}

// A03_word: the topic, the payload and the text properties of a PUBLISH.
func A03_word() {
	v := anyVersion()
	field := sym.Choose("field", 7)
	if field >= 2 {
		if v != v50 {
			return
		}
		w := anyWord("word")
		if sym.Choose("mark", 2) == 1 {
			w = cat([]byte{0xEF, 0xBB, 0xBF}, w)
		}
		ps := [][]byte{cat([]byte{0x03}, lp(w)), cat([]byte{0x08}, lp(w)), cat([]byte{0x09}, lp(w)),
			cat([]byte{0x26}, lp(w), lp([]byte("v"))), cat([]byte{0x26}, lp([]byte("k")), lp(w))}[field-2]
		publishCase(v, 0, cat(lp([]byte("t")), []byte{byte(len(ps))}, ps, []byte("load")))
		return
	}
	if field == 0 {
		publishCase(v, 0, cat(noProps(v, lp(anyWord("word"))), []byte("load")))
		return
	}
	publishCase(v, 0, cat(noProps(v, lp([]byte("t"))), sym.Bytes("payload", 7, wordLen())))
}

// A05_word and A07_word: topic filters.
func A05_word() {
	v := anyVersion()
	subscribeCase(v, cat(noProps(v, []byte{1, 2}), lp(anyWord("word")), []byte{1}))
}
func A07_word() {
	v := anyVersion()
	unsubscribeCase(v, cat(noProps(v, []byte{1, 2}), lp(anyWord("word"))))
}

// R01_word: the texts of a CONNECT.
func R01_word() { connectWord() }

// S02_word: the message itself reports them, too.
func S02_word() { connectWord() }

func connectWord() {
	m := mqttp.NewConnect(anyVersion())
	m.SetClean(true)
	w := mqttp.NewPublish(m.Version())
	t, l, u, p := []byte("w"), []byte("l"), []byte("u"), []byte("p")
	var c []byte
	switch sym.Choose("field", 5) {
	case 0:
		c = word("word")
		sym.Assume(refClientID(c))
		sym.Assert(m.SetClientID(c) == nil, "a valid client identifier is refused")
	case 1:
		t = word("word")
	case 2:
		l = sym.Bytes("load", 7, wordLen())
	case 3:
		u = word("word")
	default:
		p = sym.Bytes("password", 7, wordLen())
	}
	sym.Assert(w.Set(string(t), l, 0, false, false) == nil && m.SetWill(w) == nil, "a valid will is refused")
	sym.Assert(m.SetCredentials(u, p) == nil, "valid credentials are refused")
	g, _ := roundTrip(m)
	for _, x := range []*mqttp.Connect{m, g.(*mqttp.Connect)} {
		sym.Assert(sym.EqBytes(x.ClientID(), c), "the client identifier changes")
		a, b := x.Credentials()
		sym.Assert(sym.EqBytes(a, u) && sym.EqBytes(b, p), "the credentials change")
		sym.Assert(sym.EqStr(x.Will().Topic(), string(t)) && sym.EqBytes(x.Will().Payload(), l), "the will changes")
	}
}

// R03_word: the topic and the payload of a PUBLISH.
func R03_word() { publishWord() }
func S01_word() { publishWord() }

func publishWord() {
	m := mqttp.NewPublish(anyVersion())
	t, l := []byte("t"), []byte("l")
	if sym.Choose("field", 2) == 0 {
		t = word("word")
	} else {
		l = sym.Bytes("payload", 7, wordLen())
	}
	q := mqttp.QosType(sym.Choose("qos", 3))
	sym.Assert(m.Set(string(t), l, q, sym.Bool("retain"), false) == nil, "a valid message is refused")
	if q > 0 {
		m.SetPacketID(7)
	}
	sym.Assert(sym.EqStr(m.Topic(), string(t)) && sym.EqBytes(m.Payload(), l) && m.QoS() == q, "the message changes")
	g, _ := roundTrip(m)
	sym.Assert(sym.EqStr(g.(*mqttp.Publish).Topic(), string(t)) && sym.EqBytes(g.(*mqttp.Publish).Payload(), l), "the message changes")
}

// S03_word: a clone has them too.
func S03_word() {
	v := anyVersion()
	m := mqttp.NewPublish(v)
	t, l := []byte("t"), []byte("l")
	if sym.Choose("field", 2) == 0 {
		t = word("word")
	} else {
		l = sym.Bytes("payload", 7, wordLen())
	}
	sym.Assert(m.Set(string(t), l, 0, sym.Bool("retain"), false) == nil, "a valid message is refused")
	c, err := m.Clone(anyVersion())
	sym.Assert(err == nil && sym.EqStr(c.Topic(), string(t)) && sym.EqBytes(c.Payload(), l), "the clone differs")
	sym.Assert(c.QoS() == 0 && c.Retain() == m.Retain(), "the clone differs")
	sym.Reach("cloned")
}

// wordProp is a packet of type t with a property that is a word.
func wordProp(t mqttp.Type, ids []byte) (id byte, w, buf []byte) {
	id = ids[sym.Choose("id", len(ids))]
	w = word("word")
	if sym.Choose("mark", 2) == 1 {
		w = cat([]byte{0xEF, 0xBB, 0xBF}, w)
	}
	switch id {
	case 0x26:
		if sym.Choose("part", 2) == 0 {
			return id, w, propPacket(t, cat([]byte{id}, lp(w), lp([]byte("v"))))
		}
		return id, w, propPacket(t, cat([]byte{id}, lp([]byte("k")), lp(w)))
	}
	return id, w, propPacket(t, cat([]byte{id}, lp(w)))
}

// D04_word: properties that are words survive re-encoding.
func D04_word() {
	t := anyPropType()
	_, _, buf := wordProp(t, append(textProps(t), 0x26))
	m := mustDecode(v50, buf)
	sym.Assert(sym.EqBytes(mustEncode(m), buf), "a packet with a property is re-encoded differently")
	sym.Reach("re-encoded")
}

// P02_word: and are encoded as they were set.
func P02_word() {
	t := anyPropType()
	ids := textProps(t)
	sym.Assume(len(ids) > 0)
	id, w, buf := wordProp(t, ids)
	m := mustDecode(v50, propPacket(t, nil))
	sym.Assert(withText(m, id, w) == nil, "a legal property is refused")
	size, err := m.Size()
	sym.Assert(err == nil && size == len(buf), "the announced size is wrong")
	sym.Assert(sym.EqBytes(mustEncode(m), buf), "a property is encoded wrongly")
	sym.Reach("encoded")
}

// U02_word: the keys of a configuration may be any words, and their values anything.
func U02_word() {
	k := string(sym.Bytes("key", 1, sym.Bound("bytes of a key", 20, 40)))
	text := "text"
	if len(k) <= 2 {
		text = string(sym.Bytes("text", 0, sym.Bound("bytes of a text", 8, 20)))
	}
	for i, x := range []interface{}{false, true, nil, "", text, 0, int64(sym.U64("value")), uint(0), 0.0, 1.5, []string{}, []interface{}{1}, map[string]interface{}{}, struct{}{}} {
		in := map[interface{}]interface{}{k: x}
		out, err := vltypes.NormalizeConfig(in)
		sym.Assert(err == nil && len(out) == 1 && len(in) == 1, "a configuration is refused or changed")
		y, ok := out[k]
		sym.Assert(ok, "a key of a configuration changes")
		same := out
		if i < 10 {
			sym.Assert(x == y, "a configuration value changes")
			same, err = vltypes.NormalizeConfig(map[string]interface{}{k: x})
			sym.Assert(err == nil && len(same) == 1, "a configuration is refused or changed")
			y, ok = same[k]
			sym.Assert(ok && x == y, "a configuration value changes")
		}
	}
	sym.Reach("normalized")
}

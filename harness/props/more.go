package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vlauth"
	"github.com/VolantMQ/vlapi/vlpersistence"
	"github.com/VolantMQ/vlapi/vlplugin"
	"github.com/VolantMQ/vlapi/vltypes"
	"vlverif/harness/sym"
)

func describe(i vlplugin.Info, want [4]string) {
	api, own := i.Version()
	sym.Assert(api == vlplugin.APIVersion, "the API version is wrong")
	sym.Assert(sym.EqStr(own, want[0]), "the plugin version is wrong")
	sym.Assert(sym.EqStr(i.Name(), want[1]), "the plugin name is wrong")
	sym.Assert(sym.EqStr(i.Desc(), want[2]), "the plugin description is wrong")
	sym.Assert(sym.EqStr(i.Type(), want[3]), "the plugin type is wrong")
}

// U05_word: texts of any characters, asked more than once.
func U05_word() {
	n := sym.Bound("bytes of a descriptor text", 40, 80)
	var w [4]string
	for i := range w {
		w[i] = sym.Str("text", 0, 1)
	}
	w[sym.Choose("field", 4)] = sym.Str("word", 0, n)
	d := &vlplugin.Descriptor{V: w[0], N: w[1], D: w[2], T: w[3]}
	describe(d, w)
	describe(d, w)
	sym.Reach("reported")
}

// U05_two: two plugins side by side, of which one is described anew.
func U05_two() {
	var w, x [4]string
	for i := range w {
		w[i], x[i] = sym.Str("one", 1, 1), sym.Str("two", 1, 1)
	}
	d := &vlplugin.Descriptor{V: w[0], N: w[1], D: w[2], T: w[3]}
	describe(d, w)
	e := &vlplugin.Descriptor{V: x[0], N: x[1], D: x[2], T: x[3]}
	describe(e, x)
	describe(d, w)
	d.V, d.N, d.D, d.T = x[1], x[2], x[3], x[0]
	describe(d, [4]string{x[1], x[2], x[3], x[0]})
	describe(e, x)
	describe(&vlplugin.Descriptor{}, [4]string{})
	sym.Reach("reported")
}

// U05_shared: and several goroutines may ask.
func U05_shared() {
	d := &vlplugin.Descriptor{V: "1", N: "n", D: "d", T: "t"}
	sym.Alone(func() {
		_, _ = d.Version()
		_, _, _ = d.Name(), d.Desc(), d.Type()
		_ = vlplugin.Version()
	})
	sym.Reach("alone")
}

// U03_shared and U04_shared: several goroutines may ask for the texts of errors.
func U03_shared() {
	x := int(int64(sym.U64("number")))
	sym.Alone(func() {
		_, _ = vlauth.Status(x).Desc(), vlauth.Status(x).Error()
		_, _ = vlauth.AccessType(x).Type(), vlauth.Error(x).Error()
	})
	sym.Reach("alone")
}

func U04_shared() {
	x := int(int64(sym.U64("number")))
	sym.Alone(func() { _ = vlpersistence.Errors(x).Error() })
	sym.Reach("alone")
}

// U03_again and U04_again: asking for other texts changes none.
func U03_again() {
	x, y := int(int64(sym.U64("one"))), int(int64(sym.U64("two")))
	a, b := vlauth.Status(x).Desc(), vlauth.Status(x).Error()
	c, d := vlauth.AccessType(x).Type(), vlauth.Error(x).Error()
	_, _ = vlauth.Status(y).Desc(), vlauth.Status(y).Error()
	_, _ = vlauth.AccessType(y).Type(), vlauth.Error(y).Error()
	sym.Assert(vlauth.Status(x).Desc() == a && vlauth.Status(x).Error() == b, "the text of a status changes")
	sym.Assert(vlauth.AccessType(x).Type() == c && vlauth.Error(x).Error() == d, "the text of an access type or error changes")
	var s error = vlauth.Status(x)
	var e error = vlauth.Error(x)
	sym.Assert(s == vlauth.Status(x) && e == vlauth.Error(x), "a status or error does not compare to itself")
	sym.Reach("judged")
}

func U04_again() {
	x, y := int(int64(sym.U64("one"))), int(int64(sym.U64("two")))
	a := vlpersistence.Errors(x).Error()
	_ = vlpersistence.Errors(y).Error()
	sym.Assert(vlpersistence.Errors(x).Error() == a, "the text of an error changes")
	sym.Reach("judged")
}

// U02_apart: neither the result nor the given configuration depends on what happens to the other, or to other results.
func U02_apart() {
	a, b, c := int(sym.U8("a")), int(sym.U8("b")), int(sym.U8("c"))
	in := map[interface{}]interface{}{"a": a, "b": b}
	one, err := vltypes.NormalizeConfig(in)
	sym.Assert(err == nil && len(one) == 2, "a configuration is refused or changed")
	two, err := vltypes.NormalizeConfig(in)
	sym.Assert(err == nil && len(two) == 2, "a configuration is refused or changed")
	other, err := vltypes.NormalizeConfig(map[interface{}]interface{}{"a": c})
	sym.Assert(err == nil && len(other) == 1 && other["a"] == c, "a configuration is refused or changed")
	one["a"] = c
	one["d"] = c
	delete(one, "b")
	_, err = vltypes.NormalizeConfig(map[interface{}]interface{}{"z": c, a: b})
	sym.Assert(err == vltypes.ErrInvalidConfigType, "a key that is no string is accepted")
	sym.Assert(len(two) == 2 && two["a"] == a && two["b"] == b, "a result depends on another one")
	sym.Assert(len(in) == 2 && in["a"] == a && in["b"] == b, "the given configuration changes")
	in["e"] = c
	sym.Assert(len(one) == 2 && len(two) == 2 && len(other) == 1, "a result depends on the given configuration")
	three, err := vltypes.NormalizeConfig(in)
	sym.Assert(err == nil && len(three) == 3 && three["a"] == a && three["b"] == b && three["e"] == c, "a configuration is refused or changed")
	sym.Reach("normalized")
}

func U02_shared() {
	in := map[interface{}]interface{}{"a": 1, "b": "c"}
	bad := map[interface{}]interface{}{"a": 1, 2: "c"}
	plain := map[string]interface{}{"a": 1}
	sym.Alone(func() {
		_, _ = vltypes.NormalizeConfig(in)
		_, _ = vltypes.NormalizeConfig(bad)
		_, _ = vltypes.NormalizeConfig(plain)
		_, _ = vltypes.NormalizeConfig(1)
	})
	sym.Reach("alone")
}

// P02_empty: a property that is set to an empty list is not encoded, and one that is set after it is.
func P02_empty() {
	t := anyPropType()
	m := newMsg(v50, t)
	ready(m)
	none, err := m.Size()
	sym.Assert(err == nil, "a legal message has no size")
	want := mustEncode(m)
	p := rprop{id: 0x26, kind: kPair, s: []byte{sym.U8("key") & 127}, t: []byte{sym.U8("value") & 127}}
	full := []mqttp.StringPair{{K: string(p.s), V: string(p.t)}}
	if sym.Bool("before") {
		sym.Assert(m.PropertySet(0x26, full) == nil, "a legal property is refused")
	}
	if m.PropertySet(0x26, []mqttp.StringPair{}) != nil {
		return
	}
	n, err := m.Size()
	sym.Assert(err == nil && n == none, "an empty list counts for the size")
	sym.Assert(sym.EqBytes(mustEncode(m), want), "an empty list is encoded")
	sym.Assert(m.PropertySet(0x26, full) == nil, "a legal property is refused")
	checkModel(m, []rprop{p})
	sym.Reach("encoded")
}

// R01_usedWill: a will that was a message of its own before: delivered again, with an identifier and an expiry, received,
// copied or taken from another CONNECT.
func R01_usedWill() {
	v := anyVersion()
	w := mqttp.NewPublish(v)
	topic, load := topicName("topic", 1, 2), sym.Bytes("payload", 1, 2)
	q, r := mqttp.QosType(sym.Choose("qos", 3)), sym.Bool("retain")
	sym.Assert(w.Set(string(topic), load, q, r, q > 0 && sym.Bool("dup")) == nil, "a valid message is refused")
	if q > 0 {
		w.SetPacketID(mqttp.IDType(sym.U16("id")))
	}
	var ps []rprop
	if v == v50 && sym.Choose("with property", 2) == 1 {
		var x interface{}
		x, ps = fixValue(0x03, mqttp.PUBLISH)
		sym.Assert(w.PropertySet(0x03, x) == nil, "a legal property is refused")
	}
	w.SetPublishID(7)
	switch sym.Choose("source", 4) {
	case 1:
		w = mustDecode(v, mustEncode(w)).(*mqttp.Publish)
	case 2:
		c, err := w.Clone(v)
		sym.Assert(err == nil && c != nil, "a valid message is not cloned")
		w = c
	case 3:
		m := mqttp.NewConnect(v)
		m.SetClean(true)
		sym.Assert(m.SetWill(w) == nil, "a valid will is refused")
		w = mustDecode(v, mustEncode(m)).(*mqttp.Connect).Will()
	}
	dup := w.Dup()
	m := mqttp.NewConnect(v)
	m.SetClean(sym.Bool("clean"))
	sym.Assert(m.SetClientID([]byte("c")) == nil, "a valid client identifier is refused")
	sym.Assert(m.SetWill(w) == nil, "a valid will is refused")
	sym.Assert(w.Dup() == dup && w.QoS() == q && w.Retain() == r, "setting a will changes it")
	g := mustDecode(v, mustEncode(m)).(*mqttp.Connect)
	sym.Assert(g.IsClean() == m.IsClean(), "the clean flag changes")
	x := g.Will()
	sym.Assert(x != nil, "the will is lost")
	sym.Assert(sym.EqStr(x.Topic(), string(topic)) && sym.EqBytes(x.Payload(), load), "the will changes")
	sym.Assert(sym.And(x.QoS() == q, x.Retain() == r), "the will changes")
	if v == v50 {
		sameProps(x, ps)
	}
	sym.Reach("kept")
}

// R07_taken: the filters of one message in another one, more than once.
func R07_taken() {
	v := anyVersion()
	filters := [][]byte{[]byte("a/+"), []byte("$share/g/b"), sym.Bytes("filter", 1, 2)}
	sym.Assume(refSub(filters[2]).ok)
	m := mqttp.NewSubscribe(v)
	m.SetPacketID(1)
	for i, f := range filters {
		t, err := mqttp.NewSubscribeTopic(f, mqttp.SubscriptionOptions(i))
		sym.Assert(err == nil && m.AddTopic(t) == nil, "a valid topic is refused")
	}
	if sym.Choose("decoded", 2) == 1 {
		m = mustDecode(v, mustEncode(m)).(*mqttp.Subscribe)
	}
	u, s := mqttp.NewUnSubscribe(v), mqttp.NewSubscribe(v)
	u.SetPacketID(2)
	s.SetPacketID(3)
	for _, t := range topicsOf(m) {
		sym.Assert(u.AddTopic(t) == nil && s.AddTopic(t) == nil, "a valid topic is refused")
	}
	again := topicsOf(m)[sym.Choose("again", 3)]
	sym.Assert(u.AddTopic(again) == nil && s.AddTopic(again) == nil, "a topic is refused")
	want := append(topicsOf(m), again)
	for _, x := range []mqttp.IFace{u, s} {
		g := topicsOf(mustDecode(v, mustEncode(x)))
		sym.Assert(len(g) == 4, "a topic is lost or invented")
		for i, t := range g {
			sym.Assert(sym.EqStr(t.Full(), want[i].Full()) && sym.EqStr(t.Filter(), want[i].Filter()) && t.ShareName() == want[i].ShareName(), "a topic changes")
			sym.Assert(x.Type() == mqttp.UNSUBSCRIBE || t.Ops() == want[i].Ops(), "the options of a topic change")
		}
	}
	for i, t := range topicsOf(m) {
		sym.Assert(sym.EqStr(t.Full(), string(filters[i])) && t.Ops() == mqttp.SubscriptionOptions(i), "a topic changes in the message it comes from")
	}
	sym.Reach("kept")
}

// S05_taken: the codes of one acknowledgement in another one, and in itself.
func S05_taken() {
	v := anyVersion()
	a, b := mqttp.NewSubAck(v), mqttp.NewSubAck(v)
	a.SetPacketID(1)
	b.SetPacketID(2)
	var want []byte
	n := 1 + sym.Choose("codes", 3)
	for i := 0; i < n; i++ {
		c := []mqttp.ReasonCode{0, 1, 2, 0x80}[sym.Choose("code", 4)]
		sym.Assert(a.AddReturnCode(c) == nil, "a legal code is refused")
		want = append(want, byte(c))
	}
	sym.Assert(b.AddReturnCodes(a.ReturnCodes()) == nil, "a legal code is refused")
	sym.Assert(a.AddReturnCodes(a.ReturnCodes()) == nil, "a legal code is refused")
	sym.Assert(b.AddReturnCode(1) == nil, "a legal code is refused")
	is := func(g []mqttp.ReasonCode, want []byte) {
		sym.Assert(len(g) == len(want), "a code is lost or invented")
		for i, c := range want {
			sym.Assert(byte(g[i]) == c, "a code changes")
		}
	}
	is(a.ReturnCodes(), cat(want, want))
	is(b.ReturnCodes(), cat(want, []byte{1}))
	is(mustDecode(v, mustEncode(a)).(*mqttp.SubAck).ReturnCodes(), cat(want, want))
	is(mustDecode(v, mustEncode(b)).(*mqttp.SubAck).ReturnCodes(), cat(want, []byte{1}))
	sym.Reach("kept")
}

// S05_spare: the given list stays the caller's own, whatever room it has: it serves for a second acknowledgement.
func S05_spare() {
	v := anyVersion()
	n := sym.Choose("codes", 4)
	size := n + []int{0, 1, 2, 5, 13, 29}[sym.Choose("spare", 6)]
	list := make([]mqttp.ReasonCode, n, size)
	codes := []mqttp.ReasonCode{0, 1, 2, 0x80}
	un := sym.Choose("unsuback", 2) == 1
	if un {
		v = v50
		codes = []mqttp.ReasonCode{0, 0x11, 0x80, 0x83}
	}
	var want []byte
	for i := range list {
		list[i] = codes[sym.Choose("code", 4)]
		want = append(want, byte(list[i]))
	}
	x, y := codes[(n+1)%4], codes[(n+2)%4]
	type ack interface {
		mqttp.IFace
		AddReturnCodes([]mqttp.ReasonCode) error
		AddReturnCode(mqttp.ReasonCode) error
		ReturnCodes() []mqttp.ReasonCode
		SetPacketID(mqttp.IDType)
	}
	fresh := func() ack {
		var a ack
		if un {
			a = mqttp.NewUnSubAck(v)
		} else {
			a = mqttp.NewSubAck(v)
		}
		a.SetPacketID(1)
		sym.Assert(a.AddReturnCodes(list) == nil, "a legal code is refused")
		return a
	}
	is := func(a ack, want []byte) {
		g := a.ReturnCodes()
		sym.Assert(len(g) == len(want), "a code is lost or invented")
		for i, c := range want {
			sym.Assert(byte(g[i]) == c, "a code changes")
		}
	}
	a, b := fresh(), fresh()
	sym.Assert(a.AddReturnCode(x) == nil && b.AddReturnCode(y) == nil, "a legal code is refused")
	is(a, cat(want, []byte{byte(x)}))
	is(b, cat(want, []byte{byte(y)}))
	for i := range list {
		sym.Assert(byte(list[i]) == want[i], "the given list changes")
		list[i] = y
	}
	_ = append(list, y, y)
	is(a, cat(want, []byte{byte(x)}))
	is(b, cat(want, []byte{byte(y)}))
	sym.Reach("kept")
}

// D04_repeat: a SUBSCRIBE or UNSUBSCRIBE in which topics repeat, with the same or other options.
func D04_repeat() {
	v := anyVersion()
	un := sym.Choose("unsubscribe", 2) == 1
	body := []byte{1, 2}
	if v == v50 {
		body = append(body, 0)
	}
	n := 2 + sym.Choose("topics", 3)
	f := cat([]byte("a/"), []byte{sym.U8("char")})
	sym.Assume(sym.And(f[2] >= 'a', f[2] <= 'z'))
	for i := 0; i < n; i++ {
		x := f
		if i != 0 && sym.Choose("other", 2) == 1 {
			x = []byte{'b'}
		}
		body = cat(body, lp(x))
		if !un {
			o := sym.U8("options")
			sym.Assume(o < 3)
			body = append(body, o)
		}
	}
	t := mqttp.SUBSCRIBE
	if un {
		t = mqttp.UNSUBSCRIBE
	}
	buf := packet(first(t), body)
	m := mustDecode(v, buf)
	sym.Assert(sym.EqBytes(mustEncode(m), buf), "a packet with several topics is re-encoded differently")
	sym.Reach("re-encoded")
}

// What a packet consists of, combined: any two properties, flags, and fields of every kind.

// twoProps is a property block of up to max different properties with arbitrary small values.
func twoProps(t mqttp.Type, max int) []byte {
	ids := allowedIDs(t)
	n := sym.Choose("properties", max+1)
	var ps []byte
	at := 0
	for i := 0; i < n && at < len(ids); i++ {
		at += sym.Choose("id", len(ids)-at)
		ps = cat(ps, entry(byte(ids[at]), t))
		at++
	}
	return cat(varint(uint32(len(ps))), ps)
}

func block(v mqttp.ProtocolVersion, t mqttp.Type, max int) []byte {
	if v != v50 {
		return nil
	}
	return twoProps(t, max)
}

func someFilter() []byte {
	return lp([]byte([]string{"a", "$share/g/a", "$share/g/#", "$SYS/x", "+/b", "#", "/"}[sym.Choose("filter", 7)]))
}

// A05_combo and A07_combo: filters of every kind.
func A05_combo() {
	v := anyVersion()
	body := cat([]byte{sym.U8("id1"), sym.U8("id2")}, block(v, mqttp.SUBSCRIBE, 2), someFilter(), []byte{sym.U8("options")})
	if sym.Choose("topics", 2) == 1 {
		body = cat(body, lp([]byte("$share/h/b")), []byte{1})
	}
	subscribeCase(v, body)
}

func A07_combo() {
	v := anyVersion()
	body := cat([]byte{sym.U8("id1"), sym.U8("id2")}, block(v, mqttp.UNSUBSCRIBE, 2), someFilter())
	if k := sym.Choose("topics", 3); k > 0 {
		body = cat(body, lp([]byte([]string{"$share/h/b", "a+"}[k-1])))
	}
	unsubscribeCase(v, body)
}

// A02_combo: CONNACK.
func A02_combo() {
	v := anyVersion()
	connackCase(v, cat([]byte{sym.U8("flags"), sym.U8("code")}, block(v, mqttp.CONNACK, 2)))
}

// A03_combo: PUBLISH.
func A03_combo() {
	v := anyVersion()
	flags := byte(sym.Choose("flags", 14))
	body := lp([]byte([]string{"", "t", "$SYS/x", "a/b/c"}[sym.Choose("topic", 4)]))
	if flags&6 != 0 {
		body = append(body, sym.U8("id1"), sym.U8("id2"))
	}
	load := [][]byte{{}, {'x'}, {0xff, 0}}[sym.Choose("payload", 3)]
	publishCase(v, flags, cat(body, block(v, mqttp.PUBLISH, 2), load))
}

// A01_combo: CONNECT.
func A01_combo() {
	v := sym.Choose("v", 3)
	ver := versions3[v]
	flags := []byte{0x00, 0x02, 0x06, 0x0E, 0x26, 0x34, 0x80, 0x82, 0xC2, 0x42, 0xC6, 0xF4, 0x86, 0x46}[sym.Choose("flags", 14)]
	body := cat(connectHead(v, flags), block(ver, mqttp.CONNECT, 1), lp([]byte([]string{"", "c"}[sym.Choose("client", 2)])))
	if flags&4 != 0 {
		body = cat(body, block(ver, mqttp.PUBLISH, 1), lp([]byte([]string{"", "w", "$SYS/w"}[sym.Choose("topic", 3)])), lp([][]byte{{}, {0xff}}[sym.Choose("load", 2)]))
	}
	if flags&0x80 != 0 {
		body = cat(body, lp([]byte([]string{"", "u"}[sym.Choose("user", 2)])))
	}
	if flags&0x40 != 0 {
		body = cat(body, lp([][]byte{{}, {0xff}}[sym.Choose("password", 2)]))
	}
	connectCase(body, ver)
}

package props

import (
	"bytes"

	"github.com/VolantMQ/vlapi/mqttp"

	"vlverif/harness/sym"
)

// Property blocks around the length at which the property length takes a second byte, in front of an
// arbitrary rest of the packet.

// wideBlock is a block of one long user property and a few arbitrary bytes behind it.
func wideBlock() []byte {
	k := []int{119, 120, 121, 122, 250}[sym.Choose("key", 5)]
	ps := cat([]byte{0x26, byte(k >> 8), byte(k)}, bytes.Repeat([]byte{'k'}, k), []byte{0, 1, 'v'})
	ps = append(ps, sym.Bytes("more", 0, 2)...)
	return cat(varint(uint32(len(ps))), ps)
}

func wideRest(n int) []byte {
	return sym.Bytes("rest", 0, sym.Bound("bytes behind the property block", n, n+1))
}

func A01_wideProps() {
	if sym.Choose("will", 2) == 0 {
		connectCase(cat(connectHead(1, 0xC2), wideBlock(), lp([]byte("c")), lp([]byte("u")), wideRest(4)), v50)
		return
	}
	connectCase(cat(connectHead(1, 0xC6), []byte{0}, lp([]byte("c")), wideBlock(), lp([]byte("t")), lp([]byte("p")), lp([]byte("u")), wideRest(4)), v50)
}

func A02_wideProps() {
	connackCase(v50, cat([]byte{sym.U8("flags"), sym.U8("code")}, wideBlock(), wideRest(1)))
}

func A03_wideProps() {
	q := byte(sym.Choose("qos", 2))
	body := lp([]byte("t"))
	if q == 1 {
		body = append(body, sym.U8("id"), sym.U8("id2"))
	}
	publishCase(v50, q<<1, cat(body, wideBlock(), wideRest(3)))
}

func A04_wideProps() {
	t := ackTypes[sym.Choose("type", 4)]
	ackCase(v50, t, cat([]byte{sym.U8("id"), sym.U8("id2"), sym.U8("code")}, wideBlock(), wideRest(1)))
}

func A05_wideProps() {
	body := cat([]byte{1, 2}, wideBlock(), lp([]byte("a")), []byte{sym.U8("options")})
	if sym.Choose("second", 2) == 1 {
		body = cat(body, lp([]byte("bb")), []byte{sym.U8("options")})
	}
	subscribeCase(v50, cat(body, wideRest(3)))
}

func A06_wideProps() { subackCase(v50, cat([]byte{1, 2}, wideBlock(), wideRest(4))) }

func A07_wideProps() {
	body := cat([]byte{1, 2}, wideBlock(), lp([]byte{'a', sym.U8("byte")}))
	unsubscribeCase(v50, cat(body, wideRest(4)))
}

func A08_wideProps() { unsubackCase(v50, cat([]byte{1, 2}, wideBlock(), wideRest(4))) }

func A09_wideProps() {
	disconnectCase(v50, cat([]byte{sym.U8("code")}, wideBlock(), wideRest(1)))
}

func A10_wideProps() { authCase(cat([]byte{sym.U8("code")}, wideBlock(), wideRest(1))) }

// Long text with a few arbitrary bytes at its start, in the middle or at its end.

func spotted() []byte {
	n := []int{15, 23, 31, 63, 127, 255}[sym.Choose("length", 6)]
	b := bytes.Repeat([]byte{'a'}, n)
	b[n/3] = '/'
	at := []int{0, n / 2, n}[sym.Choose("spot", 3)]
	return cat(b[:at], sym.Bytes("x", 1, sym.Bound("bytes in long text", 2, 3)), b[at:])
}

func T01_spot() { checkTopic(spotted()) }

func T02_spot() {
	b := spotted()
	switch sym.Choose("start", 3) {
	case 0:
		checkTopic(cat([]byte("$share/g/"), b))
	case 1:
		checkTopic(cat([]byte("$share/"), b, []byte("/x")))
	default:
		checkTopic(cat([]byte("$SYS/"), b))
	}
}

func T03_spot() {
	b := spotted()
	sym.Assert(mqttp.ValidTopic(b) == refTopicName(b), "a topic name is judged wrongly")
	sym.Assert(mqttp.IsValidUTF(b) == cleanUTF8(b), "a text string is judged wrongly")
	m := mqttp.NewPublish(v50)
	sym.Assert((m.SetTopic(string(b)) == nil) == refTopicName(b), "a topic name is refused or accepted wrongly")
	sym.Reach("judged")
}

// A01_spot: a long field with a few arbitrary bytes.
func A01_spot() {
	v := sym.Choose("v", 3)
	body := connectHead(v, 0xC6)
	if v == 1 {
		body = append(body, 0)
	}
	vals := [5][]byte{[]byte("c"), []byte("t"), []byte("p"), []byte("u"), []byte("w")}
	vals[sym.Choose("field", 5)] = spotted()
	for i, x := range vals {
		if i == 1 && v == 1 {
			body = append(body, 0)
		}
		body = append(body, lp(x)...)
	}
	connectCase(body, v311)
}

func A03_spot() {
	v := anyVersion()
	body := lp(spotted())
	if v == v50 {
		body = append(body, 0)
	}
	publishCase(v, 0, append(body, 'x'))
}

func A05_spot() {
	v := anyVersion()
	body := []byte{1, 2}
	if v == v50 {
		body = append(body, 0)
	}
	subscribeCase(v, cat(body, lp(spotted()), []byte{1}))
}

func A07_spot() {
	v := anyVersion()
	body := []byte{1, 2}
	if v == v50 {
		body = append(body, 0)
	}
	pre := []string{"", "$share/g/"}[sym.Choose("start", 2)]
	unsubscribeCase(v, cat(body, lp(cat([]byte(pre), spotted())), lp([]byte("b"))))
}

// A07_share: shared subscriptions.
func A07_share() {
	v := anyVersion()
	body := []byte{1, 2}
	if v == v50 {
		body = append(body, 0)
	}
	pre := []string{"$share/", "$share/g", "$share/g/", "$SYS/"}[sym.Choose("start", 4)]
	unsubscribeCase(v, cat(body, lp(append([]byte(pre), sym.Bytes("rest", 0, 4)...))))
}

// textProp is a property of t that holds one text, 0 if there is none.
func textProp(t mqttp.Type) byte {
	switch t {
	case mqttp.CONNECT:
		return 0x15
	case mqttp.PUBLISH:
		return 0x03
	case mqttp.SUBSCRIBE, mqttp.UNSUBSCRIBE:
		return 0
	}
	return 0x1F
}

// spotBlock is a block of one long text property with a few arbitrary bytes at its start, in the middle or at its end.
func spotBlock(t mqttp.Type) []byte {
	n := []int{14, 62, 126, 254}[sym.Choose("text", 4)]
	at := []int{0, n / 2, n}[sym.Choose("spot", 3)]
	b := bytes.Repeat([]byte{'k'}, n)
	b = cat(b[:at], sym.Bytes("x", 2, 2), b[at:])
	var ps []byte
	switch k := sym.Choose("where", 3); {
	case k == 0 && textProp(t) != 0:
		ps = cat([]byte{textProp(t)}, lp(b))
	case k == 1:
		ps = cat([]byte{0x26}, lp(b), lp([]byte("v")))
	default:
		ps = cat([]byte{0x26}, lp([]byte("k")), lp(b))
	}
	return cat(varint(uint32(len(ps))), ps)
}

func A01_spotProps() {
	if sym.Choose("will", 2) == 0 {
		connectCase(cat(connectHead(1, 0x02), spotBlock(mqttp.CONNECT), lp([]byte("c"))), v50)
		return
	}
	connectCase(cat(connectHead(1, 0x06), []byte{0}, lp([]byte("c")), spotBlock(mqttp.PUBLISH), lp([]byte("t")), lp([]byte("p"))), v50)
}

func A02_spotProps() { connackCase(v50, cat([]byte{0, 0}, spotBlock(mqttp.CONNACK))) }

func A03_spotProps() {
	publishCase(v50, 0, cat(lp([]byte("t")), spotBlock(mqttp.PUBLISH), []byte("p")))
}

func A04_spotProps() {
	t := ackTypes[sym.Choose("type", 4)]
	ackCase(v50, t, cat([]byte{1, 2, 0}, spotBlock(t)))
}

func A05_spotProps() {
	subscribeCase(v50, cat([]byte{1, 2}, spotBlock(mqttp.SUBSCRIBE), lp([]byte("a")), []byte{1}))
}

func A06_spotProps() { subackCase(v50, cat([]byte{1, 2}, spotBlock(mqttp.SUBACK), []byte{1})) }

func A07_spotProps() {
	unsubscribeCase(v50, cat([]byte{1, 2}, spotBlock(mqttp.UNSUBSCRIBE), lp([]byte("a"))))
}

func A08_spotProps() { unsubackCase(v50, cat([]byte{1, 2}, spotBlock(mqttp.UNSUBACK), []byte{0})) }

func A09_spotProps() { disconnectCase(v50, cat([]byte{0}, spotBlock(mqttp.DISCONNECT))) }

func A10_spotProps() { authCase(cat([]byte{0}, spotBlock(mqttp.AUTH))) }

// T01_deep: filters of many levels.
func T01_deep() {
	rest := sym.Bytes("rest", 0, sym.Bound("bytes behind many levels", 2, 3))
	if sym.Choose("kind", 2) == 0 {
		n := []int{8, 16, 32, 64, 128}[sym.Choose("levels", 5)]
		var b []byte
		for i := 0; i < n; i++ {
			b = cat(b, []byte([]string{"a", "+", "", "bc"}[i%4]), []byte{'/'})
		}
		checkTopic(append(b, rest...))
		return
	}
	b := sym.Fill("levels", '/', 2, 60000)
	ok := refSub(cat([]byte("//"), rest)).ok
	x, err := mqttp.NewTopic(append(b, rest...))
	sym.Assert((err == nil) == ok, "a topic filter of many levels is judged wrongly")
	if ok {
		sym.Assert(len(x.Filter()) == len(b)+len(rest) && len(x.ShareName()) == 0, "a topic filter of many levels changes")
	}
	sym.Reach("judged")
}

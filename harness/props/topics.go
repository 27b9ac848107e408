package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// checkTopic compares NewTopic with the reference grammar on b.
func checkTopic(b []byte) {
	t := refSub(b)
	x, err := mqttp.NewTopic(b)
	sym.Observe("topic", err == nil)
	if !t.ok {
		sym.Assert(err != nil && x == nil, "an invalid topic filter is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil && x != nil, "a valid topic filter is rejected")
	sameTopic(x, b, t)
	f, o := x.Topic()
	sym.Assert(sym.EqStr(f, string(t.rest)) && o == 0 && x.Ops() == 0, "the filter and options of a topic are inconsistent")
	sym.Reach("accepted")
}

// T01_filter: arbitrary bytes.
func T01_filter() {
	checkTopic(sym.Bytes("topic", 0, sym.Bound("topic bytes", 7, 8)))
}

// T01_levels: filters with a fixed start of several levels.
func T01_levels() {
	pre := []string{"a/b/", "+/", "a/+/b/", "/", "a//", "+/+/", "a/#", "#", "\xc3\xa9/", "a/+"}[sym.Choose("start", 10)]
	checkTopic(append([]byte(pre), sym.Bytes("rest", 0, sym.Bound("rest bytes", 4, 5))...))
}

// T01_utf8: multi-byte characters in front of arbitrary bytes.
func T01_utf8() {
	pre := []string{"\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2", "\xe0\xa0", "\xf4\x8f\xbf", "\xed"}[sym.Choose("start", 6)]
	checkTopic(append([]byte(pre), sym.Bytes("rest", 0, sym.Bound("rest bytes", 3, 4))...))
}

// T01_long: a filter of one long level.
func T01_long() {
	b := sym.Fill("topic", 'a', 1, 65535)
	x, err := mqttp.NewTopic(b)
	sym.Assert(err == nil, "a long topic filter is rejected")
	sym.SameContent([]byte(x.Filter()), b, "a long topic filter changes")
	sym.SameContent([]byte(x.Full()), b, "a long topic changes")
	sym.Assert(len(x.ShareName()) == 0 && len(x.DollarPrefix()) == 0, "a prefix is invented")
	sym.Reach("accepted")
}

// T02_shared: shared subscriptions and other '$' topics.
func T02_shared() {
	pre := []string{"$share", "$share/", "$share/g/", "$SYS/", "$shares/", "$shar/", "$", "$$share/g/", "$Share/g/", "a$share/g/"}[sym.Choose("start", 10)]
	checkTopic(append([]byte(pre), sym.Bytes("rest", 0, sym.Bound("rest bytes", 4, 5))...))
}

// T02_options: the options of a subscription are kept, and a quality of service of 3 is refused.
func T02_options() {
	o := mqttp.SubscriptionOptions(sym.U8("options"))
	b := []byte("$share/g/a/+")
	x, err := mqttp.NewSubscribeTopic(b, o)
	if byte(o)&3 == 3 {
		sym.Assert(err != nil && x == nil, "a subscription of QoS 3 is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil, "a valid subscription is refused")
	f, p := x.Topic()
	sym.Assert(p == o && x.Ops() == o, "the options of a subscription change")
	sym.Assert(f == "a/+" && x.ShareName() == "g" && x.Full() == "$share/g/a/+" && x.DollarPrefix() == "$share", "a shared subscription is split wrongly")
	sym.Reach("accepted")
}

// T02_bad: NewSubscribeTopic refuses what NewTopic refuses.
func T02_bad() {
	b := sym.Bytes("topic", 0, sym.Bound("topic bytes", 4, 5))
	o := mqttp.SubscriptionOptions(sym.U8("options"))
	sym.Assume(byte(o)&3 != 3)
	t := refSub(b)
	x, err := mqttp.NewSubscribeTopic(b, o)
	if !t.ok {
		sym.Assert(err != nil && x == nil, "an invalid topic filter is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil, "a valid subscription is refused")
	sameTopic(x, b, t)
	sym.Assert(x.Ops() == o, "the options of a subscription change")
	sym.Reach("accepted")
}

// T03_name: topic names and text strings.
func T03_name() {
	b := sym.Bytes("name", 0, sym.Bound("name bytes", 8, 10))
	ok := mqttp.ValidTopic(b)
	sym.Assert(ok == refTopicName(b), "a topic name is judged wrongly")
	sym.Observe("valid", ok)
	sym.Reach("judged")
}

// T03_text: IsValidUTF.
func T03_text() {
	b := sym.Bytes("text", 0, sym.Bound("text bytes", 8, 10))
	ok := mqttp.IsValidUTF(b)
	sym.Assert(ok == cleanUTF8(b), "a text string is judged wrongly")
	sym.Observe("valid", ok)
	sym.Reach("judged")
}

// T03_long: long names of one character.
func T03_long() {
	c := []byte{'a', '/', '+', '#', 0, 0x1F, ' ', 0x7F}[sym.Choose("byte", 8)]
	b := sym.Fill("name", c, 1, 65535)
	text := c >= 0x20 && c < 0x7F
	sym.Assert(mqttp.IsValidUTF(b) == text, "a long text string is judged wrongly")
	sym.Assert(mqttp.ValidTopic(b) == (text && c != '+' && c != '#'), "a long topic name is judged wrongly")
	m := mqttp.NewPublish(anyVersion())
	sym.Assert((m.SetTopic(string(b)) == nil) == (text && c != '+' && c != '#'), "a long topic name is refused or accepted wrongly")
	sym.Reach("judged")
}

// T03_setters: the setters of a PUBLISH accept exactly the valid names.
func T03_setters() {
	v := anyVersion()
	b := sym.Bytes("name", 0, sym.Bound("name bytes", 4, 5))
	ok := refTopicName(b)
	m := mqttp.NewPublish(v)
	if sym.Choose("setter", 2) == 0 {
		if v != v50 && len(b) == 0 {
			ok = false
		}
		sym.Assert((m.SetTopic(string(b)) == nil) == ok, "a topic name is refused or accepted wrongly")
	} else {
		sym.Assume(len(b) > 0)
		sym.Assert((m.Set(string(b), nil, 0, false, false) == nil) == ok, "a topic name is refused or accepted wrongly")
	}
	want := []byte{}
	if ok {
		want = b
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	sym.Assert(sym.EqStr(m.Topic(), string(want)), "the topic name differs")
}

// T04_options: the fields of the subscription options.
func T04_options() {
	x := sym.U8("options")
	o := mqttp.SubscriptionOptions(x)
	sym.Assert(o.Raw() == x, "the options byte changes")
	sym.Assert(byte(o.QoS()) == x%4, "QoS is read wrongly")
	sym.Assert(o.NL() == (x/4%2 == 1), "No Local is read wrongly")
	sym.Assert(o.RAP() == (x/8%2 == 1), "Retain As Published is read wrongly")
	sym.Assert(byte(o.RetainHandling()) == x/16%4, "Retain Handling is read wrongly")
	sym.Reach("judged")
}

// T04_qos: the QoS values.
func T04_qos() {
	x := sym.U8("qos")
	q := mqttp.QosType(x)
	sym.Assert(q.IsValid() == (x <= 2), "a QoS is judged wrongly")
	sym.Assert(q.IsValidFull() == sym.Or(x <= 2, x == 0x80), "a granted QoS is judged wrongly")
	d := q.Desc()
	switch x {
	case 0:
		sym.Assert(d == "QoS0", "QoS 0 is described wrongly")
	case 1:
		sym.Assert(d == "QoS1", "QoS 1 is described wrongly")
	case 2:
		sym.Assert(d == "QoS2", "QoS 2 is described wrongly")
	default:
		sym.Assert(d == "Invalid value", "an invalid QoS is described wrongly")
	}
	m := mqttp.NewPublish(anyVersion())
	sym.Assert((m.SetQoS(q) == nil) == (x <= 2), "a QoS is refused or accepted wrongly")
	sym.Assert(byte(m.QoS()) == sym.IteU8(x <= 2, x, 0), "the QoS of a message differs")
	sym.Reach("judged")
}

package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

// newMsg is an empty message of a type.
func newMsg(v mqttp.ProtocolVersion, t mqttp.Type) mqttp.IFace {
	m, err := mqttp.New(v, t)
	sym.Assert(err == nil && m != nil, "a packet type is not available")
	return m
}

// ready makes m encodable.
func ready(m mqttp.IFace) {
	switch x := m.(type) {
	case *mqttp.Connect:
		x.SetClean(true)
	case *mqttp.Publish:
		sym.Assert(x.SetTopic("t") == nil, "a valid topic is refused")
	case *mqttp.Ack:
		x.SetPacketID(7)
		x.SetReason(anyReason(x.Type()))
	case *mqttp.ConnAck:
		sym.Assert(x.SetReturnCode(anyReason(x.Type())) == nil, "a valid return code is refused")
	case *mqttp.Disconnect:
		x.SetReasonCode(anyReason(x.Type()))
	case *mqttp.Auth:
		sym.Assert(x.SetReasonCode(anyReason(x.Type())) == nil, "a valid reason code is refused")
	case *mqttp.Subscribe:
		x.SetPacketID(7)
		t, err := mqttp.NewTopic([]byte("t"))
		sym.Assert(err == nil && x.AddTopic(t) == nil, "a topic is not added")
	case *mqttp.UnSubscribe:
		x.SetPacketID(7)
		t, err := mqttp.NewTopic([]byte("t"))
		sym.Assert(err == nil && x.AddTopic(t) == nil, "a topic is not added")
	case *mqttp.SubAck:
		x.SetPacketID(7)
	case *mqttp.UnSubAck:
		x.SetPacketID(7)
	}
}

func anyReason(t mqttp.Type) mqttp.ReasonCode {
	c := sym.U8("reason")
	sym.Assume(refReason(t, c))
	return mqttp.ReasonCode(c)
}

// propBlock finds the property block of the packet a message built by ready encodes to.
func propBlock(m mqttp.IFace, buf []byte) []rprop {
	r := &rd{b: buf}
	r.u8()
	n := r.viMin()
	sym.Assert(!r.bad && int(n) == r.left(), "the remaining length of the packet is wrong")
	if r.left() == 0 {
		return nil
	}
	t := m.Type()
	switch t {
	case mqttp.CONNECT:
		r.p += 10
	case mqttp.CONNACK:
		r.p += 2
	case mqttp.PUBLISH:
		r.lp()
	case mqttp.SUBSCRIBE, mqttp.UNSUBSCRIBE, mqttp.SUBACK, mqttp.UNSUBACK:
		r.p += 2
	case mqttp.DISCONNECT, mqttp.AUTH:
		r.p++
	default:
		r.p += 2
		if r.left() == 0 {
			return nil
		}
		r.p++
		if r.left() == 0 {
			return nil
		}
	}
	ps := r.props(t)
	sym.Assert(!r.bad, "the property block of the packet is malformed")
	return ps
}

// propTypes are the packet types that carry properties.
var propTypes = []mqttp.Type{mqttp.CONNECT, mqttp.CONNACK, mqttp.PUBLISH, mqttp.PUBACK, mqttp.PUBREC, mqttp.PUBREL, mqttp.PUBCOMP,
	mqttp.SUBSCRIBE, mqttp.SUBACK, mqttp.UNSUBSCRIBE, mqttp.UNSUBACK, mqttp.DISCONNECT, mqttp.AUTH}

func anyPropType() mqttp.Type { return propTypes[sym.Choose("type", len(propTypes))] }

// goValue is a value of one Go type: kind it fits (or -1), whether it is a list, and the property it makes.
func goValue(n int) (val interface{}, kind int, list bool, ps []rprop) {
	switch n {
	case 0:
		x := sym.U8("value")
		return x, kByte, false, []rprop{{num: uint32(x)}}
	case 1:
		x := sym.U16("value")
		return x, kShort, false, []rprop{{num: uint32(x)}}
	case 2:
		x := sym.U32("value")
		return x, kInt, false, []rprop{{num: x}}
	case 3:
		x := utfBytes("value", 0, 2)
		return string(x), kStr, false, []rprop{{s: x}}
	case 4:
		x := sym.Bytes("value", 0, 2)
		return x, kBin, false, []rprop{{s: x}}
	case 5:
		k, w := utfBytes("key", 0, 1), utfBytes("value", 0, 1)
		return mqttp.StringPair{K: string(k), V: string(w)}, kPair, false, []rprop{{s: k, t: w}}
	case 6:
		k, w := utfBytes("key", 0, 1), utfBytes("value", 0, 1)
		return []mqttp.StringPair{{K: string(k), V: string(w)}, {K: "x", V: ""}}, kPair, true, []rprop{{s: k, t: w}, {s: []byte("x")}}
	case 7:
		x, y := sym.U32("value"), sym.U32("value")
		return []uint32{x, y}, kInt, true, []rprop{{num: x}, {num: y}}
	case 8:
		return []uint16{sym.U16("value"), 1}, kShort, true, nil
	case 9:
		return []string{"a", sym.Str("value", 0, 1)}, kStr, true, nil
	case 10:
		return [][]byte{sym.Bytes("value", 0, 1), nil}, kBin, true, nil
	case 11:
		return int(sym.U8("value")), -1, false, nil
	case 12:
		return uint64(sym.U8("value")), -1, false, nil
	case 13:
		return sym.Bool("value"), -1, false, nil
	}
	return nil, -1, false, nil
}

const goValues = 15

// P01_set: PropertySet accepts exactly the legal properties, and a refused call changes nothing.
func P01_set() {
	t := anyPropType()
	m := newMsg(v50, t)
	ready(m)
	var before []rprop
	if sym.Choose("filled", 2) == 1 {
		k, w := []byte{sym.U8("user key") & 0x7f}, []byte{'v'}
		sym.Assert(m.PropertySet(0x26, mqttp.StringPair{K: string(k), V: "v"}) == nil, "a legal property is refused")
		before = []rprop{{id: 0x26, kind: kPair, s: k, t: w}}
	}
	id := mqttp.PropertyID(sym.Choose("id", 0x2C))
	if id == 0x2B {
		id = mqttp.PropertyID(sym.U32("id"))
		sym.Assume(id > 0x2A)
	}
	val, kind, list, ps := goValue(sym.Choose("go type", goValues))
	size0, e0 := m.Size()
	err := m.PropertySet(id, val)
	size1, e1 := m.Size()
	sym.Assert(e0 == nil && e1 == nil, "the size of a valid packet is refused")
	k, allowed, dup := 0, false, false
	known := false
	if id <= 0x2A {
		k, allowed, dup = refProp(byte(id), t)
		known = knownProp(byte(id))
	}
	good := true
	switch {
	case !known:
		sym.Assert(err == mqttp.ErrPropertyInvalidID, "an unknown property is not refused as such")
		good = false
	case !allowed:
		sym.Assert(err == mqttp.ErrPropertyPacketTypeMismatch, "a property of another packet type is not refused as such")
		good = false
	case list && !dup:
		sym.Assert(err != nil, "a list is accepted for a property that occurs once")
		good = false
	case k == kByte && kind == kBin:
		// []byte is also a list of byte values
		sym.Assert(err != nil, "a list is accepted for a property that occurs once")
		good = false
	case k == kVar && kind == kInt:
		for _, p := range ps {
			good = sym.And(good, p.num <= 268435455)
		}
		if !good {
			sym.Assert(err != nil, "a property value that cannot be encoded is accepted")
			good = false
		}
	case k != kind:
		sym.Assert(err == mqttp.ErrPropertyTypeMismatch, "a value of the wrong type is not refused as such")
		good = false
	}
	if !good {
		sym.Assert(err != nil, "an illegal property is accepted")
		sym.Assert(size0 == size1, "a refused property changes the size of the packet")
		sameWireProps(before, propBlock(m, mustEncode(m)))
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a legal property is refused")
	want := []rprop{}
	if id != 0x26 {
		want = append(want, before...)
	}
	for _, p := range ps {
		p.id, p.kind = byte(id), k
		want = append(want, p)
	}
	buf := mustEncode(m)
	sym.Assert(len(buf) == size1, "the encoded length differs from the announced size")
	sameWireProps(want, propBlock(m, buf))
	g := m.PropertyGet(id)
	sym.Assert(g != nil && int(g.Type()) == k, "a property that was set is not reported")
	sym.Reach("accepted")
}

// knownProp tells the identifiers MQTT 5 defines.
func knownProp(id byte) bool {
	for _, t := range propTypes {
		if _, ok, _ := refProp(id, t); ok {
			return true
		}
	}
	return false
}

// P01_v3: MQTT 3 packets have no properties.
func P01_v3() {
	v := anyV3()
	m := newMsg(v, mqttp.Type(1+sym.Choose("type", 14)))
	id := mqttp.PropertyID(sym.U32("id"))
	val, _, _, _ := goValue(sym.Choose("go type", goValues))
	size0, e0 := m.Size()
	sym.Assert(m.PropertySet(id, val) == mqttp.ErrNotSupported, "a property is set on an MQTT 3 packet")
	size1, e1 := m.Size()
	sym.Assert(size0 == size1 && e0 == e1, "a refused property changes the size of the packet")
	sym.Assert(m.PropertyGet(id) == nil, "an MQTT 3 packet reports a property")
	n := 0
	sym.Assert(m.PropertyForEach(func(mqttp.PropertyID, mqttp.PropertyToType) { n++ }) == mqttp.ErrNotSupported && n == 0,
		"the properties of an MQTT 3 packet are enumerated")
	sym.Reach("refused")
}

// applySet sets a property and updates the model.
func applySet(m mqttp.IFace, model []rprop, id byte, v interface{}, ps []rprop) []rprop {
	sym.Assert(m.PropertySet(mqttp.PropertyID(id), v) == nil, "a legal property is refused")
	var rest []rprop
	for _, p := range model {
		if p.id != id {
			rest = append(rest, p)
		}
	}
	return append(rest, ps...)
}

// checkModel compares the packet m encodes to with the model.
func checkModel(m mqttp.IFace, model []rprop) {
	sameWireProps(model, propBlock(m, direct(m)))
	size, err := m.Size()
	sym.Assert(err == nil, "the size of a valid packet is refused")
	buf := mustEncode(m)
	sym.Assert(len(buf) == size, "the encoded length differs from the announced size")
	sameWireProps(model, propBlock(m, buf))
	sym.Reach("encoded")
}

// P02_replace: a second value of a property replaces the first.
func P02_replace() {
	t := anyPropType()
	ids := allowedIDs(t)
	id := ids[sym.Choose("id", len(ids))]
	m := newMsg(v50, t)
	ready(m)
	var model []rprop
	for i := 0; i < 2; i++ {
		v, ps := anyValue(id, t, 1)
		model = applySet(m, model, id, v, ps)
	}
	checkModel(m, model)
}

// fixValue is anyValue with strings of one character.
func fixValue(id byte, t mqttp.Type) (interface{}, []rprop) {
	kind, _, _ := refProp(id, t)
	switch kind {
	case kStr:
		p := rprop{id: id, kind: kind, s: utfBytes("prop", 1, 1)}
		return string(p.s), []rprop{p}
	case kBin:
		p := rprop{id: id, kind: kind, s: sym.Bytes("prop", 2, 2)}
		return p.s, []rprop{p}
	case kPair:
		p := rprop{id: id, kind: kind, s: utfBytes("prop.k", 1, 1), t: utfBytes("prop.v", 1, 1)}
		pair := mqttp.StringPair{K: string(p.s), V: string(p.t)}
		if sym.Choose("list", 2) == 0 {
			return pair, []rprop{p}
		}
		q := rprop{id: id, kind: kind, s: []byte("k"), t: []byte("vv")}
		return []mqttp.StringPair{pair, {K: "k", V: "vv"}}, []rprop{p, q}
	}
	return anyValue(id, t, 1)
}

// P02_history: after any sequence of calls the last value of every property counts, and the size is exact.
func P02_history() {
	hist := []struct {
		t   mqttp.Type
		ids []byte
	}{
		{mqttp.PUBLISH, []byte{0x26, 0x0B, 0x03}},
		{mqttp.CONNECT, []byte{0x26, 0x16, 0x21}},
		{mqttp.DISCONNECT, []byte{0x1F, 0x11}},
		{mqttp.PUBACK, []byte{0x1F, 0x26}},
		{mqttp.SUBSCRIBE, []byte{0x0B, 0x26}},
		{mqttp.AUTH, []byte{0x15, 0x16, 0x26}},
	}
	h := hist[sym.Choose("type", len(hist))]
	m := newMsg(v50, h.t)
	ready(m)
	var model []rprop
	n := sym.Bound("calls", 3, 4)
	for i := 0; i < n; i++ {
		k := sym.Choose("id", len(h.ids)+1)
		if k == len(h.ids) {
			if i == 0 {
				_, _ = m.Size()
			} else {
				m.PropertiesDiscard()
				model = nil
			}
			continue
		}
		v, ps := fixValue(h.ids[k], h.t)
		model = applySet(m, model, h.ids[k], v, ps)
	}
	checkModel(m, model)
}

// reads asserts that exactly the accessor of the value's own type works.
func reads(g mqttp.PropertyToType, kind int, list bool, ps []rprop) {
	b, eb := g.AsByte()
	s, es := g.AsShort()
	i, ei := g.AsInt()
	str, estr := g.AsString()
	bin, ebin := g.AsBinary()
	pr, epr := g.AsStringPair()
	prs, eprs := g.AsStringPairs()
	ok := func(e error, is bool) {
		if is {
			sym.Assert(e == nil, "the accessor of the value's type fails")
		} else {
			sym.Assert(e == mqttp.ErrPropertyWrongType, "an accessor of another type does not report the wrong type")
		}
	}
	ok(eb, kind == kByte)
	ok(es, kind == kShort)
	ok(ei, (kind == kInt || kind == kVar) && !list)
	ok(estr, kind == kStr)
	ok(ebin, kind == kBin)
	ok(epr, kind == kPair && !list)
	ok(eprs, kind == kPair && list)
	switch {
	case kind == kByte:
		sym.Assert(uint32(b) == ps[0].num, "the value differs")
	case kind == kShort:
		sym.Assert(uint32(s) == ps[0].num, "the value differs")
	case (kind == kInt || kind == kVar) && !list:
		sym.Assert(i == ps[0].num, "the value differs")
	case kind == kStr:
		sym.Assert(sym.EqStr(str, string(ps[0].s)), "the value differs")
	case kind == kBin:
		sym.Assert(sym.EqBytes(bin, ps[0].s), "the value differs")
	case kind == kPair && !list:
		sym.Assert(sym.And(sym.EqStr(pr.K, string(ps[0].s)), sym.EqStr(pr.V, string(ps[0].t))), "the value differs")
	case kind == kPair:
		sym.Assert(len(prs) == len(ps), "the number of pairs differs")
		for k := range prs {
			sym.Assert(sym.And(sym.EqStr(prs[k].K, string(ps[k].s)), sym.EqStr(prs[k].V, string(ps[k].t))), "the value differs")
		}
	}
}

func isList(v interface{}) bool {
	switch v.(type) {
	case []mqttp.StringPair, []uint32:
		return true
	}
	return false
}

// P03_get: a property is read back through the accessor of its type and through no other; identifiers
// that were not set are absent; the enumeration visits every property once.
func P03_get() {
	t := anyPropType()
	ids := allowedIDs(t)
	m := newMsg(v50, t)
	id := ids[sym.Choose("id", len(ids))]
	v, ps := anyValue(id, t, 2)
	sym.Assert(m.PropertySet(mqttp.PropertyID(id), v) == nil, "a legal property is refused")
	second := byte(0)
	if sym.Choose("second", 2) == 1 {
		second = ids[0]
		if second == id {
			second = ids[len(ids)-1]
		}
		if second != id {
			w, _ := anyValue(second, t, 0)
			sym.Assert(m.PropertySet(mqttp.PropertyID(second), w) == nil, "a legal property is refused")
		} else {
			second = 0
		}
	}
	for k := 0; k <= 0x2B; k++ {
		g := m.PropertyGet(mqttp.PropertyID(k))
		if byte(k) != id && (second == 0 || byte(k) != second) {
			sym.Assert(g == nil, "a property that was not set is reported")
			continue
		}
		sym.Assert(g != nil, "a property that was set is not reported")
		kind, _, _ := refProp(byte(k), t)
		sym.Assert(int(g.Type()) == kind, "the type of a property is wrong")
		if byte(k) == id {
			reads(g, kind, isList(v), ps)
		}
	}
	n := 0
	err := m.PropertyForEach(func(x mqttp.PropertyID, g mqttp.PropertyToType) {
		n++
		sym.Assert(byte(x) == id || second != 0 && byte(x) == second, "the enumeration reports a property that was not set")
		kind, _, _ := refProp(byte(x), t)
		sym.Assert(int(g.Type()) == kind, "the type of a property is wrong")
		if byte(x) == id {
			reads(g, kind, isList(v), ps)
		}
	})
	want := 1
	if second != 0 {
		want = 2
	}
	sym.Assert(err == nil && n == want, "the enumeration does not visit every property once")
	sym.Reach("read")
}

// P03_keep: what lookup and enumeration hand out stays what it was, whatever is read or changed later.
func P03_keep() {
	t := anyPropType()
	ids := allowedIDs(t)
	m := newMsg(v50, t)
	type held struct {
		id   byte
		kind int
		list bool
		ps   []rprop
		get  mqttp.PropertyToType
		each mqttp.PropertyToType
	}
	var hs []*held
	at := sym.Choose("id", len(ids))
	for i := 0; i < sym.Bound("properties held", 2, 3) && i < len(ids); i++ {
		h := &held{id: ids[(at+i*i)%len(ids)]}
		for _, o := range hs {
			if o.id == h.id {
				return
			}
		}
		v, ps := fixValue(h.id, t)
		h.ps, h.list = ps, isList(v)
		h.kind, _, _ = refProp(h.id, t)
		sym.Assert(m.PropertySet(mqttp.PropertyID(h.id), v) == nil, "a legal property is refused")
		hs = append(hs, h)
	}
	for _, h := range hs {
		h.get = m.PropertyGet(mqttp.PropertyID(h.id))
	}
	sym.Assert(m.PropertyForEach(func(x mqttp.PropertyID, g mqttp.PropertyToType) {
		for _, h := range hs {
			if byte(x) == h.id {
				sym.Assert(h.each == nil, "the enumeration reports a property twice")
				h.each = g
			}
		}
	}) == nil, "properties cannot be enumerated")
	switch sym.Choose("then", 3) {
	case 0:
		m.PropertiesDiscard()
	case 1:
		for _, h := range hs {
			v, _ := fixValue(h.id, t)
			sym.Assert(m.PropertySet(mqttp.PropertyID(h.id), v) == nil, "a legal property is refused")
		}
	}
	for _, h := range hs {
		for _, g := range []mqttp.PropertyToType{h.get, h.each} {
			sym.Assert(g != nil, "a property that was set is not reported")
			sym.Assert(int(g.Type()) == h.kind, "the type of a property changes after it was read")
			reads(g, h.kind, h.list, h.ps)
		}
	}
	sym.Reach("kept")
}

// P03_decoded: the same for a message that was decoded.
func P03_decoded() {
	t := anyPropType()
	ids := allowedIDs(t, 0x18)
	m := newMsg(v50, t)
	ready(m)
	id := ids[sym.Choose("id", len(ids))]
	v, ps := anyValue(id, t, 2)
	sym.Assert(m.PropertySet(mqttp.PropertyID(id), v) == nil, "a legal property is refused")
	g := mustDecode(v50, mustEncode(m))
	kind, _, _ := refProp(id, t)
	list := kind == kPair || len(ps) > 1
	n := 0
	err := g.PropertyForEach(func(x mqttp.PropertyID, y mqttp.PropertyToType) {
		n++
		sym.Assert(byte(x) == id, "the enumeration reports a property the packet does not have")
		reads(y, kind, list, ps)
	})
	sym.Assert(err == nil && n == 1, "the enumeration does not visit every property once")
	y := g.PropertyGet(mqttp.PropertyID(id))
	sym.Assert(y != nil, "a property of the packet is not reported")
	reads(y, kind, list, ps)
	sym.Reach("read")
}

// P04_tables: the classification of every identifier and every packet type.
func P04_tables() {
	id := mqttp.PropertyID(sym.U32("id"))
	t := mqttp.Type(sym.U8("type"))
	valid, pt, dup := id.IsValid(), id.IsValidPacketType(t), id.DupAllowed(t)
	wv, wp, wd := false, false, false
	if id <= 0x2A {
		x := byte(sym.Concrete(int(id)))
		wv = knownProp(x)
		for _, y := range propTypes {
			_, a, d := refProp(x, y)
			if a {
				wp = sym.Or(wp, t == y)
			}
			if a && d {
				wd = sym.Or(wd, t == y)
			}
		}
	}
	sym.Assert(valid == wv, "a property identifier is judged wrongly")
	sym.Assert(pt == wp, "the packet types of a property are wrong")
	sym.Assert(dup == wd, "a property that may be repeated is judged wrongly")
	sym.Reach("judged")
}

// P05_discard: discarding leaves a message as it was before any property was set.
func P05_discard() {
	t := anyPropType()
	m := newMsg(v50, t)
	ready(m)
	want := mustEncode(m)
	ps := setAny(m, t, 2, 1)
	if sym.Choose("encode first", 2) == 1 {
		_, _ = m.Size()
	}
	away := sym.Choose("version", 3)
	m.SetVersion(versions[away])
	m.PropertiesDiscard()
	m.SetVersion(v50)
	n := 0
	sym.Assert(m.PropertyForEach(func(mqttp.PropertyID, mqttp.PropertyToType) { n++ }) == nil && n == 0, "a discarded property is enumerated")
	for _, p := range ps {
		sym.Assert(m.PropertyGet(mqttp.PropertyID(p.id)) == nil, "a discarded property is reported")
	}
	size, err := m.Size()
	sym.Assert(err == nil && size == len(want), "a discarded property counts for the size")
	sym.Assert(sym.EqBytes(mustEncode(m), want), "a discarded property is encoded")
	sym.Assert(m.PropertySet(0x26, mqttp.StringPair{K: "k"}) == nil, "a legal property is refused after a discard")
	sameWireProps([]rprop{{id: 0x26, kind: kPair, s: []byte("k")}}, propBlock(m, mustEncode(m)))
	sym.Reach("discarded")
}

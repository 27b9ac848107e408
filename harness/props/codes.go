package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

var allTypes = [15]mqttp.Type{mqttp.CONNECT, mqttp.CONNACK, mqttp.PUBLISH, mqttp.PUBACK, mqttp.PUBREC, mqttp.PUBREL, mqttp.PUBCOMP,
	mqttp.SUBSCRIBE, mqttp.SUBACK, mqttp.UNSUBSCRIBE, mqttp.UNSUBACK, mqttp.PINGREQ, mqttp.PINGRESP, mqttp.DISCONNECT, mqttp.AUTH}

func among(c byte, cs ...byte) bool {
	r := false
	for _, x := range cs {
		r = sym.Or(r, c == x)
	}
	return r
}

// codedType is true for the packet types that carry reason codes.
func codedType(t mqttp.Type) bool {
	return among(byte(t), byte(mqttp.CONNACK), byte(mqttp.PUBACK), byte(mqttp.PUBREC), byte(mqttp.PUBREL), byte(mqttp.PUBCOMP),
		byte(mqttp.SUBACK), byte(mqttp.UNSUBACK), byte(mqttp.DISCONNECT), byte(mqttp.AUTH))
}

// C01_table: the reason codes of every packet type.
func C01_table() {
	c := sym.U8("code")
	t := mqttp.Type(sym.U8("type"))
	want := false
	for _, y := range allTypes {
		want = sym.Or(want, sym.And(t == y, refReason(y, c)))
	}
	sym.Assert(mqttp.ReasonCode(c).IsValidForType(t) == want, "a reason code of a packet type is judged wrongly")
	sym.Observe("valid", want)
	sym.Reach("judged")
}

// C01_direction: who may send a reason code.
func C01_direction() {
	c := sym.U8("code")
	t := mqttp.Type(sym.U8("type"))
	want := false
	for _, y := range allTypes {
		want = sym.Or(want, sym.And(t == y, refReason(y, c)))
	}
	iss, err := mqttp.ReasonCode(c).PacketTypeDir(t)
	if !want {
		sym.Assert(err != nil && iss == mqttp.CodeIssuerInvalid, "a reason code that does not exist has a direction")
		if codedType(t) {
			sym.Assert(err == mqttp.ErrInvalidReturnCode, "the wrong error reports a reason code that does not exist")
		} else {
			sym.Assert(err == mqttp.ErrInvalidMessageType, "the wrong error reports a packet without reason codes")
		}
		sym.Reach("invalid")
		return
	}
	sym.Assert(err == nil, "a reason code of a packet type has no direction")
	server, client := true, true
	switch t {
	case mqttp.CONNACK:
		client = false
	case mqttp.AUTH:
		server = c != 0x19
		client = c != 0
	case mqttp.DISCONNECT:
		server = !among(c, 0, 4)
		client = !among(c, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2)
	case mqttp.SUBACK, mqttp.UNSUBACK:
		// only the server sends these; the code is stricter nowhere, so no direction is claimed
		sym.Reach("acknowledgement")
		return
	}
	sym.Assert((iss == mqttp.CodeIssuerServer) == sym.And(server, sym.Not(client)), "the direction of a reason code is wrong")
	sym.Assert((iss == mqttp.CodeIssuerClient) == sym.And(client, sym.Not(server)), "the direction of a reason code is wrong")
	sym.Assert((iss == mqttp.CodeIssuerBoth) == sym.And(client, server), "the direction of a reason code is wrong")
	sym.Reach("valid")
}

// C01_known: the codes of all packet types together, and their text.
func C01_known() {
	c := sym.U8("code")
	r := mqttp.ReasonCode(c)
	want := false
	for _, y := range allTypes {
		want = sym.Or(want, refReason(y, c))
	}
	sym.Assert(r.IsValid() == want, "a reason code is judged wrongly")
	sym.Assert(r.Value() == c, "the value of a reason code changes")
	sym.Assert(r.IsValidV3() == (c <= 5), "a V3 return code is judged wrongly")
	sym.Assert(sym.Implies(sym.And(want, sym.Or(c == 0, c > 5)), r.IsValidV5()), "a V5 reason code is refused")
	sym.Assert(sym.Implies(sym.And(c >= 1, c <= 5), sym.Not(r.IsValidV5())), "a V3 return code is taken for a V5 one")
	d := r.Desc()
	sym.Assert(d == r.Error(), "the texts of a reason code differ")
	sym.Assert(len(d) > 0, "a reason code has no text")
	sym.Assert((d == "Unknown error") == sym.Not(want), "the text of a reason code does not tell whether it is known")
	sym.Reach("judged")
}

// C02_unique: each error has a text of its own.
func C02_unique() {
	a, b := sym.U8("a"), sym.U8("b")
	last := byte(mqttp.ErrProtocolInvalidName)
	x, y := mqttp.Error(a).Error(), mqttp.Error(b).Error()
	sym.Assert(len(x) > 0, "an error has no text")
	sym.Assert((x == "Unknown error") == (a > last), "the text of an error does not tell whether it is known")
	sym.Assert(sym.Implies(sym.And(a <= last, a != b), x != y), "two errors have the same text")
	sym.Reach("judged")
}

// C02_property: the errors of properties.
func C02_property() {
	a, b := int(int64(sym.U64("a"))), int(int64(sym.U64("b")))
	known := sym.And(a >= 0, a <= int(mqttp.ErrPropertyWrongType))
	x, y := mqttp.PropertyError(a).Error(), mqttp.PropertyError(b).Error()
	sym.Assert(len(x) > 0, "a property error has no text")
	sym.Assert((x == "property: unknown error") == sym.Not(known), "the text of a property error does not tell whether it is known")
	sym.Assert(sym.Implies(sym.And(known, a != b), x != y), "two property errors have the same text")
	sym.Reach("judged")
}

// C03_types: names, flags and versions of the packet types.
func C03_types() {
	x := sym.U8("type")
	t := mqttp.Type(x)
	names := [16]string{"RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK",
		"UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"}
	var name, desc string
	var flags byte
	if sym.Catch(func() { name, desc, flags = t.Name(), t.Desc(), t.DefaultFlags() }) {
		sym.Fail("a packet type panics")
	}
	if x <= 15 {
		i := sym.Concrete(int(x))
		sym.Assert(name == names[i], "the name of a packet type is wrong")
		sym.Assert(len(desc) > 0 && desc != "UNKNOWN", "a packet type is not described")
		sym.Reach("known")
	} else {
		sym.Assert(name == "UNKNOWN" && desc == "UNKNOWN", "an unknown packet type has a name")
		sym.Reach("unknown")
	}
	sym.Assert(flags == sym.IteU8(among(x, 6, 8, 10), 2, 0), "the fixed header flags of a packet type are wrong")
}

// C03_versions: which versions exist and which packet types they have.
func C03_versions() {
	x := sym.U8("type")
	v := mqttp.ProtocolVersion(sym.U8("version"))
	known := sym.And(v >= 3, v <= 5)
	sym.Assert(v.IsValid() == known, "a protocol version is judged wrongly")
	ok, err := mqttp.Type(x).Valid(v)
	sym.Assert((err == nil) == known, "the protocol version of a packet type is judged wrongly")
	sym.Assert(ok == sym.And(known, x >= 1, sym.Or(x <= 14, sym.And(v == 5, x == 15))), "a packet type of a version is judged wrongly")
	sym.Reach("judged")
}

// C03_new: New provides exactly the packet types of a version, empty and with the right header.
func C03_new() {
	x := sym.U8("type")
	v := anyVersion()
	m, err := mqttp.New(v, mqttp.Type(x))
	want := sym.And(x >= 1, sym.Or(x <= 14, sym.And(v == v50, x == 15)))
	sym.Assert((err == nil) == want, "a packet type is available or refused wrongly")
	if err != nil {
		sym.Assert(m == nil, "a packet comes with an error")
		sym.Reach("refused")
		return
	}
	sym.Assert(byte(m.Type()) == x && m.Version() == v, "a new packet has the wrong type or version")
	id, e := m.ID()
	sym.Assert(e != nil && id == 0, "a new packet has an identifier")
	sym.Assert(m.Desc() == m.Type().Desc(), "a packet is described wrongly")
	sym.Reach("new")
}

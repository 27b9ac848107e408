// Package props holds the property harnesses. An exported function <ID>_name is one harness of
// property <ID>; the symbolic engine executes it with every sym input arbitrary, and cmd/replay
// executes it natively with the inputs of one counterexample.
package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"vlverif/harness/sym"
)

const (
	v31  = mqttp.ProtocolV31
	v311 = mqttp.ProtocolV311
	v50  = mqttp.ProtocolV50
)

var versions = [3]mqttp.ProtocolVersion{v311, v50, v31}

// anyVersion forks over the supported protocol versions.
func anyVersion() mqttp.ProtocolVersion { return versions[sym.Choose("version", 3)] }

// v3 forks over the two 3.x versions.
func anyV3() mqttp.ProtocolVersion {
	if sym.Choose("v3", 2) == 0 {
		return v311
	}
	return v31
}

// varint is the MQTT variable byte integer of x.
func varint(x uint32) []byte {
	var out []byte
	for {
		b := byte(x & 0x7f)
		x >>= 7
		if x != 0 {
			out = append(out, b|0x80)
			continue
		}
		return append(out, b)
	}
}

// packet puts a fixed header in front of body.
func packet(first byte, body []byte) []byte {
	out := append([]byte{first}, varint(uint32(len(body)))...)
	return append(out, body...)
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// lp is a length-prefixed field.
func lp(b []byte) []byte {
	return append([]byte{byte(len(b) >> 8), byte(len(b))}, b...)
}

func first(t mqttp.Type) byte {
	switch t {
	case mqttp.PUBREL, mqttp.SUBSCRIBE, mqttp.UNSUBSCRIBE:
		return byte(t)<<4 | 2
	}
	return byte(t) << 4
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

// decode runs the decoder; a panic that escapes it is reported under every property.
func decode(v mqttp.ProtocolVersion, buf []byte) (m mqttp.IFace, n int, err error) {
	if sym.Catch(func() { m, n, err = mqttp.Decode(v, buf) }) {
		sym.Fail("Decode panics")
	}
	return
}

// encode runs Size and Encode through the package function.
func encode(m mqttp.IFace) (buf []byte, err error) {
	if sym.Catch(func() { buf, err = mqttp.Encode(m) }) {
		sym.Fail("Encode panics")
	}
	return
}

// mustEncode also requires success.
func mustEncode(m mqttp.IFace) []byte {
	buf, err := encode(m)
	sym.Assert(err == nil, "a valid packet is not encoded")
	return buf
}

// encodeAny encodes a valid packet either way: through the package function, or straight into a
// larger buffer whatever sizes were computed before.
func encodeAny(m mqttp.IFace) []byte {
	if sym.Choose("encode into a larger buffer", 2) == 0 {
		return mustEncode(m)
	}
	return direct(m)
}

func direct(m mqttp.IFace) []byte {
	buf := make([]byte, 1300)
	var n int
	var err error
	if sym.Catch(func() { n, err = m.Encode(buf) }) {
		sym.Fail("Encode panics")
	}
	sym.Assert(err == nil, "a valid packet is not encoded")
	sym.Assert(n >= 2 && n <= len(buf), "the length of the encoded packet is wrong")
	return buf[:n]
}

// mustDecode also requires success.
func mustDecode(v mqttp.ProtocolVersion, buf []byte) mqttp.IFace {
	m, n, err := decode(v, buf)
	sym.Assert(err == nil, "a valid packet is not decoded")
	sym.Assert(n == len(buf), "decoded length differs from the packet length")
	return m
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

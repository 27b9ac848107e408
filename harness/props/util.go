package props

import (
	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vlauth"
	"github.com/VolantMQ/vlapi/vlpersistence"
	"github.com/VolantMQ/vlapi/vlplugin"
	"github.com/VolantMQ/vlapi/vltypes"
	"vlverif/harness/sym"
)

// U01_read: reading a length-prefixed field from any bytes.
func U01_read() {
	b := sym.Bytes("buffer", 0, sym.Bound("buffer bytes", 6, 10))
	var x []byte
	var n int
	var err error
	if sym.Catch(func() { x, n, err = mqttp.ReadLPBytes(b) }) {
		sym.Fail("reading a field panics")
	}
	if len(b) < 2 {
		sym.Assert(err == mqttp.ErrInsufficientDataSize && x == nil && n == 0, "a field without a length is read")
		sym.Reach("short")
		return
	}
	l := int(b[0])*256 + int(b[1])
	if len(b)-2 < l {
		sym.Assert(err == mqttp.ErrInsufficientDataSize && x == nil, "a truncated field is read")
		sym.Reach("truncated")
		return
	}
	sym.Assert(err == nil && n == l+2 && len(x) == l, "a field is read wrongly")
	sym.Assert(sym.EqBytes(x, b[2:2+sym.Concrete(l)]), "a field is read wrongly")
	sym.Reach("read")
}

// U01_write: writing one into a buffer that may be too small.
func U01_write() {
	x := sym.Bytes("field", 0, sym.Bound("field bytes", 4, 8))
	b := sym.Bytes("buffer", 0, sym.Bound("buffer bytes", 8, 12))
	old := clone(b)
	var n int
	var err error
	if sym.Catch(func() { n, err = mqttp.WriteLPBytes(b, x) }) {
		sym.Fail("writing a field panics")
	}
	if len(b) < len(x)+2 {
		sym.Assert(err == mqttp.ErrInsufficientBufferSize && n == len(x)+2, "a field that does not fit is written")
		sym.Assert(sym.EqBytes(b, old), "a refused field changes the buffer")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil && n == len(x)+2, "a field is not written")
	sym.Assert(sym.EqBytes(b, cat(lp(x), old[n:])), "a field is written wrongly")
	sym.Reach("written")
}

// U01_long: fields of any length.
func U01_long() {
	x := sym.Big("field", 0, 70000)
	b := make([]byte, len(x)+10)
	n, err := mqttp.WriteLPBytes(b, x)
	if len(x) > 65535 {
		sym.Assert(err == mqttp.ErrInvalidLPStringSize && n == 0, "a field of more than 65535 bytes is written")
		sym.Reach("too long")
		return
	}
	sym.Assert(err == nil && n == len(x)+2, "a field is not written")
	y, k, err := mqttp.ReadLPBytes(b)
	sym.Assert(err == nil && k == n, "a written field is not read")
	sym.SameContent(y, x, "a field changes")
	sym.Reach("written")
}

// U02_config: configurations of up to three entries of mixed kinds.
func U02_config() {
	n := sym.Choose("entries", 4)
	val := [3]int{}
	for i := range val {
		val[i] = int(sym.U8("value"))
	}
	key := [3]string{"a", "", "key"}
	switch sym.Choose("kind", 7) {
	case 0:
		in := map[string]interface{}{}
		for i := 0; i < n; i++ {
			in[key[i]] = val[i]
		}
		out, err := vltypes.NormalizeConfig(in)
		sym.Assert(err == nil && len(out) == n, "a configuration is refused or changed")
		for i := 0; i < n; i++ {
			x, ok := out[key[i]].(int)
			sym.Assert(ok && x == val[i], "a configuration value changes")
		}
		sym.Reach("kept")
	case 1:
		in := map[interface{}]interface{}{}
		for i := 0; i < n; i++ {
			in[key[i]] = val[i]
		}
		out, err := vltypes.NormalizeConfig(in)
		sym.Assert(err == nil && out != nil && len(out) == n, "a configuration is refused or changed")
		for i := 0; i < n; i++ {
			x, ok := out[key[i]].(int)
			sym.Assert(ok && x == val[i], "a configuration value changes")
		}
		sym.Assert(len(in) == n, "the given configuration changes")
		sym.Reach("normalized")
	case 2:
		in := map[interface{}]interface{}{}
		for i := 0; i < n; i++ {
			in[key[i]] = val[i]
		}
		switch sym.Choose("bad key", 8) {
		case 0:
			in[int(sym.U8("key"))] = 1
		case 1:
			in[sym.Bool("key")] = 1
		case 2:
			in[1.5] = 1
		case 3:
			in[configKey("other")] = 1
		case 4:
			in[vlauth.StatusDeny] = 1
		case 5:
			in[[2]byte{'a', 'b'}] = 1
		case 6:
			in[&in] = 1
		default:
			in[nil] = 1
		}
		out, err := vltypes.NormalizeConfig(in)
		sym.Assert(err == vltypes.ErrInvalidConfigType && out == nil, "a key that is no string is accepted")
		sym.Reach("refused")
	case 3:
		out, err := vltypes.NormalizeConfig(nil)
		sym.Assert(err == vltypes.ErrInvalidConfigType && out == nil, "a missing configuration is accepted")
	case 4:
		out, err := vltypes.NormalizeConfig(val[0])
		sym.Assert(err == vltypes.ErrInvalidConfigType && out == nil, "a number is accepted as a configuration")
	case 5:
		var out map[string]interface{}
		var err error
		switch sym.Choose("other", 5) {
		case 0:
			out, err = vltypes.NormalizeConfig(map[string]int{"a": val[0]})
		case 1:
			out, err = vltypes.NormalizeConfig(map[string]string{"a": "b"})
		case 2:
			out, err = vltypes.NormalizeConfig(map[int]interface{}{1: val[0]})
		case 3:
			out, err = vltypes.NormalizeConfig("a")
		default:
			out, err = vltypes.NormalizeConfig(&map[string]interface{}{"a": 1})
		}
		sym.Assert(err == vltypes.ErrInvalidConfigType && out == nil, "something else is accepted as a configuration")
	default:
		out, err := vltypes.NormalizeConfig([]interface{}{val[0]})
		sym.Assert(err == vltypes.ErrInvalidConfigType && out == nil, "a list is accepted as a configuration")
	}
}

type configKey string

// U02_keys: arbitrary keys, values that are kept as they are.
func U02_keys() {
	n := sym.Bound("key bytes", 2, 3)
	a, b := sym.Str("a", 0, n), sym.Str("b", 0, n)
	sym.Assume(sym.Not(sym.EqStr(a, b)))
	nested := map[interface{}]interface{}{1: "x"}
	if sym.Choose("nested", 2) == 1 {
		nested = map[interface{}]interface{}{"1": "x"}
	}
	list := []interface{}{nested, nil}
	vals := [][2]interface{}{{nested, list}, {nil, false}, {"", []byte{1}}, {1.5, map[string]interface{}{"a": nil}}}[sym.Choose("values", 4)]
	out, err := vltypes.NormalizeConfig(map[interface{}]interface{}{a: vals[0], b: vals[1]})
	sym.Assert(err == nil && len(out) == 2, "a configuration is refused or changed")
	x, ok1 := out[a]
	y, ok2 := out[b]
	sym.Assert(ok1 && ok2, "a key of a configuration changes")
	for i, v := range []interface{}{x, y} {
		switch w := vals[i].(type) {
		case map[interface{}]interface{}:
			g, ok := v.(map[interface{}]interface{})
			sym.Assert(ok && len(g) == 1 && (g[1] == "x" || g["1"] == "x"), "a nested configuration changes")
		case []interface{}:
			g, ok := v.([]interface{})
			sym.Assert(ok && len(g) == 2 && &g[0] == &w[0], "a list in a configuration changes")
			h, ok := g[0].(map[interface{}]interface{})
			sym.Assert(ok && len(h) == 1 && (h[1] == "x" || h["1"] == "x"), "a nested configuration changes")
		case map[string]interface{}:
			g, ok := v.(map[string]interface{})
			x, has := g["a"]
			sym.Assert(ok && len(g) == 1 && has && x == nil, "a nested configuration changes")
		case []byte:
			g, ok := v.([]byte)
			sym.Assert(ok && len(g) == 1 && &g[0] == &w[0], "bytes in a configuration change")
		default:
			sym.Assert(v == vals[i], "a configuration value changes")
		}
	}
	sym.Reach("normalized")
}

// U02_many: configurations of many entries.
func U02_many() {
	n := []int{9, 33, 100}[sym.Choose("entries", 3)]
	in := map[interface{}]interface{}{}
	at := anySpot(n)
	v := sym.U8("value")
	for i := 0; i < n; i++ {
		x := i
		if i == at {
			x = int(v)
		}
		in[string([]byte{'k', 'a' + byte(i%26), 'a' + byte(i/26)})] = x
	}
	out, err := vltypes.NormalizeConfig(in)
	sym.Assert(err == nil && len(out) == n, "a configuration is refused or changed")
	for i := 0; i < n; i++ {
		x := i
		if i == at {
			x = int(v)
		}
		g, ok := out[string([]byte{'k', 'a' + byte(i%26), 'a' + byte(i/26)})].(int)
		sym.Assert(ok && g == x, "a configuration value changes")
	}
	sym.Reach("normalized")
}

// U02_nil: empty configurations.
func U02_nil() {
	out, err := vltypes.NormalizeConfig(map[interface{}]interface{}(nil))
	sym.Assert(err == nil && len(out) == 0, "an empty configuration is refused")
	out, err = vltypes.NormalizeConfig(map[string]interface{}(nil))
	sym.Assert(err == nil && len(out) == 0, "an empty configuration is refused")
	sym.Reach("normalized")
}

// U03_status: nothing but an explicit grant reads as one.
func U03_status() {
	x := int(int64(sym.U64("status")))
	s := vlauth.Status(x)
	d, e := s.Desc(), s.Error()
	sym.Assert((d == "allow") == (x == 0), "a status that is no grant reads as one")
	sym.Assert((d == "deny") == (x != 0), "a grant reads as a denial")
	sym.Assert((e == "auth: access granted") == (x == 0), "a status that is no grant reads as one")
	sym.Assert((e == "auth: access denied") == (x == 1), "a denial reads wrongly")
	sym.Assert(len(e) > 0, "a status has no text")
	sym.Reach("judged")
}

// U03_access: access types.
func U03_access() {
	x := int(int64(sym.U64("access")))
	s := vlauth.AccessType(x).Type()
	sym.Assert((s == "read") == (x == 1), "read access is named wrongly")
	sym.Assert((s == "write") == (x == 2), "write access is named wrongly")
	sym.Assert((s == "") == sym.And(x != 1, x != 2), "an access type that does not exist has a name")
	sym.Reach("judged")
}

// U03_errors: the errors of the auth providers.
func U03_errors() {
	a, b := int(int64(sym.U64("a"))), int(int64(sym.U64("b")))
	known := sym.And(a >= 0, a <= int(vlauth.ErrInternal))
	x, y := vlauth.Error(a).Error(), vlauth.Error(b).Error()
	sym.Assert(len(x) > 0, "an error has no text")
	sym.Assert((x == "auth: unknown error") == sym.Not(known), "the text of an error does not tell whether it is known")
	sym.Assert(sym.Implies(sym.And(known, a != b), x != y), "two errors have the same text")
	sym.Reach("judged")
}

// U04_errors: the errors of persistence.
func U04_errors() {
	a, b := int(int64(sym.U64("a"))), int(int64(sym.U64("b")))
	known := sym.And(a >= 0, a <= int(vlpersistence.ErrBrokenEntry))
	x, y := vlpersistence.Errors(a).Error(), vlpersistence.Errors(b).Error()
	sym.Assert(len(x) > 0, "an error has no text")
	sym.Assert((x == "persistence: unknown error") == sym.Not(known), "the text of an error does not tell whether it is known")
	sym.Assert(sym.Implies(sym.And(known, a != b), x != y), "two errors have the same text")
	sym.Reach("judged")
}

// U05_descriptor: a plugin reports what its descriptor says.
func U05_descriptor() {
	n := sym.Bound("descriptor string bytes", 3, 5)
	v, m, d, t := sym.Str("version", 0, n), sym.Str("name", 0, n), sym.Str("desc", 0, n), sym.Str("type", 0, n)
	var i vlplugin.Info = &vlplugin.Descriptor{V: v, N: m, D: d, T: t}
	api, own := i.Version()
	sym.Assert(api == vlplugin.APIVersion, "the API version is wrong")
	sym.Assert(sym.EqStr(own, v), "the plugin version is wrong")
	sym.Assert(sym.EqStr(i.Name(), m), "the plugin name is wrong")
	sym.Assert(sym.EqStr(i.Desc(), d), "the plugin description is wrong")
	sym.Assert(sym.EqStr(i.Type(), t), "the plugin type is wrong")
	sym.Reach("reported")
}

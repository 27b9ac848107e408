// Package sym is the interface between a property harness and whoever executes it. The symbolic
// engine (/verif/engine) intercepts every function of this package; compiled natively, the functions
// read the concrete inputs of one replay, so that a solver counterexample runs against the real code.
package sym

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// RIn is one concrete input.
type RIn struct {
	K   string          `json:"k"`
	V   string          `json:"v,omitempty"`
	Hex string          `json:"hex,omitempty"`
	N   uint64          `json:"n,omitempty"`
	Def byte            `json:"def,omitempty"`
	Pts map[string]byte `json:"pts,omitempty"`
}

// Replay is one concrete run of a harness.
type Replay struct {
	Property string         `json:"property,omitempty"`
	Tier     string         `json:"tier,omitempty"`
	Harness  string         `json:"harness"`
	Label    string         `json:"label,omitempty"`
	Inputs   map[string]RIn `json:"inputs"`
	Order    []string       `json:"order,omitempty"`
	Sched    []int          `json:"sched,omitempty"`
	Threads  bool           `json:"threads,omitempty"`
	Race     bool           `json:"race,omitempty"`
	Clock    bool           `json:"clock,omitempty"`
	MapOrder bool           `json:"map_order,omitempty"`
	Repeat   int            `json:"repeat,omitempty"`
	Found    string         `json:"found,omitempty"`
}

// Result of a native run.
type Result struct {
	Status string   `json:"status"`
	Label  string   `json:"label,omitempty"`
	Obs    []string `json:"obs,omitempty"`
	Reach  []string `json:"reach,omitempty"`
}

type discard struct{}
type failed struct{ label string }

type run struct {
	r      *Replay
	names  map[string]int
	obs    []string
	reach  []string
	fail   string
	hasF   bool
	clock  time.Time
	hasClk bool
	free   bool
}

var cur *run

// Execute runs a harness with the inputs of r once. free lets the threads of Par run unscheduled.
func Execute(r *Replay, h func(), free bool) (res Result) {
	cur = &run{r: r, names: map[string]int{}, free: free}
	defer func() {
		x := recover()
		res.Obs, res.Reach = cur.obs, cur.reach
		switch y := x.(type) {
		case nil:
			res.Status = "ok"
		case discard:
			res.Status = "discard"
		case failed:
			res.Status, res.Label = "violation", y.label
		default:
			res.Status, res.Label = "violation", fmt.Sprint("uncaught panic: ", x)
		}
		if cur.hasF {
			res.Status, res.Label = "violation", cur.fail
		}
	}()
	h()
	return
}

func uniq(name string) string {
	k := cur.names[name]
	cur.names[name]++
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

func in(name string) (RIn, bool) {
	x, ok := cur.r.Inputs[uniq(name)]
	return x, ok
}

func num(name string) uint64 {
	x, _ := in(name)
	v, _ := strconv.ParseUint(x.V, 10, 64)
	return v
}

// U8 and friends are arbitrary values of their type.
func U8(name string) uint8   { return uint8(num(name)) }
func U16(name string) uint16 { return uint16(num(name)) }
func U32(name string) uint32 { return uint32(num(name)) }
func U64(name string) uint64 { return num(name) }
func Bool(name string) bool  { return num(name) == 1 }

// Int is an arbitrary value in [lo,hi], 0 <= lo.
func Int(name string, lo, hi int) int {
	x, ok := in(name)
	if !ok {
		return lo
	}
	v, _ := strconv.ParseUint(x.V, 10, 64)
	return int(v)
}

// Bytes is an arbitrary byte sequence with a length in [lo,hi].
func Bytes(name string, lo, hi int) []byte {
	x, ok := in(name)
	if !ok {
		return make([]byte, lo)
	}
	b, _ := hex.DecodeString(x.Hex)
	return b
}

// Str is an arbitrary string with a length in [lo,hi].
func Str(name string, lo, hi int) string { return string(Bytes(name, lo, hi)) }

// Big is an arbitrary byte sequence whose length is kept symbolic.
func Big(name string, lo, hi int) []byte { return big(name, lo) }

// Fill is a sequence of one repeated byte whose length is kept symbolic.
func Fill(name string, b byte, lo, hi int) []byte { return big(name, lo) }

func big(name string, lo int) []byte {
	x, ok := in(name)
	if !ok {
		return make([]byte, lo)
	}
	b := make([]byte, x.N)
	if x.Def != 0 {
		for i := range b {
			b[i] = x.Def
		}
	}
	for k, v := range x.Pts {
		i, _ := strconv.ParseUint(k, 10, 64)
		if i < x.N {
			b[i] = v
		}
	}
	return b
}

// Choose is an arbitrary number below n, decided by forking.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(num(name))
}

// Concrete forks over the values of v.
func Concrete(v int) int { return v }

// Tier picks a bound by tier.
func Tier(quick, thorough int) int {
	if cur.r.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Bound is Tier, recorded in the evidence.
func Bound(name string, quick, thorough int) int { return Tier(quick, thorough) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(discard{})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		if !cur.hasF {
			cur.hasF, cur.fail = true, label
		}
		panic(failed{label})
	}
}

// Fail is Assert(false).
func Fail(label string) { Assert(false, label) }

// And, Or, Not, Implies, IteInt and IteU8 build formulas without branching.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

// EqBytes and EqStr compare without branching.
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func EqStr(a, b string) bool   { return a == b }

// SameContent asserts equality of two byte sequences of symbolic length.
func SameContent(a, b []byte, label string) {
	if len(a) != len(b) {
		Assert(false, label+" (length)")
	}
	Assert(bytes.Equal(a, b), label)
}

// Reach marks a reachability witness.
func Reach(label string) { cur.reach = append(cur.reach, label) }

// Observe records values that must come out the same symbolically and natively.
func Observe(label string, vals ...interface{}) {
	var out []string
	for _, v := range vals {
		out = append(out, render(v))
	}
	cur.obs = append(cur.obs, label+"="+strings.Join(out, ","))
}

func render(v interface{}) string {
	if v == nil {
		return "nil"
	}
	str := func(b []byte) string {
		if len(b) > 4096 {
			return fmt.Sprintf("len=%d", len(b))
		}
		return "x" + hex.EncodeToString(b)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(rv.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(rv.Uint(), 10)
	case reflect.String:
		return str([]byte(rv.String()))
	case reflect.Slice:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			return str(rv.Bytes())
		}
	}
	return "T"
}

// Catch reports whether f panics.
func Catch(f func()) (panicked bool) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case discard, failed:
				panic(x)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Clock sets the wall clock read by the code under test (seconds since 1970).
func Clock(sec, nsec int64) { cur.clock, cur.hasClk = time.Unix(sec, nsec), true }

// Now is what the instrumented build calls instead of time.Now.
func Now() time.Time {
	if cur != nil && cur.hasClk {
		return cur.clock
	}
	return time.Now()
}

// Since and Until follow Now.
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Symbolic is true under the symbolic engine.
func Symbolic() bool { return false }

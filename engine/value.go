package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Expr, float64, Str, Slice, *Arr (array value), Struct, *Value / ElemPtr (pointers),
// *Map, Iface, *Closure, *ssa.Function, *ssa.Builtin, Tuple, *Opaque.
type Value interface{}

type Struct []Value
type Tuple []Value

// Arr is array storage: dense, or sparse bytes.
type Arr struct {
	el []Value
	sp *Snap // non-nil: sparse bytes
	n  *Expr // sparse length
}

type Slice struct {
	arr           *Arr
	off, len, cap *Expr
}

type ElemPtr struct {
	arr *Arr
	idx *Expr
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Opaque struct {
	kind string
	data interface{}
}

// Str is an immutable string: concrete, dense symbolic, or sparse.
type Str struct {
	s   string
	sym []*Expr
	k   uint8 // 0 concrete, 1 dense symbolic, 2 sparse
	sp  *SpStr
	al  *Slice // made from bytes without copying: follows them
}

type SpStr struct {
	snap     *Snap
	off, len *Expr
}

// Snap is an immutable view of sparse byte content.
type Snap struct {
	dense []*Expr // kind 0
	kind  uint8   // 0 dense, 1 zero, 2 uf, 3 fill
	uf    uint64
	fill  *Expr
	log   []spWrite
	buf   *spBuf // that log is a prefix of, or nil
}

// spBuf is the log of a series of snapshots, each of which extends the one before, with an index.
type spBuf struct {
	ws     []spWrite
	pts    map[uint64][]int32 // writes to one constant place
	others []int32            // the rest
}

// with is s after another write.
func (s *Snap) with(w spWrite) *Snap {
	b := s.buf
	if b == nil || len(b.ws) != len(s.log) {
		b = &spBuf{pts: map[uint64][]int32{}}
		for _, o := range s.log {
			b.add(o)
		}
	}
	b.add(w)
	return &Snap{dense: s.dense, kind: s.kind, uf: s.uf, fill: s.fill, log: b.ws[:len(b.ws):len(b.ws)], buf: b}
}

func (b *spBuf) add(w spWrite) {
	i := int32(len(b.ws))
	b.ws = append(b.ws, w)
	if w.n == nil && w.idx.op == OConst {
		b.pts[w.idx.k] = append(b.pts[w.idx.k], i)
	} else {
		b.others = append(b.others, i)
	}
}

// before is s without the writes from i on.
func (s *Snap) before(i int) *Snap {
	return &Snap{dense: s.dense, kind: s.kind, uf: s.uf, fill: s.fill, log: s.log[:i], buf: s.buf}
}

// below is the position in l of the first number that is not below n.
func below(l []int32, n int) int {
	return sort.Search(len(l), func(i int) bool { return int(l[i]) >= n })
}

type spWrite struct {
	idx    *Expr // point write: idx, val
	val    *Expr
	n      *Expr // range write: idx=dst, n, src, srcOff
	src    *Snap
	srcOff *Expr
}

type MapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	e   []MapEntry
	idx map[string]int // concrete keys (fast path); nil when some key is symbolic
}

func conc(s string) Str { return Str{s: s} }

func (in *Interp) snapAt(s *Snap, idx *Expr) *Expr {
	c := in.c
	last := len(s.log) // the writes from here on do not matter
	next := func() int { last--; return last }
	if s.buf != nil && idx.op == OConst {
		pts := s.buf.pts[idx.k]
		pts = pts[:below(pts, len(s.log))]
		oth := s.buf.others[:below(s.buf.others, len(s.log))]
		next = func() int {
			p, o := len(pts)-1, len(oth)-1
			switch {
			case p < 0 && o < 0:
				return -1
			case o < 0 || p >= 0 && pts[p] > oth[o]:
				i := pts[p]
				pts = pts[:p]
				return int(i)
			}
			i := oth[o]
			oth = oth[:o]
			return int(i)
		}
	}
	for i := next(); i >= 0; i = next() {
		w := s.log[i]
		if w.n == nil {
			eq := c.Eq(idx, w.idx)
			if eq.IsTrue() {
				return w.val
			}
			if eq.IsFalse() {
				continue
			}
			return c.Ite(eq, w.val, in.snapAt(s.before(i), idx))
		}
		cond := c.And(c.Ule(w.idx, idx), c.Ult(idx, c.Add(w.idx, w.n)))
		if cond.IsFalse() {
			continue
		}
		inner := func() *Expr { return in.snapAt(w.src, c.Add(c.Sub(idx, w.idx), w.srcOff)) }
		if cond.IsTrue() || in.implied(cond) {
			return inner()
		}
		if in.implied(c.Not(cond)) {
			continue
		}
		return c.Ite(cond, inner(), in.snapAt(s.before(i), idx))
	}
	switch s.kind {
	case 1:
		return c.Const(0, 8)
	case 2:
		return c.Select(s.uf, idx, 8)
	case 3:
		return s.fill
	}
	if idx.op == OConst {
		if idx.k >= uint64(len(s.dense)) {
			return c.Const(0, 8)
		}
		return s.dense[idx.k]
	}
	r := c.Const(0, 8)
	for i := len(s.dense) - 1; i >= 0; i-- {
		if uint64(i) < idx.lo || uint64(i) > idx.hi {
			continue
		}
		r = c.Ite(c.Eq(idx, c.Int(int64(i))), s.dense[i], r)
	}
	return r
}

// implied: syntactic path-condition lookup.
func (in *Interp) implied(e *Expr) bool {
	if e.IsTrue() {
		return true
	}
	if e.op == OAnd {
		return in.implied(e.a) && in.implied(e.b)
	}
	return in.path != nil && in.path.has(e)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func widthOf(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := widthOf(u); ok {
			return in.c.Const(0, w)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.Float64, types.Float32, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return (*Value)(nil)
		case types.Complex128, types.Complex64:
			return complex128(0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		z := in.c.Int(0)
		return Slice{nil, z, z, z}
	case *types.Array:
		n := int(u.Len())
		a := &Arr{}
		if n > denseMax && isByte(u.Elem()) {
			return &Arr{sp: &Snap{kind: 1}, n: in.c.Int(int64(n))}
		}
		if n > 1<<16 {
			in.unsupported("huge array")
		}
		a.el = make([]Value, n)
		if n > 0 {
			z := in.zero(u.Elem())
			for i := range a.el {
				if i == 0 {
					a.el[i] = z
				} else {
					a.el[i] = in.copyVal(z)
				}
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Opaque)(nil)
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = in.zero(u.At(i).Type())
		}
		return tp
	}
	panic(fmt.Sprintf("zero of %s", t))
}

// copyVal implements value semantics for aggregates.
func (in *Interp) copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = in.copyVal(x[i])
		}
		return n
	case *Arr:
		if x == nil {
			return x
		}
		n := &Arr{sp: x.sp, n: x.n}
		if x.el != nil {
			n.el = make([]Value, len(x.el))
			for i := range x.el {
				n.el[i] = in.copyVal(x.el[i])
			}
		}
		return n
	}
	return v
}

// ---- journalled mutation

type undoRec struct {
	p    *Value
	old  Value
	arr  *Arr
	snap *Snap
	m    *Map
	me   []MapEntry
	f    func()
}

func (in *Interp) setCell(p *Value, v Value) {
	if in.track != nil {
		in.trackWrite(p)
	}
	if in.journal {
		in.undo = append(in.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (in *Interp) setSnap(a *Arr, s *Snap) {
	if in.track != nil {
		in.trackWrite(a)
	}
	if in.journal {
		in.undo = append(in.undo, undoRec{arr: a, snap: a.sp})
	}
	a.sp = s
}

func (in *Interp) jmap(m *Map) {
	if in.track != nil {
		in.trackWrite(m)
	}
	if in.journal {
		cp := make([]MapEntry, len(m.e))
		copy(cp, m.e)
		in.undo = append(in.undo, undoRec{m: m, me: cp})
	}
}

func (in *Interp) rollback() {
	for i := len(in.undo) - 1; i >= 0; i-- {
		u := &in.undo[i]
		switch {
		case u.f != nil:
			u.f()
		case u.p != nil:
			*u.p = u.old
		case u.arr != nil:
			u.arr.sp = u.snap
		case u.m != nil:
			u.m.e = u.me
			u.m.reindex()
		}
	}
	in.undo = in.undo[:0]
}

// storeTo writes v into the cell p keeping the identity of nested aggregates.
func (in *Interp) storeTo(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				in.storeTo(&d[i], x[i])
			}
			return
		}
		in.setCell(p, in.copyVal(x))
	case *Arr:
		if d, ok := (*p).(*Arr); ok && d != nil && x != nil && len(d.el) == len(x.el) && d.sp == nil && x.sp == nil {
			for i := range x.el {
				in.storeTo(&d.el[i], x.el[i])
			}
			return
		}
		if d, ok := (*p).(*Arr); ok && d != nil && x != nil && d.sp != nil && x.sp != nil && d.n == x.n {
			in.setSnap(d, x.sp)
			return
		}
		in.setCell(p, in.copyVal(x))
	default:
		in.setCell(p, v)
	}
}

// ---- pointers

func (in *Interp) load(p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if in.track != nil {
			in.trackRead(x)
		}
		return in.copyVal(*x)
	case ElemPtr:
		return in.elemLoad(x.arr, x.idx)
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	in.unsupported(fmt.Sprintf("load through %T", p))
	return nil
}

func (in *Interp) store(p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		in.storeTo(x, v)
		return
	case ElemPtr:
		in.elemStore(x.arr, x.idx, v)
		return
	}
	in.unsupported(fmt.Sprintf("store through %T", p))
}

// elemLoad reads arr[idx]; idx already bounds checked.
func (in *Interp) elemLoad(a *Arr, idx *Expr) Value {
	if a.sp != nil {
		return in.snapAt(a.sp, idx)
	}
	if idx.op == OConst {
		if in.track != nil {
			in.trackRead(&a.el[idx.k])
		}
		return in.copyVal(a.el[idx.k])
	}
	lo, hi := idx.lo, idx.hi
	if hi >= uint64(len(a.el)) {
		hi = uint64(len(a.el)) - 1
	}
	if hi-lo < 300 {
		all := true
		for i := lo; i <= hi; i++ {
			if _, ok := a.el[i].(*Expr); !ok {
				all = false
				break
			}
		}
		if all {
			r := a.el[hi].(*Expr)
			for i := int64(hi) - 1; i >= int64(lo); i-- {
				r = in.c.Ite(in.c.Eq(idx, in.c.Const(uint64(i), idx.w)), a.el[i].(*Expr), r)
			}
			return r
		}
	}
	k := in.concretize(idx)
	return in.copyVal(a.el[k])
}

func (in *Interp) elemStore(a *Arr, idx *Expr, v Value) {
	if a.sp != nil {
		s := a.sp
		ns := s.with(spWrite{idx: idx, val: v.(*Expr)})
		in.setSnap(a, ns)
		return
	}
	if idx.op == OConst {
		in.storeTo(&a.el[idx.k], v)
		return
	}
	k := in.concretize(idx)
	in.storeTo(&a.el[k], v)
}

func (in *Interp) cellOf(p Value) *Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return x
	case ElemPtr:
		if x.arr.sp != nil {
			in.unsupported("address of sparse element")
		}
		return &x.arr.el[in.concretize(x.idx)]
	}
	in.unsupported(fmt.Sprintf("cellOf %T", p))
	return nil
}

// ---- strings / bytes

func (in *Interp) strLen(s Str) *Expr {
	switch s.k {
	case 0:
		return in.c.Int(int64(len(s.s)))
	case 1:
		return in.c.Int(int64(len(s.sym)))
	}
	return s.sp.len
}

// strBytes gives dense bytes of a string (nil,false when sparse)
func (in *Interp) strBytes(s Str) ([]*Expr, bool) {
	switch s.k {
	case 0:
		r := make([]*Expr, len(s.s))
		for i := 0; i < len(s.s); i++ {
			r[i] = in.c.byteC[s.s[i]]
		}
		return r, true
	case 1:
		return s.sym, true
	}
	if s.sp.len.op == OConst && s.sp.len.k <= 4096 {
		r := make([]*Expr, s.sp.len.k)
		for i := range r {
			r[i] = in.snapAt(s.sp.snap, in.c.Add(s.sp.off, in.c.Int(int64(i))))
		}
		return r, true
	}
	return nil, false
}

func (in *Interp) mkStr(b []*Expr) Str {
	for _, e := range b {
		if e.op != OConst {
			return Str{sym: append([]*Expr{}, b...), k: 1}
		}
	}
	x := make([]byte, len(b))
	for i, e := range b {
		x[i] = byte(e.k)
	}
	return Str{s: string(x)}
}

func (in *Interp) strAt(s Str, idx *Expr) *Expr {
	switch s.k {
	case 0:
		if idx.op == OConst {
			return in.c.byteC[s.s[idx.k]]
		}
		b, _ := in.strBytes(s)
		return in.snapAt(&Snap{dense: b}, idx)
	case 1:
		return in.snapAt(&Snap{dense: s.sym}, idx)
	}
	return in.snapAt(s.sp.snap, in.c.Add(s.sp.off, idx))
}

// sliceBytes returns dense bytes of a []byte slice.
func (in *Interp) sliceBytes(s Slice) ([]*Expr, bool) {
	if s.arr == nil {
		return nil, true
	}
	if s.arr.sp == nil {
		o, n := in.concretize(s.off), in.concretize(s.len)
		r := make([]*Expr, n)
		for i := range r {
			e, ok := s.arr.el[o+uint64(i)].(*Expr)
			if !ok {
				in.unsupported("non scalar bytes")
			}
			r[i] = e
		}
		return r, true
	}
	if s.len.op == OConst && s.len.k <= 4096 {
		r := make([]*Expr, s.len.k)
		for i := range r {
			r[i] = in.snapAt(s.arr.sp, in.c.Add(s.off, in.c.Int(int64(i))))
		}
		return r, true
	}
	return nil, false
}

func (in *Interp) sliceSnap(s Slice) (*Snap, *Expr) {
	if s.arr == nil {
		return &Snap{}, in.c.Int(0)
	}
	if s.arr.sp != nil {
		return s.arr.sp, s.off
	}
	b, _ := in.sliceBytes(s)
	return &Snap{dense: b}, in.c.Int(0)
}

func (in *Interp) strSnap(s Str) (*Snap, *Expr) {
	if s.k == 2 {
		return s.sp.snap, s.sp.off
	}
	b, _ := in.strBytes(s)
	return &Snap{dense: b}, in.c.Int(0)
}

func (in *Interp) mkBytes(b []*Expr) Slice {
	a := &Arr{el: make([]Value, len(b))}
	for i, e := range b {
		a.el[i] = e
	}
	n := in.c.Int(int64(len(b)))
	return Slice{a, in.c.Int(0), n, n}
}

func (in *Interp) bytesToStr(s Slice) Str {
	if b, ok := in.sliceBytes(s); ok {
		return in.mkStr(b)
	}
	return Str{k: 2, sp: &SpStr{s.arr.sp, s.off, s.len}}
}

// aliasStr is a string that shares the bytes of s.
func (in *Interp) aliasStr(s Slice) Str {
	if s.arr == nil {
		return Str{}
	}
	in.aliases = true
	r := in.bytesToStr(s)
	r.al = &s
	return r
}

// fresh reads a string that shares bytes again.
func (in *Interp) fresh(v Value) Value {
	if s, ok := v.(Str); ok && s.al != nil {
		return in.aliasStr(*s.al)
	}
	return v
}

func (in *Interp) strToBytes(s Str) Slice {
	if b, ok := in.strBytes(s); ok {
		return in.mkBytes(b)
	}
	z := in.c.Int(0)
	base := &Snap{kind: 1, log: []spWrite{{idx: z, n: s.sp.len, src: s.sp.snap, srcOff: s.sp.off}}}
	return Slice{&Arr{sp: base, n: s.sp.len}, z, s.sp.len, s.sp.len}
}

func (in *Interp) eqBytesExpr(a, b []*Expr) *Expr {
	if len(a) != len(b) {
		return in.c.False
	}
	r := in.c.True
	for i := range a {
		r = in.c.And(r, in.c.Eq(a[i], b[i]))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (in *Interp) strEq(a, b Str) *Expr {
	if a.k == 0 && b.k == 0 {
		return in.c.Bool(a.s == b.s)
	}
	if a.k == 2 || b.k == 2 {
		if a.k == 2 && b.k == 2 && a.sp.snap == b.sp.snap && a.sp.off == b.sp.off {
			return in.c.Eq(a.sp.len, b.sp.len)
		}
		// compare with short dense string: decide the length first
		le := in.c.Eq(in.strLen(a), in.strLen(b))
		if le.IsFalse() {
			return le
		}
		d, s := a, b
		if d.k == 2 {
			d, s = b, a
		}
		r := le
		if d.k == 2 {
			// both are large: only a length that is known can be gone through
			n := in.strLen(d)
			if n.op != OConst {
				n = in.strLen(s)
			}
			if n.op != OConst || n.k > 1<<17 {
				in.unsupported("sparse string comparison")
			}
			for i := int64(0); i < int64(n.k) && !r.IsFalse(); i++ {
				x := in.c.Int(i)
				r = in.c.And(r, in.c.Eq(in.strAt(d, x), in.strAt(s, x)))
			}
			return r
		}
		db, _ := in.strBytes(d)
		for i, e := range db {
			r = in.c.And(r, in.c.Eq(e, in.strAt(s, in.c.Int(int64(i)))))
		}
		return r
	}
	x, _ := in.strBytes(a)
	y, _ := in.strBytes(b)
	return in.eqBytesExpr(x, y)
}

// equal returns the boolean term x == y.
func (in *Interp) equal(x, y Value) *Expr {
	c := in.c
	switch a := x.(type) {
	case *Expr:
		b, ok := y.(*Expr)
		if !ok {
			break
		}
		return c.Eq(a, b)
	case float64:
		return c.Bool(a == y.(float64))
	case Str:
		return in.strEq(a, y.(Str))
	case *Value:
		b, ok := y.(*Value)
		return c.Bool(ok && a == b)
	case ElemPtr:
		b, ok := y.(ElemPtr)
		if !ok || a.arr != b.arr {
			return c.False
		}
		return c.Eq(a.idx, b.idx)
	case Struct:
		b := y.(Struct)
		r := c.True
		for i := range a {
			r = c.And(r, in.equal(a[i], b[i]))
		}
		return r
	case *Arr:
		b := y.(*Arr)
		if a.sp != nil || b.sp != nil {
			in.unsupported("comparison of large arrays")
		}
		r := c.True
		for i := range a.el {
			r = c.And(r, in.equal(a.el[i], b.el[i]))
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.False
		}
		if !types.Comparable(a.t) {
			in.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return in.equal(a.v, b.v)
	case *Map:
		b, ok := y.(*Map)
		return c.Bool(ok && a == b)
	case *Closure:
		b, ok := y.(*Closure)
		return c.Bool(ok && a == b)
	case *ssa.Function:
		b, ok := y.(*ssa.Function)
		return c.Bool(ok && a == b)
	case *Opaque:
		b, ok := y.(*Opaque)
		return c.Bool(ok && a == b)
	case Slice:
		b, ok := y.(Slice)
		if ok && (a.arr == nil || b.arr == nil) {
			return c.Bool(a.arr == nil && b.arr == nil)
		}
	case nil:
		return c.Bool(y == nil)
	}
	in.unsupported(fmt.Sprintf("compare %T %T", x, y))
	return nil
}

// ---- maps

func concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Expr:
		if x.op == OConst {
			return fmt.Sprintf("%d:%d", x.w, x.k), true
		}
	case Str:
		if x.k == 0 {
			return "s" + x.s, true
		}
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := concKey(x.v)
		return x.t.String() + "|" + k, ok
	case float64:
		return fmt.Sprintf("f%v", x), true
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case Struct:
		var sb strings.Builder
		for _, f := range x {
			k, ok := concKey(f)
			if !ok {
				return "", false
			}
			sb.WriteString(k)
			sb.WriteString(";")
		}
		return sb.String(), true
	}
	return "", false
}

func (m *Map) reindex() {
	m.idx = map[string]int{}
	for i := range m.e {
		if m.e[i].dead {
			continue
		}
		k, ok := concKey(m.e[i].k)
		if !ok {
			m.idx = nil
			return
		}
		m.idx[k] = i
	}
}

func (m *Map) live() int {
	n := 0
	for i := range m.e {
		if !m.e[i].dead {
			n++
		}
	}
	return n
}

func (in *Interp) mapKeyCheck(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.rtPanic("hash of unhashable type " + i.t.String())
	}
}

// mapFind decides (forking if needed) which live entry equals k; -1 if none.
func (in *Interp) mapFind(m *Map, k Value) int {
	if m == nil {
		return -1
	}
	if in.track != nil {
		in.trackRead(m)
	}
	in.mapKeyCheck(k)
	if m.idx != nil {
		if ck, ok := concKey(k); ok {
			if i, ok := m.idx[ck]; ok {
				return i
			}
			return -1
		}
	}
	for i := range m.e {
		if m.e[i].dead {
			continue
		}
		eq := in.equalKeys(m.e[i].k, k)
		if in.branch(eq) {
			return i
		}
	}
	return -1
}

func (in *Interp) equalKeys(a, b Value) *Expr {
	if x, ok := a.(Iface); ok {
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return in.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return in.c.False
		}
		return in.equal(x.v, y.v)
	}
	return in.equal(a, b)
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	if m == nil {
		in.rtPanic("assignment to entry in nil map")
	}
	i := in.mapFind(m, k)
	in.jmap(m)
	if i >= 0 {
		m.e[i].v = v
		return
	}
	m.e = append(m.e[:len(m.e):len(m.e)], MapEntry{k: k, v: v})
	if m.idx != nil {
		if ck, ok := concKey(k); ok {
			m.idx[ck] = len(m.e) - 1
		} else {
			m.idx = nil
		}
	}
}

func (in *Interp) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	i := in.mapFind(m, k)
	if i < 0 {
		return
	}
	in.jmap(m)
	ne := make([]MapEntry, len(m.e))
	copy(ne, m.e)
	ne[i].dead = true
	m.e = ne
	m.reindex()
}

// mapLookup implements m[k] (and the comma-ok form). needVal=false when the value is unused.
func (in *Interp) mapLookup(m *Map, k Value, zero Value, needVal bool) (Value, *Expr) {
	c := in.c
	if m == nil {
		in.mapKeyCheck(k)
		return zero, c.False
	}
	if in.track != nil {
		in.trackRead(m)
	}
	if m.idx != nil {
		in.mapKeyCheck(k)
		if ck, ok := concKey(k); ok {
			if i, ok := m.idx[ck]; ok {
				return in.copyVal(m.e[i].v), c.True
			}
			return zero, c.False
		}
	}
	type ent struct {
		eq *Expr
		v  Value
	}
	var es []ent
	for i := range m.e {
		if m.e[i].dead {
			continue
		}
		eq := in.equalKeys(m.e[i].k, k)
		if eq.IsTrue() {
			return in.copyVal(m.e[i].v), c.True
		}
		if !eq.IsFalse() {
			es = append(es, ent{eq, m.e[i].v})
		}
	}
	found := c.False
	for _, e := range es {
		found = c.Or(found, e.eq)
	}
	if !needVal {
		return zero, found
	}
	scal := true
	for _, e := range es {
		if _, ok := e.v.(*Expr); !ok {
			scal = false
		}
	}
	if zx, ok := zero.(*Expr); ok && scal {
		r := zx
		for i := len(es) - 1; i >= 0; i-- {
			r = c.Ite(es[i].eq, es[i].v.(*Expr), r)
		}
		return r, found
	}
	// group identical values, decide by forking
	type grp struct {
		cond *Expr
		v    Value
	}
	var gs []grp
outer:
	for _, e := range es {
		for i := range gs {
			if sameVal(gs[i].v, e.v) {
				gs[i].cond = c.Or(gs[i].cond, e.eq)
				continue outer
			}
		}
		gs = append(gs, grp{e.eq, e.v})
	}
	for _, g := range gs {
		if in.branch(g.cond) {
			return in.copyVal(g.v), c.True
		}
	}
	return zero, c.False
}

// sameVal: structural identity of values (no solving).
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		if !ok || x.k != y.k {
			return false
		}
		if x.k == 0 {
			return x.s == y.s
		}
		return false
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case *Map:
		y, ok := b.(*Map)
		if !ok || x == nil || y == nil {
			return ok && x == y
		}
		if x == y {
			return true
		}
		if x.idx == nil || y.idx == nil || len(x.idx) != len(y.idx) {
			return false
		}
		return false
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	case Tuple, *Arr:
		return false
	}
	defer func() { recover() }()
	return a == b
}

// arrLen is the length of an array.
func (in *Interp) arrLen(a *Arr) *Expr {
	if a.sp != nil {
		return a.n
	}
	return in.c.Int(int64(len(a.el)))
}

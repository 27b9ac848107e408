package main

import (
	"fmt"
	"math/bits"
	"sort"
)

// Expr is a hash-consed bit-vector (w>0) or boolean (w==0) term.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OSlt
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OExtract // k = low bit, w = width
	OConcat  // a high, b low
	OSelect  // k = uf id, a = index(64)
)

type Expr struct {
	op      Op
	w       uint8
	sent    uint32 // solver epoch in which it was defined
	id      uint32
	evGen   uint32
	ev      uint64
	a, b, c *Expr
	k       uint64
	lo, hi  uint64

	sup  uint8 // see domain.go
	sv   *Expr
	bits *bset
}

type ekey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

type VarInfo struct {
	name   string
	w      uint8
	lo, hi uint64
	e      *Expr
}

type UFInfo struct {
	name string
	def  uint64
	has  bool
}

// Ctx owns all terms of one worker.
type Ctx struct {
	dm     Model // scratch model of domain.go
	tab    map[ekey]*Expr
	nid    uint32
	vars   []VarInfo
	varIdx map[string]int
	ufs    []string
	ufIdx  map[string]int
	True   *Expr
	False  *Expr
	evGen  uint32
	byteC  [256]*Expr
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}, varIdx: map[string]int{}, ufIdx: map[string]int{}}
	c.True = c.mk(OConst, 0, nil, nil, nil, 1)
	c.False = c.mk(OConst, 0, nil, nil, nil, 0)
	for i := range c.byteC {
		c.byteC[i] = c.mk(OConst, 8, nil, nil, nil, uint64(i))
	}
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func eid(e *Expr) uint32 {
	if e == nil {
		return 0
	}
	return e.id
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Expr, k uint64) *Expr {
	key := ekey{op, w, eid(a), eid(b), eid(d), k}
	if e, ok := c.tab[key]; ok {
		return e
	}
	c.nid++
	e := &Expr{op: op, w: w, a: a, b: b, c: d, k: k, id: c.nid}
	e.lo, e.hi = 0, mask(w)
	c.setRange(e)
	c.tab[key] = e
	return e
}

func addOv(a, b uint64, w uint8) (uint64, bool) {
	s, cy := bits.Add64(a, b, 0)
	return s, cy != 0 || s > mask(w)
}

func (c *Ctx) setRange(e *Expr) {
	m := mask(e.w)
	switch e.op {
	case OConst:
		e.lo, e.hi = e.k, e.k
	case OVar:
		v := c.vars[e.k]
		e.lo, e.hi = v.lo, v.hi
	case OIte:
		if e.w > 0 {
			e.lo, e.hi = min(e.b.lo, e.c.lo), max(e.b.hi, e.c.hi)
		}
	case OAdd:
		if h, ov := addOv(e.a.hi, e.b.hi, e.w); !ov {
			e.lo, e.hi = e.a.lo+e.b.lo, h
		} else if e.b.op == OConst {
			// adding a "negative" constant: always wraps or never wraps
			neg := (-e.b.k) & m
			if e.a.lo >= neg && neg != 0 {
				e.lo, e.hi = e.a.lo-neg, e.a.hi-neg
			}
		}
	case OSub:
		if e.a.lo >= e.b.hi {
			e.lo, e.hi = e.a.lo-e.b.hi, e.a.hi-e.b.lo
		}
	case OMul:
		if h, l := bits.Mul64(e.a.hi, e.b.hi); h == 0 && l <= m {
			e.lo, e.hi = e.a.lo*e.b.lo, l
		}
	case OUDiv:
		if e.b.op == OConst && e.b.k > 0 {
			e.lo, e.hi = e.a.lo/e.b.k, e.a.hi/e.b.k
		}
	case OURem:
		if e.b.op == OConst && e.b.k > 0 {
			e.hi = min(e.b.k-1, e.a.hi)
		}
	case OBAnd:
		e.hi = min(e.a.hi, e.b.hi)
	case OBOr:
		e.lo = max(e.a.lo, e.b.lo)
		n := bits.Len64(e.a.hi | e.b.hi)
		e.hi = mask64(n)
	case OBXor:
		e.hi = mask64(bits.Len64(e.a.hi | e.b.hi))
	case OLShr:
		if e.b.op == OConst {
			if e.b.k >= uint64(e.w) {
				e.lo, e.hi = 0, 0
			} else {
				e.lo, e.hi = e.a.lo>>e.b.k, e.a.hi>>e.b.k
			}
		} else {
			e.hi = e.a.hi
		}
	case OShl:
		if e.b.op == OConst && e.b.k < uint64(e.w) && bits.Len64(e.a.hi)+int(e.b.k) <= int(e.w) {
			e.lo, e.hi = e.a.lo<<e.b.k, e.a.hi<<e.b.k
		}
	case OZExt:
		e.lo, e.hi = e.a.lo, e.a.hi
	case OExtract:
		if e.k == 0 && e.a.hi <= m {
			e.lo, e.hi = e.a.lo, e.a.hi
		} else if e.a.hi>>e.k <= m {
			e.lo, e.hi = e.a.lo>>e.k, e.a.hi>>e.k
		}
	case OConcat:
		e.lo = e.a.lo<<e.b.w | e.b.lo
		e.hi = e.a.hi<<e.b.w | e.b.hi
	}
	if e.hi > m {
		e.hi = m
	}
	if e.lo > e.hi {
		panic(fmt.Sprintf("bad range op=%d w=%d %d..%d", e.op, e.w, e.lo, e.hi))
	}
}

func mask64(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(n)) - 1
}

func (c *Ctx) Const(v uint64, w uint8) *Expr {
	if w == 8 {
		return c.byteC[v&0xff]
	}
	return c.mk(OConst, w, nil, nil, nil, v&mask(w))
}
func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Int(v int64) *Expr { return c.Const(uint64(v), 64) }

// Var declares (or returns) a variable with an inclusive unsigned range.
func (c *Ctx) Var(name string, w uint8, lo, hi uint64) *Expr {
	if hi > mask(w) {
		hi = mask(w)
	}
	key := fmt.Sprintf("%s/%d/%d/%d", name, w, lo, hi)
	if i, ok := c.varIdx[key]; ok {
		return c.vars[i].e
	}
	i := len(c.vars)
	c.vars = append(c.vars, VarInfo{name: name, w: w, lo: lo, hi: hi})
	c.varIdx[key] = i
	e := c.mk(OVar, w, nil, nil, nil, uint64(i))
	if w > 0 && lo == hi {
		// degenerate range: use constant
		e = c.Const(lo, w)
	}
	c.vars[i].e = e
	return e
}

func (c *Ctx) UF(name string) uint64 {
	if i, ok := c.ufIdx[name]; ok {
		return uint64(i)
	}
	c.ufs = append(c.ufs, name)
	c.ufIdx[name] = len(c.ufs) - 1
	return uint64(len(c.ufs) - 1)
}

func (e *Expr) IsConst() bool { return e.op == OConst }
func (e *Expr) IsTrue() bool  { return e.op == OConst && e.w == 0 && e.k == 1 }
func (e *Expr) IsFalse() bool { return e.op == OConst && e.w == 0 && e.k == 0 }

// ---- booleans

func (c *Ctx) Not(a *Expr) *Expr {
	if a.op == OConst {
		return c.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, 0, a, nil, nil, 0)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return c.False
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil, 0)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return c.True
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil, 0)
}

func (c *Ctx) Ite(cd, a, b *Expr) *Expr {
	if cd.op == OConst {
		if cd.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic("ite width")
	}
	if a.w == 0 {
		if a.op == OConst && b.op == OConst {
			if a.k == 1 {
				return cd
			}
			return c.Not(cd)
		}
		if a.op == OConst {
			if a.k == 1 {
				return c.Or(cd, b)
			}
			return c.And(c.Not(cd), b)
		}
		if b.op == OConst {
			if b.k == 1 {
				return c.Or(c.Not(cd), a)
			}
			return c.And(cd, a)
		}
	}
	if cd.op == ONot {
		cd, a, b = cd.a, b, a
	}
	if a.op == OIte && a.a == cd {
		a = a.b
	}
	if b.op == OIte && b.a == cd {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, cd, a, b, 0)
}

// ---- linear forms

type lterm struct {
	e *Expr
	k uint64 // coefficient modulo 2^w
}

type lin struct {
	t []lterm
	c uint64
}

func (c *Ctx) linOf(e *Expr, depth int) lin {
	switch {
	case e.op == OConst:
		return lin{c: e.k}
	case e.op == OAdd && depth < 64:
		return linAdd(c.linOf(e.a, depth+1), c.linOf(e.b, depth+1), 1, e.w)
	case e.op == OSub && depth < 64:
		return linAdd(c.linOf(e.a, depth+1), c.linOf(e.b, depth+1), mask(e.w), e.w)
	case e.op == OMul && e.b.op == OConst && depth < 64:
		l := c.linOf(e.a, depth+1)
		r := lin{c: l.c * e.b.k & mask(e.w)}
		for _, t := range l.t {
			if k := t.k * e.b.k & mask(e.w); k != 0 {
				r.t = append(r.t, lterm{t.e, k})
			}
		}
		return r
	}
	return lin{t: []lterm{{e, 1}}}
}

// linAdd returns a + k*b.
func linAdd(a, b lin, k uint64, w uint8) lin {
	m := mask(w)
	r := lin{c: (a.c + k*b.c) & m}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].e.id < b.t[j].e.id:
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].e.id < a.t[i].e.id:
			if kk := b.t[j].k * k & m; kk != 0 {
				r.t = append(r.t, lterm{b.t[j].e, kk})
			}
			j++
		default:
			if kk := (a.t[i].k + b.t[j].k*k) & m; kk != 0 {
				r.t = append(r.t, lterm{a.t[i].e, kk})
			}
			i++
			j++
		}
	}
	return r
}

func (c *Ctx) fromLin(l lin, w uint8) *Expr {
	m := mask(w)
	if len(l.t) == 0 {
		return c.Const(l.c, w)
	}
	half := m>>1 + 1
	var acc *Expr
	for _, t := range l.t {
		if t.k >= half && t.k != half {
			continue
		}
		x := t.e
		if t.k != 1 {
			x = c.mk(OMul, w, x, c.Const(t.k, w), nil, 0)
		}
		if acc == nil {
			acc = x
		} else {
			acc = c.mk(OAdd, w, acc, x, nil, 0)
		}
	}
	// apply positive constants before subtractions so that ranges stay precise
	cst := l.c
	neg := cst != 0 && cst >= half && w > 1
	if cst != 0 && !neg {
		if acc == nil {
			acc = c.Const(cst, w)
		} else {
			acc = c.mk(OAdd, w, acc, c.Const(cst, w), nil, 0)
		}
		cst = 0
	}
	for _, t := range l.t {
		if !(t.k >= half && t.k != half) {
			continue
		}
		x := t.e
		kk := (-t.k) & m
		if kk != 1 {
			x = c.mk(OMul, w, x, c.Const(kk, w), nil, 0)
		}
		if acc == nil {
			acc = c.Const(0, w)
		}
		acc = c.mk(OSub, w, acc, x, nil, 0)
	}
	if cst != 0 {
		acc = c.mk(OAdd, w, acc, c.Const(cst, w), nil, 0)
	}
	return acc
}

func (c *Ctx) Add(a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return c.Const(a.k+b.k, a.w)
	}
	if a.op == OConst && a.k == 0 {
		return b
	}
	if b.op == OConst && b.k == 0 {
		return a
	}
	return c.fromLin(linAdd(c.linOf(a, 0), c.linOf(b, 0), 1, a.w), a.w)
}

func (c *Ctx) Sub(a, b *Expr) *Expr {
	if a == b {
		return c.Const(0, a.w)
	}
	if a.op == OConst && b.op == OConst {
		return c.Const(a.k-b.k, a.w)
	}
	if b.op == OConst && b.k == 0 {
		return a
	}
	return c.fromLin(linAdd(c.linOf(a, 0), c.linOf(b, 0), mask(a.w), a.w), a.w)
}

func (c *Ctx) Neg(a *Expr) *Expr { return c.Sub(c.Const(0, a.w), a) }

func (c *Ctx) Mul(a, b *Expr) *Expr {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.k*b.k, a.w)
		}
		switch b.k {
		case 0:
			return b
		case 1:
			return a
		}
		l := c.linOf(a, 0)
		r := lin{c: l.c * b.k & mask(a.w)}
		for _, t := range l.t {
			if k := t.k * b.k & mask(a.w); k != 0 {
				r.t = append(r.t, lterm{t.e, k})
			}
		}
		return c.fromLin(r, a.w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.w, a, b, nil, 0)
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func evalDiv(op Op, x, y uint64, w uint8) uint64 {
	switch op {
	case OUDiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return mask(w)
		}
		if b == -1 {
			return uint64(-a) & mask(w)
		}
		return uint64(a/b) & mask(w)
	default:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & mask(w)
	}
}

func (c *Ctx) Div(op Op, a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return c.Const(evalDiv(op, a.k, b.k, a.w), a.w)
	}
	sgn := mask(a.w)>>1 + 1
	if (op == OSDiv || op == OSRem) && a.hi < sgn && b.hi < sgn {
		if op == OSDiv {
			op = OUDiv
		} else {
			op = OURem
		}
	}
	if b.op == OConst && b.k == 1 {
		if op == OUDiv || op == OSDiv {
			return a
		}
		return c.Const(0, a.w)
	}
	if op == OUDiv && b.op == OConst && b.k != 0 && b.k&(b.k-1) == 0 {
		return c.LShr(a, c.Const(uint64(bits.TrailingZeros64(b.k)), a.w))
	}
	if op == OURem && b.op == OConst && b.k != 0 && b.k&(b.k-1) == 0 {
		return c.BAnd(a, c.Const(b.k-1, a.w))
	}
	if op == OURem && b.op == OConst && b.k != 0 && a.hi < b.k {
		return a
	}
	if op == OUDiv && b.op == OConst && b.k != 0 && a.hi < b.k {
		return c.Const(0, a.w)
	}
	if b.op == OConst {
		if r := c.overConsts(a, 40, func(k uint64) uint64 { return evalDiv(op, k, b.k, a.w) }); r != nil {
			return r
		}
	}
	if b.op == OConst && b.k > 1 && b.k < sgn && a.w > 1 {
		if op == OUDiv || op == OURem {
			if q, r, ok := c.divLin(a, b.k); ok {
				if op == OUDiv {
					return q
				}
				return r
			}
		} else if nd := c.Neg(a); nd.hi < sgn && c.exact(nd, 0) {
			// (-d)/k = -(d/k) for truncated signed division
			if q, r, ok := c.divLin(nd, b.k); ok {
				if op == OSDiv {
					return c.Neg(q)
				}
				return c.Neg(r)
			}
		}
	}
	return c.mk(op, a.w, a, b, nil, 0)
}

// overConsts applies f to e if e is a choice between constants, plus a constant.
func (c *Ctx) overConsts(e *Expr, d int, f func(uint64) uint64) *Expr {
	switch {
	case d == 0:
	case e.op == OConst:
		return c.Const(f(e.k), e.w)
	case e.op == OAdd && e.b.op == OConst:
		return c.overConsts(e.a, d-1, func(k uint64) uint64 { return f((k + e.b.k) & mask(e.w)) })
	case e.op == OIte:
		x := c.overConsts(e.b, d-1, f)
		if x == nil {
			return nil
		}
		y := c.overConsts(e.c, d-1, f)
		if y == nil {
			return nil
		}
		if y.op == OIte && y.b == x {
			return c.Ite(c.orLess(e.a, y.a), x, y.c)
		}
		return c.Ite(e.a, x, y)
	}
	return nil
}

// orLess is a or b; of two bounds of the same term one is enough.
func (c *Ctx) orLess(a, b *Expr) *Expr {
	if a.op == OUlt && b.op == OUlt && a.a == b.a && a.b.op == OConst && b.b.op == OConst {
		if a.b.k > b.b.k {
			return a
		}
		return b
	}
	return c.Or(a, b)
}

// divLin divides an exact positive linear form by a constant when the part not divisible by it is
// provably smaller than the divisor.
func (c *Ctx) divLin(a *Expr, k uint64) (q, r *Expr, ok bool) {
	if !c.exact(a, 0) {
		return nil, nil, false
	}
	l := c.linOf(a, 0)
	half := mask(a.w)>>1 + 1
	if l.c >= half {
		return nil, nil, false
	}
	ql, rl := lin{c: l.c / k}, lin{c: l.c % k}
	max := rl.c
	for _, t := range l.t {
		if t.k >= half {
			return nil, nil, false
		}
		if t.k%k == 0 {
			ql.t = append(ql.t, lterm{t.e, t.k / k})
			continue
		}
		h, p := bits.Mul64(t.k, t.e.hi)
		s, cy := bits.Add64(max, p, 0)
		if h != 0 || cy != 0 || s >= k {
			return nil, nil, false
		}
		max = s
		rl.t = append(rl.t, t)
	}
	return c.fromLin(ql, a.w), c.fromLin(rl, a.w), true
}

// ---- bit pieces: decomposition into (value, width) from high to low; nil value = zero bits

type piece struct {
	e *Expr // nil: zero
	w uint8
}

func (c *Ctx) pieces(e *Expr) []piece {
	switch e.op {
	case OConst:
		if e.k == 0 {
			return []piece{{nil, e.w}}
		}
		return []piece{{e, e.w}}
	case OZExt:
		return append([]piece{{nil, e.w - e.a.w}}, c.pieces(e.a)...)
	case OConcat:
		return append(append([]piece{}, c.pieces(e.a)...), c.pieces(e.b)...)
	}
	if n := bits.Len64(e.hi); n < int(e.w) {
		if n == 0 {
			return []piece{{nil, e.w}}
		}
		return []piece{{nil, e.w - uint8(n)}, {c.rawExtract(e, 0, uint8(n)), uint8(n)}}
	}
	return []piece{{e, e.w}}
}

func (c *Ctx) rawExtract(e *Expr, lo, w uint8) *Expr {
	if lo == 0 && w == e.w {
		return e
	}
	if e.op == OConst {
		return c.Const(e.k>>lo, w)
	}
	if e.op == OExtract {
		return c.mk(OExtract, w, e.a, nil, nil, e.k+uint64(lo))
	}
	return c.mk(OExtract, w, e, nil, nil, uint64(lo))
}

func (c *Ctx) fromPieces(ps []piece) *Expr {
	// merge adjacent
	var out []piece
	for _, p := range ps {
		if p.w == 0 {
			continue
		}
		if p.e != nil && p.e.op == OConst && p.e.k == 0 {
			p.e = nil
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.e == nil && p.e == nil {
				out[n-1].w += p.w
				continue
			}
			if q.e != nil && p.e != nil {
				if q.e.op == OConst && p.e.op == OConst {
					out[n-1] = piece{c.Const(q.e.k<<p.w|p.e.k, q.w+p.w), q.w + p.w}
					continue
				}
				qb, ql := q.e, uint64(0)
				if q.e.op == OExtract {
					qb, ql = q.e.a, q.e.k
				}
				pb, pl := p.e, uint64(0)
				if p.e.op == OExtract {
					pb, pl = p.e.a, p.e.k
				}
				if qb == pb && ql == pl+uint64(p.w) {
					out[n-1] = piece{c.rawExtract(pb, uint8(pl), q.w+p.w), q.w + p.w}
					continue
				}
			}
		}
		out = append(out, p)
	}
	// build from high to low
	var total uint8
	for _, p := range out {
		total += p.w
	}
	if len(out) == 0 {
		panic("empty pieces")
	}
	if len(out) == 1 {
		if out[0].e == nil {
			return c.Const(0, out[0].w)
		}
		return out[0].e
	}
	lead := out[0].e == nil
	start := 0
	if lead {
		start = 1
	}
	var acc *Expr
	for _, p := range out[start:] {
		x := p.e
		if x == nil {
			x = c.Const(0, p.w)
		}
		if acc == nil {
			acc = x
		} else {
			acc = c.mk(OConcat, acc.w+x.w, acc, x, nil, 0)
		}
	}
	if lead {
		// zext(extract(0..w-1,x)) with x already in range is x itself
		if acc.op == OExtract && acc.k == 0 && acc.a.hi <= mask(acc.w) {
			if acc.a.w == total {
				return acc.a
			}
			if acc.a.w < total {
				return c.mk(OZExt, total, acc.a, nil, nil, 0)
			}
			return c.mk(OZExt, total, acc, nil, nil, 0)
		}
		return c.mk(OZExt, total, acc, nil, nil, 0)
	}
	return acc
}

// slice of piece list: bits [lo, lo+w)
func (c *Ctx) cut(ps []piece, lo, w uint8) []piece {
	var total uint8
	for _, p := range ps {
		total += p.w
	}
	var out []piece
	pos := total
	hiB, loB := lo+w, lo
	for _, p := range ps {
		top := pos
		bot := pos - p.w
		pos = bot
		h, l := min(top, hiB), max(bot, loB)
		if h <= l {
			continue
		}
		if p.e == nil {
			out = append(out, piece{nil, h - l})
		} else {
			out = append(out, piece{c.rawExtract(p.e, l-bot, h-l), h - l})
		}
	}
	return out
}

func (c *Ctx) Extract(e *Expr, lo, w uint8) *Expr {
	if lo == 0 && w == e.w {
		return e
	}
	switch e.op {
	case OConst:
		return c.Const(e.k>>lo, w)
	case OZExt, OConcat:
		return c.fromPieces(c.cut(c.pieces(e), lo, w))
	case OExtract:
		return c.rawExtract(e, lo, w)
	case OIte:
		if e.b.op == OConst && e.c.op == OConst {
			return c.Ite(e.a, c.Extract(e.b, lo, w), c.Extract(e.c, lo, w))
		}
	case OSExt:
		if lo+w <= e.a.w {
			return c.Extract(e.a, lo, w)
		}
	case OBAnd, OBOr, OBXor:
		if e.b.op == OConst || w <= 8 {
			x, y := c.Extract(e.a, lo, w), c.Extract(e.b, lo, w)
			switch e.op {
			case OBAnd:
				return c.BAnd(x, y)
			case OBOr:
				return c.BOr(x, y)
			default:
				return c.BXor(x, y)
			}
		}
	case OBNot:
		return c.BNot(c.Extract(e.a, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 && (e.a.op == OZExt || e.b.op == OZExt || e.b.op == OConst) && w < e.w {
			x, y := c.Extract(e.a, 0, w), c.Extract(e.b, 0, w)
			switch e.op {
			case OAdd:
				return c.Add(x, y)
			case OSub:
				return c.Sub(x, y)
			default:
				return c.Mul(x, y)
			}
		}
	}
	if n := bits.Len64(e.hi); int(lo) >= n {
		return c.Const(0, w)
	} else if int(lo)+int(w) > n {
		return c.fromPieces([]piece{{nil, lo + w - uint8(n)}, {c.rawExtract(e, lo, uint8(n)-lo), uint8(n) - lo}})
	}
	return c.rawExtract(e, lo, w)
}

func (c *Ctx) Concat(a, b *Expr) *Expr {
	return c.fromPieces(append(append([]piece{}, c.pieces(a)...), c.pieces(b)...))
}

func (c *Ctx) ZExt(e *Expr, w uint8) *Expr {
	if w == e.w {
		return e
	}
	if e.op == OConst {
		return c.Const(e.k, w)
	}
	if e.op == OIte && e.b.op == OConst && e.c.op == OConst {
		return c.Ite(e.a, c.ZExt(e.b, w), c.ZExt(e.c, w))
	}
	return c.fromPieces(append([]piece{{nil, w - e.w}}, c.pieces(e)...))
}

func (c *Ctx) SExt(e *Expr, w uint8) *Expr {
	if w == e.w {
		return e
	}
	if e.op == OConst {
		return c.Const(uint64(sx(e.k, e.w)), w)
	}
	if e.hi < mask(e.w)>>1+1 {
		return c.ZExt(e, w)
	}
	return c.mk(OSExt, w, e, nil, nil, 0)
}

// contiguous run of ones?
func runMask(m uint64) (lo, n uint8, ok bool) {
	if m == 0 {
		return 0, 0, false
	}
	l := bits.TrailingZeros64(m)
	x := m >> l
	if x&(x+1) != 0 {
		return 0, 0, false
	}
	return uint8(l), uint8(bits.Len64(x)), true
}

func (c *Ctx) BAnd(a, b *Expr) *Expr {
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.k&b.k, a.w)
		}
		if b.k == 0 {
			return b
		}
		if b.k == mask(a.w) {
			return a
		}
		if lo, n, ok := runMask(b.k); ok {
			if lo == 0 && a.hi <= mask64(int(n)) {
				return a
			}
			mid := c.Extract(a, lo, n)
			return c.fromPieces(append(append([]piece{{nil, a.w - lo - n}}, c.pieces(mid)...), piece{nil, lo}))
		}
		if a.op == OBAnd && a.b.op == OConst {
			return c.BAnd(a.a, c.Const(a.b.k&b.k, a.w))
		}
		// disjoint pieces with zeros
		ps := c.pieces(a)
		if len(ps) > 1 {
			var out []piece
			pos := a.w
			for _, p := range ps {
				pos -= p.w
				mk := b.k >> pos & mask(p.w)
				if p.e == nil || mk == 0 {
					out = append(out, piece{nil, p.w})
				} else {
					out = append(out, c.pieces(c.BAnd(p.e, c.Const(mk, p.w)))...)
				}
			}
			return c.fromPieces(out)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBAnd, a.w, a, b, nil, 0)
}

func (c *Ctx) BOr(a, b *Expr) *Expr {
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.k|b.k, a.w)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
	}
	if r := c.orPieces(a, b); r != nil {
		return r
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBOr, a.w, a, b, nil, 0)
}

// orPieces merges two terms that have no overlapping possibly-nonzero bits.
func (c *Ctx) orPieces(a, b *Expr) *Expr {
	pa, pb := c.pieces(a), c.pieces(b)
	if len(pa) == 1 && len(pb) == 1 {
		if b.op != OConst {
			return nil
		}
	}
	// split constants into bit runs so that they can be disjoint
	pa, pb = c.splitConst(pa), c.splitConst(pb)
	// cut points
	cuts := map[uint8]bool{}
	for _, ps := range [][]piece{pa, pb} {
		pos := a.w
		for _, p := range ps {
			cuts[pos] = true
			pos -= p.w
		}
	}
	var cl []int
	for k := range cuts {
		cl = append(cl, int(k))
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cl)))
	cl = append(cl, 0)
	var out []piece
	for i := 0; i+1 < len(cl); i++ {
		lo, w := uint8(cl[i+1]), uint8(cl[i]-cl[i+1])
		x, y := c.cut(pa, lo, w), c.cut(pb, lo, w)
		xz := len(x) == 1 && x[0].e == nil
		yz := len(y) == 1 && y[0].e == nil
		switch {
		case yz:
			out = append(out, x...)
		case xz:
			out = append(out, y...)
		default:
			// constant all-ones wins
			if len(y) == 1 && y[0].e.op == OConst && y[0].e.k == mask(w) {
				out = append(out, y...)
			} else if len(x) == 1 && x[0].e.op == OConst && x[0].e.k == mask(w) {
				out = append(out, x...)
			} else {
				return nil
			}
		}
	}
	return c.fromPieces(out)
}

func (c *Ctx) splitConst(ps []piece) []piece {
	var out []piece
	for _, p := range ps {
		if p.e == nil || p.e.op != OConst {
			out = append(out, p)
			continue
		}
		for i := int(p.w) - 1; i >= 0; i-- {
			if p.e.k>>uint(i)&1 == 1 {
				out = append(out, piece{c.Const(1, 1), 1})
			} else {
				out = append(out, piece{nil, 1})
			}
		}
	}
	return out
}

func (c *Ctx) BXor(a, b *Expr) *Expr {
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return c.Const(0, a.w)
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.k^b.k, a.w)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return c.BNot(a)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBXor, a.w, a, b, nil, 0)
}

func (c *Ctx) BNot(a *Expr) *Expr {
	if a.op == OConst {
		return c.Const(^a.k, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	if a.op == OAdd || a.op == OSub {
		// ^x is -x-1
		return c.Sub(c.Const(mask(a.w), a.w), a)
	}
	return c.mk(OBNot, a.w, a, nil, nil, 0)
}

// shifts: amount has the same width as a; amounts >= width give 0 (or sign).
func (c *Ctx) Shl(a, s *Expr) *Expr {
	if s.op == OConst {
		if s.k == 0 {
			return a
		}
		if s.k >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		if a.op == OConst {
			return c.Const(a.k<<s.k, a.w)
		}
		k := uint8(s.k)
		lowp := c.pieces(c.Extract(a, 0, a.w-k))
		return c.fromPieces(append(append([]piece{}, lowp...), piece{nil, k}))
	}
	if a.op == OConst && a.k == 0 {
		return a
	}
	return c.mk(OShl, a.w, a, s, nil, 0)
}

func (c *Ctx) LShr(a, s *Expr) *Expr {
	if s.op == OConst {
		if s.k == 0 {
			return a
		}
		if s.k >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		if a.op == OConst {
			return c.Const(a.k>>s.k, a.w)
		}
		k := uint8(s.k)
		return c.ZExt(c.Extract(a, k, a.w-k), a.w)
	}
	if a.op == OConst && a.k == 0 {
		return a
	}
	return c.mk(OLShr, a.w, a, s, nil, 0)
}

func (c *Ctx) AShr(a, s *Expr) *Expr {
	if a.hi < mask(a.w)>>1+1 {
		return c.LShr(a, s)
	}
	if s.op == OConst {
		if s.k == 0 {
			return a
		}
		sh := s.k
		if sh >= uint64(a.w) {
			sh = uint64(a.w) - 1
			s = c.Const(sh, a.w)
		}
		if a.op == OConst {
			return c.Const(uint64(sx(a.k, a.w)>>sh), a.w)
		}
	}
	return c.mk(OAShr, a.w, a, s, nil, 0)
}

// ---- comparisons

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if a.op == OConst {
				return c.Bool(a.k == b.k)
			}
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OEq, 0, a, b, nil, 0)
	}
	if a.op == OConst {
		return c.Bool(a.k == b.k)
	}
	if a.lo > b.hi || a.hi < b.lo {
		return c.False
	}
	if b.op == OConst {
		switch a.op {
		case OZExt:
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OSExt:
			v := b.k & mask(a.a.w)
			if uint64(sx(v, a.a.w))&mask(a.w) != b.k {
				return c.False
			}
			return c.Eq(a.a, c.Const(v, a.a.w))
		case OConcat:
			return c.And(c.Eq(a.a, c.Const(b.k>>a.b.w, a.a.w)), c.Eq(a.b, c.Const(b.k, a.b.w)))
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OBNot:
			return c.Eq(a.a, c.Const(^b.k, a.w))
		case OBXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.b.k^b.k, a.w))
			}
		}
	} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	// linear
	if a.op == OAdd || a.op == OSub || b.op == OAdd || b.op == OSub || a.op == OMul || b.op == OMul {
		d := linAdd(c.linOf(a, 0), c.linOf(b, 0), mask(a.w), a.w)
		if len(d.t) == 0 {
			return c.Bool(d.c == 0)
		}
		if len(d.t) == 1 && (d.t[0].k == 1 || d.t[0].k == mask(a.w)) {
			x := d.t[0].e
			v := d.c
			if d.t[0].k == 1 {
				v = -v
			}
			k := c.Const(v, a.w)
			if x.lo > k.k || x.hi < k.k {
				return c.False
			}
			if x != a {
				return c.Eq(x, k)
			}
			a, b = x, k
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil, 0)
}

func (c *Ctx) Ne(a, b *Expr) *Expr { return c.Not(c.Eq(a, b)) }

const linBig = int64(1) << 48

// exact tries to bound b-a over the integers, when both are exact (non wrapping) sums.
func (c *Ctx) diffBounds(a, b *Expr) (lo, hi int64, ok bool) {
	if a.w != 64 || a.hi >= uint64(linBig) || b.hi >= uint64(linBig) {
		return 0, 0, false
	}
	if !c.exact(a, 0) || !c.exact(b, 0) {
		return 0, 0, false
	}
	d := linAdd(c.linOf(b, 0), c.linOf(a, 0), mask(a.w), a.w)
	lo = sx(d.c, a.w)
	hi = lo
	for _, t := range d.t {
		k := sx(t.k, a.w)
		if t.e.hi >= uint64(linBig) || k > 1024 || k < -1024 {
			return 0, 0, false
		}
		if k > 0 {
			lo += k * int64(t.e.lo)
			hi += k * int64(t.e.hi)
		} else {
			lo += k * int64(t.e.hi)
			hi += k * int64(t.e.lo)
		}
	}
	if lo < -(1<<60) || hi > 1<<60 {
		return 0, 0, false
	}
	return lo, hi, true
}

// exact reports whether the value of e equals its linear form evaluated over the integers
// (with negative coefficients read as signed), i.e. nothing wraps.
func (c *Ctx) exact(e *Expr, d int) bool {
	if d > 20 {
		return false
	}
	switch e.op {
	case OAdd:
		if !c.exact(e.a, d+1) {
			return false
		}
		if e.b.op == OConst {
			_, ov := addOv(e.a.hi, e.b.k, e.w)
			if !ov {
				return true
			}
			return e.a.lo >= (-e.b.k)&mask(e.w)
		}
		if !c.exact(e.b, d+1) {
			return false
		}
		_, ov := addOv(e.a.hi, e.b.hi, e.w)
		return !ov
	case OSub:
		return c.exact(e.a, d+1) && c.exact(e.b, d+1) && e.a.lo >= e.b.hi
	case OMul:
		if e.b.op != OConst || !c.exact(e.a, d+1) {
			return false
		}
		h, l := bits.Mul64(e.a.hi, e.b.k)
		return h == 0 && l <= mask(e.w)
	}
	return true
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	if b.op == OConst {
		if b.k == a.lo+1 {
			return c.Eq(a, c.Const(a.lo, a.w))
		}
		if b.k == a.hi {
			return c.Ne(a, b)
		}
		if a.op == OZExt {
			// b.k <= a.hi here
			return c.Ult(a.a, c.Const(b.k, a.a.w))
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.Ult(a.b, b), c.Ult(a.c, b))
		}
	}
	if a.op == OConst {
		if a.k+1 == b.hi {
			return c.Eq(b, c.Const(b.hi, b.w))
		}
		if a.k == b.lo {
			return c.Ne(b, a)
		}
		if b.op == OZExt && a.k <= mask(b.a.w) {
			return c.Ult(c.Const(a.k, b.a.w), b.a)
		}
		if b.op == OIte && b.b.op == OConst && b.c.op == OConst {
			return c.Ite(b.a, c.Ult(a, b.b), c.Ult(a, b.c))
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if lo, hi, ok := c.diffBounds(a, b); ok {
		if lo > 0 {
			return c.True
		}
		if hi <= 0 {
			return c.False
		}
	}
	return c.mk(OUlt, 0, a, b, nil, 0)
}
func (c *Ctx) Ule(a, b *Expr) *Expr { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(sx(a.k, a.w) < sx(b.k, b.w))
	}
	sgn := mask(a.w)>>1 + 1
	an, bn := a.hi < sgn, b.hi < sgn   // surely non-negative
	ag, bg := a.lo >= sgn, b.lo >= sgn // surely negative
	switch {
	case an && bn, ag && bg:
		return c.Ult(a, b)
	case an && bg:
		return c.False
	case ag && bn:
		return c.True
	}
	if b.op == OConst && a.op == OIte && (a.b.op == OConst || a.c.op == OConst) && c.iteDepth(a) < 40 {
		return c.Ite(a.a, c.Slt(a.b, b), c.Slt(a.c, b))
	}
	if a.op == OConst && b.op == OIte && (b.b.op == OConst || b.c.op == OConst) && c.iteDepth(b) < 40 {
		return c.Ite(b.a, c.Slt(a, b.b), c.Slt(a, b.c))
	}
	return c.mk(OSlt, 0, a, b, nil, 0)
}
func (c *Ctx) Sle(a, b *Expr) *Expr { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Select(uf uint64, idx *Expr, w uint8) *Expr {
	return c.mk(OSelect, w, idx, nil, nil, uf)
}

// ---- evaluation under a model

type Model struct {
	v  []uint64 // by var index
	uf map[ufKey]uint64
	ud []uint64
}

type ufKey struct{ f, i uint64 }

func (c *Ctx) BeginEval() { c.evGen++ }

func (c *Ctx) Eval(e *Expr, m *Model) uint64 {
	if e.op == OConst {
		return e.k
	}
	if e.evGen == c.evGen {
		return e.ev
	}
	var r uint64
	switch e.op {
	case OVar:
		if int(e.k) < len(m.v) {
			r = m.v[e.k]
		} else {
			r = c.vars[e.k].lo
		}
	case ONot:
		r = 1 - c.Eval(e.a, m)
	case OAnd:
		if c.Eval(e.a, m) == 0 {
			r = 0
		} else {
			r = c.Eval(e.b, m)
		}
	case OOr:
		if c.Eval(e.a, m) == 1 {
			r = 1
		} else {
			r = c.Eval(e.b, m)
		}
	case OIte:
		if c.Eval(e.a, m) == 1 {
			r = c.Eval(e.b, m)
		} else {
			r = c.Eval(e.c, m)
		}
	case OSelect:
		i := c.Eval(e.a, m)
		if v, ok := m.uf[ufKey{e.k, i}]; ok {
			r = v
		} else if int(e.k) < len(m.ud) {
			r = m.ud[e.k]
		}
	default:
		x := c.Eval(e.a, m)
		var y uint64
		if e.b != nil {
			y = c.Eval(e.b, m)
		}
		r = evalOp(e.op, e.w, e.a.w, x, y, e)
	}
	e.ev, e.evGen = r, c.evGen
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(op Op, w, aw uint8, x, y uint64, e *Expr) uint64 {
	m := mask(w)
	switch op {
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OSlt:
		return b2u(sx(x, aw) < sx(y, aw))
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv, OURem, OSDiv, OSRem:
		return evalDiv(op, x, y, w)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OBNot:
		return ^x & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	case OZExt:
		return x
	case OSExt:
		return uint64(sx(x, aw)) & m
	case OExtract:
		return x >> e.k & m
	case OConcat:
		return x<<e.b.w | y
	}
	panic(fmt.Sprintf("eval op %d", op))
}

// iteDepth is the length of a chain of if-then-else terms with constant leaves.
func (c *Ctx) iteDepth(e *Expr) int {
	n := 0
	for e.op == OIte {
		n++
		if e.b.op == OConst {
			e = e.c
		} else {
			e = e.b
		}
	}
	return n
}

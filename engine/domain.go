package main

import "math/bits"

// Exact domains for small variables. A path condition over a single variable with at most 256
// values is kept as a set of values; a branch over such a variable is then decided without asking
// the solver: it is infeasible when the sets do not meet, and feasible with the current model
// changed in that variable when no other kind of condition mentions it. Assertions always go to
// the solver.

type bset [4]uint64

const (
	supConst = iota + 1
	supOne
	supMany
)

func (c *Ctx) support(e *Expr) (uint8, *Expr) {
	if e.sup != 0 {
		return e.sup, e.sv
	}
	k, v := uint8(supConst), (*Expr)(nil)
	switch e.op {
	case OConst:
	case OVar:
		k, v = supMany, nil
		if e.hi < 256 {
			k, v = supOne, e
		}
	case OSelect:
		k = supMany
	default:
		for _, x := range [3]*Expr{e.a, e.b, e.c} {
			if x == nil {
				continue
			}
			xk, xv := c.support(x)
			switch {
			case xk == supConst || k == supMany:
			case xk == supMany:
				k, v = supMany, nil
			case k == supConst:
				k, v = supOne, xv
			case xv != v:
				k, v = supMany, nil
			}
		}
	}
	e.sup, e.sv = k, v
	return k, v
}

// values is the set of values of v under which e holds.
func (c *Ctx) values(e, v *Expr) *bset {
	if e.bits != nil {
		return e.bits
	}
	b := new(bset)
	if int(v.k) >= len(c.dm.v) {
		n := make([]uint64, v.k+64)
		copy(n, c.dm.v)
		c.dm.v = n
	}
	for x := v.lo; x <= v.hi; x++ {
		c.dm.v[v.k] = x
		c.BeginEval()
		if c.Eval(e, &c.dm) == 1 {
			b[x>>6] |= 1 << (x & 63)
		}
	}
	e.bits = b
	return b
}

func fullSet(v *Expr) *bset {
	b := new(bset)
	for x := v.lo; x <= v.hi; x++ {
		b[x>>6] |= 1 << (x & 63)
	}
	return b
}

// domains of one path
type domains struct {
	set  map[*Expr]*bset
	many map[*Expr]bool // occurs in a condition over several variables
}

func (in *Interp) domAdd(e *Expr) {
	d := &in.path.dom
	if d.set == nil {
		d.set, d.many = map[*Expr]*bset{}, map[*Expr]bool{}
	}
	k, v := in.c.support(e)
	switch k {
	case supOne:
		b := in.c.values(e, v)
		if o := d.set[v]; o == nil {
			n := *b
			d.set[v] = &n
		} else {
			for i := range o {
				o[i] &= b[i]
			}
		}
	case supMany:
		for _, v := range in.c.varsOf(e) {
			d.many[v] = true
		}
	}
}

// domCheck decides alt from the domains when it can.
func (in *Interp) domCheck(alt *Expr) (SatResult, *Model, bool) {
	k, v := in.c.support(alt)
	if k != supOne {
		return 0, nil, false
	}
	d := &in.path.dom
	b := *in.c.values(alt, v)
	if o := d.set[v]; o != nil {
		for i := range b {
			b[i] &= o[i]
		}
	}
	for i, w := range b {
		if w == 0 {
			continue
		}
		if d.many[v] || in.path.model == nil {
			return 0, nil, false
		}
		m := in.path.model
		n := &Model{v: make([]uint64, max(len(m.v), int(v.k)+1)), uf: m.uf, ud: m.ud}
		copy(n.v, m.v)
		for j := len(m.v); j < len(n.v); j++ {
			n.v[j] = in.c.vars[j].lo
		}
		n.v[v.k] = uint64(i*64 + bits.TrailingZeros64(w))
		return Sat, n, true
	}
	return Unsat, nil, true
}

// varsOf lists the small variables under e.
func (c *Ctx) varsOf(e *Expr) []*Expr {
	seen := map[*Expr]bool{}
	var out []*Expr
	st := []*Expr{e}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == nil || x.op == OConst || seen[x] {
			continue
		}
		seen[x] = true
		if x.op == OVar {
			if x.hi < 256 {
				out = append(out, x)
			}
			continue
		}
		st = append(st, x.a, x.b, x.c)
	}
	return out
}

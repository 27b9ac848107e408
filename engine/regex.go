package main

import (
	"regexp/syntax"
	"sync"
	"unicode"
)

// runeDec describes how the bytes at one position decode as UTF-8 (conditions are mutually
// exclusive; when none holds the byte is an invalid sequence of width 1, U+FFFD).
type runeDec struct {
	w1, w2, w3, w4 *Expr
	r2, r3, r4     *Expr
}

func (in *Interp) runeAt(b []*Expr, i int) runeDec {
	c := in.c
	d := runeDec{w1: c.False, w2: c.False, w3: c.False, w4: c.False}
	rng := func(e *Expr, lo, hi uint64) *Expr {
		return c.And(c.Ule(c.Const(lo, 8), e), c.Ule(e, c.Const(hi, 8)))
	}
	b0 := b[i]
	d.w1 = c.Ult(b0, c.Const(0x80, 8))
	cont := func(k int) *Expr { return rng(b[i+k], 0x80, 0xBF) }
	low6 := func(k int) *Expr { return c.ZExt(c.Extract(b[i+k], 0, 6), 32) }
	sh := func(e *Expr, n uint64) *Expr { return c.Shl(e, c.Const(n, 32)) }
	if i+1 < len(b) {
		d.w2 = c.And(rng(b0, 0xC2, 0xDF), cont(1))
		d.r2 = c.BOr(sh(c.ZExt(c.Extract(b0, 0, 5), 32), 6), low6(1))
	}
	if i+2 < len(b) {
		b1 := b[i+1]
		f := c.And(c.Eq(b0, c.Const(0xE0, 8)), rng(b1, 0xA0, 0xBF))
		f = c.Or(f, c.And(c.Or(rng(b0, 0xE1, 0xEC), rng(b0, 0xEE, 0xEF)), rng(b1, 0x80, 0xBF)))
		f = c.Or(f, c.And(c.Eq(b0, c.Const(0xED, 8)), rng(b1, 0x80, 0x9F)))
		d.w3 = c.And(f, cont(2))
		d.r3 = c.BOr(c.BOr(sh(c.ZExt(c.Extract(b0, 0, 4), 32), 12), sh(low6(1), 6)), low6(2))
	}
	if i+3 < len(b) {
		b1 := b[i+1]
		f := c.And(c.Eq(b0, c.Const(0xF0, 8)), rng(b1, 0x90, 0xBF))
		f = c.Or(f, c.And(rng(b0, 0xF1, 0xF3), rng(b1, 0x80, 0xBF)))
		f = c.Or(f, c.And(c.Eq(b0, c.Const(0xF4, 8)), rng(b1, 0x80, 0x8F)))
		d.w4 = c.And(f, c.And(cont(2), cont(3)))
		d.r4 = c.BOr(c.BOr(sh(c.ZExt(c.Extract(b0, 0, 3), 32), 18), sh(low6(1), 12)), c.BOr(sh(low6(2), 6), low6(3)))
	}
	return d
}

// utf8Valid is the formula "b is valid UTF-8".
func (in *Interp) utf8Valid(b []*Expr) *Expr {
	c := in.c
	n := len(b)
	// ok[i]: the suffix starting at i is valid, computed backwards
	ok := make([]*Expr, n+5)
	ok[n] = c.True
	for i := n - 1; i >= 0; i-- {
		d := in.runeAt(b, i)
		r := c.And(d.w1, ok[i+1])
		if !d.w2.IsFalse() {
			r = c.Or(r, c.And(d.w2, ok[i+2]))
		}
		if !d.w3.IsFalse() {
			r = c.Or(r, c.And(d.w3, ok[i+3]))
		}
		if !d.w4.IsFalse() {
			r = c.Or(r, c.And(d.w4, ok[i+4]))
		}
		ok[i] = r
	}
	return ok[0]
}

type reProg struct {
	src      string
	prog     *syntax.Prog
	anchored bool
}

var reCache sync.Map

func compileRe(src string) (*reProg, error) {
	if v, ok := reCache.Load(src); ok {
		return v.(*reProg), nil
	}
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	r := &reProg{src: src, prog: p, anchored: p.StartCond()&syntax.EmptyBeginText != 0}
	reCache.Store(src, r)
	return r, nil
}

// inst matching as a formula over a symbolic rune of the given concrete width class.
func (in *Interp) reRune(inst *syntax.Inst, r *Expr) *Expr {
	c := in.c
	switch inst.Op {
	case syntax.InstRuneAny:
		return c.True
	case syntax.InstRuneAnyNotNL:
		return c.Not(c.Eq(r, c.Const('\n', r.w)))
	}
	rs := inst.Rune
	le := func(v rune) *Expr { // r >= v
		if uint64(v) > mask(r.w) {
			return c.False
		}
		return c.Ule(c.Const(uint64(v), r.w), r)
	}
	ge := func(v rune) *Expr { // r <= v
		if uint64(v) >= mask(r.w) {
			return c.True
		}
		return c.Ule(r, c.Const(uint64(v), r.w))
	}
	if len(rs) == 1 {
		fold := syntax.Flags(inst.Arg)&syntax.FoldCase != 0
		eq := func(v rune) *Expr {
			if uint64(v) > mask(r.w) {
				return c.False
			}
			return c.Eq(r, c.Const(uint64(v), r.w))
		}
		f := eq(rs[0])
		if fold {
			for x := unicode.SimpleFold(rs[0]); x != rs[0]; x = unicode.SimpleFold(x) {
				f = c.Or(f, eq(x))
			}
		}
		return f
	}
	f := c.False
	for k := 0; k+1 < len(rs); k += 2 {
		f = c.Or(f, c.And(le(rs[k]), ge(rs[k+1])))
	}
	return f
}

// reMatch is the formula "the pattern matches b" (b dense, length fixed).
func (in *Interp) reMatch(rp *reProg, b []*Expr) *Expr {
	c := in.c
	p := rp.prog
	n := len(b)
	ni := len(p.Inst)
	act := make([][]*Expr, n+5)
	for i := range act {
		act[i] = make([]*Expr, ni)
	}
	matched := c.False
	// starts: a rune boundary at i (only needed for unanchored patterns)
	start := make([]*Expr, n+5)
	for i := range start {
		start[i] = c.False
	}
	start[0] = c.True
	isWord := func(e *Expr) *Expr {
		r := func(lo, hi uint64) *Expr { return c.And(c.Ule(c.Const(lo, 8), e), c.Ule(e, c.Const(hi, 8))) }
		return c.Or(c.Or(r('0', '9'), r('a', 'z')), c.Or(r('A', 'Z'), c.Eq(e, c.Const('_', 8))))
	}
	for i := 0; i <= n; i++ {
		// closure
		seen := make([]*Expr, ni)
		add := func(pc int, g *Expr) {
			if g.IsFalse() {
				return
			}
			vis := make([]bool, ni)
			var dfs func(pc int, cond *Expr, depth int)
			dfs = func(pc int, cond *Expr, depth int) {
				if cond.IsFalse() || vis[pc] {
					return
				}
				if cond.IsTrue() {
					vis[pc] = true
				} else if depth > ni {
					in.unsupported("regexp closure")
				}
				in2 := &p.Inst[pc]
				switch in2.Op {
				case syntax.InstAlt, syntax.InstAltMatch:
					dfs(int(in2.Out), cond, depth+1)
					dfs(int(in2.Arg), cond, depth+1)
				case syntax.InstCapture, syntax.InstNop:
					dfs(int(in2.Out), cond, depth+1)
				case syntax.InstEmptyWidth:
					e := syntax.EmptyOp(in2.Arg)
					if e&syntax.EmptyBeginText != 0 && i != 0 {
						return
					}
					if e&syntax.EmptyEndText != 0 && i != n {
						return
					}
					if e&syntax.EmptyBeginLine != 0 && i != 0 {
						cond = c.And(cond, c.Eq(b[i-1], c.Const('\n', 8)))
					}
					if e&syntax.EmptyEndLine != 0 && i != n {
						cond = c.And(cond, c.Eq(b[i], c.Const('\n', 8)))
					}
					if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
						a, z := c.False, c.False
						if i > 0 {
							a = isWord(b[i-1])
						}
						if i < n {
							z = isWord(b[i])
						}
						x := c.Or(c.And(a, c.Not(z)), c.And(z, c.Not(a)))
						if e&syntax.EmptyWordBoundary != 0 {
							cond = c.And(cond, x)
						}
						if e&syntax.EmptyNoWordBoundary != 0 {
							cond = c.And(cond, c.Not(x))
						}
					}
					dfs(int(in2.Out), cond, depth+1)
				case syntax.InstFail:
				default:
					x := c.And(g, cond)
					if seen[pc] == nil {
						seen[pc] = x
					} else {
						seen[pc] = c.Or(seen[pc], x)
					}
				}
			}
			dfs(pc, c.True, 0)
		}
		for pc := 0; pc < ni; pc++ {
			if act[i][pc] != nil {
				add(pc, act[i][pc])
			}
		}
		if i == 0 || !rp.anchored {
			add(p.Start, start[i])
		}
		var d runeDec
		inv := c.False
		if i < n {
			d = in.runeAt(b, i)
			inv = c.Not(c.Or(c.Or(d.w1, d.w2), c.Or(d.w3, d.w4)))
			start[i+1] = c.Or(start[i+1], c.And(start[i], c.Or(d.w1, inv)))
			start[i+2] = c.Or(start[i+2], c.And(start[i], d.w2))
			start[i+3] = c.Or(start[i+3], c.And(start[i], d.w3))
			start[i+4] = c.Or(start[i+4], c.And(start[i], d.w4))
		}
		for pc := 0; pc < ni; pc++ {
			g := seen[pc]
			if g == nil {
				continue
			}
			inst := &p.Inst[pc]
			switch inst.Op {
			case syntax.InstMatch:
				matched = c.Or(matched, g)
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if i >= n {
					continue
				}
				step := func(k int, cond *Expr) {
					x := c.And(g, cond)
					if x.IsFalse() {
						return
					}
					o := int(inst.Out)
					if act[i+k][o] == nil {
						act[i+k][o] = x
					} else {
						act[i+k][o] = c.Or(act[i+k][o], x)
					}
				}
				step(1, c.And(d.w1, in.reRune(inst, b[i])))
				step(1, c.And(inv, in.reRune(inst, c.Const(0xFFFD, 32))))
				if !d.w2.IsFalse() {
					step(2, c.And(d.w2, in.reRune(inst, d.r2)))
				}
				if !d.w3.IsFalse() {
					step(3, c.And(d.w3, in.reRune(inst, d.r3)))
				}
				if !d.w4.IsFalse() {
					step(4, c.And(d.w4, in.reRune(inst, d.r4)))
				}
			}
		}
	}
	return matched
}

// uniform reports whether the n bytes at off all equal one constant byte.
func (in *Interp) uniform(s *Snap, off, n *Expr) (byte, bool) {
	c := in.c
	for i := len(s.log) - 1; i >= 0; i-- {
		w := s.log[i]
		if w.n == nil {
			out := c.Or(c.Ult(w.idx, off), c.Ule(c.Add(off, n), w.idx))
			if in.proved(out) {
				continue
			}
			return 0, false
		}
		inside := c.And(c.Ule(w.idx, off), c.Ule(c.Add(off, n), c.Add(w.idx, w.n)))
		if in.proved(inside) {
			return in.uniform(w.src, c.Add(c.Sub(off, w.idx), w.srcOff), n)
		}
		out := c.Or(c.Ule(c.Add(w.idx, w.n), off), c.Ule(c.Add(off, n), w.idx))
		if in.proved(out) {
			continue
		}
		return 0, false
	}
	switch s.kind {
	case 1:
		return 0, true
	case 3:
		if s.fill.op == OConst {
			return byte(s.fill.k), true
		}
	}
	return 0, false
}

// byteAt is snapAt with the writes that the path condition decides resolved.
func (in *Interp) byteAt(s *Snap, idx *Expr) *Expr {
	c := in.c
	for i := len(s.log) - 1; i >= 0; i-- {
		w := s.log[i]
		if w.n == nil {
			eq := c.Eq(idx, w.idx)
			if in.proved(eq) {
				return w.val
			}
			if in.proved(c.Not(eq)) {
				continue
			}
			break
		}
		inside := c.And(c.Ule(w.idx, idx), c.Ult(idx, c.Add(w.idx, w.n)))
		if in.proved(inside) {
			return in.byteAt(w.src, c.Add(c.Sub(idx, w.idx), w.srcOff))
		}
		if in.proved(c.Not(inside)) {
			continue
		}
		break
	}
	return in.snapAt(s, idx)
}

// proved asks the solver whether cond always holds on the current path.
func (in *Interp) proved(cond *Expr) bool {
	if in.implied(cond) {
		return true
	}
	if cond.IsFalse() || in.merging != nil {
		return false
	}
	r, _ := in.check(in.c.Not(cond))
	return r == Unsat
}

// reMatchFill: does the pattern match pre, n copies of the ASCII byte b and suf, as a
// formula over n (the state set sequence is eventually periodic).
func (in *Interp) reMatchFill(rp *reProg, pre []*Expr, b byte, n *Expr, suf []*Expr) *Expr {
	c := in.c
	match := func(k int) *Expr {
		x := append([]*Expr{}, pre...)
		for i := 0; i < k; i++ {
			x = append(x, c.byteC[b])
		}
		x = append(x, suf...)
		return in.reMatch(rp, x)
	}
	// an NFA with k states has a match sequence that is eventually periodic; patterns here have a
	// handful of states over one letter: the sequence is observed over 3*(states+2) lengths and must
	// be constant over the last two thirds.
	m := 3 * (len(rp.prog.Inst) + 2)
	var seq []*Expr
	for k := 0; k <= m; k++ {
		seq = append(seq, match(k))
	}
	last := seq[m]
	from := m
	same := func(x, y *Expr) bool {
		return x == y || (x.op != OConst && y.op != OConst && in.proved(c.Eq(x, y)))
	}
	for from > 0 && same(seq[from-1], last) {
		from--
	}
	if from > len(rp.prog.Inst)+2 {
		in.unsupported("regexp over fill: no stable suffix")
	}
	r := last
	for k := 0; k < from; k++ {
		r = c.Ite(c.Eq(n, c.Int(int64(k))), seq[k], r)
	}
	return r
}

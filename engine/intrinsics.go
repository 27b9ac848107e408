package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, caller *frame, fn *ssa.Function, args []Value) Value

const symPkg = "vlverif/harness/sym"

var intrinsics map[string]intrinsic

// pureIntrinsics may be executed while merging.
var pureIntrinsics = map[string]bool{
	"unicode/utf8.Valid": true, "unicode/utf8.ValidString": true, "(*regexp.Regexp).Match": true, "(*regexp.Regexp).MatchString": true,
	"bytes.IndexByte": true, "strings.IndexByte": true, "internal/bytealg.IndexByte": true, "internal/bytealg.IndexByteString": true,
	"bytes.Equal": true, "internal/bytealg.Equal": true, "bytes.Compare": true, "strings.Compare": true,
	"bytes.HasPrefix": true, "strings.HasPrefix": true, "bytes.HasSuffix": true, "strings.HasSuffix": true,
	"strings.Contains": true, "bytes.Contains": true, "strings.Index": true, "bytes.Index": true,
	"strings.ContainsAny": true, "bytes.ContainsAny": true, "strings.IndexAny": true, "bytes.IndexAny": true,
	"strings.ContainsRune": true, "bytes.ContainsRune": true, "strings.Count": true, "bytes.Count": true,
	"unicode.IsControl": true, "strings.LastIndexByte": true, "bytes.LastIndexByte": true,
	symPkg + ".And": true, symPkg + ".Or": true, symPkg + ".Not": true, symPkg + ".Implies": true, symPkg + ".EqBytes": true,
	symPkg + ".EqStr": true, symPkg + ".IteInt": true, symPkg + ".IteU8": true, symPkg + ".Tier": true,
}

func lookupIntrinsic(fn *ssa.Function, name string) (intrinsic, bool) {
	if f, ok := intrinsics[name]; ok {
		return f, true
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "fmt", "log":
			if fn.Signature.Recv() == nil && fn.Parent() == nil {
				return fmtCall, true
			}
		}
	}
	return nil, false
}

func (in *Interp) addInput(i Input) { in.path.inputs = append(in.path.inputs, i) }

func (in *Interp) symInt(name string, w uint8, lo, hi uint64) *Expr {
	nm := in.uniqName(name)
	v := in.c.Var(nm, w, lo, hi)
	in.addInput(Input{name: nm, kind: "int", e: v})
	return v
}

func cstr(v Value) string { return v.(Str).s }

func (in *Interp) symBytes(name string, lo, hi *Expr) []*Expr {
	nm := in.uniqName(name)
	l, h := lo.k, hi.k
	n := l
	if h > l {
		n = in.concretize(in.c.Var(nm+".len", 64, l, h))
	}
	b := make([]*Expr, n)
	for i := range b {
		b[i] = in.c.Var(fmt.Sprintf("%s[%d]", nm, i), 8, 0, 255)
	}
	in.addInput(Input{name: nm, kind: "bytes", by: b, e: in.c.Const(n, 64)})
	return b
}

func (in *Interp) ifaceErr(v Value) bool { i, ok := v.(Iface); return ok && i.t != nil }

func (in *Interp) bytesArg(v Value) ([]*Expr, bool) {
	switch x := v.(type) {
	case Str:
		return in.strBytes(x)
	case Slice:
		return in.sliceBytes(x)
	}
	return nil, false
}

// longBytes are large contents of a known length with few bytes that are not known.
func (in *Interp) longBytes(v Value) ([]*Expr, bool) {
	n := in.lenOf(v)
	if n == nil || n.op != OConst || n.k > 1<<17 {
		return nil, false
	}
	r := make([]*Expr, n.k)
	free := 0
	for i := range r {
		x := in.c.Int(int64(i))
		switch s := v.(type) {
		case Str:
			r[i] = in.strAt(s, x)
		case Slice:
			r[i] = in.snapAt(s.arr.sp, in.c.Add(s.off, x))
		}
		if r[i].op != OConst {
			if free++; free > 64 {
				return nil, false
			}
		}
	}
	return r, true
}

func (in *Interp) mustBytes(v Value) []*Expr {
	b, ok := in.bytesArg(v)
	if !ok {
		in.unsupported("sparse bytes in a library model")
	}
	return b
}

func (in *Interp) lenOf(v Value) *Expr {
	switch x := v.(type) {
	case Str:
		return in.strLen(x)
	case Slice:
		return x.len
	}
	return nil
}

// edgesOf: sparse content that is uniform except for a few bytes at its ends: pre, n times b, suf.
func (in *Interp) edgesOf(v Value) (pre []*Expr, b byte, n *Expr, suf []*Expr, ok bool) {
	var s *Snap
	var off, l *Expr
	switch x := v.(type) {
	case Str:
		if x.k != 2 {
			return
		}
		s, off, l = x.sp.snap, x.sp.off, x.sp.len
	case Slice:
		if x.arr == nil || x.arr.sp == nil {
			return
		}
		s, off, l = x.arr.sp, x.off, x.len
	default:
		return
	}
	c := in.c
	for sum := 0; sum <= 12; sum++ {
		if !in.proved(c.Ule(c.Int(int64(sum)), l)) {
			return
		}
		for i := 0; i <= sum; i++ {
			j := sum - i
			n := c.Sub(l, c.Int(int64(sum)))
			b, good := in.uniform(s, c.Add(off, c.Int(int64(i))), n)
			if !good || b >= 0x80 {
				continue
			}
			for k := 0; k < i; k++ {
				pre = append(pre, in.byteAt(s, c.Add(off, c.Int(int64(k)))))
			}
			for k := 0; k < j; k++ {
				suf = append(suf, in.byteAt(s, c.Add(off, c.Add(n, c.Int(int64(i+k))))))
			}
			return pre, b, n, suf, true
		}
	}
	return
}

// indexFunc is the position of the first rune that f holds for.
func (in *Interp) indexFunc(fr *frame, v, f Value) *Expr {
	c := in.c
	runes := func(b []*Expr, at *Expr) *Expr {
		if r, ok := in.indexPure(fr, b, at, f); ok {
			if in.branch(c.Eq(r, c.Int(-1))) {
				return nil
			}
			return r
		}
		for it := (&strIter{s: Str{k: 1, sym: b}}); ; {
			t := in.strNext(it)
			if t[0].(*Expr).IsFalse() {
				return nil
			}
			if in.branch(in.callValue(fr, f, []Value{t[2]}).(*Expr)) {
				return c.Add(at, t[1].(*Expr))
			}
		}
	}
	none := c.Int(-1)
	if b, ok := in.bytesArg(v); ok {
		if r, ok := in.indexPure(fr, b, c.Int(0), f); ok {
			return r
		}
		if r := runes(b, c.Int(0)); r != nil {
			return r
		}
		return none
	}
	pre, b, n, suf, ok := in.edgesOf(v)
	if !ok {
		in.unsupported("sparse bytes in a library model")
	}
	if in.branch(c.Eq(n, c.Int(0))) {
		if r := runes(append(append([]*Expr{}, pre...), suf...), c.Int(0)); r != nil {
			return r
		}
		return none
	}
	if r := runes(pre, c.Int(0)); r != nil {
		return r
	}
	k := c.Int(int64(len(pre)))
	if in.branch(in.callValue(fr, f, []Value{c.Const(uint64(b), 32)}).(*Expr)) {
		return k
	}
	if r := runes(suf, c.Add(k, n)); r != nil {
		return r
	}
	return none
}

// indexPure is the position of the first rune that a function without effects holds for, as one term.
func (in *Interp) indexPure(fr *frame, b []*Expr, at *Expr, f Value) (*Expr, bool) {
	var fn *ssa.Function
	var env []Value
	switch x := f.(type) {
	case *ssa.Function:
		fn = x
	case *Closure:
		if x != nil {
			fn, env = x.fn, x.env
		}
	}
	if fn == nil || in.merging != nil || in.path == nil || in.cur != nil {
		return nil, false
	}
	c := in.c
	start := make([]*Expr, len(b)+5)
	for i := range start {
		start[i] = c.False
	}
	start[0] = c.True
	hit := make([]*Expr, len(b))
	for i := range b {
		d := in.runeAt(b, i)
		r, one := c.Const(0xFFFD, 32), c.True
		for k, w := range []*Expr{d.w2, d.w3, d.w4} {
			if w.IsFalse() {
				continue
			}
			r = c.Ite(w, []*Expr{d.r2, d.r3, d.r4}[k], r)
			one = c.And(one, c.Not(w))
			start[i+k+2] = c.Or(start[i+k+2], c.And(start[i], w))
		}
		r = c.Ite(d.w1, c.ZExt(b[i], 32), r)
		start[i+1] = c.Or(start[i+1], c.And(start[i], one))
		var v Value
		if x, ok := lookupIntrinsic(fn, fn.RelString(nil)); ok {
			if !pureIntrinsics[fn.RelString(nil)] {
				return nil, false
			}
			v = x(in, fr, fn, []Value{r})
		} else {
			cf := in.compile(fn)
			if !in.eng.mergeable(in, cf) {
				return nil, false
			}
			var ok bool
			if v, ok = in.mergeCall(fr, cf, []Value{r}, env); !ok {
				return nil, false
			}
		}
		hit[i] = c.And(start[i], v.(*Expr))
	}
	res := c.Int(-1)
	for i := len(b) - 1; i >= 0; i-- {
		res = c.Ite(hit[i], c.Add(at, c.Int(int64(i))), res)
	}
	return res, true
}

// run is n equal bytes.
type run struct{ e, n *Expr }

// mustRuns is the content of v as runs.
func (in *Interp) mustRuns(v Value) []run {
	one := in.c.Int(1)
	var out []run
	if b, ok := in.bytesArg(v); ok {
		for _, e := range b {
			out = append(out, run{e, one})
		}
		return out
	}
	pre, b, n, suf, ok := in.edgesOf(v)
	if !ok {
		l, ok := in.longBytes(v)
		if !ok {
			in.unsupported("sparse bytes in a library model")
		}
		for _, e := range l {
			out = append(out, run{e, one})
		}
		return out
	}
	for _, e := range pre {
		out = append(out, run{e, one})
	}
	out = append(out, run{in.c.byteC[b], n})
	for _, e := range suf {
		out = append(out, run{e, one})
	}
	return out
}

func (in *Interp) firstOf(rs []run, m func(*Expr) *Expr) *Expr {
	c := in.c
	pos := make([]*Expr, len(rs))
	p := c.Int(0)
	for i, r := range rs {
		pos[i] = p
		p = c.Add(p, r.n)
	}
	x := c.Int(-1)
	for i := len(rs) - 1; i >= 0; i-- {
		x = c.Ite(c.And(m(rs[i].e), c.Not(c.Eq(rs[i].n, c.Int(0)))), pos[i], x)
	}
	return x
}

func (in *Interp) lastOf(rs []run, m func(*Expr) *Expr) *Expr {
	c := in.c
	p, x := c.Int(0), c.Int(-1)
	for _, r := range rs {
		p = c.Add(p, r.n)
		x = c.Ite(c.And(m(r.e), c.Not(c.Eq(r.n, c.Int(0)))), c.Sub(p, c.Int(1)), x)
	}
	return x
}

func (in *Interp) countOf(rs []run, m func(*Expr) *Expr) *Expr {
	c := in.c
	x := c.Int(0)
	for _, r := range rs {
		x = c.Add(x, c.Ite(m(r.e), r.n, c.Int(0)))
	}
	return x
}

func (in *Interp) eqAny(a, b Value) *Expr {
	x, ok1 := in.bytesArg(a)
	y, ok2 := in.bytesArg(b)
	if ok1 && ok2 {
		return in.eqBytesExpr(x, y)
	}
	toStr := func(v Value) Str {
		if s, ok := v.(Slice); ok {
			return in.bytesToStr(s)
		}
		return v.(Str)
	}
	return in.strEq(toStr(a), toStr(b))
}

func (in *Interp) index(b, sub []*Expr) *Expr {
	c := in.c
	r := c.Int(-1)
	for i := len(b) - len(sub); i >= 0; i-- {
		r = c.Ite(in.eqBytesExpr(b[i:i+len(sub)], sub), c.Int(int64(i)), r)
	}
	return r
}

func (in *Interp) matchRe(re Value, s Value) *Expr {
	p, ok := re.(*Value)
	if !ok || p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	o, ok := (*p).(*Opaque)
	if !ok || o.kind != "regexp" {
		in.unsupported("regexp value")
	}
	rp := o.data.(*reProg)
	if b, ok := in.bytesArg(s); ok {
		return in.reMatch(rp, b)
	}
	if pre, b, n, suf, ok := in.edgesOf(s); ok {
		return in.reMatchFill(rp, pre, b, n, suf)
	}
	if b, ok := in.longBytes(s); ok {
		return in.reMatch(rp, b)
	}
	in.unsupported("regexp over sparse content")
	return nil
}

func fmtCall(in *Interp, caller *frame, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	switch fn.Name() {
	case "Sprintf", "Sprint", "Sprintln":
		return in.sprint(fn.Name(), args)
	case "Errorf":
		msg := in.sprint("Sprintf", args).(Str)
		// find %w operand
		var wrapped Value
		if f, ok := args[0].(Str); ok && strings.Contains(f.s, "%w") {
			if sl, ok := args[1].(Slice); ok && sl.arr != nil {
				for _, v := range sl.arr.el {
					if i, ok := v.(Iface); ok && i.t != nil && types.Implements(i.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
						wrapped = i
					}
				}
			}
		}
		nm := "errorString"
		pkg := in.prog.ImportedPackage("errors")
		if wrapped != nil {
			if p := in.prog.ImportedPackage("fmt"); p != nil {
				if t := p.Type("wrapError"); t != nil {
					cell := new(Value)
					*cell = Struct{msg, wrapped}
					return Iface{types.NewPointer(t.Type()), cell}
				}
			}
		}
		t := pkg.Type(nm)
		cell := new(Value)
		*cell = Struct{msg}
		return Iface{types.NewPointer(t.Type()), cell}
	}
	if fn.Name() == "init" {
		return nil
	}
	// printing: no observable effect in the model
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(res.At(0).Type())
	}
	return in.zero(res)
}

func (in *Interp) sprint(kind string, args []Value) Value {
	var list []interface{}
	k := 0
	if kind == "Sprintf" {
		k = 1
	}
	ok := true
	if sl, o := args[k].(Slice); o && sl.arr != nil {
		n := in.concretize(sl.len)
		for i := uint64(0); i < n; i++ {
			v := sl.arr.el[i]
			f, o := v.(Iface)
			if !o || f.t == nil {
				list = append(list, nil)
				continue
			}
			switch x := f.v.(type) {
			case *Expr:
				if _, named := f.t.(*types.Basic); !named || x.op != OConst {
					ok = false
				} else if x.w == 0 {
					list = append(list, x.k == 1)
				} else {
					list = append(list, sx(x.k, x.w))
				}
			case Str:
				if x.k != 0 {
					ok = false
				}
				list = append(list, x.s)
			default:
				ok = false
			}
		}
	}
	if !ok {
		in.eng.note("formatted text modelled as a fixed placeholder")
		return Str{s: "<formatted>"}
	}
	switch kind {
	case "Sprintf":
		return Str{s: fmt.Sprintf(cstr(args[0]), list...)}
	case "Sprint":
		return Str{s: fmt.Sprint(list...)}
	}
	return Str{s: fmt.Sprintln(list...)}
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	sym := func(name string, f intrinsic) { intrinsics[symPkg+"."+name] = f }
	type fnT = *ssa.Function

	// ---- symbolic inputs
	sym("U8", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.symInt(cstr(a[0]), 8, 0, 255) })
	sym("U16", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.symInt(cstr(a[0]), 16, 0, 65535) })
	sym("U32", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.symInt(cstr(a[0]), 32, 0, 1<<32-1) })
	sym("U64", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.symInt(cstr(a[0]), 64, 0, ^uint64(0)) })
	sym("Int", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		lo, hi := a[1].(*Expr), a[2].(*Expr)
		if lo.op != OConst || hi.op != OConst || int64(lo.k) < 0 || int64(hi.k) < int64(lo.k) {
			in.unsupported("sym.Int bounds")
		}
		return in.symInt(cstr(a[0]), 64, lo.k, hi.k)
	})
	sym("Bool", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		nm := in.uniqName(cstr(a[0]))
		v := in.c.Var(nm, 8, 0, 1)
		in.addInput(Input{name: nm, kind: "int", e: v})
		return in.c.Eq(v, in.c.Const(1, 8))
	})
	sym("Bytes", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		return in.mkBytes(in.symBytes(cstr(a[0]), a[1].(*Expr), a[2].(*Expr)))
	})
	sym("Str", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		return in.mkStr(in.symBytes(cstr(a[0]), a[1].(*Expr), a[2].(*Expr)))
	})
	big := func(fill bool) intrinsic {
		return func(in *Interp, _ *frame, _ fnT, a []Value) Value {
			nm := in.uniqName(cstr(a[0]))
			k := 1
			s := &Snap{kind: 2}
			inp := Input{name: nm, kind: "big"}
			if fill {
				k = 2
				s.kind = 3
				s.fill = a[1].(*Expr)
				inp.fill = s.fill
			} else {
				s.uf = in.c.UF(nm)
				inp.uf = s.uf
			}
			n := in.c.Var(nm+".len", 64, a[k].(*Expr).k, a[k+1].(*Expr).k)
			inp.e = n
			in.addInput(inp)
			return Slice{&Arr{sp: s, n: n}, in.c.Int(0), n, n}
		}
	}
	sym("Big", big(false))
	sym("Fill", big(true))
	sym("Choose", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		return in.c.Const(in.choose(cstr(a[0]), int(a[1].(*Expr).k)), 64)
	})
	sym("Concrete", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		e := a[0].(*Expr)
		return in.c.Const(in.concretize(e), e.w)
	})
	sym("Tier", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		if in.eng.tier == "quick" {
			return a[0]
		}
		return a[1]
	})
	sym("Bound", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		v := a[2]
		if in.eng.tier == "quick" {
			v = a[1]
		}
		in.eng.mu.Lock()
		in.eng.bounds[cstr(a[0])] = fmt.Sprint(int64(v.(*Expr).k))
		in.eng.mu.Unlock()
		return v
	})
	sym("Assume", func(in *Interp, _ *frame, _ fnT, a []Value) Value { in.assume(a[0].(*Expr)); return nil })
	sym("Assert", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		in.assert(a[0].(*Expr), cstr(a[1]))
		return nil
	})
	sym("And", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		r := in.c.True
		for _, e := range in.boolArgs(a[0]) {
			r = in.c.And(r, e)
		}
		return r
	})
	sym("Or", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		r := in.c.False
		for _, e := range in.boolArgs(a[0]) {
			r = in.c.Or(r, e)
		}
		return r
	})
	sym("Not", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.c.Not(a[0].(*Expr)) })
	sym("Implies", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		return in.c.Or(in.c.Not(a[0].(*Expr)), a[1].(*Expr))
	})
	sym("IteInt", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		return in.c.Ite(a[0].(*Expr), a[1].(*Expr), a[2].(*Expr))
	})
	intrinsics[symPkg+".IteU8"] = intrinsics[symPkg+".IteInt"]
	sym("EqBytes", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.eqAny(a[0], a[1]) })
	sym("EqStr", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.eqAny(a[0], a[1]) })
	sym("SameContent", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		c := in.c
		label := cstr(a[2])
		x, ok1 := in.bytesArg(a[0])
		y, ok2 := in.bytesArg(a[1])
		if ok1 && ok2 {
			in.assert(in.eqBytesExpr(x, y), label)
			return nil
		}
		la, lb := in.lenOf(a[0]), in.lenOf(a[1])
		in.assert(c.Eq(la, lb), label+" (length)")
		// arbitrary index
		in.uniq++
		i := c.Var(in.uniqName("skolem.idx"), 64, 0, la.hi)
		inb := c.Ult(i, la)
		if inb.IsFalse() {
			return nil
		}
		snap := func(v Value) (*Snap, *Expr) {
			switch z := v.(type) {
			case Str:
				return in.strSnap(z)
			case Slice:
				return in.sliceSnap(z)
			}
			return nil, nil
		}
		sa, oa := snap(a[0])
		sb, ob := snap(a[1])
		in.assert(c.Or(c.Not(inb), c.Eq(in.snapAt(sa, c.Add(oa, i)), in.snapAt(sb, c.Add(ob, i)))), label)
		return nil
	})
	sym("Reach", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		in.path.reach = append(in.path.reach, cstr(a[0]))
		return nil
	})
	sym("Observe", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		var vals []Value
		if s, ok := a[1].(Slice); ok && s.arr != nil {
			n := in.concretize(s.len)
			for i := uint64(0); i < n; i++ {
				v := in.copyVal(s.arr.el[i])
				// freeze byte slices
				if f, ok := v.(Iface); ok {
					if sl, ok := f.v.(Slice); ok && isByteElems(sl) && f.t != nil {
						if st, ok := f.t.Underlying().(*types.Slice); ok && isByte(st.Elem()) {
							v = Iface{f.t, in.bytesToStr(sl)}
						}
					}
				}
				vals = append(vals, v)
			}
		}
		in.path.obs = append(in.path.obs, Obs{cstr(a[0]), vals})
		return nil
	})
	sym("Catch", func(in *Interp, fr *frame, _ fnT, a []Value) (ret Value) {
		d := in.depth
		panicked := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); !ok {
						panic(r)
					}
					in.depth = d
					panicked = true
				}
			}()
			in.callValue(fr, a[0], nil)
		}()
		return in.c.Bool(panicked)
	})
	sym("Alone", func(in *Interp, fr *frame, _ fnT, a []Value) Value { in.alone(fr, a[0]); return nil })
	sym("Par", func(in *Interp, fr *frame, _ fnT, a []Value) Value { in.par(fr, a[0].(Slice)); return nil })
	sym("Clock", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		in.path.clock = [2]*Expr{a[0].(*Expr), a[1].(*Expr)}
		return nil
	})
	sym("Fail", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		in.assert(in.c.False, cstr(a[0]))
		return nil
	})
	sym("Symbolic", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.c.True })

	// ---- unicode/utf8
	valid := func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		if b, ok := in.bytesArg(a[0]); ok {
			return in.utf8Valid(b)
		}
		if pre, _, n, suf, ok := in.edgesOf(a[0]); ok {
			c := in.c
			return c.Ite(c.Eq(n, c.Int(0)), in.utf8Valid(append(append([]*Expr{}, pre...), suf...)), c.And(in.utf8Valid(pre), in.utf8Valid(suf)))
		}
		if b, ok := in.longBytes(a[0]); ok {
			return in.utf8Valid(b)
		}
		in.unsupported("utf8.Valid over sparse content")
		return nil
	}
	reg("unicode/utf8.Valid", valid)
	reg("unicode/utf8.ValidString", valid)
	decR := func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		b, ok := in.bytesArg(a[0])
		if n := in.lenOf(a[0]); !ok && n != nil && n.op == OConst && n.k < 1<<17 {
			// a rune takes four bytes at most
			for i := 0; i < 4 && uint64(i) < n.k; i++ {
				switch x := a[0].(type) {
				case Str:
					b = append(b, in.strAt(x, in.c.Int(int64(i))))
				case Slice:
					b = append(b, in.snapAt(x.arr.sp, in.c.Add(x.off, in.c.Int(int64(i)))))
				}
			}
		} else if !ok {
			in.unsupported("decoding runes of sparse content")
		}
		t := in.strNext(&strIter{s: Str{k: 1, sym: b}})
		if t[0].(*Expr).IsFalse() {
			return Tuple{in.c.Const(0xFFFD, 32), in.c.Int(0)}
		}
		it := &strIter{s: Str{k: 1, sym: b}}
		t = in.strNext(it)
		return Tuple{t[2], in.c.Const(it.i, 64)}
	}
	reg("unicode/utf8.DecodeRune", decR)
	reg("unicode/utf8.DecodeRuneInString", decR)

	for _, w := range []uint8{0, 8, 16, 32, 64} {
		w, name := w, ""
		if w != 0 {
			name = strconv.Itoa(int(w))
		}
		length := func(in *Interp, x *Expr) *Expr {
			// x < 1: 0, x < 2: 1, x < 4: 2, ...
			c := in.c
			r := c.Int(int64(x.w))
			for i := int(x.w) - 1; i >= 0; i-- {
				r = c.Ite(c.Ult(x, c.Const(1<<uint(i), x.w)), c.Int(int64(i)), r)
			}
			return r
		}
		reg("math/bits.Len"+name, func(in *Interp, _ *frame, _ fnT, a []Value) Value { return length(in, a[0].(*Expr)) })
		reg("math/bits.LeadingZeros"+name, func(in *Interp, _ *frame, _ fnT, a []Value) Value {
			x := a[0].(*Expr)
			return in.c.Sub(in.c.Int(int64(x.w)), length(in, x))
		})
		pureIntrinsics["math/bits.Len"+name], pureIntrinsics["math/bits.LeadingZeros"+name] = true, true
	}
	reg("unicode.IsControl", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		c, r := in.c, a[0].(*Expr)
		return c.Or(c.Ult(r, c.Const(0x20, 32)), c.And(c.Ule(c.Const(0x7F, 32), r), c.Ult(r, c.Const(0xA0, 32))))
	})

	// ---- regexp
	reg("regexp.MustCompile", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		s := a[0].(Str)
		if s.k != 0 {
			in.unsupported("symbolic pattern")
		}
		rp, err := compileRe(s.s)
		if err != nil {
			in.rtPanic("regexp: Compile: " + err.Error())
		}
		p := new(Value)
		*p = &Opaque{kind: "regexp", data: rp}
		return p
	})
	reg("regexp.Compile", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		return Tuple{intrinsics["regexp.MustCompile"](in, nil, nil, a), Iface{}}
	})
	match := func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.matchRe(a[0], a[1]) }
	reg("(*regexp.Regexp).Match", match)
	reg("(*regexp.Regexp).MatchString", match)
	reg("(*regexp.Regexp).String", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		return Str{s: (*a[0].(*Value)).(*Opaque).data.(*reProg).src}
	})

	// ---- bytes / strings
	is := func(in *Interp, e *Expr) func(*Expr) *Expr { return func(x *Expr) *Expr { return in.c.Eq(x, e) } }
	ixb := func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		return in.firstOf(in.mustRuns(a[0]), is(in, a[1].(*Expr)))
	}
	for _, n := range []string{"bytes.IndexByte", "strings.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString"} {
		reg(n, ixb)
	}
	lix := func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		return in.lastOf(in.mustRuns(a[0]), is(in, a[1].(*Expr)))
	}
	for _, n := range []string{"bytes.LastIndexByte", "strings.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, lix)
	}
	idx := func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		if s, ok := in.bytesArg(a[1]); ok && len(s) == 1 {
			return in.firstOf(in.mustRuns(a[0]), is(in, s[0]))
		}
		return in.index(in.mustBytes(a[0]), in.mustBytes(a[1]))
	}
	for _, n := range []string{"bytes.Index", "strings.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		reg(n, idx)
	}
	contains := func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		s := in.mustBytes(a[1])
		if len(s) == 1 {
			return in.c.Not(in.c.Eq(in.firstOf(in.mustRuns(a[0]), is(in, s[0])), in.c.Int(-1)))
		}
		b := in.mustBytes(a[0])
		r := in.c.False
		for i := 0; i+len(s) <= len(b); i++ {
			r = in.c.Or(r, in.eqBytesExpr(b[i:i+len(s)], s))
		}
		return r
	}
	reg("bytes.Contains", contains)
	reg("strings.Contains", contains)
	anyIdx := func(in *Interp, a []Value) (*Expr, *Expr) {
		c := in.c
		s := in.mustBytes(a[1])
		for _, e := range s {
			if e.op != OConst || e.k >= 0x80 {
				in.unsupported("IndexAny charset")
			}
		}
		r := in.firstOf(in.mustRuns(a[0]), func(x *Expr) *Expr {
			m := c.False
			for _, e := range s {
				m = c.Or(m, c.Eq(x, e))
			}
			return m
		})
		return r, c.Not(c.Eq(r, c.Int(-1)))
	}
	for _, p := range []string{"bytes.", "strings."} {
		reg(p+"IndexAny", func(in *Interp, _ *frame, _ fnT, a []Value) Value { r, _ := anyIdx(in, a); return r })
		reg(p+"ContainsAny", func(in *Interp, _ *frame, _ fnT, a []Value) Value { _, f := anyIdx(in, a); return f })
		reg(p+"HasPrefix", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
			s := in.mustBytes(a[1])
			b, ok := in.bytesArg(a[0])
			if !ok {
				n := in.lenOf(a[0])
				if in.branch(in.c.Ult(n, in.c.Int(int64(len(s))))) {
					return in.c.False
				}
				b = make([]*Expr, len(s))
				for i := range b {
					switch x := a[0].(type) {
					case Str:
						b[i] = in.strAt(x, in.c.Int(int64(i)))
					case Slice:
						b[i] = in.byteAt(x.arr.sp, in.c.Add(x.off, in.c.Int(int64(i))))
					}
				}
			}
			if len(b) < len(s) {
				return in.c.False
			}
			return in.eqBytesExpr(b[:len(s)], s)
		})
		reg(p+"HasSuffix", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
			s := in.mustBytes(a[1])
			b, ok := in.bytesArg(a[0])
			if !ok {
				n := in.lenOf(a[0])
				k := in.c.Int(int64(len(s)))
				if in.branch(in.c.Ult(n, k)) {
					return in.c.False
				}
				b = make([]*Expr, len(s))
				for i := range b {
					at := in.c.Add(in.c.Sub(n, k), in.c.Int(int64(i)))
					switch x := a[0].(type) {
					case Str:
						b[i] = in.strAt(x, at)
					case Slice:
						b[i] = in.byteAt(x.arr.sp, in.c.Add(x.off, at))
					}
				}
			}
			if len(b) < len(s) {
				return in.c.False
			}
			return in.eqBytesExpr(b[len(b)-len(s):], s)
		})
		reg(p+"ContainsRune", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
			r := a[1].(*Expr)
			if r.op != OConst || r.k >= 0x80 {
				b := in.mustBytes(a[0])
				m := in.c.False
				for _, x := range b {
					if x.op != OConst || x.k >= 0x80 {
						in.unsupported("ContainsRune")
					}
					m = in.c.Or(m, in.c.Eq(r, in.c.Const(x.k, 32)))
				}
				return m
			}
			return in.c.Not(in.c.Eq(in.firstOf(in.mustRuns(a[0]), is(in, in.c.Const(r.k, 8))), in.c.Int(-1)))
		})
		reg(p+"IndexFunc", func(in *Interp, fr *frame, _ fnT, a []Value) Value { return in.indexFunc(fr, a[0], a[1]) })
		reg(p+"ContainsFunc", func(in *Interp, fr *frame, _ fnT, a []Value) Value {
			return in.c.Not(in.c.Eq(in.indexFunc(fr, a[0], a[1]), in.c.Int(-1)))
		})
		reg(p+"Count", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
			s := in.mustBytes(a[1])
			if len(s) != 1 {
				in.unsupported("Count of a longer pattern")
			}
			return in.countOf(in.mustRuns(a[0]), is(in, s[0]))
		})
		reg(p+"Compare", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
			x, y := in.mkStr(in.mustBytes(a[0])), in.mkStr(in.mustBytes(a[1]))
			c := in.c
			return c.Ite(in.strEq(x, y), c.Int(0), c.Ite(in.strLess(x, y), c.Int(-1), c.Int(1)))
		})
	}
	eq := func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.eqAny(a[0], a[1]) }
	reg("bytes.Equal", eq)
	reg("internal/bytealg.Equal", eq)
	reg("internal/bytealg.Compare", func(in *Interp, f *frame, fn fnT, a []Value) Value { return intrinsics["bytes.Compare"](in, f, fn, a) })
	reg("internal/bytealg.CompareString", func(in *Interp, f *frame, fn fnT, a []Value) Value { return intrinsics["bytes.Compare"](in, f, fn, a) })
	cnt := func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		return in.countOf(in.mustRuns(a[0]), is(in, a[1].(*Expr)))
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	reg("internal/bytealg.MakeNoZero", func(in *Interp, _ *frame, fn fnT, a []Value) Value {
		return in.makeSlice(types.Typ[types.Uint8], a[0].(*Expr), a[0].(*Expr))
	})
	reg("(*strings.Builder).copyCheck", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return nil })
	reg("(*strings.Builder).String", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		st := (*a[0].(*Value)).(Struct)
		return in.bytesToStr(st[1].(Slice))
	})
	reg("strings.Clone", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return a[0] })

	// ---- errors
	reg("errors.Is", func(in *Interp, fr *frame, fn fnT, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil || t.t == nil {
			return in.c.Bool(e.t == nil && t.t == nil)
		}
		is := fn.Pkg.Func("is")
		return in.call(fr, is, []Value{e, t, in.c.Bool(types.Comparable(t.t))})
	})

	// ---- sync
	nop := func(in *Interp, _ *frame, fn fnT, a []Value) Value { return nil }
	lock := func(in *Interp, _ *frame, _ fnT, a []Value) Value { in.lock(a[0].(*Value), true); return nil }
	unlock := func(in *Interp, _ *frame, _ fnT, a []Value) Value { in.unlock(a[0].(*Value), true); return nil }
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", func(in *Interp, _ *frame, _ fnT, a []Value) Value { in.lock(a[0].(*Value), false); return nil })
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, _ *frame, _ fnT, a []Value) Value { in.unlock(a[0].(*Value), false); return nil })
	reg("(*sync.Mutex).TryLock", func(in *Interp, _ *frame, _ fnT, a []Value) Value { return in.c.Bool(in.tryLock(a[0].(*Value))) })
	reg("(*sync.Once).Do", func(in *Interp, fr *frame, _ fnT, a []Value) Value {
		p := a[0].(*Value)
		if in.onces[p] {
			return nil
		}
		if in.onces == nil {
			in.onces = map[*Value]bool{}
		}
		in.onces[p] = true
		if in.journal {
			in.undo = append(in.undo, undoRec{f: func() { delete(in.onces, p) }})
		}
		if t := in.track; t != nil {
			// what it writes is published to every caller of Do
			t.once++
			defer func() { t.once-- }()
		}
		in.callValue(fr, a[1], nil)
		return nil
	})
	smap := func(name string, f func(in *Interp, fr *frame, m *Map, a []Value) Value) {
		reg("(*sync.Map)."+name, func(in *Interp, fr *frame, _ fnT, a []Value) Value {
			in.yield("sched")
			p := a[0].(*Value)
			m := in.smaps[p]
			if m == nil {
				m = &Map{idx: map[string]int{}}
				if in.smaps == nil {
					in.smaps = map[*Value]*Map{}
				}
				in.smaps[p] = m
				if in.journal {
					in.undo = append(in.undo, undoRec{f: func() { delete(in.smaps, p) }})
				}
			}
			return in.guardedBy(func() Value { return f(in, fr, m, a[1:]) })
		})
	}
	get := func(in *Interp, m *Map, k Value) (Value, *Expr) {
		if i := in.mapFind(m, k); i >= 0 {
			return m.e[i].v, in.c.True
		}
		return Iface{}, in.c.False
	}
	smap("Load", func(in *Interp, _ *frame, m *Map, a []Value) Value {
		v, ok := get(in, m, a[0])
		return Tuple{v, ok}
	})
	smap("Store", func(in *Interp, _ *frame, m *Map, a []Value) Value { in.mapSet(m, a[0], a[1]); return nil })
	smap("LoadOrStore", func(in *Interp, _ *frame, m *Map, a []Value) Value {
		v, ok := get(in, m, a[0])
		if ok.IsFalse() {
			v = a[1]
			in.mapSet(m, a[0], v)
		}
		return Tuple{v, ok}
	})
	smap("LoadAndDelete", func(in *Interp, _ *frame, m *Map, a []Value) Value {
		v, ok := get(in, m, a[0])
		in.mapDelete(m, a[0])
		return Tuple{v, ok}
	})
	smap("Delete", func(in *Interp, _ *frame, m *Map, a []Value) Value { in.mapDelete(m, a[0]); return nil })
	smap("Swap", func(in *Interp, _ *frame, m *Map, a []Value) Value {
		v, ok := get(in, m, a[0])
		in.mapSet(m, a[0], a[1])
		return Tuple{v, ok}
	})
	smap("Clear", func(in *Interp, _ *frame, m *Map, a []Value) Value {
		for i := range m.e {
			if !m.e[i].dead {
				in.mapDelete(m, m.e[i].k)
			}
		}
		return nil
	})
	reg("(*sync.Map).Range", func(in *Interp, fr *frame, _ fnT, a []Value) Value {
		in.yield("sched")
		m := in.smaps[a[0].(*Value)]
		if m == nil {
			return nil
		}
		it := in.newMapIter(m)
		for _, k := range it.order {
			if k < len(m.e) && !m.e[k].dead && !in.branch(in.callValue(fr, a[1], []Value{m.e[k].k, m.e[k].v}).(*Expr)) {
				break
			}
		}
		return nil
	})
	reg("(*sync.Pool).Put", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		p := a[0].(*Value)
		if in.pools == nil {
			in.pools = map[*Value][]Value{}
		}
		old := in.pools[p]
		in.pools[p] = append(old[:len(old):len(old)], a[1])
		if in.journal {
			in.undo = append(in.undo, undoRec{f: func() { in.pools[p] = old }})
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(in *Interp, fr *frame, _ fnT, a []Value) Value {
		p := a[0].(*Value)
		if l := in.pools[p]; len(l) > 0 {
			v := l[len(l)-1]
			in.pools[p] = l[:len(l)-1]
			if in.journal {
				in.undo = append(in.undo, undoRec{f: func() { in.pools[p] = l }})
			}
			return v
		}
		st := (*p).(Struct)
		nw := st[len(st)-1]
		if isNilFunc(nw) {
			return Iface{}
		}
		return in.callValue(fr, nw, nil)
	})
	reg("runtime.SetFinalizer", nop)
	reg("runtime.KeepAlive", nop)
	reg("runtime.GC", nop)
	reg("runtime.Gosched", func(in *Interp, _ *frame, fn fnT, a []Value) Value { in.yield("sched"); return nil })

	// ---- sync/atomic
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, pk := range []string{"sync/atomic."} {
			reg(pk+"Load"+ty, func(in *Interp, _ *frame, _ fnT, a []Value) Value { in.yield("sched"); return in.load(a[0]) })
			reg(pk+"Store"+ty, func(in *Interp, _ *frame, _ fnT, a []Value) Value {
				in.yield("sched")
				in.store(a[0], a[1])
				return nil
			})
			reg(pk+"Swap"+ty, func(in *Interp, _ *frame, _ fnT, a []Value) Value {
				in.yield("sched")
				o := in.load(a[0])
				in.store(a[0], a[1])
				return o
			})
			reg(pk+"CompareAndSwap"+ty, func(in *Interp, _ *frame, _ fnT, a []Value) Value {
				in.yield("sched")
				o := in.load(a[0])
				if in.branch(in.equalT(nil, o, a[1])) {
					in.store(a[0], a[2])
					return in.c.True
				}
				return in.c.False
			})
			reg(pk+"Add"+ty, func(in *Interp, _ *frame, _ fnT, a []Value) Value {
				in.yield("sched")
				n := in.c.Add(in.load(a[0]).(*Expr), a[1].(*Expr))
				in.store(a[0], n)
				return n
			})
			for op, f := range map[string]func(c *Ctx, x, y *Expr) *Expr{"And": (*Ctx).BAnd, "Or": (*Ctx).BOr} {
				f := f
				reg(pk+op+ty, func(in *Interp, _ *frame, _ fnT, a []Value) Value {
					in.yield("sched")
					o := in.load(a[0]).(*Expr)
					in.store(a[0], f(in.c, o, a[1].(*Expr)))
					return o
				})
			}
		}
	}
	av := func(p Value) *Value { // atomic.Value: one interface cell
		st := (*p.(*Value)).(Struct)
		return &st[len(st)-1]
	}
	reg("(*sync/atomic.Value).Load", func(in *Interp, _ *frame, _ fnT, a []Value) Value { in.yield("sched"); return in.load(av(a[0])) })
	reg("(*sync/atomic.Value).Store", func(in *Interp, _ *frame, _ fnT, a []Value) Value {
		in.yield("sched")
		in.store(av(a[0]), a[1])
		return nil
	})

	// ---- time
	reg("time.Now", func(in *Interp, _ *frame, fn fnT, a []Value) Value {
		if in.path == nil || in.path.clock[0] == nil {
			in.unsupported("time.Now without a harness clock")
		}
		in.path.usesClock = true
		return in.mkTime(in.c.Add(in.path.clock[0], in.c.Int(62135596800)), in.path.clock[1])
	})
	reg("(time.Time).Sub", timeSub)
	// read once by the initialiser of package time; only differences to it matter
	reg("time.runtimeNano", func(in *Interp, _ *frame, fn fnT, a []Value) Value {
		if in.path != nil {
			in.unsupported("time.runtimeNano")
		}
		return in.c.Const(1, 64)
	})
	reg("time.Sleep", nop)

	// ---- sort
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
}

func (in *Interp) boolArgs(v Value) []*Expr {
	s := v.(Slice)
	if s.arr == nil {
		return nil
	}
	var r []*Expr
	for _, e := range s.arr.el {
		r = append(r, e.(*Expr))
	}
	return r
}

func (in *Interp) mkTime(sec, nsec *Expr) Value {
	return Struct{nsec, sec, (*Value)(nil)}
}

// timeSub models (time.Time).Sub for wall-clock times (no monotonic reading) within 2^61
// seconds of the year 1: the difference is introduced as non-negative second/nanosecond parts.
func timeSub(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	c := in.c
	t, u := a[0].(Struct), a[1].(Struct)
	tw, uw := t[0].(*Expr), u[0].(*Expr)
	if tw.hi >= 1<<30 || uw.hi >= 1<<30 {
		if tw.op == OConst && uw.op == OConst {
			return in.run(fr, in.compile(fn), a, nil)
		}
		if small := c.Const(1<<30, 64); !in.proved(c.And(c.Ult(tw, small), c.Ult(uw, small))) {
			in.unsupported("time.Sub with a monotonic reading")
		}
	}
	ts, us := t[1].(*Expr), u[1].(*Expr)
	if ts.op == OConst && us.op == OConst && tw.op == OConst && uw.op == OConst {
		return in.run(fr, in.compile(fn), a, nil)
	}
	const g = 1000000000
	bnd, all := c.Const(1<<33, 64), c.Const(1<<61, 64)
	near := in.proved(c.And(c.Ule(c.Sub(ts, us), bnd), c.Ule(ts, c.Const(1<<60, 64)))) ||
		in.proved(c.And(c.Slt(c.Sub(ts, us), bnd), c.Slt(c.Neg(bnd), c.Sub(ts, us))))
	if !near && !in.proved(c.And(c.And(c.Slt(ts, all), c.Slt(us, all)), c.And(c.Slt(c.Neg(all), ts), c.Slt(c.Neg(all), us)))) {
		in.unsupported("time.Sub outside the modelled distance")
	}
	lt := c.Or(c.Slt(ts, us), c.And(c.Eq(ts, us), c.Ult(tw, uw)))
	neg := in.branch(lt)
	if neg {
		ts, us, tw, uw = us, ts, uw, tw
	}
	// A duration holds 9223372036 seconds and a bit; longer distances are cut off.
	const most, rest = 9223372036, 854775807
	limit := c.Const(1<<63-1, 64)
	if neg {
		limit = c.Const(1<<63, 64)
	}
	if !near && in.branch(c.Ult(c.Const(most+1, 64), c.Sub(ts, us))) {
		return limit
	}
	// ts.tw >= us.uw ; borrow
	top := uint64(1 << 33)
	if !near {
		top = 1 << 34
	}
	ds := c.Var(in.uniqName("time.dsec"), 64, 0, top)
	dn := c.Var(in.uniqName("time.dnsec"), 64, 0, g-1)
	if in.branch(c.Ult(tw, uw)) {
		in.assume(c.And(c.Eq(c.Add(c.Add(us, ds), c.Int(1)), ts), c.Eq(c.Add(uw, dn), c.Add(tw, c.Int(g)))))
	} else {
		in.assume(c.And(c.Eq(c.Add(us, ds), ts), c.Eq(c.Add(uw, dn), tw)))
	}
	if !near && in.branch(c.Or(c.Ult(c.Const(most, 64), ds), c.And(c.Eq(ds, c.Const(most, 64)), c.Ult(c.Const(rest, 64), dn)))) {
		return limit
	}
	d := c.Add(c.Mul(ds, c.Int(g)), dn)
	if neg {
		return c.Neg(d)
	}
	return d
}

// sortSlice: insertion sort through the program's own less function.
func sortSlice(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	s := a[0].(Iface).v.(Slice)
	if s.arr == nil {
		return nil
	}
	if s.arr.sp != nil {
		in.unsupported("sort of sparse")
	}
	n, o := in.concretize(s.len), in.concretize(s.off)
	for i := uint64(1); i < n; i++ {
		for j := i; j > 0; j-- {
			if !in.branch(in.callValue(fr, a[1], []Value{in.c.Const(j, 64), in.c.Const(j-1, 64)}).(*Expr)) {
				break
			}
			x, y := in.copyVal(s.arr.el[o+j]), in.copyVal(s.arr.el[o+j-1])
			in.storeTo(&s.arr.el[o+j], y)
			in.storeTo(&s.arr.el[o+j-1], x)
		}
	}
	return nil
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// targetPanic is a panic raised by the program under test.
type targetPanic struct {
	v  Value  // the interface value
	rt string // runtime error text ("" for explicit panic)
}

// pathEnd terminates the exploration of the current path.
type pathEnd struct {
	kind string // "assume", "unsupported", "steps", "infeasible", "deadline", "violation", "unknown"
	msg  string
}

type operand struct {
	reg int // >=0 register
	val Value
	fv  int // >=0 free variable
	gl  *ssa.Global
}

type cinstr struct {
	ins  ssa.Instruction
	dst  int
	args []operand
	used bool // for lookups: is the value (extract #0) used
	pos  token.Pos
}

type cfunc struct {
	fn     *ssa.Function
	nreg   int
	blocks [][]cinstr
	params []int
	defers bool
	pure   int8 // 0 unknown 1 pure-mergeable 2 not
	intr   intrinsic
	intrOk bool
	name   string
}

type frame struct {
	cf        *cfunc
	regs      []Value
	env       []Value
	caller    *frame
	defers    []deferred
	result    Value
	panicking bool
	pan       targetPanic
	recovered bool
	th        *thread
}

type deferred struct {
	fn   Value
	args []Value
	ins  *ssa.CallCommon
}

type Interp struct {
	c       *Ctx
	eng     *Engine
	solver  *Solver
	prog    *ssa.Program
	fns     map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	aliases bool // strings that share bytes exist
	journal bool
	undo    []undoRec
	path    *Path
	steps   int64
	depth   int
	merging *mergeState
	sched   *scheduler
	cur     *thread
	covered map[*ssa.Function]map[int]bool
	mutexes map[*Value]*muState
	evs     []evTarget
	uniq    int
	onces   map[*Value]bool
	pools   map[*Value][]Value
	smaps   map[*Value]*Map
	track   *tracker
}

func (in *Interp) unsupported(msg string) {
	panic(pathEnd{"unsupported", msg})
}

func (in *Interp) rtPanic(msg string) {
	// runtime.Error value: modelled as an opaque error with the message
	panic(targetPanic{v: Iface{t: in.eng.rtErrType, v: Str{s: "runtime error: " + msg}}, rt: msg})
}

func (in *Interp) compile(fn *ssa.Function) *cfunc {
	if cf, ok := in.fns[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn, name: fn.RelString(nil)}
	in.fns[fn] = cf
	if f, ok := lookupIntrinsic(fn, cf.name); ok {
		cf.intr, cf.intrOk = f, true
	}
	idx := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		idx[p] = n
		cf.params = append(cf.params, n)
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				idx[v] = n
				n++
			}
			if _, ok := i.(*ssa.Defer); ok {
				cf.defers = true
			}
		}
	}
	cf.nreg = n
	fvs := map[ssa.Value]int{}
	for i, f := range fn.FreeVars {
		fvs[f] = i
	}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		cb := make([]cinstr, 0, len(b.Instrs))
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: i, dst: -1, pos: i.Pos()}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			ops = i.Operands(ops[:0])
			for _, o := range ops {
				ci.args = append(ci.args, in.operand(*o, idx, fvs))
			}
			if l, ok := i.(*ssa.Lookup); ok {
				ci.used = true
				if l.CommaOk {
					ci.used = false
					for _, r := range *l.Referrers() {
						if e, ok := r.(*ssa.Extract); !ok || e.Index == 0 {
							if !ok || len(*e.Referrers()) > 0 {
								ci.used = true
							}
						}
					}
				}
			}
			cb = append(cb, ci)
		}
		cf.blocks = append(cf.blocks, cb)
	}
	return cf
}

func (in *Interp) operand(v ssa.Value, idx, fvs map[ssa.Value]int) operand {
	switch x := v.(type) {
	case nil:
		return operand{reg: -1, fv: -1}
	case *ssa.Const:
		return operand{reg: -1, fv: -1, val: in.constVal(x)}
	case *ssa.Global:
		return operand{reg: -1, fv: -1, gl: x}
	case *ssa.Function, *ssa.Builtin:
		return operand{reg: -1, fv: -1, val: x}
	case *ssa.FreeVar:
		return operand{reg: -1, fv: fvs[x]}
	}
	return operand{reg: idx[v], fv: -1}
}

func (in *Interp) constVal(x *ssa.Const) Value {
	t := x.Type().Underlying()
	if x.Value == nil {
		return in.zero(x.Type())
	}
	b, ok := t.(*types.Basic)
	if !ok {
		if _, ok := t.(*types.Interface); ok {
			return Iface{}
		}
		// type parameter instantiated constants etc.
		in.unsupported("const of " + t.String())
	}
	if w, _, ok := widthOf(b); ok {
		if w == 0 {
			return in.c.Bool(constant.BoolVal(x.Value))
		}
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return in.c.Const(uint64(i), w)
		}
		u, _ := constant.Uint64Val(v)
		return in.c.Const(u, w)
	}
	switch b.Kind() {
	case types.String, types.UntypedString:
		return Str{s: constant.StringVal(x.Value)}
	case types.Float64, types.Float32, types.UntypedFloat:
		f, _ := constant.Float64Val(x.Value)
		return f
	case types.Complex128, types.Complex64:
		return complex128(0)
	}
	return (*Value)(nil)
}

func (in *Interp) get(fr *frame, o *operand) Value {
	if o.reg >= 0 {
		if in.aliases {
			return in.fresh(fr.regs[o.reg])
		}
		return fr.regs[o.reg]
	}
	if o.fv >= 0 {
		return fr.env[o.fv]
	}
	if o.gl != nil {
		return in.global(o.gl)
	}
	return o.val
}

func (in *Interp) global(g *ssa.Global) *Value {
	in.ensureInit(g.Pkg)
	p, ok := in.globals[g]
	if !ok {
		p = new(Value)
		*p = in.zero(g.Type().(*types.Pointer).Elem())
		in.globals[g] = p
	}
	return p
}

// ensureInit runs the package initialiser lazily (concretely).
func (in *Interp) ensureInit(pkg *ssa.Package) {
	if pkg == nil || in.inited[pkg] != 0 {
		return
	}
	in.inited[pkg] = 1
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	init := pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	sj, sp, sm, st, sd := in.journal, in.path, in.merging, in.steps, in.depth
	scur, ssched := in.cur, in.sched
	in.journal, in.path, in.merging, in.cur, in.sched = false, nil, nil, nil, nil
	defer func() {
		in.journal, in.path, in.merging, in.steps, in.depth = sj, sp, sm, st, sd
		in.cur, in.sched = scur, ssched
		if r := recover(); r != nil {
			// A failed initialiser leaves the package partially initialised; note it.
			if pe, ok := r.(pathEnd); ok {
				in.eng.noteInit(pkg.Pkg.Path(), pe.msg)
				return
			}
			if tp, ok := r.(targetPanic); ok {
				in.eng.noteInit(pkg.Pkg.Path(), "panic "+tp.rt)
				return
			}
			panic(r)
		}
	}()
	// the guard variable init$guard is an ordinary global
	in.call(nil, init, nil)
	in.inited[pkg] = 2
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/cpu": true, "internal/godebug": true,
	"internal/poll": true, "net": true, "net/http": true, "crypto/tls": true, "testing": true, "log": true, "flag": true,
	"go.uber.org/zap": true, "internal/bisect": true, "time": false, "sync": true, "sync/atomic": true, "fmt": true,
	"vlverif/harness/sym": true, "errors": true, "internal/reflectlite": true, "encoding/json": true, "text/template": true, "regexp": false, "math/rand": true, "internal/runtime/maps": true,
}

// ---- calls

func (in *Interp) callValue(fr *frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		return in.call(fr, f, args)
	case *Closure:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.callEnv(fr, f.fn, args, f.env)
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	in.unsupported(fmt.Sprintf("call of %T", fv))
	return nil
}

func (in *Interp) call(caller *frame, fn *ssa.Function, args []Value) Value {
	return in.callEnv(caller, fn, args, nil)
}

const maxDepth = 400

func (in *Interp) callEnv(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	cf := in.compile(fn)
	if cf.intrOk {
		if in.track != nil && strings.HasPrefix(cf.name, "sync/atomic") || in.track != nil && strings.HasPrefix(cf.name, "(*sync/atomic") {
			return in.guardedBy(func() Value { return cf.intr(in, caller, fn, args) })
		}
		return cf.intr(in, caller, fn, args)
	}
	if fn.Synthetic == "package initializer" && caller != nil && caller.cf.fn.Synthetic == "package initializer" {
		// imports are initialised lazily
		return nil
	}
	if len(fn.Blocks) == 0 {
		in.unsupported("external function " + cf.name)
	}
	if fn.Pkg != nil && in.inited[fn.Pkg] == 0 && fn.Synthetic != "package initializer" {
		in.ensureInit(fn.Pkg)
	}
	if in.merging == nil && in.path != nil && in.cur == nil && in.eng.mergeable(in, cf) {
		if v, ok := in.mergeCall(caller, cf, args, env); ok {
			return v
		}
	}
	return in.run(caller, cf, args, env)
}

func (in *Interp) run(caller *frame, cf *cfunc, args []Value, env []Value) (ret Value) {
	fr := &frame{cf: cf, caller: caller, env: env, regs: make([]Value, cf.nreg)}
	for i, p := range cf.params {
		fr.regs[p] = args[i]
	}
	in.depth++
	if in.depth > maxDepth {
		in.depth = 0
		panic(pathEnd{"steps", "call depth exceeded in " + cf.name})
	}
	if in.covered != nil && in.path != nil {
		if in.covered[cf.fn] == nil {
			in.covered[cf.fn] = map[int]bool{}
		}
	}
	d := in.depth
	if cf.defers {
		in.runDeferred(fr)
	} else {
		in.runBlocks(fr, 0)
	}
	in.depth = d - 1
	return fr.result
}

// runDeferred executes a function that has defer statements.
func (in *Interp) runDeferred(fr *frame) {
	d := in.depth
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			in.depth = d
			fr.panicking, fr.pan = true, tp
		}()
		in.runBlocks(fr, 0)
	}()
	if !fr.panicking {
		return
	}
	in.runDefers(fr)
	if fr.panicking {
		panic(fr.pan)
	}
	// recovered: results come from the recover block
	in.depth = d
	if fr.cf.fn.Recover != nil {
		in.runBlocks(fr, fr.cf.fn.Recover.Index)
	} else {
		fr.result = in.zeroResults(fr.cf.fn.Signature)
	}
}

func (in *Interp) zeroResults(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return in.zero(sig.Results().At(0).Type())
	}
	return in.zero(sig.Results())
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		df := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d := in.depth
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				in.depth = d
				fr.panicking, fr.pan = true, tp
			}()
			in.doCall(fr, df.ins, df.fn, df.args)
		}()
	}
}

func (in *Interp) runBlocks(fr *frame, start int) {
	block := start
	prev := -1
	cf := fr.cf
	for {
		instrs := cf.blocks[block]
		if in.covered != nil && in.path != nil {
			in.covered[cf.fn][block] = true
		}
		// phis evaluate in parallel
		i := 0
		if prev >= 0 {
			ssaB := cf.fn.Blocks[block]
			ei := -1
			var tmp [8]Value
			vals := tmp[:0]
			for i < len(instrs) {
				if _, ok := instrs[i].ins.(*ssa.Phi); !ok {
					break
				}
				if ei < 0 {
					for k, p := range ssaB.Preds {
						if p.Index == prev {
							ei = k
							break
						}
					}
				}
				vals = append(vals, in.get(fr, &instrs[i].args[ei]))
				i++
			}
			for k := range vals {
				fr.regs[instrs[k].dst] = vals[k]
			}
		}
		next := -1
		for ; i < len(instrs); i++ {
			ci := &instrs[i]
			in.steps++
			if dbgTrace && in.path != nil {
				in.path.trace = append(in.path.trace, fmt.Sprint(in.steps, " ", cf.name, " ", ci.ins))
			}
			if in.steps > in.eng.maxSteps {
				panic(pathEnd{"steps", "step limit in " + cf.name})
			}
			switch x := ci.ins.(type) {
			case *ssa.Jump:
				next = cf.fn.Blocks[block].Succs[0].Index
			case *ssa.If:
				if in.branch(in.get(fr, &ci.args[0]).(*Expr)) {
					next = cf.fn.Blocks[block].Succs[0].Index
				} else {
					next = cf.fn.Blocks[block].Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.args) {
				case 0:
				case 1:
					fr.result = in.get(fr, &ci.args[0])
				default:
					t := make(Tuple, len(ci.args))
					for k := range t {
						t[k] = in.get(fr, &ci.args[k])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				panic(targetPanic{v: in.get(fr, &ci.args[0])})
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.panicking {
					panic(fr.pan)
				}
			default:
				in.exec(fr, ci, x)
			}
		}
		if next < 0 {
			panic("block without successor")
		}
		prev, block = block, next
	}
}

func (in *Interp) boundsCheck(idx, n *Expr, what string) {
	// idx is a 64-bit term; negative values are huge unsigned values
	ok := in.c.Ult(idx, n)
	if !in.branch(ok) {
		in.rtPanic("index out of range")
	}
}

func (in *Interp) toIdx(v Value, t types.Type) *Expr {
	e := v.(*Expr)
	b := t.Underlying().(*types.Basic)
	w, sg, _ := widthOf(b)
	if w == 64 {
		return e
	}
	if sg {
		return in.c.SExt(e, 64)
	}
	return in.c.ZExt(e, 64)
}

func (in *Interp) exec(fr *frame, ci *cinstr, ins ssa.Instruction) {
	arg := func(i int) Value { return in.get(fr, &ci.args[i]) }
	set := func(v Value) { fr.regs[ci.dst] = v }
	switch x := ins.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(x.Type().Underlying().(*types.Pointer).Elem())
		set(p)
	case *ssa.BinOp:
		set(in.binop(x.Op, x.X.Type(), x.Y.Type(), arg(0), arg(1)))
	case *ssa.UnOp:
		set(in.unop(fr, x, arg(0)))
	case *ssa.Call:
		fv, args := in.prepareCall(fr, ci, &x.Call)
		set(in.doCall(fr, &x.Call, fv, args))
	case *ssa.Defer:
		fv, args := in.prepareCall(fr, ci, &x.Call)
		fr.defers = append(fr.defers, deferred{fv, args, &x.Call})
	case *ssa.Go:
		in.unsupported("go statement")
	case *ssa.ChangeInterface:
		set(arg(0))
	case *ssa.ChangeType:
		set(arg(0))
	case *ssa.Convert:
		set(in.convert(x.Type(), x.X.Type(), arg(0)))
	case *ssa.MultiConvert:
		set(in.convert(x.Type(), x.X.Type(), arg(0)))
	case *ssa.SliceToArrayPointer:
		s := arg(0).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if in.branch(in.c.Slt(s.len, in.c.Int(n))) {
			in.rtPanic("cannot convert slice to array pointer")
		}
		if s.arr == nil {
			set((*Value)(nil))
			break
		}
		off := in.concretize(s.off)
		if off == 0 && s.arr.sp == nil && int64(len(s.arr.el)) == n {
			p := new(Value)
			*p = s.arr
			set(p)
			break
		}
		if s.arr.sp != nil {
			in.unsupported("slice to array of sparse")
		}
		p := new(Value)
		*p = &Arr{el: s.arr.el[off : off+uint64(n) : off+uint64(n)]}
		set(p)
	case *ssa.MakeInterface:
		set(Iface{x.X.Type(), in.copyVal(arg(0))})
	case *ssa.Extract:
		set(arg(0).(Tuple)[x.Index])
	case *ssa.Slice:
		set(in.sliceOp(x, arg))
	case *ssa.FieldAddr:
		p := in.cellOf(arg(0))
		st, ok := (*p).(Struct)
		if !ok {
			in.unsupported(fmt.Sprintf("field of %T (%s)", *p, x.X.Type()))
		}
		set(&st[x.Field])
	case *ssa.Field:
		st, ok := arg(0).(Struct)
		if !ok {
			in.unsupported("field of opaque")
		}
		set(in.copyVal(st[x.Field]))
	case *ssa.IndexAddr:
		idx := in.toIdx(arg(1), x.Index.Type())
		switch b := arg(0).(type) {
		case Slice:
			in.boundsCheck(idx, b.len, "index")
			abs := in.c.Add(b.off, idx)
			if b.arr.sp == nil && abs.op == OConst {
				set(&b.arr.el[abs.k])
			} else {
				set(ElemPtr{b.arr, abs})
			}
		case *Value, ElemPtr:
			p := in.cellOf(b)
			a := (*p).(*Arr)
			in.boundsCheck(idx, in.arrLen(a), "index")
			if idx.op == OConst && a.sp == nil {
				set(&a.el[idx.k])
			} else {
				set(ElemPtr{a, idx})
			}
		default:
			in.unsupported(fmt.Sprintf("indexaddr %T", b))
		}
	case *ssa.Index:
		idx := in.toIdx(arg(1), x.Index.Type())
		switch b := arg(0).(type) {
		case *Arr:
			in.boundsCheck(idx, in.arrLen(b), "index")
			set(in.elemLoad(b, idx))
		case Str:
			in.boundsCheck(idx, in.strLen(b), "index")
			set(in.strAt(b, idx))
		default:
			in.unsupported(fmt.Sprintf("index %T", b))
		}
	case *ssa.Lookup:
		switch m := arg(0).(type) {
		case Str:
			idx := in.toIdx(arg(1), x.Index.Type())
			in.boundsCheck(idx, in.strLen(m), "index")
			set(in.strAt(m, idx))
		case *Map:
			et := x.X.Type().Underlying().(*types.Map).Elem()
			v, ok := in.mapLookup(m, arg(1), in.zero(et), ci.used)
			if x.CommaOk {
				set(Tuple{v, ok})
			} else {
				set(v)
			}
		default:
			in.unsupported(fmt.Sprintf("lookup %T", m))
		}
	case *ssa.MakeMap:
		set(&Map{idx: map[string]int{}})
	case *ssa.MapUpdate:
		in.mapSet(arg(0).(*Map), arg(1), in.copyVal(arg(2)))
	case *ssa.MakeSlice:
		set(in.makeSlice(x.Type().Underlying().(*types.Slice).Elem(), in.toIdx(arg(0), x.Len.Type()), in.toIdx(arg(1), x.Cap.Type())))
	case *ssa.MakeClosure:
		cl := &Closure{fn: x.Fn.(*ssa.Function)}
		for i := range x.Bindings {
			cl.env = append(cl.env, arg(i+1))
		}
		set(cl)
	case *ssa.Store:
		in.yieldMem(x, x.Addr)
		in.store(arg(0), arg(1))
	case *ssa.TypeAssert:
		set(in.typeAssert(x, arg(0)))
	case *ssa.Range:
		switch m := arg(0).(type) {
		case *Map:
			set(in.newMapIter(m))
		case Str:
			set(&strIter{s: m})
		}
	case *ssa.Next:
		switch it := arg(0).(type) {
		case *mapIter:
			set(in.mapNext(it, x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)))
		case *strIter:
			set(in.strNext(it))
		}
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		in.unsupported("channel operation")
	default:
		in.unsupported(fmt.Sprintf("instruction %T", ins))
	}
}

func (in *Interp) prepareCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) (Value, []Value) {
	// operands order: Value, Args...
	v := in.get(fr, &ci.args[0])
	args := make([]Value, 0, len(ci.args))
	if cc.IsInvoke() {
		ifc, ok := v.(Iface)
		if !ok {
			in.unsupported(fmt.Sprintf("invoke on %T", v))
		}
		if ifc.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := in.findMethod(ifc, cc.Method)
		args = append(args, ifc.v)
		for i := 1; i <= len(cc.Args); i++ {
			args = append(args, in.copyVal(in.get(fr, &ci.args[i])))
		}
		return fn, args
	}
	for i := 1; i <= len(cc.Args); i++ {
		args = append(args, in.copyVal(in.get(fr, &ci.args[i])))
	}
	return v, args
}

func (in *Interp) findMethod(ifc Iface, m *types.Func) Value {
	if ifc.t == in.eng.rtErrType {
		return &Opaque{kind: "rtErr." + m.Name()}
	}
	fn := in.eng.method(ifc.t, m)
	if fn == nil {
		in.unsupported("no method " + m.Name() + " on " + ifc.t.String())
	}
	return fn
}

func (in *Interp) doCall(fr *frame, cc *ssa.CallCommon, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Builtin:
		return in.builtin(fr, f, cc, args)
	case *Opaque:
		if f != nil && f.kind == "rtErr.Error" {
			return args[0].(Str)
		}
		in.unsupported("opaque call")
	}
	return in.callValue(fr, fv, args)
}

// ---- operators

func (in *Interp) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	c := in.c
	switch op {
	case token.EQL:
		return in.equalT(xt, x, y)
	case token.NEQ:
		return c.Not(in.equalT(xt, x, y))
	}
	switch a := x.(type) {
	case *Expr:
		b := y.(*Expr)
		bt, ok := xt.Underlying().(*types.Basic)
		if !ok {
			in.unsupported("binop on " + xt.String())
		}
		w, signed, _ := widthOf(bt)
		if w == 0 {
			switch op {
			case token.AND:
				return c.And(a, b)
			case token.OR:
				return c.Or(a, b)
			case token.XOR:
				return c.Not(c.Eq(a, b))
			}
			in.unsupported("bool op")
		}
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			if in.branch(c.Eq(b, c.Const(0, w))) {
				in.rtPanic("integer divide by zero")
			}
			o := OUDiv
			switch {
			case signed && op == token.QUO:
				o = OSDiv
			case signed:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return c.Div(o, a, b)
		case token.AND:
			return c.BAnd(a, b)
		case token.OR:
			return c.BOr(a, b)
		case token.XOR:
			return c.BXor(a, b)
		case token.AND_NOT:
			return c.BAnd(a, c.BNot(b))
		case token.SHL, token.SHR:
			sw, ssg, _ := widthOf(yt.Underlying().(*types.Basic))
			if ssg {
				if in.branch(c.Slt(b, c.Const(0, sw))) {
					in.rtPanic("negative shift amount")
				}
			}
			var s *Expr
			if sw > w {
				// saturate
				big := c.Not(c.Ult(b, c.Const(uint64(w), sw)))
				s = c.Ite(big, c.Const(uint64(w), w), c.Extract(b, 0, w))
			} else {
				s = c.ZExt(b, w)
			}
			if op == token.SHL {
				return c.Shl(a, s)
			}
			if signed {
				return c.AShr(a, s)
			}
			return c.LShr(a, s)
		case token.LSS:
			if signed {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if signed {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if signed {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if signed {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return in.strConcat(a, b)
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return c.Not(in.strLess(b, a))
		case token.GEQ:
			return c.Not(in.strLess(a, b))
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	}
	in.unsupported(fmt.Sprintf("binop %s %T", op, x))
	return nil
}

func (in *Interp) strConcat(a, b Str) Str {
	if a.k == 0 && b.k == 0 {
		return Str{s: a.s + b.s}
	}
	x, ok1 := in.strBytes(a)
	y, ok2 := in.strBytes(b)
	if !ok1 || !ok2 {
		in.unsupported("sparse string concat")
	}
	return in.mkStr(append(append([]*Expr{}, x...), y...))
}

func (in *Interp) strLess(a, b Str) *Expr {
	x, ok1 := in.strBytes(a)
	y, ok2 := in.strBytes(b)
	if !ok1 || !ok2 {
		in.unsupported("sparse string order")
	}
	c := in.c
	r := c.Bool(len(x) < len(y))
	for i := min(len(x), len(y)) - 1; i >= 0; i-- {
		r = c.Or(c.Ult(x[i], y[i]), c.And(c.Eq(x[i], y[i]), r))
	}
	return r
}

func (in *Interp) equalT(t types.Type, x, y Value) *Expr {
	// comparisons against nil of the same kind
	switch a := x.(type) {
	case Slice:
		b := y.(Slice)
		return in.c.Bool(a.arr == nil && b.arr == nil)
	case *Closure, *ssa.Function:
		return in.c.Bool(isNilFunc(x) && isNilFunc(y))
	case *Value:
		if _, ok := y.(ElemPtr); ok {
			return in.c.False
		}
		if _, ok := y.(*Opaque); ok {
			return in.c.False
		}
	case *Opaque:
		if b, ok := y.(*Opaque); ok {
			return in.c.Bool(a == b)
		}
		return in.c.False
	case ElemPtr:
		if _, ok := y.(*Value); ok {
			return in.c.False
		}
	}
	return in.equal(x, y)
}

func isNilFunc(v Value) bool {
	switch f := v.(type) {
	case *Closure:
		return f == nil
	case *ssa.Function:
		return f == nil
	}
	return v == nil
}

func (in *Interp) unop(fr *frame, x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		in.yieldMem(x, x.X)
		r := in.load(v)
		switch b := r.(type) {
		case Slice: // *(*string)(unsafe.Pointer(&bytes))
			if t, ok := x.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
				return in.aliasStr(b)
			}
		case Str:
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				return in.strToBytes(b)
			}
		}
		return r
	case token.NOT:
		return in.c.Not(v.(*Expr))
	case token.SUB:
		if f, ok := v.(float64); ok {
			return -f
		}
		return in.c.Neg(v.(*Expr))
	case token.XOR:
		return in.c.BNot(v.(*Expr))
	}
	in.unsupported("unop " + x.Op.String())
	return nil
}

func (in *Interp) convInt(e *Expr, from, to *types.Basic) *Expr {
	fw, fs, _ := widthOf(from)
	tw, _, _ := widthOf(to)
	switch {
	case tw == fw:
		return e
	case tw < fw:
		return in.c.Extract(e, 0, tw)
	case fs:
		return in.c.SExt(e, tw)
	}
	return in.c.ZExt(e, tw)
}

func (in *Interp) convert(to, from types.Type, v Value) Value {
	tu, fu := to.Underlying(), from.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if fb, ok := fu.(*types.Basic); ok {
			tw, _, tint := widthOf(tb)
			_, fsg, fint := widthOf(fb)
			switch {
			case tint && fint && tw > 0:
				return in.convInt(v.(*Expr), fb, tb)
			case tb.Kind() == types.String && fint:
				// string(rune)
				e := v.(*Expr)
				if e.op == OConst {
					return Str{s: string(rune(sx(e.k, e.w)))}
				}
				in.unsupported("string(rune)")
			case tb.Kind() == types.String && fb.Info()&types.IsString != 0:
				return v
			case tb.Info()&types.IsFloat != 0 && fint:
				e := v.(*Expr)
				if e.op != OConst {
					in.unsupported("symbolic float")
				}
				if fsg {
					return float64(sx(e.k, e.w))
				}
				return float64(e.k)
			case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat != 0:
				if tb.Kind() == types.Float32 {
					return float64(float32(v.(float64)))
				}
				return v
			case tint && fb.Info()&types.IsFloat != 0:
				f := v.(float64)
				if math.IsNaN(f) {
					return in.c.Const(0, tw)
				}
				return in.c.Const(uint64(int64(f)), tw)
			case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
				if tint {
					in.unsupported("pointer to integer")
				}
				return v
			}
		}
		if fs, ok := fu.(*types.Slice); ok && tb.Info()&types.IsString != 0 {
			if isByte(fs.Elem()) {
				return in.bytesToStr(v.(Slice))
			}
			in.unsupported("[]rune to string")
		}
		if _, ok := fu.(*types.Pointer); ok && tb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if isByte(ts.Elem()) {
				return in.strToBytes(v.(Str))
			}
			s := v.(Str)
			if s.k == 0 {
				a := &Arr{}
				for _, r := range s.s {
					a.el = append(a.el, in.c.Const(uint64(r), 32))
				}
				n := in.c.Int(int64(len(a.el)))
				return Slice{a, in.c.Int(0), n, n}
			}
			// symbolic: decode rune by rune
			it := &strIter{s: s}
			a := &Arr{}
			for {
				t := in.strNext(it)
				if t[0].(*Expr).IsFalse() {
					break
				}
				a.el = append(a.el, t[2])
			}
			n := in.c.Int(int64(len(a.el)))
			return Slice{a, in.c.Int(0), n, n}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v // from unsafe.Pointer
	}
	in.unsupported(fmt.Sprintf("convert %s to %s", from, to))
	return nil
}

// ---- slices

const denseMax = 2048

// below asks the solver whether e < k on this path; no fork.
func (in *Interp) below(e *Expr, k int64) bool {
	lt := in.c.Ult(e, in.c.Int(k))
	if in.implied(lt) {
		return true
	}
	if in.path == nil || in.merging != nil {
		return false
	}
	if in.path.model != nil && in.path.pos >= len(in.path.prefix) && !in.evalBool(lt) {
		return false
	}
	r, _ := in.check(in.c.Not(lt))
	in.eng.st.branchQ.Add(1)
	return r == Unsat
}

func (in *Interp) makeSlice(et types.Type, n, cp *Expr) Value {
	c := in.c
	if in.branch(c.Slt(n, c.Int(0))) {
		in.rtPanic("makeslice: len out of range")
	}
	if n != cp && in.branch(c.Slt(cp, n)) {
		in.rtPanic("makeslice: cap out of range")
	}
	z := c.Int(0)
	if cp.op != OConst && isByte(et) && cp.hi-cp.lo > 64 && !in.below(cp, 33) || cp.op == OConst && cp.k > denseMax && isByte(et) {
		if cp.op == OConst && cp.k > 1<<32 || cp.lo > 1<<34 {
			in.rtPanic("makeslice: len out of range")
		}
		return Slice{&Arr{sp: &Snap{kind: 1}, n: cp}, z, n, cp}
	}
	cv := in.concretize(cp)
	if cv > 1<<20 {
		in.unsupported("large slice")
	}
	a := &Arr{el: make([]Value, cv)}
	for i := range a.el {
		a.el[i] = in.zero(et)
	}
	return Slice{a, z, n, c.Const(cv, 64)}
}

func (in *Interp) sliceOp(x *ssa.Slice, arg func(int) Value) Value {
	c := in.c
	// operands: X, Low, High, Max  (nil operands keep their slot)
	opt := func(i int, v ssa.Value) *Expr {
		if v == nil {
			return nil
		}
		return in.toIdx(arg(i), v.Type())
	}
	k := 1
	lo := opt(1, x.Low)
	_ = k
	hi := opt(2, x.High)
	mx := opt(3, x.Max)
	z := c.Int(0)
	if lo == nil {
		lo = z
	}
	switch b := arg(0).(type) {
	case Str:
		n := in.strLen(b)
		if hi == nil {
			hi = n
		}
		if in.branch(c.Not(c.And(c.Ule(hi, n), c.Ule(lo, hi)))) {
			in.rtPanic("slice bounds out of range")
		}
		if b.al != nil {
			return in.aliasStr(Slice{b.al.arr, c.Add(b.al.off, lo), c.Sub(hi, lo), c.Sub(hi, lo)})
		}
		if b.k == 2 {
			return Str{k: 2, sp: &SpStr{b.sp.snap, c.Add(b.sp.off, lo), c.Sub(hi, lo)}}
		}
		l, h := in.concretize(lo), in.concretize(hi)
		if b.k == 0 {
			return Str{s: b.s[l:h]}
		}
		return in.mkStr(b.sym[l:h])
	case Slice:
		if hi == nil {
			hi = b.len
		}
		cp := b.cap
		if mx != nil {
			if in.branch(c.Not(c.Ule(mx, cp))) {
				in.rtPanic("slice bounds out of range")
			}
			cp = mx
		}
		if in.branch(c.Not(c.And(c.Ule(hi, cp), c.Ule(lo, hi)))) {
			in.rtPanic("slice bounds out of range")
		}
		if b.arr == nil {
			return b
		}
		if b.arr.sp == nil {
			lo = c.Const(in.concretize(lo), 64)
			hi = c.Const(in.concretize(hi), 64)
			cp = c.Const(in.concretize(cp), 64)
		}
		return Slice{b.arr, c.Add(b.off, lo), c.Sub(hi, lo), c.Sub(cp, lo)}
	case *Value, ElemPtr:
		p := in.cellOf(b)
		a := (*p).(*Arr)
		n := in.arrLen(a)
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			if in.branch(c.Not(c.Ule(mx, cp))) {
				in.rtPanic("slice bounds out of range")
			}
			cp = mx
		}
		if in.branch(c.Not(c.And(c.Ule(hi, cp), c.Ule(lo, hi)))) {
			in.rtPanic("slice bounds out of range")
		}
		if a.sp != nil {
			return Slice{a, lo, c.Sub(hi, lo), c.Sub(cp, lo)}
		}
		l, h := in.concretize(lo), in.concretize(hi)
		return Slice{a, c.Const(l, 64), c.Const(h-l, 64), c.Sub(cp, c.Const(l, 64))}
	}
	in.unsupported(fmt.Sprintf("slice of %T", arg(0)))
	return nil
}

// copySlice copies n elements (n already decided to be within both lengths).
func (in *Interp) copyInto(dst Slice, src *Snap, srcOff, n *Expr) {
	c := in.c
	if n.op == OConst && n.k == 0 {
		return
	}
	if dst.arr.sp == nil {
		k := in.concretize(n)
		o := in.concretize(dst.off)
		vals := make([]*Expr, k)
		for i := range vals {
			vals[i] = in.snapAt(src, c.Add(srcOff, c.Int(int64(i))))
		}
		for i := range vals {
			in.setCell(&dst.arr.el[o+uint64(i)], vals[i])
		}
		return
	}
	s := dst.arr.sp
	if n.op == OConst && n.k <= 8 {
		for i := uint64(0); i < n.k; i++ {
			s = s.with(spWrite{idx: c.Add(dst.off, c.Const(i, 64)), val: in.snapAt(src, c.Add(srcOff, c.Const(i, 64)))})
		}
	} else {
		s = s.with(spWrite{idx: dst.off, n: n, src: src, srcOff: srcOff})
	}
	in.setSnap(dst.arr, s)
}

func (in *Interp) minLen(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if in.branch(in.c.Ult(a, b)) {
		return a
	}
	return b
}

func (in *Interp) builtin(fr *frame, f *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	c := in.c
	switch f.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return in.strLen(x)
		case Slice:
			return x.len
		case *Map:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(x.live()))
		case *Arr:
			return in.arrLen(x)
		case *Value:
			return in.arrLen((*x).(*Arr))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return x.cap
		case *Arr:
			return in.arrLen(x)
		}
	case "append":
		dst := args[0].(Slice)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return dst
		}
		switch s := args[1].(type) {
		case Str:
			b := in.strToBytes(s)
			return in.appendSlice(dst, b, et)
		case Slice:
			return in.appendSlice(dst, s, et)
		}
	case "copy":
		dst := args[0].(Slice)
		switch s := args[1].(type) {
		case Str:
			n := in.minLen(dst.len, in.strLen(s))
			if dst.arr == nil || n.IsConst() && n.k == 0 {
				return n
			}
			sn, off := in.strSnap(s)
			in.copyInto(dst, sn, off, n)
			return n
		case Slice:
			n := in.minLen(dst.len, s.len)
			if dst.arr == nil || s.arr == nil || n.IsConst() && n.k == 0 {
				return n
			}
			if s.arr.sp == nil && !isByteElems(s) {
				k, so, do := in.concretize(n), in.concretize(s.off), in.concretize(dst.off)
				tmp := make([]Value, k)
				for i := range tmp {
					tmp[i] = in.copyVal(s.arr.el[so+uint64(i)])
				}
				for i := range tmp {
					in.storeTo(&dst.arr.el[do+uint64(i)], tmp[i])
				}
				return n
			}
			sn, off := in.sliceSnap(s)
			in.copyInto(dst, sn, off, n)
			return n
		}
	case "delete":
		in.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				in.jmap(x)
				x.e = nil
				x.idx = map[string]int{}
			}
			return nil
		case Slice:
			if x.arr == nil {
				return nil
			}
			if x.arr.sp != nil {
				in.unsupported("clear sparse")
			}
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			n, o := in.concretize(x.len), in.concretize(x.off)
			for i := uint64(0); i < n; i++ {
				in.storeTo(&x.arr.el[o+i], in.zero(et))
			}
			return nil
		}
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			lt := in.binop(token.LSS, cc.Args[0].Type(), cc.Args[0].Type(), y, r).(*Expr)
			if f.Name() == "max" {
				lt = in.binop(token.LSS, cc.Args[0].Type(), cc.Args[0].Type(), r, y).(*Expr)
			}
			if e, ok := r.(*Expr); ok {
				r = c.Ite(lt, y.(*Expr), e)
			} else if in.branch(lt) {
				r = y
			}
		}
		return r
	case "recover":
		// the deferred function's caller frame is panicking
		p := fr.caller
		if p != nil && p.panicking {
			p.panicking = false
			p.recovered = true
			v := p.pan.v
			if i, ok := v.(Iface); ok {
				return i
			}
			return Iface{in.eng.rtErrType, Str{s: "panic"}}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0]})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := in.toIdx(args[1], cc.Args[1].Type())
		_ = n
	}
	in.unsupported("builtin " + f.Name())
	return nil
}

func isByteElems(s Slice) bool {
	if s.arr == nil || s.arr.sp != nil {
		return true
	}
	if len(s.arr.el) == 0 {
		return true
	}
	e, ok := s.arr.el[0].(*Expr)
	return ok && e.w == 8
}

func (in *Interp) appendSlice(dst, s Slice, et types.Type) Slice {
	c := in.c
	if s.arr == nil || s.len.IsConst() && s.len.k == 0 {
		return dst
	}
	sparse := dst.arr != nil && dst.arr.sp != nil || s.arr.sp != nil
	if !sparse {
		n := in.concretize(dst.len)
		k := in.concretize(s.len)
		so := in.concretize(s.off)
		tmp := make([]Value, k)
		for i := range tmp {
			tmp[i] = in.copyVal(s.arr.el[so+uint64(i)])
		}
		cp := in.concretize(dst.cap)
		do := in.concretize(dst.off)
		if dst.arr != nil && n+k <= cp {
			for i := range tmp {
				in.storeTo(&dst.arr.el[do+n+uint64(i)], tmp[i])
			}
			return Slice{dst.arr, dst.off, c.Const(n+k, 64), dst.cap}
		}
		nc := n + k
		if n < 256 {
			if nc < 2*n {
				nc = 2 * n
			}
		} else if g := n + (n+768)/4; nc < g {
			nc = g
		}
		a := &Arr{el: make([]Value, nc)}
		for i := uint64(0); i < n; i++ {
			a.el[i] = in.copyVal(dst.arr.el[do+i])
		}
		copy(a.el[n:], tmp)
		for i := n + k; i < nc; i++ {
			a.el[i] = in.zero(et)
		}
		return Slice{a, c.Int(0), c.Const(n+k, 64), c.Const(nc, 64)}
	}
	// sparse append: in place when capacity allows, otherwise reallocate exactly
	total := c.Add(dst.len, s.len)
	sn, so := in.sliceSnap(s)
	if dst.arr != nil && in.branch(c.Ule(total, dst.cap)) {
		in.copyInto(Slice{dst.arr, c.Add(dst.off, dst.len), s.len, s.len}, sn, so, s.len)
		return Slice{dst.arr, dst.off, total, dst.cap}
	}
	a := &Arr{sp: &Snap{kind: 1}, n: total}
	z := c.Int(0)
	if dst.arr != nil && !(dst.len.IsConst() && dst.len.k == 0) {
		dn, do := in.sliceSnap(dst)
		in.copyInto(Slice{a, z, total, total}, dn, do, dst.len)
	}
	in.copyInto(Slice{a, dst.len, s.len, s.len}, sn, so, s.len)
	return Slice{a, z, total, total}
}

// ---- type assertions

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	ifc := v.(Iface)
	ok := false
	var res Value
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if ifc.t != nil && ifc.t != in.eng.rtErrType {
			ok = types.Implements(ifc.t, x.AssertedType.Underlying().(*types.Interface))
		} else if ifc.t == in.eng.rtErrType {
			it := x.AssertedType.Underlying().(*types.Interface)
			ok = it.NumMethods() == 0 || it.NumMethods() == 1 && it.Method(0).Name() == "Error"
			if x.AssertedType.String() == "runtime.Error" {
				ok = true
			}
		}
		if ok {
			res = ifc
		} else {
			res = Iface{}
		}
	} else {
		ok = ifc.t != nil && types.Identical(ifc.t, x.AssertedType)
		if ok {
			res = in.copyVal(ifc.v)
		} else {
			res = in.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{res, in.c.Bool(ok)}
	}
	if !ok {
		in.rtPanic("interface conversion: wrong dynamic type for " + x.AssertedType.String())
	}
	return res
}

// ---- iteration

type mapIter struct {
	m     *Map
	order []int
	i     int
}

type strIter struct {
	b []*Expr
	s Str
	i uint64
}

// newMapIter fixes an iteration order; for 2..3 live entries every order is explored.
func (in *Interp) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	for i := range m.e {
		if !m.e[i].dead {
			it.order = append(it.order, i)
		}
	}
	if in.path != nil && len(it.order) >= 2 && in.merging == nil {
		lim := in.eng.permMax
		if len(it.order) <= lim {
			in.path.mapOrder = true
			rest := it.order
			var ord []int
			for len(rest) > 1 {
				k := int(in.choose("maporder", len(rest)))
				ord = append(ord, rest[k])
				nr := append([]int{}, rest[:k]...)
				rest = append(nr, rest[k+1:]...)
			}
			it.order = append(ord, rest...)
		} else {
			in.path.mapOrder = true
			in.eng.note("map iteration with more than " + fmt.Sprint(lim) + " entries explored in insertion and reverse order only")
			if in.choose("maporder", 2) == 1 {
				for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			}
		}
	}
	return it
}

func (in *Interp) mapNext(it *mapIter, mt *types.Map) Tuple {
	for it.i < len(it.order) {
		e := it.m.e
		k := it.order[it.i]
		it.i++
		if k < len(e) && !e[k].dead {
			return Tuple{in.c.True, in.copyVal(e[k].k), in.copyVal(e[k].v)}
		}
	}
	return Tuple{in.c.False, in.zero(mt.Key()), in.zero(mt.Elem())}
}

// strNext decodes the next rune (forking on the encoding class).
func (in *Interp) strNext(it *strIter) Tuple {
	c := in.c
	b := it.b
	if b == nil {
		var ok bool
		if b, ok = in.strBytes(it.s); !ok {
			if b, ok = in.longBytes(it.s); !ok {
				in.unsupported("range over sparse string")
			}
		}
		it.b = b
	}
	i := it.i
	if i >= uint64(len(b)) {
		return Tuple{c.False, c.Int(0), c.Const(0, 32)}
	}
	d := in.runeAt(b, int(i))
	pos := c.Const(i, 64)
	if in.branch(d.w1) {
		it.i++
		return Tuple{c.True, pos, c.ZExt(b[i], 32)}
	}
	for k, w := range []*Expr{d.w2, d.w3, d.w4} {
		if w.IsFalse() {
			continue
		}
		if in.branch(w) {
			it.i += uint64(k + 2)
			return Tuple{c.True, pos, []*Expr{d.r2, d.r3, d.r4}[k]}
		}
	}
	it.i++
	return Tuple{c.True, pos, c.Const(0xFFFD, 32)}
}

var dbgTrace = os.Getenv("VLTRACE") != ""

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

// Solver drives one SMT-LIB2 process over a pipe.
type Solver struct {
	ctx       *Ctx
	cmdline   []string
	timeoutMs int
	cmd       *exec.Cmd
	in        *bufio.Writer
	inC       io.WriteCloser
	out       *bufio.Reader
	epoch     uint32
	nvars     int
	nufs      int
	stack     []*Expr // asserted conditions, one push level each
	defs      int

	Queries  int64
	SatN     int64
	UnsatN   int64
	UnkN     int64
	Restarts int64
	Second   int64
	seen     map[*Expr]bool // defined terms, for a process that decides a single query
	Time     time.Duration
	log      io.Writer
}

var epochGen uint32

func NewSolver(ctx *Ctx, cmdline []string, timeoutMs int) (*Solver, error) {
	s := &Solver{ctx: ctx, cmdline: cmdline, timeoutMs: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.epoch++
	s.nvars, s.nufs, s.stack, s.defs = 0, 0, nil, 0
	if strings.Contains(s.cmdline[0], "cvc5") {
		s.w("(set-option :global-declarations true)\n(set-logic QF_UFBV)\n")
	} else {
		s.w("(set-option :global-declarations true)\n(set-option :timeout " + strconv.Itoa(s.timeoutMs) + ")\n(set-logic QF_UFBV)\n")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() error {
	s.Close()
	s.Restarts++
	return s.start()
}

func (s *Solver) w(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func bvc(v uint64, w uint8) string {
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

var opNames = map[Op]string{OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OAdd: "bvadd", OSub: "bvsub",
	OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat", ONot: "not"}

func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.k == 1 {
				return "true"
			}
			return "false"
		}
		return bvc(e.k, e.w)
	case OVar:
		return "v" + strconv.FormatUint(e.k, 10)
	}
	return "e" + strconv.FormatUint(uint64(e.id), 10)
}

func (s *Solver) declare() {
	for ; s.nvars < len(s.ctx.vars); s.nvars++ {
		v := s.ctx.vars[s.nvars]
		s.w(fmt.Sprintf("(declare-fun v%d () %s)\n", s.nvars, sortName(v.w)))
	}
	for ; s.nufs < len(s.ctx.ufs); s.nufs++ {
		s.w(fmt.Sprintf("(declare-fun u%d ((_ BitVec 64)) (_ BitVec 8))\n", s.nufs))
	}
}

func (s *Solver) sent(e *Expr) bool {
	if s.seen != nil {
		return s.seen[e]
	}
	return e.sent == s.epoch
}

// define emits define-funs for every not yet defined node under e (iteratively, post-order).
func (s *Solver) define(e *Expr) {
	if e.op == OConst || e.op == OVar || s.sent(e) {
		return
	}
	type fr struct {
		e *Expr
		i int
	}
	st := []fr{{e, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		var ch *Expr
		switch f.i {
		case 0:
			ch = f.e.a
		case 1:
			ch = f.e.b
		case 2:
			ch = f.e.c
		default:
			s.emit(f.e)
			st = st[:len(st)-1]
			continue
		}
		f.i++
		if ch != nil && ch.op != OConst && ch.op != OVar && !s.sent(ch) {
			st = append(st, fr{ch, 0})
		}
	}
}

func (s *Solver) emit(e *Expr) {
	if s.sent(e) {
		return
	}
	if s.seen != nil {
		s.seen[e] = true
	} else {
		e.sent = s.epoch
	}
	s.defs++
	var b strings.Builder
	b.WriteString("(define-fun e")
	b.WriteString(strconv.FormatUint(uint64(e.id), 10))
	b.WriteString(" () ")
	b.WriteString(sortName(e.w))
	b.WriteString(" ")
	switch e.op {
	case OZExt:
		fmt.Fprintf(&b, "((_ zero_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case OSExt:
		fmt.Fprintf(&b, "((_ sign_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case OExtract:
		fmt.Fprintf(&b, "((_ extract %d %d) %s)", e.k+uint64(e.w)-1, e.k, s.ref(e.a))
	case OSelect:
		fmt.Fprintf(&b, "(u%d %s)", e.k, s.ref(e.a))
	default:
		b.WriteString("(")
		b.WriteString(opNames[e.op])
		for _, x := range []*Expr{e.a, e.b, e.c} {
			if x != nil {
				b.WriteString(" ")
				b.WriteString(s.ref(x))
			}
		}
		b.WriteString(")")
	}
	b.WriteString(")\n")
	s.w(b.String())
}

// rangeAssert asserts declared variable ranges of every variable (globally, level 0).
func (s *Solver) pushCond(e *Expr) {
	s.define(e)
	s.w("(push 1)(assert " + s.ref(e) + ")\n")
	s.stack = append(s.stack, e)
}

// VarSet is the set of variables and select terms of a growing path condition.
type VarSet struct {
	seen       map[*Expr]bool
	vars, sels []*Expr
	feat       int
}

// What a query contains.
const (
	featMul   = 1 // wide multiplications or divisions
	featSum   = 2 // wide sums
	featMixed = 4 // table look-ups, or operations on single bits
)

func NewVarSet() *VarSet { return &VarSet{seen: map[*Expr]bool{}} }

func (v *VarSet) add(e *Expr) {
	v.feat |= collect([]*Expr{e}, nil, v.seen, &v.vars, &v.sels)
}

// collectVars gathers variables/selects under the expressions.
func collect(es []*Expr, have, seen map[*Expr]bool, vars *[]*Expr, sels *[]*Expr) (feat int) {
	var st []*Expr
	st = append(st, es...)
	for len(st) > 0 {
		e := st[len(st)-1]
		st = st[:len(st)-1]
		if e == nil || e.op == OConst || seen[e] || have[e] {
			continue
		}
		seen[e] = true
		switch e.op {
		case OVar:
			*vars = append(*vars, e)
		case OSelect:
			*sels = append(*sels, e)
			st = append(st, e.a)
			feat |= featMixed
		case OMul, OUDiv, OURem, OSDiv, OSRem:
			if e.w >= 32 {
				feat |= featMul
			}
			st = append(st, e.a, e.b, e.c)
		case OAdd, OSub:
			if e.w == 64 && e.a.op != OConst && e.b.op != OConst {
				feat |= featSum
			}
			st = append(st, e.a, e.b)
		case OConcat, OExtract, OBAnd, OBOr, OBXor, OBNot, OShl, OLShr, OAShr:
			feat |= featMixed
			st = append(st, e.a, e.b, e.c)
		default:
			st = append(st, e.a, e.b, e.c)
		}
	}
	return
}

// Check decides the conjunction of conds (a path prefix, kept incrementally) and extra.
// When sat and wantModel, a model over the occurring variables is returned.
func (s *Solver) Check(conds []*Expr, extra []*Expr, vs *VarSet, wantModel bool) (SatResult, *Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.defs > 400000 {
		s.restart()
	}
	vars, sels := vs.vars, vs.sels
	feat := vs.feat
	if len(extra) > 0 {
		vars, sels = append([]*Expr{}, vars...), append([]*Expr{}, sels...)
		feat |= collect(extra, vs.seen, map[*Expr]bool{}, &vars, &sels)
	}
	hard := feat&featMul != 0
	if feat == featSum {
		wide := 0
		for _, v := range vars {
			if v.w == 64 && s.ctx.vars[v.k].hi > 1<<40 {
				wide++
			}
		}
		hard = wide > 2
	}
	if hard {
		// wide multiplications, divisions and sums stall bit-blasting: the integer encoding first
		if r, m := s.second(conds, extra, vars, sels, wantModel); r != Unknown {
			s.count(r)
			return r, m
		}
	}
	s.declare()
	// common prefix
	n := 0
	for n < len(conds) && n < len(s.stack) && conds[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.w(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for _, e := range conds[n:] {
		s.pushCond(e)
	}
	for _, e := range extra {
		s.define(e)
	}
	s.w("(push 1)\n")
	for _, e := range extra {
		s.w("(assert " + s.ref(e) + ")\n")
	}
	s.ranges(vars)
	s.w("(check-sat)\n")
	res, err := s.readLine()
	if err != nil {
		s.UnkN++
		s.restart()
		return Unknown, nil
	}
	var r SatResult
	var m *Model
	switch res {
	case "sat":
		r = Sat
		s.SatN++
		if wantModel {
			m, err = s.model(vars, sels)
			if err != nil {
				s.restart()
				return Unknown, nil
			}
		}
	case "unsat":
		r = Unsat
		s.UnsatN++
	default:
		if strings.HasPrefix(res, "(error") {
			s.UnkN++
			s.restart()
			return Unknown, nil
		}
		if !hard {
			r, m = s.second(conds, extra, vars, sels, wantModel)
		}
		if r == Unknown {
			s.UnkN++
		} else {
			s.count(r)
		}
	}
	s.w("(pop 1)\n")
	if crossCheck && !hard && r != Unknown {
		r2, _ := s.second(conds, extra, vars, sels, false)
		if r2 == Unknown {
			crossUnk.Add(1)
		} else if r2 != r {
			crossDiff.Add(1)
			fmt.Println("note: the two solvers disagree")
		} else {
			crossSame.Add(1)
		}
	}
	return r, m
}

var slowLog = os.Getenv("VLSLOW") != ""

var crossCheck bool
var crossSame, crossDiff, crossUnk atomic.Int64

func (s *Solver) count(r SatResult) {
	if r == Sat {
		s.SatN++
	} else {
		s.UnsatN++
	}
}

var secondCmd = []string{"cvc5", "--solve-bv-as-int=sum", "--produce-models"}

// second decides one query in a process of its own with the second solver.
func (s *Solver) second(conds, extra, vars, sels []*Expr, wantModel bool) (SatResult, *Model) {
	s.Second++
	args := append(append([]string{}, secondCmd[1:]...), "--tlimit="+strconv.Itoa(s.timeoutMs))
	t := &Solver{ctx: s.ctx, cmdline: append([]string{secondCmd[0]}, args...), timeoutMs: s.timeoutMs, seen: map[*Expr]bool{}}
	if slowLog {
		t.log = &bytes.Buffer{}
	}
	if t.start() != nil {
		return Unknown, nil
	}
	defer t.Close()
	if slowLog {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 2*time.Second {
				os.WriteFile(fmt.Sprintf("/tmp/slow-%d-%.1f.smt2", time.Now().UnixNano()%1000000, d.Seconds()), t.log.(*bytes.Buffer).Bytes(), 0o644)
			}
		}()
	}
	t.declare()
	for _, l := range [][]*Expr{conds, extra} {
		for _, e := range l {
			t.define(e)
			t.w("(assert " + t.ref(e) + ")\n")
		}
	}
	t.ranges(vars)
	t.w("(check-sat)\n")
	res, err := t.readLine()
	if err != nil {
		return Unknown, nil
	}
	switch res {
	case "unsat":
		return Unsat, nil
	case "sat":
		if !wantModel {
			return Sat, nil
		}
		if m, err := t.model(vars, sels); err == nil {
			return Sat, m
		}
	}
	return Unknown, nil
}

func (s *Solver) ranges(vars []*Expr) {
	for _, v := range vars {
		vi := s.ctx.vars[v.k]
		if v.w == 0 {
			continue
		}
		if vi.lo > 0 {
			s.w("(assert (bvule " + bvc(vi.lo, v.w) + " " + s.ref(v) + "))\n")
		}
		if vi.hi < mask(v.w) {
			s.w("(assert (bvule " + s.ref(v) + " " + bvc(vi.hi, v.w) + "))\n")
		}
	}
}

func (s *Solver) readLine() (string, error) {
	s.in.Flush()
	ch := make(chan struct{})
	tm := time.AfterFunc(time.Duration(s.timeoutMs)*time.Millisecond*3+2*time.Second, func() {
		if s.cmd != nil {
			s.cmd.Process.Kill()
		}
		close(ch)
	})
	defer tm.Stop()
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) readSexp() (string, error) {
	s.in.Flush()
	var b strings.Builder
	depth := 0
	started := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		b.WriteString(l)
		for _, ch := range l {
			if ch == '(' {
				depth++
				started = true
			} else if ch == ')' {
				depth--
			}
		}
		if started && depth == 0 {
			return b.String(), nil
		}
		if !started && strings.TrimSpace(l) != "" {
			return b.String(), nil
		}
	}
}

func parseBV(x string) (uint64, error) {
	switch {
	case x == "true":
		return 1, nil
	case x == "false":
		return 0, nil
	case strings.HasPrefix(x, "#x"):
		return strconv.ParseUint(x[2:], 16, 64)
	case strings.HasPrefix(x, "#b"):
		return strconv.ParseUint(x[2:], 2, 64)
	}
	return 0, fmt.Errorf("bad bv %q", x)
}

// getValues evaluates terms in the current model.
func (s *Solver) getValues(es []*Expr) ([]uint64, error) {
	if len(es) == 0 {
		return nil, nil
	}
	var out []uint64
	for len(es) > 0 {
		n := min(len(es), 200)
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, e := range es[:n] {
			b.WriteString(s.ref(e))
			b.WriteString(" ")
		}
		b.WriteString("))\n")
		s.w(b.String())
		x, err := s.readSexp()
		if err != nil {
			return nil, err
		}
		toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(x))
		if strings.Contains(x, "_ bv") {
			// (_ bvN w) syntax: normalise
			var t2 []string
			for i := 0; i < len(toks); i++ {
				if toks[i] == "_" && i+2 < len(toks) && strings.HasPrefix(toks[i+1], "bv") {
					v, _ := strconv.ParseUint(toks[i+1][2:], 10, 64)
					t2 = append(t2, "#x"+strconv.FormatUint(v, 16))
					i += 2
				} else {
					t2 = append(t2, toks[i])
				}
			}
			toks = t2
		}
		// values of constants may echo the term; we only ask for named terms
		if len(toks) != 2*n {
			return nil, fmt.Errorf("get-value: %q", x)
		}
		for i := 0; i < n; i++ {
			v, err := parseBV(toks[2*i+1])
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		es = es[n:]
	}
	return out, nil
}

func (s *Solver) model(vars, sels []*Expr) (*Model, error) {
	m := &Model{v: make([]uint64, len(s.ctx.vars)), uf: map[ufKey]uint64{}, ud: make([]uint64, len(s.ctx.ufs))}
	for i, v := range s.ctx.vars {
		m.v[i] = v.lo
	}
	vs, err := s.getValues(vars)
	if err != nil {
		return nil, err
	}
	for i, v := range vars {
		m.v[v.k] = vs[i]
	}
	if len(sels) > 0 {
		var q []*Expr
		for _, e := range sels {
			q = append(q, e)
		}
		vals, err := s.getValues(q)
		if err != nil {
			return nil, err
		}
		for i, e := range sels {
			s.ctx.BeginEval()
			var idx uint64
			// index may itself depend on selects; evaluate through solver when not constant
			if e.a.op == OConst {
				idx = e.a.k
			} else {
				iv, err := s.getValues([]*Expr{e.a})
				if err != nil {
					return nil, err
				}
				idx = iv[0]
			}
			m.uf[ufKey{e.k, idx}] = vals[i]
		}
	}
	return m, nil
}

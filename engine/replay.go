package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

// RIn is one concrete input of a replay.
type RIn struct {
	K   string          `json:"k"` // int, bytes, big
	V   string          `json:"v,omitempty"`
	Hex string          `json:"hex,omitempty"`
	N   uint64          `json:"n,omitempty"`
	Def byte            `json:"def,omitempty"`
	Pts map[string]byte `json:"pts,omitempty"`
}

// Replay is a concrete run of a harness.
type Replay struct {
	Property string         `json:"property,omitempty"`
	Tier     string         `json:"tier,omitempty"`
	Harness  string         `json:"harness"`
	Label    string         `json:"label,omitempty"`
	Inputs   map[string]RIn `json:"inputs"`
	Order    []string       `json:"order,omitempty"`
	Sched    []int          `json:"sched,omitempty"`
	Threads  bool           `json:"threads,omitempty"`
	Race     bool           `json:"race,omitempty"`
	Clock    bool           `json:"clock,omitempty"`
	MapOrder bool           `json:"map_order,omitempty"`
	Repeat   int            `json:"repeat,omitempty"`
	Found    string         `json:"found,omitempty"`
}

// Result of a native run.
type Result struct {
	Status string   `json:"status"` // ok, discard, violation, nondet
	Label  string   `json:"label,omitempty"`
	Obs    []string `json:"obs,omitempty"`
	Reach  []string `json:"reach,omitempty"`
}

func (in *Interp) replayOf(m *Model) *Replay {
	p := in.path
	in.c.BeginEval()
	ev := func(e *Expr) uint64 { return in.c.Eval(e, m) }
	r := &Replay{Harness: p.h.name, Inputs: map[string]RIn{}, Threads: p.threads, Race: p.race, Clock: p.usesClock, MapOrder: p.mapOrder, Tier: in.eng.tier}
	r.Sched = append(r.Sched, p.sched...)
	for _, i := range p.inputs {
		var x RIn
		switch i.kind {
		case "int":
			x = RIn{K: "int", V: strconv.FormatUint(ev(i.e), 10)}
		case "bytes":
			b := make([]byte, len(i.by))
			for k, e := range i.by {
				b[k] = byte(ev(e))
			}
			x = RIn{K: "bytes", Hex: hex.EncodeToString(b)}
		case "big":
			x = RIn{K: "big", N: ev(i.e), Pts: map[string]byte{}}
			if i.fill != nil {
				x.Def = byte(ev(i.fill))
			} else {
				if int(i.uf) < len(m.ud) {
					x.Def = byte(m.ud[i.uf])
				}
				for k, v := range m.uf {
					if k.f == i.uf && k.i < x.N {
						x.Pts[strconv.FormatUint(k.i, 10)] = byte(v)
					}
				}
			}
		}
		r.Inputs[i.name] = x
		r.Order = append(r.Order, i.name)
	}
	return r
}

const obsMax = 4096

func (in *Interp) renderObs(vals []Value, m *Model) string {
	var out []string
	ev := func(e *Expr) uint64 { return in.c.Eval(e, m) }
	str := func(n *Expr, at func(i uint64) *Expr) string {
		k := ev(n)
		if k > obsMax {
			return fmt.Sprintf("len=%d", k)
		}
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(ev(at(uint64(i))))
		}
		return "x" + hex.EncodeToString(b)
	}
	for _, v := range vals {
		f, ok := v.(Iface)
		if !ok || f.t == nil {
			out = append(out, "nil")
			continue
		}
		switch x := f.v.(type) {
		case *Expr:
			k := ev(x)
			bt, ok := f.t.Underlying().(*types.Basic)
			if !ok {
				out = append(out, "T")
				continue
			}
			w, sg, _ := widthOf(bt)
			switch {
			case w == 0:
				out = append(out, strconv.FormatBool(k == 1))
			case sg:
				out = append(out, strconv.FormatInt(sx(k, w), 10))
			default:
				out = append(out, strconv.FormatUint(k, 10))
			}
		case Str:
			if st, ok := f.t.Underlying().(*types.Slice); ok && !isByte(st.Elem()) {
				out = append(out, "T")
				continue
			}
			out = append(out, str(in.strLen(x), func(i uint64) *Expr { return in.strAt(x, in.c.Const(i, 64)) }))
		case Slice:
			if st, ok := f.t.Underlying().(*types.Slice); ok && isByte(st.Elem()) {
				out = append(out, "x")
				continue
			}
			out = append(out, "T")
		default:
			out = append(out, "T")
		}
	}
	return strings.Join(out, ",")
}

func (in *Interp) reset() {
	in.solver.Close()
	n := newInterp(in.eng)
	n.covered = in.covered
	old := in.solver
	*in = *n
	in.solver.Queries += old.Queries
	in.solver.SatN += old.SatN
	in.solver.UnsatN += old.UnsatN
	in.solver.UnkN += old.UnkN
	in.solver.Time += old.Time
}

// Native drives one process of the replay binary.
type Native struct {
	mu   sync.Mutex
	bin  string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs *tail
	t0   time.Time
	runs int64
	tmo  time.Duration
}

func (n *Native) start() error {
	n.cmd = exec.Command(n.bin)
	n.cmd.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "GOMEMLIMIT=8GiB", "GORACE=halt_on_error=1 exitcode=66"}
	var err error
	if n.in, err = n.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	n.out = bufio.NewReaderSize(o, 1<<20)
	n.errs = &tail{}
	n.t0 = time.Now()
	n.cmd.Stderr = n.errs
	return n.cmd.Start()
}

func (n *Native) Close() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

// tail keeps the beginning of what a process says before it dies.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 2000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

// Run executes one replay natively. A hang of the process is a violation, and so is a crash that
// happens again when the run is repeated in a new process.
func (n *Native) Run(r *Replay) (Result, error) {
	res, err := n.run(r)
	if err == nil && res.Label == crashed {
		res, err = n.run(r)
	}
	return res, err
}

const crashed = "process crashed"

func (n *Native) run(r *Replay) (Result, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.runs++
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return Result{}, err
		}
	}
	b, _ := json.Marshal(r)
	b = append(b, '\n')
	if _, err := n.in.Write(b); err != nil {
		n.Close()
		return Result{}, err
	}
	hung := false
	cmd := n.cmd
	tm := time.AfterFunc(n.tmo, func() { hung = true; cmd.Process.Kill() })
	var res Result
	for {
		l, err := n.out.ReadString('\n')
		if err != nil {
			tm.Stop()
			if debugNative {
				fmt.Fprintf(os.Stderr, "native process died: %s %v read error %v run %d after %v\n", n.errs.b, "", err, n.runs, time.Since(n.t0))
			}
			n.Close()
			if hung {
				return Result{Status: "violation", Label: "does not terminate"}, nil
			}
			return Result{Status: "violation", Label: crashed}, nil
		}
		if strings.HasPrefix(l, "@@VLRESULT ") {
			if err := json.Unmarshal([]byte(l[len("@@VLRESULT "):]), &res); err != nil {
				tm.Stop()
				return Result{}, err
			}
			break
		}
	}
	tm.Stop()
	return res, nil
}

var debugNative = os.Getenv("VLNATIVE") != ""

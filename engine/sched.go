package main

import (
	"golang.org/x/tools/go/ssa"
)

// Threads of the program under test are run as coroutines: exactly one runs at a time, and at every
// visible operation (atomic access, lock operation, access to memory that may be shared) the next
// thread to run is a nondeterministic choice of the exploration.

type threadKill struct{}

type thread struct {
	id      int
	wake    chan bool // true: run, false: die
	done    bool
	blockOn *Value
	excl    bool
	depth   int
}

type schedMsg struct {
	th  *thread
	err interface{} // panic value travelling to the main thread
}

type scheduler struct {
	ths  []*thread
	back chan schedMsg
	last int
	pre  int // preemptions so far
}

type muState struct {
	excl    bool
	readers int
}

type evTarget struct{}

const maxPreempt = 6

func (in *Interp) par(fr *frame, fns Slice) {
	if fns.arr == nil {
		return
	}
	if in.sched != nil {
		in.unsupported("nested Par")
	}
	n := in.concretize(fns.len)
	sc := &scheduler{back: make(chan schedMsg), last: -1}
	in.sched = sc
	in.path.threads = true
	for i := uint64(0); i < n; i++ {
		th := &thread{id: int(i), wake: make(chan bool), depth: in.depth}
		sc.ths = append(sc.ths, th)
		f := fns.arr.el[i]
		go func() {
			defer func() {
				r := recover()
				if _, ok := r.(threadKill); ok {
					r = nil
				}
				th.done = true
				sc.back <- schedMsg{th, r}
			}()
			if !<-th.wake {
				panic(threadKill{})
			}
			in.callValue(nil, f, nil)
		}()
	}
	depth := in.depth
	resume := func(t *thread) {
		in.cur = t
		in.depth = t.depth
		t.wake <- true
		m := <-sc.back
		m.th.depth = in.depth
		in.depth = depth
		in.cur = nil
		if m.err != nil {
			in.stopThreads()
			in.sched = nil
			panic(m.err)
		}
	}
	// what a thread does before its first visible operation commutes with everything
	for _, t := range sc.ths {
		resume(t)
	}
	for {
		var run []*thread
		alive := 0
		for _, t := range sc.ths {
			if t.done {
				continue
			}
			alive++
			if t.blockOn != nil && !in.lockFree(t.blockOn, t.excl) {
				continue
			}
			run = append(run, t)
		}
		if alive == 0 {
			break
		}
		if len(run) == 0 {
			in.stopThreads()
			in.sched = nil
			in.cur = nil
			in.assert(in.c.False, "deadlock")
			return
		}
		// the thread that ran last comes first; leaving it while it could go on is a preemption
		k := 0
		for i, t := range run {
			if t.id == sc.last && i > 0 {
				run[0], run[i] = run[i], run[0]
			}
		}
		cont := run[0].id == sc.last
		if len(run) > 1 && !(cont && sc.pre >= maxPreempt) {
			k = int(in.choose("sched", len(run)))
		}
		if cont && len(run) > 1 && sc.pre >= maxPreempt {
			in.eng.note("schedules with more than 6 preemptions not explored")
		}
		t := run[k]
		if cont && k != 0 {
			sc.pre++
		}
		sc.last = t.id
		resume(t)
	}
	in.sched = nil
}

// pause hands control back to the scheduler until this thread is chosen again.
func (in *Interp) pause() {
	t, sc := in.cur, in.sched
	sc.back <- schedMsg{t, nil}
	if !<-t.wake {
		panic(threadKill{})
	}
}

func (in *Interp) stopThreads() {
	if in.sched == nil {
		return
	}
	for _, t := range in.sched.ths {
		if !t.done {
			t.wake <- false
			<-in.sched.back
		}
	}
	in.sched, in.cur = nil, nil
}

// yield is a scheduling point before a synchronising operation.
func (in *Interp) yield(string) {
	if in.cur == nil {
		return
	}
	in.pause()
	in.path.sched = append(in.path.sched, in.cur.id)
}

// yieldMem is a scheduling point before a plain access to memory that other threads may see.
func (in *Interp) yieldMem(ins ssa.Instruction, addr ssa.Value) {
	if in.cur == nil || localAddr(addr) {
		return
	}
	if _, ok := addr.(*ssa.FreeVar); ok {
		// captured harness variables are written by one thread only
		return
	}
	in.pause()
}

func (in *Interp) mu(p *Value) *muState {
	if in.mutexes == nil {
		in.mutexes = map[*Value]*muState{}
	}
	m := in.mutexes[p]
	if m == nil {
		m = &muState{}
		in.mutexes[p] = m
	}
	return m
}

func (in *Interp) lockFree(p *Value, excl bool) bool {
	m := in.mu(p)
	if excl {
		return !m.excl && m.readers == 0
	}
	return !m.excl
}

func (in *Interp) lock(p *Value, excl bool) {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if in.path == nil {
		return
	}
	if in.cur == nil {
		if !in.lockFree(p, excl) {
			in.assert(in.c.False, "deadlock: lock never released")
		}
	} else {
		in.cur.blockOn, in.cur.excl = p, excl
		in.pause()
		in.cur.blockOn = nil
	}
	m := in.mu(p)
	if excl {
		m.excl = true
	} else {
		m.readers++
	}
}

func (in *Interp) unlock(p *Value, excl bool) {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if in.path == nil {
		return
	}
	if in.cur != nil {
		in.pause()
	}
	m := in.mu(p)
	if excl {
		if !m.excl {
			in.assert(in.c.False, "fatal error: unlock of unlocked mutex")
		}
		m.excl = false
		return
	}
	if m.readers == 0 {
		in.assert(in.c.False, "fatal error: unlock of unlocked mutex")
	}
	m.readers--
}

func (in *Interp) tryLock(p *Value) bool {
	in.yield("sched")
	if !in.lockFree(p, true) {
		return false
	}
	in.mu(p).excl = true
	return true
}

package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tracker records which memory a function touches without synchronisation (sym.Alone). Goroutines that
// execute the function at the same time race on everything that is reachable from the package variables
// of the code under test, or from what the function captured, and was written without a lock, or written under one and read without.
type tracker struct {
	guard  int
	once   int                  // inside sync.Once: published to every caller
	wrote  map[interface{}]bool // *Value, *Arr, *Map written without synchronisation
	locked map[interface{}]bool // written under a lock
	read   map[interface{}]bool // read without synchronisation
}

func (in *Interp) guarded() bool {
	if in.track.guard > 0 {
		return true
	}
	for _, m := range in.mutexes {
		if m.excl || m.readers > 0 {
			return true
		}
	}
	return false
}

func (in *Interp) trackWrite(o interface{}) {
	if in.path == nil || in.track.once > 0 {
		return
	}
	if in.guarded() {
		in.track.locked[o] = true
	} else {
		in.track.wrote[o] = true
	}
}

func (in *Interp) trackRead(o interface{}) {
	if in.path != nil && in.track.guard == 0 && !in.guarded() {
		in.track.read[o] = true
	}
}

// guardedBy runs an operation that synchronises itself.
func (in *Interp) guardedBy(f func() Value) Value {
	if in.track == nil {
		return f()
	}
	in.track.guard++
	t := in.track
	defer func() { t.guard-- }()
	return f()
}

// alone runs f and asserts that nothing shared was touched without synchronisation.
func (in *Interp) alone(fr *frame, f Value) {
	if in.track != nil || in.sched != nil {
		in.unsupported("nested Alone")
	}
	in.track = &tracker{wrote: map[interface{}]bool{}, locked: map[interface{}]bool{}, read: map[interface{}]bool{}}
	defer func() { in.track = nil }()
	in.callValue(fr, f, nil)
	t := in.track
	in.track = nil
	if g := in.sharedWrite(t, f); g != "" {
		in.path.race = true
		in.assert(in.c.False, "unsynchronised access to "+g+", which other goroutines share")
	}
}

// sharedWrite names a package variable through which racy memory is reachable, or a value that f was given.
func (in *Interp) sharedWrite(t *tracker, f Value) string {
	if len(t.wrote) == 0 && len(t.locked) == 0 {
		return ""
	}
	seen := map[interface{}]bool{}
	bad := func(o interface{}) bool { return t.wrote[o] || t.locked[o] && t.read[o] }
	var walk func(v Value) bool
	cell := func(p *Value) bool {
		if p == nil || seen[p] {
			return false
		}
		seen[p] = true
		return bad(p) || walk(*p) || walk(in.smaps[p])
	}
	arr := func(a *Arr) bool {
		if a == nil || seen[a] {
			return false
		}
		seen[a] = true
		if bad(a) {
			return true
		}
		for i := range a.el {
			if cell(&a.el[i]) {
				return true
			}
		}
		return false
	}
	walk = func(v Value) bool {
		switch x := v.(type) {
		case *Value:
			return cell(x)
		case ElemPtr:
			return arr(x.arr)
		case Struct:
			for i := range x {
				if cell(&x[i]) {
					return true
				}
			}
		case *Arr:
			return arr(x)
		case Slice:
			return arr(x.arr)
		case *Map:
			if x == nil || seen[x] {
				return false
			}
			seen[x] = true
			if bad(x) {
				return true
			}
			for i := range x.e {
				if !x.e[i].dead && (walk(x.e[i].k) || walk(x.e[i].v)) {
					return true
				}
			}
		case Iface:
			return walk(x.v)
		case *Closure:
			if x == nil || seen[x] {
				return false
			}
			seen[x] = true
			for _, e := range x.env {
				if walk(e) {
					return true
				}
			}
		case Tuple:
			for _, e := range x {
				if walk(e) {
					return true
				}
			}
		}
		return false
	}
	for g, p := range in.globals {
		if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), repoModule) || strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		if cell(p) {
			return globalName(g)
		}
	}
	if walk(f) {
		return "the values"
	}
	return ""
}

const repoModule = "github.com/VolantMQ/vlapi"

func globalName(g *ssa.Global) string { return g.Pkg.Pkg.Name() + "." + g.Name() }

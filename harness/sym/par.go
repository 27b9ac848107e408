package sym

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type pth struct {
	wake chan struct{}
	done bool
}

type ctl struct {
	ths  []*pth
	back chan int
	cur  int
	free int32
}

var (
	parMu sync.Mutex
	par   *ctl
	pfree int32
)

// Par runs the functions as concurrent threads.
func Par(fs ...func()) {
	var mu sync.Mutex
	var first interface{}
	guard := func(f func()) {
		defer func() {
			if x := recover(); x != nil {
				mu.Lock()
				if first == nil {
					first = x
				}
				mu.Unlock()
			}
		}()
		f()
	}
	if cur.free {
		atomic.StoreInt32(&pfree, 1)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, f := range fs {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				guard(f)
			}()
		}
		close(start)
		wg.Wait()
		atomic.StoreInt32(&pfree, 0)
		if first != nil {
			panic(first)
		}
		return
	}
	c := &ctl{back: make(chan int, 64)}
	par = c
	for i, f := range fs {
		t := &pth{wake: make(chan struct{}, 1)}
		c.ths = append(c.ths, t)
		i, f := i, f
		go func() {
			<-t.wake
			guard(f)
			t.done = true
			c.back <- i
		}()
	}
	ok := true
	step := func(i int) {
		if !ok || c.ths[i].done {
			return
		}
		c.cur = i
		c.ths[i].wake <- struct{}{}
		select {
		case <-c.back:
		case <-time.After(300 * time.Millisecond):
			// blocked on a real lock: let everything run freely
			ok = false
		}
	}
	for i := range fs {
		step(i)
	}
	for _, i := range cur.r.Sched {
		if i < len(fs) {
			step(i)
		}
	}
	for i := range fs {
		for ok && !c.ths[i].done {
			step(i)
		}
	}
	if !ok {
		atomic.StoreInt32(&c.free, 1)
		for _, t := range c.ths {
			close(t.wake)
		}
		time.Sleep(time.Second)
	}
	par = nil
	if first != nil {
		panic(first)
	}
}

// Alone runs f, which must not ask for inputs. The engine checks that f leaves shared memory alone; a
// native build with the race detector runs f in two goroutines.
func Alone(f func()) {
	if !raceBuild {
		f()
		return
	}
	var wg sync.WaitGroup
	var first [2]interface{}
	start := make(chan struct{})
	for i := range first {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { first[i] = recover() }()
			<-start
			for k := 0; k < 4; k++ {
				f()
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, x := range first {
		if x != nil {
			panic(x)
		}
	}
}

// Yield is called by the instrumented build before every atomic operation.
func Yield() {
	if c := par; c != nil && atomic.LoadInt32(&c.free) == 0 {
		i := c.cur
		c.back <- i
		<-c.ths[i].wake
		return
	}
	if atomic.LoadInt32(&pfree) == 1 {
		if n := rand.Intn(8); n == 0 {
			runtime.Gosched()
		}
	}
}

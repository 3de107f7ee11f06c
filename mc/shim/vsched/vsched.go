// Package vsched runs goroutines one at a time and decides at every scheduling
// point which one goes on. The points are put into instrumented copies of the
// code under check.
//
// The handover of control is invisible to the race detector (plain memory in
// functions that it does not instrument), so that in a binary built with -race
// the only ordering that it knows between the goroutines is the one made by
// the code under check: two accesses that are not ordered by it are reported
// in whatever schedule they happen.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"unsafe"
)

const (
	evNone = iota
	evSync
	evCall
	evBlock
	evDone
)

const coordinator = -1

// The state below is only accessed from the norace functions.
var (
	active  bool
	free    bool // every goroutine may run to its end
	turn    int
	event   int
	calls   bool // function entries are points, too
	quiet   bool // nobody else may get the turn: points are not reported
	syncs   int  // consecutive synchronization points of a goroutine
	points  int64
	oncePtr [64]unsafe.Pointer // sync.Once values being run
)

//go:norace
//go:noinline
func report(ev int) {
	me := turn
	event = ev
	turn = coordinator
	if ev == evDone {
		return
	}
	for turn != me && !free {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func await(w int) int {
	turn = w
	for turn != coordinator {
		runtime.Gosched()
	}
	return event
}

//go:norace
//go:noinline
func first(me int) {
	for turn != me && !free {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func last(me int) {
	if !free {
		report(evDone)
	}
}

//go:norace
//go:noinline
func setup(on, withCalls bool) {
	active, free, calls, quiet, syncs, points = on, false, withCalls, false, 0, 0
	turn = coordinator - 1
	for i := range oncePtr {
		oncePtr[i] = nil
	}
}

//go:norace
//go:noinline
func release() { free = true }

//go:norace
//go:noinline
func setQuiet(q bool) { quiet = q; syncs = 0 }

//go:norace
//go:noinline
func numPoints() int64 { return points }

// F is a point at the entry of a function.
//
//go:norace
//go:noinline
func F() {
	if !active || free || !calls {
		return
	}
	points++
	if !quiet {
		report(evCall)
	}
}

//go:norace
//go:noinline
func s() {
	if !active || free {
		return
	}
	points++
	syncs++
	if syncs > 3000 { // it may be waiting for another one
		syncs = 0
		report(evBlock)
	} else if !quiet {
		report(evSync)
	}
}

//go:norace
//go:noinline
func block() {
	if !active || free {
		runtime.Gosched()
		return
	}
	report(evBlock)
}

// S is a point before a synchronization operation, given as a function.
func S[F any](f F) F {
	s()
	return f
}

// Lock replaces the Lock (RLock) method of a mutex, from its TryLock method.
func Lock(try func() bool) func() {
	return func() {
		s()
		for !try() {
			block()
		}
	}
}

//go:norace
//go:noinline
func onceEnter(p unsafe.Pointer) bool {
	if !active || free {
		return true
	}
	slot := -1
	for i := range oncePtr {
		if oncePtr[i] == p {
			return false
		}
		if oncePtr[i] == nil {
			slot = i
		}
	}
	if slot >= 0 {
		oncePtr[slot] = p
	}
	return true
}

//go:norace
//go:noinline
func onceLeave(p unsafe.Pointer) {
	for i := range oncePtr {
		if oncePtr[i] == p {
			oncePtr[i] = nil
		}
	}
}

// Once replaces the Do method of a sync.Once.
func Once(o *sync.Once) func(func()) {
	return func(f func()) {
		s()
		p := unsafe.Pointer(o)
		for !onceEnter(p) {
			block()
		}
		defer onceLeave(p)
		o.Do(f)
	}
}

// Send replaces a send to a channel. Unbuffered channels are left alone.
func Send[T any](ch chan<- T, v T) {
	s()
	if cap(ch) == 0 {
		ch <- v
		return
	}
	for {
		select {
		case ch <- v:
			return
		default:
			block()
		}
	}
}

// Recv2 and Recv replace a receive from a channel.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	s()
	if cap(ch) == 0 {
		v, ok = <-ch
		return
	}
	for {
		select {
		case v, ok = <-ch:
			return
		default:
			block()
		}
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// OnceFunc, OnceValue and OnceValues replace those of package sync.
func OnceFunc(f func()) func() {
	o := new(sync.Once)
	return func() { Once(o)(f) }
}

func OnceValue[T any](f func() T) func() T {
	o, v := new(sync.Once), *new(T)
	return func() T {
		Once(o)(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	o, a, b := new(sync.Once), *new(A), *new(B)
	return func() (A, B) {
		Once(o)(func() { a, b = f() })
		return a, b
	}
}

// Decider makes the decisions: a value in [0, n).
type Decider interface {
	Choose(n int) int
}

// Result is what a goroutine gave.
type Result struct {
	Out   string
	Panic string
}

// Schedule describes a finished run.
type Schedule struct {
	Results   []Result
	Switches  []string
	Points    int64
	Deadlock  bool
	Decisions int
}

// Run runs the functions under the scheduler, with up to preemptions forced
// switches. With calls, function entries are points, too.
func Run(d Decider, calls bool, preemptions int, fns []func() string) *Schedule {
	n := len(fns)
	res := make([]Result, n)
	var wg sync.WaitGroup
	setup(true, calls)
	for i := range fns {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer last(i)
			first(i)
			defer func() {
				if p := recover(); p != nil {
					res[i].Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
				}
			}()
			res[i].Out = fns[i]()
		}()
	}
	out := &Schedule{}
	defer func() { // also when a decision ends the execution
		release()
		if out.Deadlock {
			return // they wait forever
		}
		wg.Wait()
		setup(false, false)
	}()
	done, blocked := make([]bool, n), make([]bool, n)
	others := func(me int) (list []int) {
		for i := range fns {
			if i != me && !done[i] && !blocked[i] {
				list = append(list, i)
			}
		}
		return
	}
	cur := d.Choose(n)
	budget := preemptions
	left := n
	var progress int64 = -1 // points passed when all blocked ones were retried
	for {
		rest := others(cur)
		setQuiet(budget == 0 || len(rest) == 0)
		ev := await(cur)
		switch ev {
		case evSync, evCall:
			if budget == 0 || len(rest) == 0 {
				continue
			}
			out.Decisions++
			if k := d.Choose(1 + len(rest)); k > 0 {
				budget--
				for i := range blocked {
					blocked[i] = false
				}
				out.Switches = append(out.Switches, fmt.Sprintf("at point %d: %d -> %d", numPoints(), cur, rest[k-1]))
				cur = rest[k-1]
			}
		case evBlock, evDone:
			if ev == evDone {
				done[cur] = true
				left--
				for i := range blocked {
					blocked[i] = false
				}
			} else {
				blocked[cur] = true
			}
			if left == 0 {
				wg.Wait()
				out.Results = res
				out.Points = numPoints()
				return out
			}
			rest = others(cur)
			if len(rest) == 0 && progress != numPoints() {
				progress = numPoints()
				for i := range blocked {
					blocked[i] = false
				}
				if rest = others(cur); len(rest) == 0 && ev == evBlock {
					rest = []int{cur}
				}
			}
			if len(rest) == 0 {
				out.Deadlock = true
				out.Points = numPoints()
				return out
			}
			next := rest[d.Choose(len(rest))]
			out.Switches = append(out.Switches, fmt.Sprintf("at point %d: %d ends or waits -> %d", numPoints(), cur, next))
			cur = next
		}
	}
}

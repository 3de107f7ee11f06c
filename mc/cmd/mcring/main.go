// Command mcring explores the ring buffer of the testers.
package main

import (
	"fmt"

	"github.com/tinne26/ggfnt/internal"
	"github.com/tinne26/ggfnt/verifmc/explore"
)

type X = explore.X

func main() { explore.Main() }

func init() {
	explore.Register(&explore.Check{
		ID: "C27", Title: "ring buffer",
		Rule: "three families: (graph) the reachable states of a buffer of bounded capacity, breadth first, every operation tried in every state, until there are no new states; (histories) all operation sequences up to the depth, without merging states; (large) all short operation sequences from prepared buffers at the limits of the index type; after every operation the buffer is compared with a slice and a cursor, by draining and peeking through a copy of the history; a state is the content of the fields of the buffer",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "graph: capacities up to 5; histories: depth 7 with capacities up to 3; large: capacities 32767..65535, 11 head positions, 9 sizes, 3 operations"
			}
			return "graph: capacities up to 5; histories: depth 5 with capacities up to 3; large: capacities 32767..65535, 11 head positions, 7 sizes, 2 operations"
		},
		Assume: []string{"what a failed peek returns as the element is not compared", "in the graph, elements are named by the smallest free number and states that only differ in memory beyond the capacity are merged (the histories do not merge)"},
		Body:   c27, QuickSec: 200, ThorSec: 820,
	})
}

type ring = internal.CircularBufferU16[int]

// model is the reference: a queue and a cursor.
type model struct {
	q        []int
	capacity int
	cursor   int
}

func (m *model) fresh() int {
	for v := 1; ; v++ {
		used := false
		for _, q := range m.q {
			used = used || q == v
		}
		if !used {
			return v
		}
	}
}

type op struct {
	kind int
	arg  int
}

const (
	push = iota
	popHead
	popTail
	peek
	discard
	confirm
	clear
	setCap
	setMin
	kinds
)

var names = []string{"Push", "PopHead", "PopTail", "PeekAhead", "DiscardPeeks", "ConfirmPeeks", "Clear", "SetCapacity", "SetMinCapacity"}

func (o op) String() string {
	if o.kind == setCap || o.kind == setMin || o.kind == push {
		return fmt.Sprintf("%s(%d)", names[o.kind], o.arg)
	}
	return names[o.kind]
}

func caught(f func()) (panicked bool) {
	defer func() { panicked = recover() != nil }()
	f()
	return
}

// apply runs an operation on both; it returns a description of a difference.
func apply(b *ring, m *model, o op) string {
	bad := ""
	fail := func(format string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf("%v: ", o) + fmt.Sprintf(format, a...)
		}
	}
	crash := func(f func()) {
		defer func() {
			if p := recover(); p != nil {
				explore.Rethrow(p)
				fail("unexpected panic: %v", p)
			}
		}()
		f()
	}
	n := len(m.q)
	switch o.kind {
	case push:
		if n == m.capacity {
			if !caught(func() { b.Push(o.arg) }) {
				fail("accepted by a full buffer")
			}
			break
		}
		crash(func() { b.Push(o.arg) })
		m.q = append(m.q, o.arg)
	case popHead, popTail:
		var got int
		f := func() { got = b.PopHead() }
		if o.kind == popTail {
			f = func() { got = b.PopTail() }
		}
		if n == 0 {
			if !caught(f) {
				fail("accepted by an empty buffer")
			}
			break
		}
		crash(f)
		want := m.q[0]
		if o.kind == popHead {
			m.q = m.q[1:]
			m.cursor = max(0, m.cursor-1)
		} else {
			want = m.q[n-1]
			m.q = m.q[:n-1]
			m.cursor = max(0, min(m.cursor, n-2))
		}
		if got != want {
			fail("gives %d, expected %d", got, want)
		}
	case peek:
		var got int
		var ok bool
		crash(func() { got, ok = b.PeekAhead() })
		if want := m.cursor+1 < n; ok != want {
			fail("gives %v, expected %v", ok, want)
		} else if ok {
			m.cursor++
			if got != m.q[m.cursor] {
				fail("gives %d, expected %d", got, m.q[m.cursor])
			}
		}
	case discard:
		crash(b.DiscardPeeks)
		m.cursor = 0
	case confirm:
		crash(b.ConfirmPeeks)
		m.q = m.q[m.cursor:]
		m.cursor = 0
	case clear:
		crash(b.Clear)
		m.q, m.cursor = nil, 0
	case setCap, setMin:
		var ok bool
		f := func() { ok = b.SetCapacity(uint16(o.arg)) }
		target := o.arg
		if o.kind == setMin {
			f = func() { ok = b.SetMinCapacity(uint16(o.arg)) }
			target = max(target, m.capacity)
		}
		crash(f)
		if want := target >= n; ok != want {
			fail("gives %v, expected %v", ok, want)
		} else if want {
			m.capacity = target
		}
	}
	if bad != "" {
		return bad
	}
	n = len(m.q)
	if int(b.Capacity()) != m.capacity || int(b.Size()) != n || b.IsEmpty() != (n == 0) {
		fail("capacity %d, size %d, empty %v; expected capacity %d, size %d", b.Capacity(), b.Size(), b.IsEmpty(), m.capacity, n)
	}
	if bad == "" {
		var h, t int
		get := func() { h, t = b.Head(), b.Tail() }
		if n == 0 {
			if !caught(func() { h = b.Head() }) || !caught(func() { t = b.Tail() }) {
				fail("an empty buffer has a head or tail")
			}
		} else if crash(get); bad == "" && (h != m.q[0] || t != m.q[n-1]) {
			fail("head %d, tail %d; expected %d, %d", h, t, m.q[0], m.q[n-1])
		}
	}
	return bad
}

// run replays a history from scratch.
func run(h []op) (*ring, *model, string) {
	b, m := &ring{}, &model{}
	for i, o := range h {
		if bad := apply(b, m, o); bad != "" {
			return b, m, fmt.Sprintf("%v, step %d: %s", h, i, bad)
		}
	}
	return b, m, ""
}

// drain looks at everything: the rest of the elements from the cursor on, and
// all of them from the head (kind 0) or the tail (kind 1).
func drain(b *ring, m *model, kind int) string {
	for limit := len(m.q) + 1; limit > 0; limit-- {
		if bad := apply(b, m, op{peek, 0}); bad != "" {
			return "looking ahead: " + bad
		}
	}
	for len(m.q) > 0 {
		if bad := apply(b, m, op{popHead + kind, 0}); bad != "" {
			return "emptying: " + bad
		}
	}
	return ""
}

func alphabet(m *model, maxCap int) (out []op) {
	out = append(out, op{push, m.fresh()})
	for k := popHead; k <= clear; k++ {
		out = append(out, op{k, 0})
	}
	for c := 0; c <= maxCap; c++ {
		if c != m.capacity {
			out = append(out, op{setCap, c})
		}
	}
	if m.capacity > 0 {
		out = append(out, op{setMin, m.capacity - 1})
	}
	if m.capacity < maxCap {
		out = append(out, op{setMin, m.capacity + 1})
	}
	return out
}

func c27(x *X) {
	switch x.Choose(3) {
	case 0:
		graph(x, 1+x.Choose(5))
	case 1:
		histories(x)
	case 2:
		large(x)
	}
}

const stateLimit = 400_000

func graph(x *X, maxCap int) {
	if x.Planning() {
		return
	}
	key := func(b *ring, m *model) uint64 { return explore.HashOf(fmt.Sprint(*b), m.q, m.capacity, m.cursor) }
	check := func(h []op) (uint64, *model) {
		b, m, bad := run(h)
		if bad != "" {
			x.Failf("%s", bad)
		}
		return key(b, m), m
	}
	seen := map[uint64]bool{}
	queue := [][]op{nil}
	k, _ := check(nil)
	seen[k] = true
	x.State(explore.HashOf(maxCap, k))
	for len(queue) > 0 {
		h := queue[0]
		queue = queue[1:]
		_, m := check(h)
		for kind := 0; kind < 2; kind++ {
			b, m, _ := run(h)
			if bad := drain(b, m, kind); bad != "" {
				x.Failf("after %v, %s", h, bad)
			}
		}
		for _, o := range alphabet(m, maxCap) {
			next := append(h[:len(h):len(h)], o)
			k, _ := check(next)
			x.Step()
			if !seen[k] {
				seen[k] = true
				x.State(explore.HashOf(maxCap, k))
				queue = append(queue, next)
			}
		}
		if len(seen) > stateLimit {
			panic("harness: the state graph does not close")
		}
	}
	x.CountN(fmt.Sprintf("states of capacities up to %d", maxCap), int64(len(seen)))
	x.Outcome(explore.HashOf(maxCap, len(seen)))
}

func histories(x *X) {
	const maxCap = 3
	b, m := &ring{}, &model{}
	var h []op
	depth := x.Pick(5, 7)
	// a first capacity, to spare the operations on nothing
	h = append(h, op{setCap, 1 + x.Choose(maxCap)})
	if bad := apply(b, m, h[0]); bad != "" {
		x.Failf("%v: %s", h, bad)
	}
	serial := 10
	for i := 0; i < depth; i++ {
		a := alphabet(m, maxCap)
		o := a[x.Choose(len(a))]
		if o.kind == push {
			serial++
			o.arg = serial
		}
		h = append(h, o)
		if bad := apply(b, m, o); bad != "" {
			x.Failf("%v: %s", h, bad)
		}
		x.Step()
	}
	x.Logf("%v -> %v, cursor %d", h, m.q, m.cursor)
	x.State(explore.HashOf(1000, fmt.Sprint(*b)))
	x.Outcome(explore.HashOf(m.q, m.cursor, m.capacity))
	if bad := drain(b, m, x.Choose(2)); bad != "" {
		x.Failf("%v: %s", h, bad)
	}
}

func large(x *X) {
	caps := []int{32767, 32768, 40000, 65534, 65535}
	c := caps[x.Choose(len(caps))]
	heads := []int{0, 1, 2, c / 2, c/2 + 1, 25535, 25536, 32767, c - 3, c - 2, c - 1}
	head := heads[x.Choose(len(heads))]
	sizes := []int{0, 1, 2, c / 2, c - 2, c - 1, c, 32768, 40000}
	size := min(sizes[x.Choose(x.Pick(7, 9))], c)
	var h []op
	b, m := &ring{}, &model{}
	serial := 0
	do := func(o op) {
		if o.kind == push {
			serial++
			o.arg = serial
		}
		if bad := apply(b, m, o); bad != "" {
			x.Failf("capacity %d, head at %d, %d elements, then %v: %v: %s", c, head, size, h, o, bad)
		}
	}
	do(op{setCap, c})
	for i := 0; i < head; i++ { // without the comparisons of do
		b.Push(i)
		b.PopHead()
	}
	m.q = make([]int, 0, size+8)
	for i := 0; i < size; i++ {
		serial++
		b.Push(serial)
		m.q = append(m.q, serial)
	}
	peeks := []int{0, 1, size / 2, size - 1}
	for i := min(peeks[x.Choose(4)], size-1); i > 0; i-- {
		if v, ok := b.PeekAhead(); !ok || v != m.q[m.cursor+1] {
			x.Failf("capacity %d, head at %d, %d elements: peek %d gives %d, %v", c, head, size, m.cursor+1, v, ok)
		}
		m.cursor++
	}
	n := x.Pick(2, 3)
	for i := 0; i < n; i++ {
		o := op{kind: x.Choose(setMin)}
		if o.kind == setCap {
			targets := []int{size, size + 1, 32768, 50000, 65534, 65535}
			o.arg = min(65535, targets[x.Choose(len(targets))])
		}
		h = append(h, o)
		do(o)
		x.Step()
	}
	x.State(explore.HashOf(2000, c, head, size, h))
	x.Logf("capacity %d, head at %d, %d elements, %v", c, head, size, h)
	x.Outcome(explore.HashOf(m.cursor, m.capacity, len(m.q)))
	for _, k := range []int{1, 2, 3} { // not element by element: look at the ends
		if len(m.q) == 0 {
			break
		}
		do(op{peek, 0})
		do(op{popHead + k%2, 0})
	}
	for len(m.q) > 0 { // and everything else, quietly
		want := m.q[0]
		m.q = m.q[1:]
		if got := b.PopHead(); got != want {
			x.Failf("capacity %d, head at %d, %d elements, then %v: %d comes out instead of %d", c, head, size, h, got, want)
		}
	}
}

package main

import (
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C19", Title: "sequence isolation",
		Rule: "one execution = one history of begin, feed, break, finish and failing begin operations on a tester; the elements fed between two flushes must give the outputs of the reference rewriter for them alone, with every intermediate pending count agreeing with one of its steps; a state is the rules, the elements of the current part and the last operation",
		Bounds: func(t string) string {
			n := "8"
			if t == "thorough" {
				n = "10"
			}
			return "all histories of up to " + n + " operations (feeding 3 symbols, ignored, rejected ones; break; finish; begin; a begin that fails) over 7 rule lists that keep partial matches and tails pending, for both kinds of testers"
		},
		Body: c19, QuickSec: 200, ThorSec: 820,
	})
}

func c19lists() [][]spec.Rule {
	i12 := rwInterval(1, 2)
	v := func(l ...uint32) (out []spec.Elem) {
		for _, e := range l {
			out = append(out, spec.V(e))
		}
		return out
	}
	r := func(h, b, t []spec.Elem, o uint32) spec.Rule {
		return spec.Rule{Cond: 255, Head: h, Body: b, Tail: t, Out: []uint32{o}}
	}
	return [][]spec.Rule{
		{r(nil, v(1, 2, 1, 3), nil, 210), r(nil, v(2), v(1), 211)},
		{r(nil, v(1), v(2, 1), 210), r(v(2), v(1), nil, 211)},
		{r(v(1), v(2), v(1, 1), 210), r(v(1, 1), v(1), nil, 211), r(nil, v(1, 1), nil, 212)},
		{r(nil, []spec.Elem{spec.S(i12), spec.S(rwInterval(2, 3))}, []spec.Elem{spec.S(rwList)}, 210)},
		{r(nil, v(1, 2, 2, 1, 2, 3), nil, 210), r(nil, v(2), nil, 211)},
		{r(nil, v(1, 2, 1, 2, 1, 3), nil, 210), r(nil, v(2, 1), nil, 211), r(v(2), v(2), nil, 212)},
		{},
	}
}

// c19part is the part of a sequence since the last flush.
type c19part struct {
	seq   []uint8
	marks [][3]int // fed, pending, emitted
	got   []uint32
}

func c19(x *X) {
	env := rwEnvOf(pick(x, []*rwKind{rwGlyphs, rwRunes}))
	lists := c19lists()
	which := x.Choose(len(lists))
	var rules []*rwRule
	for _, r := range lists[which] {
		rules = append(rules, env.rule(r))
	}
	t := env.kind.tester()
	run := newRwRun(x, env, t, rules)
	run.addAll()
	// a rule that can't be compiled
	bad := env.rule(spec.Rule{Cond: 255, Body: []spec.Elem{spec.V(1), spec.V(1)}, Out: []uint32{250}}).data
	bad[len(bad)-1] = 1
	x.Logf("%s, rules %d", env.kind.name, which)
	log := fmt.Sprintf("%s, rules %d:", env.kind.name, which)
	var part c19part
	operating := false
	emit := func(v uint32) { part.got = append(part.got, v) }
	mark := func() { part.marks = append(part.marks, [3]int{len(part.seq), t.pending(), len(part.got)}) }
	flush := func() {
		if t.pending() != 0 {
			x.Failf("%s %d elements are pending", log, t.pending())
		}
		if run.plan(part.seq) {
			if fmt.Sprint(part.got) != fmt.Sprint(run.want) {
				x.Failf("%s the part %v gave %v, expected %v", log, part.seq, part.got, run.want)
			}
			for _, m := range part.marks {
				if m[1] < 0 || m[1] > m[0] || run.at[m[0]-m[1]] != m[2] {
					x.Failf("%s in the part %v, after %d elements: %d pending and %d reported don't agree", log, part.seq, m[0], m[1], m[2])
				}
			}
		} else {
			x.Count("unsettled parts")
		}
		for _, v := range part.got {
			run.hash = explore.HashU(run.hash, uint64(v))
		}
		part = c19part{}
	}

	note := func(s string) {
		log += " " + s

		x.Logf("%s", s)
	}
	status := func() {
		if t.operating() != operating {
			x.Failf("%s: IsOperating is %v", log, t.operating())
		}
		if t.numRules() != len(rules) {
			x.Failf("%s: NumRules is %d", log, t.numRules())
		}
		if !operating && t.pending() != 0 {
			x.Failf("%s: %d elements are pending", log, t.pending())
		}
	}
	begin := func() {
		if err := t.begin(env.font, nil); err != nil {
			x.Failf("%s: BeginSequence fails: %v", log, err)
		}
		operating = true
	}
	end := func(what string) {
		note(what)
		if what == "break" {
			t.brk(emit)
		} else {
			t.finish(emit)
			operating = false
		}
		flush()
	}
	depth := x.Pick(8, 10)
	x.NoPanic(log, func() {
		for i := 0; i < depth; i++ {
			x.Step()
			if !operating {
				switch x.Choose(4) {
				case 0:
					note("begin")
					begin()
				case 1:
					note("failing begin")
					if err := t.add(bad); err != nil {
						x.Failf("AddRule fails: %v", err)
					}
					if t.begin(env.font, nil) == nil {
						x.Failf("%s: BeginSequence accepts a malformed rule", log)
					}
					if t.operating() || t.pending() != 0 {
						x.Failf("%s: operating %v, pending %d", log, t.operating(), t.pending())
					}
					if !t.remove(bad) {
						x.Failf("%s: RemoveRule doesn't find the malformed rule", log)
					}
				case 2:
					note("clear and add again")
					t.removeAll()
					run.addAll()
				case 3: // done
					i = depth
				}
				status()
				continue
			}
			switch op := x.Choose(7); op {
			case 0, 1, 2:
				s := uint8(op + 1)
				note(fmt.Sprint(s))
				part.seq = append(part.seq, s)
				if err := t.feed(env.kind.value(s), emit); err != nil {
					x.Failf("%s: Feed fails: %v", log, err)
				}
				mark()
			case 3:
				if env.kind.wide {
					x.Prune()
				}
				note("zilch")
				if err := t.feed(uint32(ggfnt.GlyphZilch), emit); err != nil {
					x.Failf("%s: Feed of the zilch glyph fails: %v", log, err)
				}
				mark()
			case 4:
				note("rejected element")
				list := []uint32{uint32(ggfnt.GlyphNewLine), 56900, 65535}
				if env.kind.wide {
					list = []uint32{0xFFFD, 0xD800, 0x110000, 0xFFFFFFFF}
				}
				for _, v := range list {
					if t.feed(v, emit) == nil {
						x.Failf("%s: Feed accepts %X", log, v)
					}
				}
				mark()
			case 5:
				end("break")
			case 6:
				end("finish")
			}
			status()
		}
		if operating {
			end("break")
			end("finish")
			status()
		}
	})
	x.State(explore.HashOf(log))
	x.Outcome(run.hash)
}

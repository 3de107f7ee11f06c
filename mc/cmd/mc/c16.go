package main

import (
	"sync"

	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	for _, k := range []*rwKind{rwGlyphs, rwRunes} {
		k, id := k, "C16"
		if k.wide {
			id = "C17"
		}
		explore.Register(&explore.Check{
			ID: id, Title: "rewriting " + k.name,
			Rule: "one execution = one list of rules in a tester; all sequences of the family are then run through it, and after every element the reported outputs and the pending count must be those of a step of the reference rewriter, and all of them at the end; a state is a list of rules, an outcome all its outputs",
			Bounds: func(t string) string {
				if t == "thorough" {
					return "pairs of all rules of up to 3 elements over 2 symbols, 2 sets (thorough: 3) and all splits; triples of all rules of up to 2 elements over 2 symbols and 3 sets; pairs of all rules of up to 4 elements over 2 symbols, with all sequences of up to 9 of them; triples and quadruples of intervals at every position of a rule; all sets of the menu at all positions; structured families at the limits (254 rules, 255 elements, 254 transitions, ranges split in up to 254 transitions, many tails); lists of rules over 20 values at byte, sign and range boundaries and all their ranges, with all sequences of up to 2 of those values and one that is in no rule (the missing glyph)"
				}
				return "pairs of all rules of up to 3 elements over 2 symbols and a set, all splits in head, body and tail, with all sequences of up to 5 of 3 symbols; triples of all rules of up to 2 elements over 2 symbols and a set; pairs of all rules of up to 4 elements over 2 symbols (one side limited to 3), with all sequences of up to 7; triples of intervals at every position of a rule; all sets of the menu; structured families at the limits (254 rules, 255 elements, 254 transitions, ranges split in up to 254 transitions, many tails); lists of rules over 20 values at byte, sign and range boundaries and all their ranges, with all sequences of up to 2 of those values and one that is in no rule (the missing glyph)"
			},
			Assume: []string{"sequences where two rules of the same length compete and the first one is excluded by an already reported tail are not compared (the definition does not settle them)"},
			Init:   func(tier string) { c16init(tier == "thorough") },
			Body:   func(x *X) { c16(x, rwEnvOf(k)) }, QuickSec: 200, ThorSec: 820,
		})
	}
}

type c16family struct {
	name  string
	rules [][]spec.Rule // candidates for each rule
	seqs  [][]uint8
}

var c16families []c16family
var c16once sync.Once

func c16init(thorough bool) {
	c16once.Do(func() {
		outA, outB, outC := []uint32{1, 2}, []uint32{220, 221, 222}, []uint32{240, 241}
		add := func(name string, seqs [][]uint8, rules ...[]spec.Rule) {
			c16families = append(c16families, c16family{name, rules, seqs})
		}
		i12, i23 := rwInterval(1, 2), rwInterval(2, 3)
		// pairs of rules up to 3 elements
		al := rwElems([]uint32{1, 2}, []uint32{i12})
		if thorough {
			al = rwElems([]uint32{1, 2}, []uint32{i12, i23})
		}
		s5 := rwSeqs(5, 1, 2, 3)
		add("single", rwSeqs(7, 1, 2, 3), rwAll(1, 4, rwElems([]uint32{1, 2}, []uint32{i12, i23}), outA))
		add("pairs", s5, rwAll(1, 3, al, outA), rwAll(1, 3, al, outB))
		// triples of rules up to 2 elements
		a2 := rwElems([]uint32{1, 2}, []uint32{i12})
		if thorough {
			a2 = rwElems([]uint32{1, 2}, []uint32{i12, i23, rwList})
		}
		add("triples", s5, rwAll(1, 2, a2, outA), rwAll(1, 2, a2, outB), rwAll(1, 2, a2, outC))
		// longer rules over two symbols
		lit := rwElems([]uint32{1, 2}, nil)
		n, m := 3, 7
		if thorough {
			n, m = 4, 9
		}
		add("long", rwSeqs(m, 1, 2), rwAll(3, 4, lit, outA), rwAll(1, n, lit, outB))
		// intervals: at the end, at the start and in the middle
		var ends, starts, mids []spec.Rule
		for i := uint32(0); i < 15; i++ {
			ends = append(ends, spec.Rule{Cond: 255, Body: []spec.Elem{spec.S(i)}, Out: []uint32{230 + i}})
			starts = append(starts, spec.Rule{Cond: 255, Body: []spec.Elem{spec.S(i), spec.V(6)}, Out: []uint32{230 + i}})
			mids = append(mids, spec.Rule{Cond: 255, Head: []spec.Elem{spec.V(6)}, Body: []spec.Elem{spec.S(i)}, Tail: []spec.Elem{spec.V(6)}, Out: []uint32{230 + i}})
		}
		var both []spec.Rule
		both = append(append(both, ends...), starts...)
		relabel := func(l []spec.Rule, d uint32) (out []spec.Rule) {
			for _, r := range l {
				r.Out = []uint32{r.Out[0] - d}
				out = append(out, r)
			}
			return out
		}
		s2 := rwSeqs(2, 0, 1, 2, 3, 4, 5, 6)
		s4 := c16hexes()
		add("intervals", s2, both, relabel(both, 20), relabel(both, 40))
		midSeqs := s4
		add("mid intervals", midSeqs, append(append([]spec.Rule(nil), mids...), ends...), relabel(mids, 20), relabel(append(append([]spec.Rule(nil), mids...), starts...), 40))
		if thorough {
			add("four intervals", s2, both, relabel(both, 20), relabel(both, 40), relabel(starts, 60))
		}
		// sets of all shapes at both positions
		var shapes []spec.Rule
		var menu []uint32
		for s := uint32(rwList); s < rwNumSets; s++ {
			menu = append(menu, s)
		}
		menu = append(menu, i12, i23, rwInterval(1, 5))
		rwInputs(1, rwElems([]uint32{3}, menu), func(in []spec.Elem) { rwSplits(in, outA, func(r spec.Rule) { shapes = append(shapes, r) }) })
		rwInputs(2, rwElems([]uint32{3}, menu), func(in []spec.Elem) { rwSplits(in, outA, func(r spec.Rule) { shapes = append(shapes, r) }) })
		var shapesB []spec.Rule
		for _, r := range shapes {
			if len(r.Head)+len(r.Tail) == 0 || thorough {
				r.Out = []uint32{220}
				shapesB = append(shapesB, r)
			}
		}
		add("set shapes", rwSeqs(3, 1, 2, 3, 4), shapes, shapesB)
		three := rwAll(3, 3, rwElems(nil, []uint32{rwOver, rwGap, i12, rwDesc}), outB)
		add("set paths", rwSeqs(4, 1, 2, 3, 4), three, rwAll(2, 2, rwElems([]uint32{2}, []uint32{rwOver, i23, rwSingle}), outC))
	})
}

func c16hexes() (out [][]uint8) {
	for a := uint8(0); a <= 6; a++ {
		for b := uint8(1); b <= 6; b++ {
			out = append(out, []uint8{6, a, 6, b, 6}, []uint8{a, 6, b, 6}, []uint8{6, a, b}, []uint8{6, a, 6, 6, b})
		}
	}
	return out
}

func c16(x *X, env *rwEnv) {
	f := x.Choose(len(c16families) + 2)
	switch f - len(c16families) {
	case 0:
		c16large(x, env)
		return
	case 1:
		c16far(x, rwFarEnv(env.kind.wide))
		return
	}
	fam := &c16families[f]
	var rules []*rwRule
	for _, cand := range fam.rules {
		r := cand[x.Choose(len(cand))]
		rules = append(rules, env.rule(r))
	}
	c16run(x, env, rules, fam.seqs, fam.name)
}

func c16run(x *X, env *rwEnv, rules []*rwRule, seqs [][]uint8, name string) {
	run := newRwRun(x, env, env.kind.tester(), rules)
	if x.Logging() {
		x.Logf("%s: %s; %d sequences", name, run.describe(), len(seqs))
	}
	run.addAll()
	for _, seq := range seqs {
		run.sequence(seq)
	}
	x.State(explore.HashStr(0, run.describe()))
	x.Outcome(run.hash)
	x.Count(name)
	if run.skipped {
		x.Count("rule lists with unsettled sequences")
	}
}

func lits(n int, at func(i int) uint32) (out []spec.Elem) {
	for i := 0; i < n; i++ {
		out = append(out, spec.V(at(i)))
	}
	return out
}

func fill8(n int, at func(i int) int) []uint8 {
	out := make([]uint8, n)
	for i := range out {
		out[i] = uint8(at(i))
	}
	return out
}

// c16large are the structured families at the limits.
func c16large(x *X, env *rwEnv) {
	var rules []*rwRule
	var seqs [][]uint8
	add := func(r spec.Rule) { r.Cond = 255; rules = append(rules, env.rule(r)) }
	name := "no rules"
	switch x.Choose(10) {
	case 0: // no rules at all
		seqs = rwSeqs(3, 1, 2)
	case 1: // one rule of any length, made of one symbol or two, at all splits ends
		name = "one long rule"
		n := pick(x, []int{2, 3, 15, 16, 17, 30, 31, 32, 100, 127, 128, 129, 253, 254, 255})
		h := pick(x, []int{0, 1, 2, 16, 127, 254})
		t := pick(x, []int{0, 1, 2, 16, 127, 254})
		if h+t >= n {
			x.Prune()
		}
		mod := 1 + x.Choose(3)
		in := lits(n, func(i int) uint32 { return uint32(1 + i%mod) })
		add(spec.Rule{Head: in[:h], Body: in[h : n-t], Tail: in[n-t:], Out: []uint32{200}})
		for _, l := range []int{n - 1, n, n + 1, 2*n - 1, 2 * n, 3*n + 1} {
			seqs = append(seqs, fill8(l, func(i int) int { return 1 + i%mod }))
			seqs = append(seqs, fill8(l, func(i int) int { return 1 + (i+1)%mod }))
			seqs = append(seqs, fill8(l, func(i int) int {
				if i == l-1 {
					return 5
				}
				return 1 + i%mod
			}))
		}
	case 2: // nested prefixes: all lengths up to n
		name = "nested prefixes"
		n := pick(x, []int{1, 2, 3, 20, 100, 254})
		rev := x.Bool()
		for i := 1; i <= n; i++ {
			l := i
			if rev {
				l = n + 1 - i
			}
			add(spec.Rule{Body: lits(l, func(int) uint32 { return 1 }), Out: []uint32{uint32(l)}})
		}
		for _, l := range []int{1, 2, n - 1, n, n + 1, 2 * n, 2*n + 3} {
			if l > 0 {
				seqs = append(seqs, fill8(l, func(i int) int { return 1 }))
				seqs = append(seqs, append(fill8(l, func(i int) int { return 1 }), 2, 1))
			}
		}
	case 3: // many single symbols: transitions at the limit
		name = "many symbols"
		n := pick(x, []int{100, 126, 253, 254})
		step := pick(x, []int{1, 7, 253})
		for i := 0; i < n; i++ {
			s := i * step % n
			if n%7 == 0 && step == 7 {
				s = i
			}
			if s == 127 {
				s = 254
			}
			add(spec.Rule{Body: lits(1, func(int) uint32 { return uint32(s) }), Out: []uint32{uint32(i&63 + 1)}})
		}
		for s := 0; s < 256; s++ {
			if s != 127 {
				seqs = append(seqs, []uint8{uint8(s)}, []uint8{uint8(s), uint8(s), 3})
			}
		}
	case 4: // many second symbols after the same one or after different ones
		name = "fan"
		n := pick(x, []int{50, 120, 126, 250})
		apart := x.Bool()
		for i := 0; i < n; i++ {
			a := 1
			if apart {
				a = i
			}
			if a == 127 {
				a = 252
			}
			s := i
			if s == 127 {
				s = 252
			}
			add(spec.Rule{Body: []spec.Elem{spec.V(uint32(a)), spec.V(uint32(s))}, Out: []uint32{uint32(i&63 + 1)}})
		}
		for s := 0; s < 253; s++ {
			if s != 127 {
				seqs = append(seqs, []uint8{1, uint8(s), 1}, []uint8{uint8(s), uint8(s), uint8(s)})
			}
		}
	case 5: // paths of sets: many rules share states
		name = "set paths"
		n := pick(x, []int{2, 5, 20, 60})
		l := pick(x, []int{2, 3, 6})
		for i := 0; i < n; i++ {
			var in []spec.Elem
			for k := 0; k < l; k++ {
				in = append(in, spec.S(rwInterval(1+(i>>k)&1, 3+(i>>k)&1)))
			}
			in = append(in, spec.V(uint32(10+i)))
			add(spec.Rule{Body: in, Out: []uint32{uint32(100 + i&15)}})
		}
		for _, p := range rwSeqs(l, 1, 3, 4) {
			if len(p) == l {
				for _, i := range []int{0, 1, n / 2, n - 1, n} {
					seqs = append(seqs, append(append([]uint8(nil), p...), uint8(10+i)))
				}
			}
			if len(seqs) > 4000 {
				break
			}
		}
	case 6: // tails that become heads, again and again
		name = "chains"
		h, t := 1+x.Choose(3), 1+x.Choose(3)
		for i := 0; i < 3; i++ {
			add(spec.Rule{Head: lits(h, func(int) uint32 { return 1 }), Body: lits(1+i, func(int) uint32 { return 2 }), Tail: lits(t, func(int) uint32 { return 1 }), Out: []uint32{uint32(200 + i)}})
		}
		seqs = rwSeqs(x.Pick(10, 13), 1, 2)
	case 7: // a long match that fails late: many elements are matched again
		name = "late failures"
		n := 2 + x.Choose(8)
		t := x.Choose(3)
		add(spec.Rule{Body: append(lits(n, func(int) uint32 { return 1 }), spec.V(2)), Out: []uint32{200}})
		add(spec.Rule{Head: lits(t, func(int) uint32 { return 1 }), Body: lits(1, func(int) uint32 { return 1 }), Tail: lits(t, func(int) uint32 { return 1 }), Out: []uint32{201}})
		if x.Bool() {
			add(spec.Rule{Body: lits(2, func(i int) uint32 { return uint32(1 + i) }), Tail: lits(1, func(int) uint32 { return 3 }), Out: []uint32{202}})
		}
		for l := 1; l < 3*n; l++ {
			for p := 0; p <= l; p++ {
				for _, v := range []uint8{2, 3} {
					s := fill8(l, func(i int) int { return 1 })
					if p < l {
						s[p] = v
					}
					seqs = append(seqs, s, append(append([]uint8(nil), s...), s...))
				}
			}
		}
	case 8: // wide ranges over the whole alphabet
		name = "wide ranges"
		add(spec.Rule{Body: []spec.Elem{spec.S(rwWide)}, Tail: []spec.Elem{spec.S(rwWide)}, Out: []uint32{201}})
		add(spec.Rule{Body: []spec.Elem{spec.V(100), spec.V(200)}, Out: []uint32{202}})
		add(spec.Rule{Head: []spec.Elem{spec.S(rwWide)}, Body: []spec.Elem{spec.V(50), spec.S(rwInterval(2, 3))}, Out: []uint32{203}})
		if x.Bool() {
			rules[0], rules[2] = rules[2], rules[0]
		}
		seqs = rwSeqs(4, 0, 3, 50, 100, 200, 201)
	case 9: // a wide range that many single symbols split, up to the limit of transitions
		name = "many splits"
		k := pick(x, []int{0, 28, 53, 54, 55})
		wide := spec.Rule{Body: []spec.Elem{spec.S(rwWide)}, Out: []uint32{201}}
		at := x.Choose(3)
		second := x.Bool()
		rev := x.Bool()
		single := func(s int) {
			if s == 127 {
				return
			}
			r := spec.Rule{Body: []spec.Elem{spec.V(uint32(s))}, Out: []uint32{uint32(s&63 + 1)}}
			if second {
				r.Body = append([]spec.Elem{spec.V(3)}, r.Body...)
			}
			add(r)
		}
		if second {
			wide.Head = []spec.Elem{spec.V(3)}
		}
		if at == 0 {
			add(wide)
		}
		for i := 1; i < 200; i += 2 {
			if rev {
				single(200 - i)
			} else {
				single(i)
			}
			if at == 1 && i == 99 {
				add(wide)
			}
		}
		for i := 201; i <= 200+k; i++ {
			single(i)
		}
		if at == 2 {
			add(wide)
		}
		for s := 0; s < 256; s++ {
			if s != 127 {
				seqs = append(seqs, []uint8{uint8(s)}, []uint8{3, uint8(s), 3, uint8(s)})
			}
		}
	}
	c16run(x, env, rules, seqs, name)
}

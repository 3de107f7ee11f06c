package main

import (
	"fmt"
	"unicode/utf8"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C20", Title: "malformed rewrite rules",
		Rule: "one execution = one altered rule in one tester history (alone, or with a good rule under the same or another condition, before or after it): adding it, resyncing, refreshing and beginning must fail exactly if an independent decoder rejects the rule, other testers must work in between, and after removing it the tester must work as if it had never been there; accepted rules must rewrite as the independent decoder says; a state is the rule data and the history, an outcome the verdict and outputs",
		Bounds: func(t string) string {
			s := "24 base rules of each kind (all combinations of blocks, literals, sets, fragments up to 17 elements, conditions) × all truncations, all appended single bytes, all substitutions of every byte by all 256 values, all data of up to 3 bytes over 6 values, all blocks of up to 2 elements with up to 3 outputs and up to 2 lengths of the header (4 in thorough) off by one, 132 rules with long blocks or outputs around 255, also with sets without elements, × 6 histories"
			if t == "thorough" {
				s += "; all pairs of bytes of the bases up to 24 bytes over 12 values"
			}
			return s
		},
		Assume: []string{"whether a code point that isn't a valid scalar value can be part of a rule is not settled: both verdicts are accepted, panics aren't", "rule lists that need more than 254 states may be rejected for that"},
		Body:   c20, QuickSec: 200, ThorSec: 820, Init: func(string) { c20init() },
	})
}

type c20base struct {
	data []byte
	text string
}

var c20bases [2][]c20base

func c20init() {
	v := func(l ...uint32) (out []spec.Elem) {
		for _, e := range l {
			out = append(out, spec.V(e))
		}
		return out
	}
	s := func(l ...uint32) (out []spec.Elem) {
		for _, e := range l {
			out = append(out, spec.S(e))
		}
		return out
	}
	cat := func(l ...[]spec.Elem) (out []spec.Elem) {
		for _, e := range l {
			out = append(out, e...)
		}
		return out
	}
	i12, i23 := rwInterval(1, 2), rwInterval(2, 3)
	rules := []spec.Rule{
		{Cond: 255, Body: v(1), Out: []uint32{210}},
		{Cond: 0, Body: v(1), Out: []uint32{210}},
		{Cond: 1, Body: v(2), Out: []uint32{210}},
		{Cond: 3, Body: v(2), Out: []uint32{210}},
		{Cond: 255, Body: s(i12), Out: []uint32{210}},
		{Cond: 255, Body: v(1, 2), Out: []uint32{210}},
		{Cond: 255, Body: v(1, 2), Out: []uint32{210, 211}},
		{Cond: 255, Body: v(1, 2, 3), Out: []uint32{210, 211}},
		{Cond: 255, Body: cat(s(i12), v(2)), Out: []uint32{210}},
		{Cond: 255, Body: cat(v(2), s(i12)), Out: []uint32{210}},
		{Cond: 255, Body: cat(s(i12), v(2), s(i23), v(1)), Out: []uint32{210, 211}},
		{Cond: 255, Head: v(1), Body: v(2), Out: []uint32{210}},
		{Cond: 255, Head: s(i12), Body: v(2), Out: []uint32{210}},
		{Cond: 255, Body: v(2), Tail: v(1), Out: []uint32{210}},
		{Cond: 255, Body: s(i23), Tail: s(i12), Out: []uint32{210}},
		{Cond: 0, Head: v(1), Body: v(2), Tail: v(3), Out: []uint32{210}},
		{Cond: 255, Head: cat(v(1), s(i23)), Body: cat(s(i12), v(1)), Tail: cat(s(rwList), v(2)), Out: []uint32{210}},
		{Cond: 255, Head: v(1, 1), Body: v(2, 2), Tail: v(1, 1), Out: []uint32{210, 212}},
		{Cond: 255, Body: s(rwEmpty), Out: []uint32{210}},
		{Cond: 255, Body: v(1), Tail: s(rwEmpty, i12), Out: []uint32{210}},
		{Cond: 255, Head: lits(2, func(int) uint32 { return 2 }), Body: lits(16, func(int) uint32 { return 1 }), Out: []uint32{210}},
		{Cond: 255, Body: v(3), Tail: append(lits(16, func(int) uint32 { return 1 }), spec.S(i12)), Out: []uint32{210}},
		{Cond: 255, Body: append(s(i12, i12, i12, i12, i12, i12, i12, i12, i12, i12, i12, i12, i12, i12, i12, i12), spec.V(1)), Out: []uint32{210}},
	}
	for k, kind := range []*rwKind{rwGlyphs, rwRunes} {
		env := rwEnvOf(kind)
		for _, r := range rules {
			e := env.rule(r)
			c20bases[k] = append(c20bases[k], c20base{e.data, e.text})
		}
		// a body in superfluous fragments
		var b []byte
		num := func(v uint32) {
			n := 2
			if kind.wide {
				n = 4
			}
			for i := 0; i < n; i++ {
				b = append(b, byte(v>>(8*i)))
			}
		}
		b = append(b, 255, 0, 3, 0, 1)
		num(kind.value(100))
		b = append(b, 0, 0x01)
		num(kind.value(1))
		b = append(b, 0x10, byte(i12), 0x01)
		num(kind.value(2))
		b = append(b, 0)
		c20bases[k] = append(c20bases[k], c20base{b, "[ | 1 (1-2) 2 | ] in three fragments"})
	}
}

// c20verdict decides if a rule is well formed.
type c20verdict int

const (
	c20bad c20verdict = iota
	c20good
	c20either
)

func (e *rwEnv) verdict(data []byte) (*rwRule, c20verdict) {
	r, ok := spec.DecodeRule(data, e.kind.wide)
	if !ok || len(r.Out) == 0 || r.Cond != 255 && r.Cond >= 4 {
		return nil, c20bad
	}
	verdict := c20good
	out := &rwRule{cond: r.Cond, data: data, text: fmt.Sprintf("% X", data)}
	for _, block := range [][]spec.Elem{r.Head, r.Body, r.Tail} {
		for _, el := range block {
			var s spec.Syms
			switch {
			case el.Set:
				if int(el.Value) >= len(e.sets) {
					return nil, c20bad
				}
				s = e.sets[el.Value]
			case !e.kind.wide && el.Value >= ggfnt.MaxGlyphs, e.kind.wide && el.Value == 0xFFFD:
				return nil, c20bad
			case e.kind.wide && (el.Value > 0x10FFFF || !utf8.ValidRune(rune(el.Value))):
				verdict = c20either
			case el.Value >= e.kind.base && el.Value <= e.kind.base+255:
				s.Add(uint8(el.Value - e.kind.base))
			}
			out.model.In = append(out.model.In, s)
		}
	}
	out.model.Head, out.model.Body, out.model.Tail = len(r.Head), len(r.Body), len(r.Tail)
	out.model.Out = r.Out
	return out, verdict
}

// lengths of the blocks and the output
var c20long = [][4]int{
	{250, 3, 1, 1}, {250, 3, 2, 1}, {250, 3, 3, 1}, {128, 128, 0, 1}, {128, 127, 0, 1}, {128, 126, 0, 2}, {255, 1, 0, 1}, {254, 1, 0, 1}, {253, 1, 0, 1},
	{1, 255, 0, 1}, {0, 255, 0, 255}, {0, 254, 0, 254}, {0, 254, 0, 1}, {0, 255, 1, 1}, {0, 1, 255, 1}, {0, 1, 254, 1}, {0, 1, 253, 1}, {1, 1, 252, 1},
	{200, 100, 0, 1}, {100, 100, 100, 1}, {200, 200, 200, 1}, {200, 30, 100, 1}, {0, 100, 200, 1}, {100, 0, 100, 1}, {255, 255, 255, 255},
	{0, 100, 0, 101}, {0, 127, 0, 128}, {0, 128, 0, 129}, {100, 100, 0, 101}, {1, 128, 1, 255}, {0, 1, 1, 255}, {0, 16, 0, 17}, {2, 16, 2, 17},
}

var c20tiny = []byte{0, 1, 2, 16, 17, 255}
var c20pairs = []byte{0, 1, 2, 3, 5, 15, 16, 17, 32, 127, 254, 255}

// c20data chooses the rule.
func c20data(x *X, k int) ([]byte, string) {
	kind := x.Choose(4)
	if kind == 2 { // small blocks, whose lengths may not be those of the header
		r := spec.Rule{Cond: 255}
		elems := func(n int) (l []spec.Elem) {
			for i := 0; i < n; i++ {
				l = append(l, spec.V([]*rwKind{rwGlyphs, rwRunes}[k].value(uint8(1+i))))
			}
			return l
		}
		r.Head, r.Body, r.Tail = elems(x.Choose(3)), elems(x.Choose(3)), elems(x.Choose(3))
		for i := x.Choose(4); i > 0; i-- {
			r.Out = append(r.Out, 210)
		}
		if n := x.Choose(4); n > 0 {
			block := []*[]spec.Elem{&r.Head, &r.Body, &r.Tail}[n-1]
			if len(*block) == 0 {
				x.Prune()
			}
			(*block)[0] = spec.S(rwInterval(1, 2))
		}
		b := spec.RuleBytes(&r, k == 1)
		changed := 0
		for i := 1; i <= 4; i++ {
			if d := x.Choose(3); d > 0 {
				b[i] += byte(3 - 2*d) // 1, -1
				changed++
			}
		}
		if changed > 2 && !x.Thorough() {
			x.Prune()
		}
		return b, "lengths in the header changed"
	}
	if kind == 3 { // long blocks, around the maximum and around overflows
		n := pick(x, c20long)
		r := spec.Rule{Cond: 255}
		for i, block := range []*[]spec.Elem{&r.Head, &r.Body, &r.Tail} {
			*block = lits(n[i], func(int) uint32 { return []*rwKind{rwGlyphs, rwRunes}[k].value(uint8(1 + i)) })
		}
		for i := 0; i < n[3]; i++ {
			r.Out = append(r.Out, 210)
		}
		if c := x.Choose(4); c > 0 { // no states from there on
			var all []*spec.Elem
			for _, block := range [][]spec.Elem{r.Head, r.Body, r.Tail} {
				for i := range block {
					all = append(all, &block[i])
				}
			}
			switch c {
			case 1:
				*all[0] = spec.S(rwEmpty)
			case 2:
				*all[len(all)/2] = spec.S(rwEmpty)
			case 3:
				for _, e := range all {
					*e = spec.S(rwEmpty)
				}
			}
		}
		return spec.RuleBytes(&r, k == 1), "long blocks"
	}
	if kind == 1 { // short data, nothing to do with a rule
		n := x.Choose(4)
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, pick(x, c20tiny))
		}
		return b, "short data"
	}
	base := pick(x, c20bases[k])
	b := append([]byte(nil), base.data...)
	n := 3
	if x.Thorough() && len(b) <= 24 {
		n = 4
	}
	switch x.Choose(n) {
	case 0:
		return b[:x.Choose(len(b)+1)], base.text + " (cut)"
	case 1:
		return append(b, byte(x.Choose(256))), base.text + " (with a byte more)"
	case 2:
		at := x.Choose(len(b))
		b[at] = byte(x.Choose(256))
		return b, fmt.Sprintf("%s (byte %d changed)", base.text, at)
	}
	p := x.Choose(len(b) - 1)
	q := p + 1 + x.Choose(len(b)-p-1)
	b[p], b[q] = pick(x, c20pairs), pick(x, c20pairs)
	return b, fmt.Sprintf("%s (bytes %d and %d changed)", base.text, p, q)
}

var c20seqs = append(rwSeqs(3, 1, 2, 3),
	[]uint8{1, 2, 3, 1}, []uint8{1, 1, 2, 2, 1, 1, 1}, []uint8{1, 2, 2, 1, 2, 2},
	[]uint8{2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1},
	[]uint8{3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3},
)

func c20(x *X) {
	k := x.Choose(2)
	env := rwEnvOf([]*rwKind{rwGlyphs, rwRunes}[k])
	data, text := c20data(x, k)
	history := x.Choose(6)
	rule, verdict := env.verdict(data)
	if x.Logging() {
		x.Logf("%s: rule %s: % X, history %d", env.kind.name, text, data, history)
	}
	what := fmt.Sprintf("%s, rule % X (%s), history %d", env.kind.name, data, text, history)
	cache := ggfnt.NewSettingsCache(env.font)
	cache.Set(0, 1)

	good := env.rule(spec.Rule{Cond: 255, Body: lits(2, func(i int) uint32 { return uint32(1 + i) }), Tail: lits(1, func(int) uint32 { return 3 }), Out: []uint32{230}})
	cond := env.rule(spec.Rule{Cond: 0, Body: lits(2, func(i int) uint32 { return uint32(2 - i) }), Out: []uint32{231}})
	var before, after []*rwRule
	switch history {
	case 1:
		before = []*rwRule{good}
	case 2:
		after = []*rwRule{good}
	case 3:
		before = []*rwRule{cond}
	case 4:
		before, after = []*rwRule{good}, []*rwRule{cond}
	case 5:
		before = []*rwRule{good, cond}
	}
	others := append(append([]*rwRule(nil), before...), after...)
	if verdict == c20good && len(rule.model.In) > 200 {
		all := []spec.RwRule{rule.model}
		for _, r := range others {
			all = append(all, r.model)
		}
		if n, _ := spec.RwStates(all, 254); n > 254 { // beyond the limits of the compiler
			verdict = c20either
		}
	}
	t := env.kind.tester()
	run := newRwRun(x, env, t, others)
	run.cache = cache
	defer func() {
		x.State(explore.HashOf(k, history, string(data)))
		x.Outcome(explore.HashU(run.hash, uint64(verdict)))
	}()
	sequences := func(ctx string, rules []*rwRule) {
		run.rules, run.ctx = rules, what+" "+ctx
		run.setModel(func(r *rwRule) bool { return rwHolds(r.cond, 1, 0) })
		for _, s := range c20seqs {
			run.sequence(s)
		}
	}
	addAll := func(rules []*rwRule) {
		for _, r := range rules {
			if err := t.add(r.data); err != nil {
				x.Failf("%s: AddRule fails for a good rule: %v", what, err)
			}
		}
	}
	x.NoPanic(what, func() {
		addAll(before)
		if history == 5 { // compiled before adding the rule
			sequences("before adding the rule", others)
		}
		if err := t.add(data); err != nil {
			if verdict == c20good {
				x.Failf("%s: AddRule rejects a well formed rule: %v", what, err)
			}
			x.Count("rejected when adding")
			if t.numRules() != len(before) || t.operating() {
				x.Failf("%s: NumRules is %d after a rejected addition", what, t.numRules())
			}
			if t.remove(data) {
				x.Failf("%s: RemoveRule reports that it had a rejected rule", what)
			}
			addAll(after)
			sequences("(rejected)", others)
			return
		}
		addAll(after)
		if t.numRules() != len(others)+1 {
			x.Failf("%s: NumRules is %d", what, t.numRules())
		}
		if history == 0 {
			t.refresh(env.font, cache)
		}
		var err error
		if history == 2 {
			err = t.resync(env.font, cache)
		} else {
			err = t.begin(env.font, cache)
		}
		if t.operating() {
			if err != nil {
				x.Failf("%s: operating after BeginSequence failed", what)
			}
			t.finish(func(uint32) {})
		}
		if err == nil && verdict == c20bad {
			x.Failf("%s: a malformed rule is accepted", what)
		}
		if err != nil && verdict == c20good {
			x.Failf("%s: a well formed rule is rejected: %v", what, err)
		}
		// another tester, in between
		other := newRwRun(x, env, env.kind.tester(), []*rwRule{good, cond})
		other.cache, other.ctx = cache, "another tester after "+what
		other.addAll()
		for _, s := range c20seqs[len(c20seqs)-10:] {
			other.sequence(s)
		}
		if err == nil {
			x.Count("accepted")
			sequences("(accepted)", append(append(append([]*rwRule(nil), before...), rule), after...))
		} else {
			x.Count("rejected when compiling")
			for i := 0; i < 2; i++ {
				if t.begin(env.font, cache) == nil {
					x.Failf("%s: a rule that was rejected before is accepted", what)
				}
				if t.operating() || t.pending() != 0 {
					x.Failf("%s: operating %v, pending %d after a failed BeginSequence", what, t.operating(), t.pending())
				}
				t.refresh(env.font, cache)
			}
		}
		if !t.remove(append([]byte(nil), data...)) {
			x.Failf("%s: RemoveRule doesn't find the rule", what)
		}
		if t.numRules() != len(others) {
			x.Failf("%s: NumRules is %d after the removal", what, t.numRules())
		}
		sequences("(removed)", others)
	})
}

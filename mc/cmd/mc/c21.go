package main

import (
	"fmt"
	"sync"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C21", Title: "conditional rules",
		Rule: "one execution = one mix of rules with conditions, and a history of setting changes that become visible in each of the possible ways; after each, all sequences of the family must be rewritten as the reference rewriter does with the rules whose condition holds, evaluated independently; a state is the mix, the settings and the way, an outcome all outputs",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "all pairs of 10 rules × 5 conditions each and all triples of 5 rules × 5 conditions × all changes of 2 settings from any of their 6 values to any other and back to any × 12 ways (beginning, refreshing before beginning, refreshing while operating, after a break, with pending elements, with another cache, with rules added in between, after a reset, with another tester in between, with the cache shared with another tester that begins first, with the conditions cached by other code, between any two elements of a sequence) × all sequences of up to 4 of 3 symbols"
			}
			return "all pairs of 10 rules × 5 conditions each and all triples of 3 rules × 5 conditions × all changes of 2 settings from any of their 6 values to any other × 12 ways (beginning, refreshing before beginning, refreshing while operating, after a break, with pending elements, with another cache, with rules added in between, after a reset, with another tester in between, with the cache shared with another tester that begins first, with the conditions cached by other code, between any two elements of a sequence) × all sequences of up to 3 of 3 symbols and longer ones; rules under any of 255 conditions"
		},
		Assume: []string{"when a condition changes while elements are pending, the outputs for those elements are only required to be what some of the rules that are active before or after the change give (which of them apply is not settled)"},
		Body:   c21, QuickSec: 200, ThorSec: 820, Init: func(string) { c21init() },
	})
}

var c21many [2]*rwEnv
var c21once sync.Once

// c21init builds a font with the maximum number of conditions. Condition i
// is true if one == on when i is even, and if two == b when i is odd.
func c21init() {
	c21once.Do(func() {
		f := rwFont()
		f.Conditions = nil
		for i := 0; i < 255; i++ {
			if i%2 == 0 {
				f.Conditions = append(f.Conditions, []byte{0b011_00001, 0})
			} else {
				f.Conditions = append(f.Conditions, []byte{0b011_00001, 1})
			}
		}
		font := f.MustParse()
		c21many[0] = &rwEnv{rwGlyphs, font, rwSyms()}
		c21many[1] = &rwEnv{rwRunes, font, rwSyms()}
	})
}

func c21rules() []spec.Rule {
	i12, i23 := rwInterval(1, 2), rwInterval(2, 3)
	v, s := spec.V, spec.S
	type L = []spec.Elem
	return []spec.Rule{
		{Body: L{v(1)}},
		{Body: L{v(1), v(2)}},
		{Body: L{s(i12), v(2)}, Tail: L{v(1)}},
		{Body: L{s(i12)}},
		{Head: L{v(1)}, Body: L{v(2)}},
		{Head: L{v(1)}, Body: L{s(i23)}, Tail: L{v(1)}},
		{Body: L{v(1), v(2), v(3)}},
		{Body: L{v(2), v(1)}},
		{Body: L{v(1)}, Tail: L{v(1)}},
		{Body: L{v(3), s(i12), v(1)}},
	}
}

var c21seqs = [2][][]uint8{
	append(rwSeqs(3, 1, 2, 3), []uint8{1, 2, 1, 2}, []uint8{1, 1, 1, 1}, []uint8{1, 2, 3, 1, 2, 1}, []uint8{3, 2, 1, 1, 3}, []uint8{2, 2, 1, 2, 2, 1}),
	rwSeqs(4, 1, 2, 3),
}

func c21(x *X) {
	k := x.Choose(2)
	kinds := []*rwKind{rwGlyphs, rwRunes}
	env := rwEnvOf(kinds[k])
	menu := c21rules()
	conds := []uint8{255, 0, 1, 2, 3}
	holds := func(c, one, two uint8) bool { return rwHolds(c, one, two) }
	var rules []*rwRule
	add := func(r spec.Rule, c uint8) {
		r.Cond = c
		for i := range r.Body {
			r.Out = append(r.Out, uint32(200+10*len(rules)+i))
		}
		rules = append(rules, env.rule(r))
	}
	mid := 0
	switch x.Choose(3) {
	case 0:
		for i := 0; i < 2; i++ {
			r := menu[x.Choose(len(menu))]
			add(r, pick(x, conds))
		}
	case 1:
		n := x.Pick(3, 5)
		for i := 0; i < 3; i++ {
			r := menu[x.Choose(n)]
			add(r, pick(x, conds))
		}
		mid = 1
	case 2: // many conditions
		env = c21many[k]
		holds = func(c, one, two uint8) bool {
			if c == 255 {
				return true
			}
			if c%2 == 0 {
				return one == 1
			}
			return two == 1
		}
		list := []uint8{0, 1, 7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 252, 253, 254, 255}
		add(menu[1], pick(x, list))
		add(menu[0], pick(x, list))
	}
	a, b := x.Choose(6), x.Choose(6)
	way := x.Choose(12)
	c := a
	if mid == 0 && x.Thorough() {
		c = x.Choose(6)
	}
	text := fmt.Sprintf("%s, settings %d/%d, then %d/%d by way %d", env.kind.name, a/3, a%3, b/3, b%3, way)
	if x.Logging() {
		x.Logf("%s", text)
		for _, r := range rules {
			x.Logf("rule %s", r.text)
		}
	}
	t := env.kind.tester()
	run := newRwRun(x, env, t, rules)
	run.cache = ggfnt.NewSettingsCache(env.font)
	run.ctx = "| " + text
	seqs := c21seqs[0]
	if x.Thorough() && mid == 0 {
		seqs = c21seqs[1]
	}
	set := func(v int) {
		run.cache.Set(0, uint8(v/3))
		run.cache.Set(1, uint8(v%3))
	}
	now := 0
	model := func(v int) {
		now = v
		run.setModel(func(r *rwRule) bool { return holds(r.cond, uint8(v/3), uint8(v%3)) })
	}
	nop := func(uint32) {}
	// part runs a sequence while already operating, up to the flush
	part := func(seq []uint8) {
		if !run.plan(seq) {
			run.skipped = true
			for _, s := range seq {
				_ = t.feed(env.kind.value(s), nop)
			}
			t.brk(nop)
			return
		}
		run.got = run.got[:0]
		run.feedAll(seq)
		t.brk(run.emit)
		run.flushed(seq, "breaking")
	}
	all := func() {
		for _, s := range seqs {
			run.sequence(s)
		}
	}
	change := func(from, v int) {
		switch way {
		case 0: // begin
			set(v)
			model(v)
			all()
		case 1: // refresh and begin
			set(v)
			t.refresh(env.font, run.cache)
			model(v)
			all()
		case 2: // refresh while operating, with nothing fed
			for _, s := range seqs {
				set(from)
				if err := t.begin(env.font, run.cache); err != nil {
					x.Failf("%s: BeginSequence fails: %v", text, err)
				}
				set(v)
				t.refresh(env.font, run.cache)
				model(v)
				part(s)
				t.finish(nop)
			}
		case 3: // refresh after a break
			for _, s := range seqs {
				set(from)
				model(from)
				if err := t.begin(env.font, run.cache); err != nil {
					x.Failf("%s: BeginSequence fails: %v", text, err)
				}
				part(s)
				set(v)
				t.refresh(env.font, run.cache)
				model(v)
				part(s)
				t.finish(nop)
			}
		case 4: // refresh with pending elements, then break
			for _, s := range seqs {
				set(from)
				model(from)
				if err := t.begin(env.font, run.cache); err != nil {
					x.Failf("%s: BeginSequence fails: %v", text, err)
				}
				for _, e := range s {
					if err := t.feed(env.kind.value(e), nop); err != nil {
						x.Failf("%s: Feed fails: %v", text, err)
					}
				}
				set(v)
				t.refresh(env.font, run.cache)
				t.brk(nop)
				if t.pending() != 0 {
					x.Failf("%s: %d elements are pending after a break", text, t.pending())
				}
				model(v)
				part(s)
				t.finish(nop)
			}
		case 5: // another cache
			run.cache = ggfnt.NewSettingsCache(env.font)
			set(v)
			model(v)
			all()
		case 6: // rules added in between
			extra := spec.Rule{Cond: rules[0].cond, Body: lits(1, func(int) uint32 { return 3 }), Tail: lits(1, func(int) uint32 { return 3 }), Out: []uint32{250}}
			r := env.rule(extra)
			if err := t.add(r.data); err != nil {
				x.Failf("%s: AddRule fails: %v", text, err)
			}
			run.rules = append(append([]*rwRule(nil), run.rules...), r)
			set(v)
			model(v)
			all()
		case 7: // reset to the default settings first
			for i := range run.cache.UnsafeSlice() {
				run.cache.Set(ggfnt.SettingKey(i), 0)
			}
			t.refresh(env.font, run.cache)
			set(v)
			t.refresh(env.font, run.cache)
			model(v)
			all()
		case 8: // another tester, with another cache and the same rules, in between
			other := newRwRun(x, env, env.kind.tester(), rules)
			other.cache = ggfnt.NewSettingsCache(env.font)
			other.ctx = "| another tester"
			other.addAll()
			other.cache.Set(0, uint8(v/3))
			other.cache.Set(1, uint8(v%3))
			other.setModel(func(r *rwRule) bool { return holds(r.cond, uint8(v/3), uint8(v%3)) })
			for _, s := range seqs[:10] {
				other.sequence(s)
				run.sequence(s)
			}
			set(v)
			model(v)
			all()
		case 9: // another tester with the same cache, that evaluates conditions first
			other := newRwRun(x, env, env.kind.tester(), rules)
			other.cache = run.cache
			other.ctx = "| another tester with the same cache"
			other.addAll()
			set(v)
			model(v)
			other.setModel(func(r *rwRule) bool { return holds(r.cond, uint8(v/3), uint8(v%3)) })
			for i, s := range seqs {
				if i < 10 {
					other.sequence(s)
				}
				run.sequence(s)
			}
		case 10: // conditions evaluated and cached by other code
			set(v)
			for _, r := range rules {
				if r.cond != 255 {
					run.cache.CacheRewriteCondition(r.cond, holds(r.cond, uint8(v/3), uint8(v%3)))
				}
			}
			model(v)
			all()
		case 11: // refresh between any two elements
			for _, s := range c21seqs[0] {
				for at := 1; at < len(s); at++ {
					c21mid(x, run, s, at, text, func() {
						set(from)
						model(from)
					}, func() {
						set(v)
						model(v)
					})
					part(s)
					t.finish(nop)
				}
			}
		}
	}
	x.NoPanic(text, func() {
		run.addAll()
		set(a)
		model(a)
		all()
		change(a, b)
		change(b, c)
	})
	x.State(explore.HashOf(run.describe(), now))
	x.Outcome(run.hash)
	if run.skipped {
		x.Count("mixes with unsettled sequences")
	}
}

// c21mid refreshes after some elements of a sequence. If the same rules remain
// active, that can't have effects. Otherwise, the outputs must be explained by
// rules that are active before or after.
func c21mid(x *X, run *rwRun, seq []uint8, at int, text string, before, after func()) {
	before()
	old := append([]spec.RwRule(nil), run.model...)
	if err := run.t.begin(run.env.font, run.cache); err != nil {
		x.Failf("%s: BeginSequence fails: %v", text, err)
	}
	settled := run.plan(seq)
	run.got = run.got[:0]
	feed := func(part []uint8, from int) {
		for i, s := range part {
			if err := run.t.feed(run.env.kind.value(s), run.emit); err != nil {
				x.Failf("%s: Feed fails: %v", text, err)
			}
			if settled {
				run.check(seq, from+i+1, "after element")
			}
		}
	}
	feed(seq[:at], 0)
	after()
	same := len(old) == len(run.model)
	for i := range old {
		same = same && old[i].Out[0] == run.model[i].Out[0]
	}
	settled = settled && same
	pending, done := run.t.pending(), len(run.got)
	run.t.refresh(run.env.font, run.cache)
	if run.t.pending() != pending || len(run.got) != done || !run.t.operating() {
		x.Failf("%s: refreshing after %d elements of %v: %d pending before, %d after", text, at, seq, pending, run.t.pending())
	}
	feed(seq[at:], at)
	run.t.brk(run.emit)
	if settled {
		run.flushed(seq, "breaking")
		return
	}
	if run.t.pending() != 0 || !spec.Explained(append(old, run.model...), seq, run.env.kind.value, run.got) {
		x.Failf("%s, rules %s: refreshing after %d elements of %v gives %v with %d pending, which no choice of the rules active before or after explains", text, run.describe(), at, seq, run.got, run.t.pending())
	}
}

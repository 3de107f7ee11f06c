package main

import (
	"strconv"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/internal"
	"github.com/tinne26/ggfnt/rerules"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	scripts["C22"] = testerScripts
	explore.Register(&explore.Check{
		ID: "C22", Title: "concurrent testers",
		Rule: "one execution = one schedule of two or three goroutines, each running a script with a tester of its own over a shared font; the goroutines run one at a time, and the explorer decides who goes on at every synchronization operation (and function entry) of the code under check; the outputs must be those that each script gives alone in another process, and the race detector, which does not see the scheduler, must find nothing; a state is a schedule",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "18 scripts; all pairs: all interleavings of the synchronization operations, 1 preemption at function entries (2 for the pairs of 2 short scripts); all triples of 8 scripts with up to 3 preemptions at synchronization operations"
			}
			return "18 scripts; all pairs: all interleavings of the synchronization operations; pairs of 10 scripts with 1 preemption at function entries; triples of 6 scripts with up to 2 preemptions at synchronization operations"
		},
		Assume: []string{"blocking operations other than mutexes and sync.Once are not controlled", "outside synchronization operations, preemptions happen at function entries only: what goes on between them is covered by the race detector"},
		Body:   c22, Init: prepare("C22"), QuickSec: 250, ThorSec: 820,
	})
}

// tester is what both kinds have in common.
type tester struct {
	add     func([]byte) error
	remove  func([]byte) bool
	clear   func()
	resync  func(*ggfnt.Font, *ggfnt.SettingsCache) error
	refresh func(*ggfnt.Font, *ggfnt.SettingsCache)
	begin   func(*ggfnt.Font, *ggfnt.SettingsCache) error
	feed    func(uint32) error
	brk     func()
	finish  func()
	out     []byte
}

func newTester(wide bool) *tester {
	t := &tester{}
	emit := func(v uint32) { t.out = append(strconv.AppendUint(t.out, uint64(v), 10), ' ') }
	if wide {
		r := &rerules.Utf8Tester{}
		fn := func(v rune) { emit(uint32(v)) }
		rule := func(d []byte) ggfnt.Utf8RewriteRule { return ggfnt.Utf8RewriteRule(internal.RawBlock{Data: d}) }
		t.add = func(d []byte) error { return r.AddRule(rule(d)) }
		t.remove = func(d []byte) bool { return r.RemoveRule(rule(d)) }
		t.clear, t.resync, t.refresh, t.begin = r.RemoveAllRules, r.Resync, r.RefreshConditions, r.BeginSequence
		t.feed = func(v uint32) error { return r.Feed(rune(v), fn) }
		t.brk = func() { r.Break(fn) }
		t.finish = func() { r.FinishSequence(fn) }
	} else {
		r := &rerules.GlyphTester{}
		fn := func(v ggfnt.GlyphIndex) { emit(uint32(v)) }
		rule := func(d []byte) ggfnt.GlyphRewriteRule { return ggfnt.GlyphRewriteRule(internal.RawBlock{Data: d}) }
		t.add = func(d []byte) error { return r.AddRule(rule(d)) }
		t.remove = func(d []byte) bool { return r.RemoveRule(rule(d)) }
		t.clear, t.resync, t.refresh, t.begin = r.RemoveAllRules, r.Resync, r.RefreshConditions, r.BeginSequence
		t.feed = func(v uint32) error { return r.Feed(ggfnt.GlyphIndex(v), fn) }
		t.brk = func() { r.Break(fn) }
		t.finish = func() { r.FinishSequence(fn) }
	}
	return t
}

// note writes to the transcript without package fmt, whose internal pool would
// order the goroutines in the eyes of the race detector.
func (t *tester) note(what string, err error) bool {
	t.out = append(t.out, what...)
	if err != nil {
		t.out = append(t.out, " error; "...)
		return false
	}
	t.out = append(t.out, "; "...)
	return true
}

func (t *tester) run(f *ggfnt.Font, c *ggfnt.SettingsCache, in ...uint32) {
	if !t.note("begin", t.begin(f, c)) {
		return
	}
	for _, v := range in {
		if err := t.feed(v); err != nil {
			t.note("feed", err)
		}
	}
	t.finish()
	t.out = append(t.out, '|')
}

func sharedFont() *spec.Font {
	f := spec.New(6)
	f.Settings = []spec.Setting{{Name: "ligatures", Options: []string{"Off", "On"}}, {Name: "other", Options: []string{"A", "B", "C"}}}
	// #0 == 1, #1 > 0
	f.Conditions = [][]byte{{0b0101_0000, 0, 1}, {0b0101_0011, 1, 0}}
	f.GlyphSets = []spec.GlyphSet{{Ranges: []spec.GRange{{0, 2}}, List: []uint16{5}}, {List: []uint16{3}}}
	f.RuneSets = []spec.RuneSet{{Ranges: []spec.RRange{{0, 2}}, List: []rune{5}}, {List: []rune{3}}}
	return f
}

func testerScripts() (list []script) {
	model := sharedFont()
	font := model.MustParse()
	ruleFont, ruleData = font, append([]byte(nil), font.Data...)
	for _, wide := range []bool{false, true} {
		wide := wide
		rule := func(cond uint8, out uint32, body ...spec.Elem) []byte {
			return spec.RuleBytes(&spec.Rule{Cond: cond, Body: body, Out: []uint32{out, 1}}, wide)
		}
		v, s := spec.V, spec.S
		plain := rule(255, 4, v(0), v(1))
		long := spec.RuleBytes(&spec.Rule{Cond: 255, Head: []spec.Elem{v(2)}, Body: []spec.Elem{s(0), v(3)}, Tail: []spec.Elem{v(0)}, Out: []uint32{5}}, wide)
		other := rule(255, 3, v(1), s(1))
		cond0 := rule(0, 2, v(0), s(0))
		cond1 := rule(1, 5, v(4))
		badSet := rule(255, 4, v(0), s(9))
		badCond := rule(7, 4, v(0))
		badLate := rule(1, 4, v(0), s(9))
		cut := append([]byte(nil), plain[:len(plain)-1]...)
		var many [][]byte
		for i := uint32(0); i < 24; i++ {
			many = append(many, rule(255, i%6, v(i%5), v(i/5), s(i%2)))
		}
		in := []uint32{2, 0, 3, 0, 1, 3, 0, 0, 4, 5, 1, 2, 0, 1}
		add := func(name string, run func(t *tester, c *ggfnt.SettingsCache)) {
			kind := "glyphs: "
			if wide {
				kind = "runes: "
			}
			list = append(list, script{kind + name, func() string {
				t := newTester(wide)
				run(t, ggfnt.NewSettingsCache(font))
				return string(t.out)
			}})
		}
		add("plain", func(t *tester, c *ggfnt.SettingsCache) {
			t.note("add", t.add(plain))
			t.run(font, c, 0, 1, 0)
		})
		add("set", func(t *tester, c *ggfnt.SettingsCache) {
			t.note("add", t.add(long))
			t.note("add", t.add(other))
			t.run(font, c, in...)
		})
		add("bad rule", func(t *tester, c *ggfnt.SettingsCache) {
			t.note("add", t.add(badSet))
			t.run(font, c, 0, 1)
			t.clear()
			t.note("add", t.add(plain))
			t.run(font, c, 0, 1)
		})
		add("bad rule later", func(t *tester, c *ggfnt.SettingsCache) {
			t.note("add", t.add(plain))
			t.note("add", t.add(badLate))
			t.run(font, c, 0, 1)
			t.run(font, c, 0, 1)
			t.remove(badLate)
			t.run(font, c, 0, 1)
		})
		add("conditions", func(t *tester, c *ggfnt.SettingsCache) {
			t.note("add", t.add(cond0))
			t.note("add", t.add(plain))
			t.note("add", t.add(cond1))
			t.run(font, c, in...)
			c.Set(0, 1)
			t.refresh(font, c)
			t.run(font, c, in...)
			c.Set(1, 2)
			t.refresh(font, c)
			t.run(font, c, in...)
		})
		add("recompile", func(t *tester, c *ggfnt.SettingsCache) {
			t.note("add", t.add(plain))
			t.run(font, c, in...)
			t.note("add", t.add(long))
			t.run(font, c, in...)
			t.remove(plain)
			t.run(font, c, in...)
		})
		add("many", func(t *tester, c *ggfnt.SettingsCache) {
			for _, r := range many {
				t.note("add", t.add(r))
			}
			t.run(font, c, in...)
		})
		add("malformed", func(t *tester, c *ggfnt.SettingsCache) {
			t.note("add", t.add(plain))
			t.note("add", t.add(cut))
			t.run(font, c, 0, 1)
			t.note("add", t.add(badCond))
			t.remove(cut)
			t.run(font, c, 0, 1)
			t.remove(badCond)
			t.run(font, c, 0, 1)
		})
		add("two", func(t *tester, c *ggfnt.SettingsCache) {
			u := newTester(!wide)
			var r []byte
			if wide {
				r = spec.RuleBytes(&spec.Rule{Cond: 255, Body: []spec.Elem{v(0), s(0)}, Out: []uint32{3}}, false)
			} else {
				r = spec.RuleBytes(&spec.Rule{Cond: 255, Body: []spec.Elem{v(0), s(0)}, Out: []uint32{3}}, true)
			}
			t.note("add", t.add(other))
			u.note("add", u.add(r))
			t.note("resync", t.resync(font, c))
			u.note("resync", u.resync(font, c))
			t.note("begin", t.begin(font, c))
			u.note("begin", u.begin(font, c))
			for _, v := range in {
				t.note("", t.feed(v))
				u.note("", u.feed(v))
			}
			t.brk()
			u.finish()
			t.finish()
			t.out = append(t.out, u.out...)
		})
	}
	return list
}

func c22(x *X) {
	n := len(loaded)
	half := n / 2
	pair := func(k int) []int {
		i := x.Choose(k)
		return []int{i, i + x.Choose(k-i)}
	}
	switch x.Choose(3) {
	case 0: // synchronization operations
		runScripts(x, pair(n), false, 1000)
	case 1: // function entries
		w := pair(n)
		budget := 1
		short := func(i int) bool { return i%half < 1 }
		some := func(i int) bool { return i%half < 5 }
		if x.Thorough() {
			if short(w[0]) && short(w[1]) {
				budget = 2
			}
		} else if !some(w[0]) || !some(w[1]) {
			x.Prune()
		}
		runScripts(x, w, true, budget)
	case 2: // three
		menu := []int{0, 2, 3, half, half + 2, 8, 4, half + 4}
		k := x.Pick(6, 8)
		a := x.Choose(k)
		b := a + x.Choose(k-a)
		c := b + x.Choose(k-b)
		runScripts(x, []int{menu[a], menu[b], menu[c]}, false, x.Pick(2, 3))
	}
	if !same(ruleFont.Data, ruleData) {
		x.Failf("the shared font was modified")
	}
}

var ruleFont *ggfnt.Font
var ruleData []byte

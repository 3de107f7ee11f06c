package main

import (
	"fmt"
	"slices"
	"sync"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C18", Title: "adding and removing rules",
		Rule: "one execution = one history of rule additions, removals, clears and runs on one tester (of each kind); every run, and the end, drives a family of sequences and compares with the reference rewriter for the rules that remain; a state is the list of rules and what has been compiled",
		Bounds: func(t string) string {
			n, m := "4", "5"
			if t == "thorough" {
				n, m = "5", "6"
			}
			return "all histories of up to " + n + " operations (additions, removals, clears, runs, Resync, runs without settings after it, changes of a setting, adding and removing a rule that can't be compiled, clearing for another font where the same rules mean something else) over 6 rules (literals, sets, tails, one rule twice with another condition, one under a false condition), and of up to " + m + " with 3 of the rules, from an empty tester or one with all of them; all sequences of up to 3 of 3 symbols at every run; testers full with 254 rules and removals at every position"
		},
		Body: c18, QuickSec: 200, ThorSec: 820,
	})
}

func c18rules(env *rwEnv) []*rwRule {
	i12 := rwInterval(1, 2)
	defs := []spec.Rule{
		{Cond: 255, Body: []spec.Elem{spec.V(1), spec.V(2)}, Out: []uint32{210}},
		{Cond: 255, Body: []spec.Elem{spec.V(1)}, Out: []uint32{211}},
		{Cond: 255, Body: []spec.Elem{spec.V(1), spec.S(i12)}, Tail: []spec.Elem{spec.V(1)}, Out: []uint32{212}},
		{Cond: 0, Body: []spec.Elem{spec.S(i12), spec.V(2)}, Out: []uint32{213}},
		{Cond: 1, Body: []spec.Elem{spec.V(2)}, Out: []uint32{214}},
		{Cond: 0, Body: []spec.Elem{spec.V(1), spec.V(2)}, Out: []uint32{210}},
	}
	var out []*rwRule
	for _, d := range defs {
		out = append(out, env.rule(d))
	}
	return out
}

func c18(x *X) {
	kind := pick(x, []*rwKind{rwGlyphs, rwRunes})
	env := rwEnvOf(kind)
	menu := c18rules(env)
	cache := ggfnt.NewSettingsCache(env.font)
	cache.Set(0, 1)
	one, other := uint8(1), false
	t := env.kind.tester()
	run := newRwRun(x, env, t, nil)
	run.cache = cache
	seqs := rwSeqs(3, 1, 2, 3)
	log, compiled, bad := env.kind.name, false, false
	clean, fresh := true, true // no rules since the last clear; no conditions that may have been evaluated with other settings
	// (a rule with a set that no font has)
	badRule := spec.RuleBytes(&spec.Rule{Cond: 255, Body: []spec.Elem{spec.V(env.kind.value(2)), spec.S(180)}, Out: []uint32{env.kind.value(9)}}, env.kind.wide)
	numRules := func() int {
		if bad {
			return len(run.rules) + 1
		}
		return len(run.rules)
	}
	settle := func() {
		run.ctx = "after " + log
		if bad {
			if err := t.begin(run.env.font, run.cache); err == nil {
				x.Failf("%s: BeginSequence accepts a rule with a set that doesn't exist", log)
			}
			return
		}
		run.setModel(func(r *rwRule) bool {
			if other && (r.cond == 0 || r.cond == 1) {
				return rwHolds(1-r.cond, one, 0)
			}
			return rwHolds(r.cond, one, 0)
		})
		for _, s := range seqs {
			run.sequence(s)
		}
		compiled = true
		if run.cache != nil {
			fresh = true
		}
	}
	addRule := func(r *rwRule) {
		if err := t.add(append([]byte(nil), r.data...)); err != nil {
			x.Failf("%s: AddRule fails: %v", log, err)
		}
		run.rules = append(run.rules, r)
		compiled, clean = false, false
	}
	removeRule := func(r *rwRule) {
		at := -1
		for i, q := range run.rules {
			if string(q.data) == string(r.data) {
				at = i
				break
			}
		}
		if got := t.remove(append([]byte(nil), r.data...)); got != (at >= 0) {
			x.Failf("%s: RemoveRule reports %v, but the rule was there: %v", log, got, at >= 0)
		}
		if at >= 0 {
			run.rules = append(append([]*rwRule(nil), run.rules[:at]...), run.rules[at+1:]...)
			compiled = false
		}
	}
	note := func(f string, a ...any) {
		log += "; " + fmt.Sprintf(f, a...)
		x.Logf(f, a...)
	}
	start := x.Choose(3)
	defer func() {
		x.Outcome(run.hash)
		x.State(explore.HashOf(env.kind.name, run.describe(), compiled, one, other, bad, clean, fresh))
	}()
	if start == 2 {
		c18full(x, env, run, addRule, removeRule, settle)
		return
	}
	if start == 1 {
		for _, r := range menu {
			addRule(r)
		}
		settle()
		log += "; all rules added"
	}
	all, depth := menu, x.Pick(4, 5)
	if x.Bool() { // fewer rules, longer histories
		menu, depth = []*rwRule{menu[1], menu[2], menu[5]}, x.Pick(5, 6)
	}
	x.NoPanic("history", func() {
		for i := 0; i < depth; i++ {
			op := x.Choose(2*len(menu) + 8)
			switch {
			case op == 0: // stop here
				i = depth
			case op == 1:
				note("clear")
				t.removeAll()
				run.rules, compiled, bad, clean, fresh = nil, false, false, true, true
			case op == 2:
				note("run")
				settle()
			case op == 3:
				note("resync")
				if err := t.resync(run.env.font, run.cache); (err != nil) != bad {
					x.Failf("%s: Resync reports %v", log, err)
				}
				compiled = true
			case op == 4:
				one = 1 - one
				note("setting to %d", one)
				fresh = fresh && clean
				run.cache.Set(0, one)
			case op == 5: // a rule that can't be compiled
				note("toggle the bad rule")
				if !bad {
					if err := t.add(append([]byte(nil), badRule...)); err != nil {
						x.Prune() // (rejecting it here would be fine)
					}
				} else if !t.remove(append([]byte(nil), badRule...)) {
					x.Failf("%s: RemoveRule doesn't find the rule", log)
				}
				bad, compiled, clean = !bad, false, false
			case op == 6: // the same bytes mean something else in another font
				note("clear for the other font")
				t.removeAll()
				run.rules, compiled, bad, clean, fresh, other = nil, false, false, true, true, !other
				run.env = env
				if other {
					run.env = c18other(env)
				}
				all = c18rules(run.env)
				for j, r := range menu {
					for _, q := range all {
						if string(q.data) == string(r.data) {
							menu[j] = q
						}
					}
				}
				run.cache = ggfnt.NewSettingsCache(run.env.font)
				run.cache.Set(0, one)
			case op == 7: // with the conditions evaluated earlier
				if bad || !compiled || !fresh {
					x.Prune()
				}
				note("run without settings")
				keep := run.cache
				run.cache = nil
				settle()
				run.cache = keep
			case op < 8+len(menu):
				note("add %d", op-8)
				addRule(menu[op-8])
			default:
				note("remove %d", op-8-len(menu))
				removeRule(menu[op-8-len(menu)])
			}
			x.Step()
			if t.numRules() != numRules() {
				x.Failf("%s: NumRules is %d, expected %d", log, t.numRules(), numRules())
			}
			if t.operating() || t.pending() != 0 {
				x.Failf("%s: operating %v, pending %d", log, t.operating(), t.pending())
			}
		}
	})
	settle()
}

var c18others [2]*rwEnv
var c18once sync.Once

// c18other is a font with the sets in reverse order, and the first two
// conditions swapped.
func c18other(env *rwEnv) *rwEnv {
	c18once.Do(func() {
		f := rwFont()
		slices.Reverse(f.GlyphSets)
		slices.Reverse(f.RuneSets)
		f.Conditions[0], f.Conditions[1] = f.Conditions[1], f.Conditions[0]
		syms := rwSyms()
		slices.Reverse(syms)
		font := f.MustParse()
		c18others[0] = &rwEnv{rwGlyphs, font, syms}
		c18others[1] = &rwEnv{rwRunes, font, syms}
	})
	if env.kind.wide {
		return c18others[1]
	}
	return c18others[0]
}

// c18full fills a tester and edits it.
func c18full(x *X, env *rwEnv, run *rwRun, addRule, removeRule func(*rwRule), settle func()) {
	n := pick(x, []int{2, 16, 253, 254})
	conds := pick(x, [][]uint8{{255}, {255, 0}, {0, 1, 2, 3, 255}})
	for i := 0; i < n; i++ {
		addRule(env.rule(spec.Rule{Cond: conds[i%len(conds)], Body: lits(1, func(int) uint32 { return uint32(i % 5) }), Tail: lits(1, func(int) uint32 { return uint32(i % 100) }), Out: []uint32{uint32(150 + i%60)}}))
	}
	extra := env.rule(spec.Rule{Cond: 255, Body: lits(1, func(int) uint32 { return 1 }), Out: []uint32{255}})
	if n == 254 {
		if err := run.t.add(extra.data); err == nil {
			x.Failf("AddRule accepts more than 254 rules")
		}
		if run.t.numRules() != 254 {
			x.Failf("NumRules is %d after a rejected addition", run.t.numRules())
		}
	}
	if x.Bool() {
		settle()
	}
	for i := 0; i < 2; i++ {
		at := pick(x, []int{0, 1, 2, n / 2, n - 2, n - 1})
		if at >= len(run.rules) {
			x.Prune()
		}
		removeRule(run.rules[at])
		if x.Bool() {
			addRule(extra)
		}
		settle()
	}
}

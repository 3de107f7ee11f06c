package main

import (
	"fmt"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

// cexpr is the reference model of a condition.
type cexpr struct {
	op    int // 0 or, 1 and, 2 comparison, 3 ==, 4 !=, 5 <, 6 > (quick forms)
	terms []cexpr
	cmp   int  // 0 ==, 1 !=, 2 <, 3 >, 4 <=, 5 >=
	sets  bool // comparison between two settings
	a, b  uint8
}

func quick(op int, value, setting uint8) cexpr { return cexpr{op: op, a: setting, b: value} }
func group(op int, terms ...cexpr) cexpr       { return cexpr{op: op, terms: terms} }
func compare(cmp int, sets bool, setting, operand uint8) cexpr {
	return cexpr{op: 2, cmp: cmp, sets: sets, a: setting, b: operand}
}

func (e *cexpr) bytes() []byte {
	switch e.op {
	case 0, 1:
		out := []byte{byte(e.op<<5 | len(e.terms))}
		for i := range e.terms {
			out = append(out, e.terms[i].bytes()...)
		}
		return out
	case 2:
		c := byte(0x40 | e.cmp)
		if !e.sets {
			c |= 0x10
		}
		return []byte{c, e.a, e.b}
	}
	return []byte{byte(e.op<<5) | e.b, e.a}
}

func (e *cexpr) eval(s []uint8) bool {
	switch e.op {
	case 0:
		for i := range e.terms {
			if e.terms[i].eval(s) {
				return true
			}
		}
		return false
	case 1:
		for i := range e.terms {
			if !e.terms[i].eval(s) {
				return false
			}
		}
		return true
	}
	l, r := s[e.a], e.b
	cmp := e.cmp
	if e.op == 2 {
		if e.sets {
			r = s[e.b]
		}
	} else {
		cmp = e.op - 3
	}
	switch cmp {
	case 0:
		return l == r
	case 1:
		return l != r
	case 2:
		return l < r
	case 3:
		return l > r
	case 4:
		return l <= r
	}
	return l >= r
}

func (e cexpr) String() string {
	if e.op < 2 {
		var t []string
		for i := range e.terms {
			t = append(t, e.terms[i].String())
		}
		return "(" + strings.Join(t, []string{" or ", " and "}[e.op]) + ")"
	}
	cmp := e.cmp
	q := ""
	if e.op > 2 {
		cmp, q = e.op-3, "'"
	}
	k := ""
	if e.sets {
		k = "#"
	}
	return fmt.Sprintf("#%d%s%s%s%d", e.a, []string{"==", "!=", "<", ">", "<=", ">="}[cmp], q, k, e.b)
}

func init() {
	explore.Register(&explore.Check{
		ID: "C15", Title: "rewrite conditions",
		Rule: "one execution = one batch of conditions laid out in a font (position among the others included), each evaluated with every assignment of setting values, directly and as seen by a conditional rule through the settings cache; a state is a condition",
		Bounds: func(t string) string {
			return "every comparison form x operator x {all 32 quick constants, 256 constants, all setting pairs} with 3 settings over the values {0,1,2,30,31,32,254,255}; all groups of arity 2..3 whose terms are leaves or groups of arity 2 (thorough: also of arity 3, and of a leaf and a group of arity 2) of 5 leaves, arities up to 31, nesting chains of depth 1 to 60 and up to 12000, 255 settings and 255 conditions" + bigBounds("C15")
		},
		Body: c15, QuickSec: 90, ThorSec: 820,
	})
}

// c15run lays out conditions and evaluates all of them.
func c15run(x *X, settings int, exprs []cexpr, assignments [][]uint8) {
	for len(exprs) > 0 {
		n := min(len(exprs), 255)
		f := spec.New(1)
		for i := 0; i < settings; i++ {
			f.Settings = append(f.Settings, spec.Setting{Name: fmt.Sprintf("s%d", i), Options: []string{"on", "off"}})
		}
		total := 0
		for i := 0; i < n; i++ {
			b := exprs[i].bytes()
			total += len(b)
			if total > 65535 {
				n = i
				break
			}
			f.Conditions = append(f.Conditions, b)
		}
		font := handMade(x, f)
		if int(font.Rewrites().NumConditions()) != n {
			x.Failf("NumConditions is %d, expected %d", font.Rewrites().NumConditions(), n)
		}
		cache := ggfnt.NewSettingsCache(font)
		for i := 0; i < n; i++ {
			e := &exprs[i]
			x.State(explore.HashBytes(0, f.Conditions[i]))
			for _, s := range assignments {
				want := e.eval(s)
				var got bool
				if msg, p := x.Catch(func() { got = font.Rewrites().EvaluateCondition(uint8(i), s) }); p {
					x.Failf("evaluating condition %d of %d, %v (% x) with settings %v panics: %s", i, n, e, clipb(f.Conditions[i]), s[:min(len(s), 8)], msg)
				}
				if got != want {
					x.Failf("condition %d of %d, %v (% x) with settings %v is %v, expected %v", i, n, e, clipb(f.Conditions[i]), s[:min(len(s), 8)], got, want)
				}
				cache.CacheRewriteCondition(uint8(i), got)
				if v, ok := cache.GetRewriteCondition(uint8(i)); !ok || v != want {
					x.Failf("condition %d, cached as %v, reads %v %v", i, got, v, ok)
				}
			}
			x.Steps(len(assignments))
		}
		exprs = exprs[n:]
	}
}

func clipb(b []byte) []byte { return b[:min(len(b), 40)] }

func c15assign(settings int, values []uint8) [][]uint8 {
	out := [][]uint8{{}}
	for i := 0; i < settings; i++ {
		var next [][]uint8
		for _, p := range out {
			for _, v := range values {
				next = append(next, append(append([]uint8(nil), p...), v))
			}
		}
		out = next
	}
	return out
}

func c15(x *X) {
	switch x.Choose(5) {
	case 4:
		bigRun(x, "C15")
	case 0: // all leaves
		var exprs []cexpr
		settings := 3
		switch x.Choose(3) {
		case 0:
			op := x.Choose(4) + 3
			for v := 0; v < 32; v++ {
				for s := 0; s < settings; s++ {
					exprs = append(exprs, quick(op, uint8(v), uint8(s)))
				}
			}
		case 1:
			cmp := x.Choose(6)
			for v := 0; v < 256; v++ {
				for s := 0; s < settings; s++ {
					exprs = append(exprs, compare(cmp, false, uint8(s), uint8(v)))
				}
			}
		case 2:
			cmp := x.Choose(6)
			for v := 0; v < settings; v++ {
				for s := 0; s < settings; s++ {
					exprs = append(exprs, compare(cmp, true, uint8(s), uint8(v)))
				}
			}
		}
		c15run(x, settings, exprs, c15assign(3, []uint8{0, 1, 2, 30, 31, 32, 254, 255}))
	case 1: // groups of leaves and groups
		leaves := []cexpr{quick(3, 1, 0), compare(2, true, 1, 2), compare(5, false, 2, 1), quick(4, 0, 1), quick(6, 1, 2)}
		nl := 5
		terms := append([]cexpr(nil), leaves[:nl]...)
		for op := 0; op < 2; op++ {
			for a := 0; a < nl; a++ {
				for b := 0; b < nl; b++ {
					terms = append(terms, group(op, leaves[a], leaves[b]))
					if x.Thorough() {
						for c := 0; c < nl; c++ {
							terms = append(terms, group(op, leaves[a], leaves[b], leaves[c]))
						}
						terms = append(terms, group(op, leaves[a], group(1-op, leaves[b], leaves[a])), group(op, group(1-op, leaves[a], leaves[b]), leaves[b]))
					}
				}
			}
		}
		op := x.Choose(2)
		first := pick(x, terms)
		for _, b := range terms {
			exprs := []cexpr{group(op, first, b)}
			for _, c := range terms {
				exprs = append(exprs, group(op, first, b, c))
			}
			c15run(x, 3, exprs, c15assign(3, []uint8{0, 1, 2}))
		}
	case 2: // arities and chains
		op := x.Choose(2)
		var exprs []cexpr
		for n := 2; n <= 31; n++ {
			for pos := 0; pos < n; pos++ {
				// one term differs from the others
				var t []cexpr
				for i := 0; i < n; i++ {
					switch {
					case i == pos && pos%3 == 0:
						t = append(t, group(1-op, quick(3, 1, 0), compare(1, true, 1, 0)))
					case i == pos:
						t = append(t, compare(4, false, 0, 1))
					case i%2 == 0:
						t = append(t, quick(4, 1, 1))
					default:
						t = append(t, compare(3, false, 1, 0))
					}
				}
				exprs = append(exprs, group(op, t...))
			}
		}
		depths := []int{84, 100, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 5000, 12000}
		for depth := 60; depth > 0; depth-- {
			depths = append(depths, depth)
		}
		for _, depth := range depths {
			e := quick(3, 1, 0)
			for i := 0; i < depth; i++ {
				o := op
				if i%2 == 1 {
					o = 1 - op
				}
				leaf := quick(5, uint8(i%3), 1)
				if i%3 == 0 {
					e = group(o, leaf, e)
				} else {
					e = group(o, e, leaf, compare(i%6, true, 0, 1))
				}
			}
			exprs = append(exprs, e)
		}
		c15run(x, 2, exprs, c15assign(2, []uint8{0, 1, 2, 3}))
	case 3: // last settings
		n := pick(x, []int{1, 2, 127, 128, 129, 254, 255})
		k := uint8(n - 1)
		leaves := []cexpr{quick(3, 1, k), quick(6, 0, k), compare(0, true, k, 0), compare(3, true, 0, k), compare(2, false, k, 200)}
		var exprs []cexpr
		for _, a := range leaves {
			exprs = append(exprs, a)
			for _, b := range leaves {
				exprs = append(exprs, group(0, a, b), group(1, a, b), group(1, group(0, a, b), b), group(0, group(1, b, a), a, b))
			}
		}
		var as [][]uint8
		for _, p := range [][2]uint8{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {200, 1}, {0, 200}, {255, 255}} {
			s := make([]uint8, n)
			s[0] = p[0]
			s[k] = p[1]
			as = append(as, s)
		}
		c15run(x, n, exprs, as)
	}
	x.Outcome(explore.HashOf(x.Thorough()))
}

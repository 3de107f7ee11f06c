package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C23", Title: "rules and sets read back",
		Rule: "one execution = one set of rules or sets, defined through the builder and/or laid out as specified, read back from the built and the parsed font; a state is a description",
		Bounds: func(t string) string {
			return "glyph rules through the builder: all head and tail lengths 0..2 (thorough 0..3), bodies 1..3, all patterns of glyphs and sets, all output lengths, one or two rules in both orders; long blocks around 15/16/30/31/45/255; the same for code points (laid out by hand, all code point byte boundaries, conditions; and the simple ones, of all lengths and one or two of them, through the builder); rule counts 0..3, 254..257, 2000 (thorough 65535); equality over all pairs of 40 rules, within and across fonts; sets with 0..3 ranges and 0..3 elements at index boundaries, 254/255 ranges and elements, 1..4, 254 and 255 sets; callbacks that fail at every position" + bigBounds("C23")
		},
		Body: c23, QuickSec: 100, ThorSec: 820,
	})
}

func c23font(glyphs, sets, runeSets int) *spec.Font {
	f := spec.New(glyphs)
	for i := 0; i < sets; i++ {
		f.GlyphSets = append(f.GlyphSets, spec.GlyphSet{List: []uint16{uint16(i % glyphs)}})
	}
	for i := 0; i < runeSets; i++ {
		f.RuneSets = append(f.RuneSets, spec.RuneSet{List: []rune{rune('a' + i)}})
	}
	return f
}

// c23check compares rules and sets in a built and a parsed font.
func c23check(x *X, f *spec.Font) *ggfnt.Font {
	x.State(explore.HashBytes(23, f.Raw()))
	return both(x, f, f.RewriteData)
}

// c23hand is c23check for fonts that the builder can't make.
func c23hand(x *X, f *spec.Font) *ggfnt.Font {
	x.State(explore.HashBytes(24, f.Raw()))
	font := handMade(x, f)
	diff(x, "font laid out by hand", func() string { return f.RewriteData(font) })
	again := reparse(x, font)
	diff(x, "font laid out by hand, exported and parsed", func() string { return f.RewriteData(again) })
	return font
}

// c23block chooses n elements; glyph values and set indices are all different
// from those at other positions when possible.
func c23block(x *X, n, at, glyphs, sets int, wide bool) (out []spec.Elem) {
	for i := 0; i < n; i++ {
		if sets > 0 && x.Bool() {
			out = append(out, spec.S(uint32((at+i)%sets)))
		} else if wide {
			out = append(out, spec.V(c23runes[(at+i)%len(c23runes)]))
		} else {
			out = append(out, spec.V(uint32((at+i*3)%glyphs)))
		}
	}
	return out
}

var c23runes = []uint32{'a', 0xFF, 0x100, 0xFFFF, 0x10000, 0x10FFFF, ' ', 0x4E00}

func c23rule(x *X, glyphs, sets int, wide bool) spec.Rule {
	r := spec.Rule{Cond: 255}
	most := x.Pick(2, 3)
	r.Head = c23block(x, x.Choose(most+1), 0, glyphs, sets, wide)
	r.Body = c23block(x, x.Choose(3)+1, 2, glyphs, sets, wide)
	r.Tail = c23block(x, x.Choose(most+1), 5, glyphs, sets, wide)
	for k := x.Choose(len(r.Body)) + 1; k > 0; k-- {
		if wide {
			r.Out = append(r.Out, c23runes[(k+3)%len(c23runes)])
		} else {
			r.Out = append(r.Out, uint32((k*2)%glyphs))
		}
	}
	return r
}

func c23long(n, pattern, glyphs, sets int, wide bool) (out []spec.Elem) {
	for i := 0; i < n; i++ {
		set := false
		switch pattern {
		case 1:
			set = true
		case 2:
			set = i%2 == 0
		case 3:
			set = i < n/2
		case 4:
			set = i >= n/2
		case 5:
			set = i%17 < 16
		case 6:
			set = i%33 == 16
		}
		if set {
			out = append(out, spec.S(uint32(i*7%sets)))
		} else if wide {
			out = append(out, spec.V(uint32(32+i*5)))
		} else {
			out = append(out, spec.V(uint32(i*5%glyphs)))
		}
	}
	return out
}

func c23(x *X) {
	switch x.Choose(10) {
	case 8:
		bigRun(x, "C23")
	case 9: // code point rules through the builder
		f := c23font(4, 0, 0)
		if x.Bool() {
			f.Utf8Rules = append(f.Utf8Rules, spec.Rule{Cond: 255, Body: []spec.Elem{spec.V(0x10000), spec.V('a')}, Out: []uint32{0xE9}})
		}
		for k := x.Choose(2); k >= 0; k -= 2 {
			r := spec.Rule{Cond: 255, Out: []uint32{pick(x, c23runes)}}
			for n := x.Choose(x.Pick(2, 3)) + 1; n > 0; n-- {
				r.Body = append(r.Body, spec.V(pick(x, c23runes)))
			}
			f.Utf8Rules = append([]spec.Rule{r}, f.Utf8Rules...)
			if k == 1 { // the other order
				f.Utf8Rules = append(f.Utf8Rules[1:], r)
			}
		}
		c23check(x, f)
		x.Count("code point rules through the builder")
	case 0: // one short rule
		f := c23font(8, 3, 0)
		f.GlyphRules = []spec.Rule{c23rule(x, 8, 3, false)}
		c23check(x, f)
		x.Count("short glyph rules")
	case 1: // two rules, and their order
		f := c23font(300, 2, 0)
		a := spec.Rule{Cond: 255, Body: []spec.Elem{spec.V(uint32(pick(x, []int{0, 255, 256, 299})))}, Out: []uint32{uint32(pick(x, []int{0, 255, 256, 299}))}}
		b := spec.Rule{Cond: 255, Head: []spec.Elem{spec.S(1)}, Body: []spec.Elem{spec.V(7), spec.S(0), spec.V(8)}, Tail: []spec.Elem{spec.V(9)}, Out: []uint32{5, 6, 4}[:x.Choose(3)+1]}
		if x.Bool() {
			a, b = b, a
		}
		f.GlyphRules = []spec.Rule{a, b}
		if x.Bool() {
			f.GlyphRules = append(f.GlyphRules, a)
		}
		c23check(x, f)
		x.Count("pairs of glyph rules")
	case 2: // long blocks
		wide := x.Bool()
		f := c23font(256, 20, 0)
		if wide {
			f = c23font(4, 0, 20)
		}
		lens := pick(x, [][3]int{{0, 14, 0}, {0, 15, 0}, {0, 16, 0}, {0, 17, 0}, {15, 15, 15}, {16, 1, 16}, {1, 16, 1}, {30, 30, 30}, {31, 31, 31}, {45, 45, 45}, {46, 1, 46},
			{0, 255, 0}, {254, 1, 0}, {0, 1, 254}, {100, 55, 100}, {127, 1, 127}, {128, 1, 0}, {0, 1, 128}, {85, 85, 85}, {0, 128, 127}})
		p := [3]int{x.Choose(7), x.Choose(7), x.Choose(7)}
		for k := range p {
			if lens[k] < 2 && p[k] > 1 {
				x.Prune()
			}
		}
		r := spec.Rule{Cond: 255, Head: c23long(lens[0], p[0], 256, 20, wide), Body: c23long(lens[1], p[1], 256, 20, wide), Tail: c23long(lens[2], p[2], 256, 20, wide)}
		outs := 1
		if x.Bool() {
			outs = lens[1]
		}
		for k := 0; k < outs; k++ {
			r.Out = append(r.Out, uint32(k%256))
		}
		if wide {
			f.Utf8Rules = []spec.Rule{r}
			c23hand(x, f)
			if outs == 1 && p == [3]int{} && len(r.Head)+len(r.Tail) == 0 { // the builder can make it
				f.RuneSets = nil
				c23check(x, f)
			}
		} else {
			f.GlyphRules = []spec.Rule{r}
			c23check(x, f)
			c23hand(x, f)
		}
		x.Count("long rules")
	case 3: // code point rules and conditions, laid out by hand
		f := c23font(4, 2, 3)
		c := quick(3, 1, 0)
		f.Settings = []spec.Setting{{Name: "s", Options: []string{"a", "b"}}}
		for k := x.Choose(3); k > 0; k-- {
			f.Conditions = append(f.Conditions, c.bytes())
		}
		r := c23rule(x, 8, 3, true)
		conds := append([]uint8{255}, []uint8{0, 1}[:len(f.Conditions)]...)
		r.Cond = pick(x, conds)
		f.Utf8Rules = []spec.Rule{r, {Cond: 255, Body: []spec.Elem{spec.V('z')}, Out: []uint32{'y'}}}
		f.GlyphRules = []spec.Rule{{Cond: r.Cond, Body: []spec.Elem{spec.V(1), spec.S(1)}, Out: []uint32{3, 2}}}
		c23hand(x, f)
		x.Count("code point rules")
	case 4: // number of rules
		f := c23font(300, 1, 0)
		counts := []int{0, 1, 2, 3, 254, 255, 256, 257, 2000}
		if x.Thorough() {
			counts = append(counts, 65535)
		}
		n := pick(x, counts)
		wide := x.Bool()
		for i := 0; i < n; i++ {
			if wide {
				f.Utf8Rules = append(f.Utf8Rules, spec.Rule{Cond: 255, Body: []spec.Elem{spec.V(uint32('a' + i)), spec.V(uint32(i%7 + 32))}[:1+i%2], Out: []uint32{uint32(i + 100)}})
			} else {
				r := spec.Rule{Cond: 255, Body: []spec.Elem{spec.V(uint32(i % 300)), spec.V(uint32(i % 7))}[:1+i%2], Out: []uint32{uint32(i / 300 % 300)}}
				if i%3 == 0 {
					r.Head = []spec.Elem{spec.S(0)}
				}
				f.GlyphRules = append(f.GlyphRules, r)
			}
		}
		c23check(x, f)
		x.Count("rule counts")
	case 5: // equality of all pairs, across fonts
		c23equal(x)
		x.Count("equalities")
	case 6: // sets
		f := spec.New(600)
		hand := x.Bool()
		idx := []int{0, 1, 254, 255, 256, 343}
		set := func() (g spec.GlyphSet, r spec.RuneSet) {
			nr, nl := x.Choose(4), x.Choose(4)
			if nr+nl == 0 {
				x.Prune()
			}
			start := x.Choose(len(idx))
			for k := 0; k < nr; k++ {
				first, extra := idx[(start+k)%len(idx)], []uint8{0, 1, 255, 9}[(start+2*k)%4]
				g.Ranges = append(g.Ranges, spec.GRange{First: uint16(first), Extra: extra})
				r.Ranges = append(r.Ranges, spec.RRange{First: rune(c23runes[(start+k)%len(c23runes)]), Extra: extra})
			}
			for k := 0; k < nl; k++ {
				g.List = append(g.List, uint16(idx[(start+5*k)%len(idx)]))
				r.List = append(r.List, rune(c23runes[(start+3*k)%len(c23runes)]))
			}
			return
		}
		for n := x.Choose(2) + 1; n > 0; n-- {
			g, r := set()
			f.GlyphSets = append(f.GlyphSets, g)
			if hand {
				f.RuneSets = append([]spec.RuneSet{r}, f.RuneSets...)
			}
		}
		var font *ggfnt.Font
		if hand {
			font = c23hand(x, f)
		} else {
			font = c23check(x, f)
		}
		c23stops(x, f, font)
		x.Count("sets")
	case 7: // many sets, big sets
		f := spec.New(520)
		hand := x.Bool()
		if x.Bool() {
			n := pick(x, []int{3, 4, 127, 128, 254, 255})
			for i := 0; i < n; i++ {
				g := spec.GlyphSet{List: []uint16{uint16(i), uint16(519 - i)}[:1+i%2]}
				r := spec.RuneSet{List: []rune{rune(i + 32), rune(90000 + i)}[:1+i%2]}
				if i%3 == 0 {
					g.Ranges = []spec.GRange{{First: uint16(i), Extra: uint8(i)}}
					r.Ranges = []spec.RRange{{First: rune(i), Extra: uint8(i)}}
				}
				f.GlyphSets = append(f.GlyphSets, g)
				if hand {
					f.RuneSets = append(f.RuneSets, r)
				}
			}
		} else {
			var g spec.GlyphSet
			var r spec.RuneSet
			nr, nl := pick(x, []int{0, 1, 127, 128, 254, 255}), pick(x, []int{0, 1, 127, 128, 254, 255})
			if nr+nl == 0 {
				x.Prune()
			}
			for i := 0; i < nr; i++ {
				g.Ranges = append(g.Ranges, spec.GRange{First: uint16(i), Extra: uint8(i % 256)})
				r.Ranges = append(r.Ranges, spec.RRange{First: rune(i * 100), Extra: uint8(i)})
			}
			for i := 0; i < nl; i++ {
				g.List = append(g.List, uint16(519-i))
				r.List = append(r.List, rune(0x10FFFF-i))
			}
			small := spec.GlyphSet{List: []uint16{3}}
			f.GlyphSets = []spec.GlyphSet{small, g, small}
			if hand {
				f.RuneSets = []spec.RuneSet{{List: []rune{3}}, r, {List: []rune{4}}}
			}
		}
		if hand {
			c23hand(x, f)
		} else {
			c23check(x, f)
		}
		x.Count("many sets and big sets")
	}
}

var errStop = errors.New("stop")

// c23stops checks that callbacks that fail stop the iteration with their error.
func c23stops(x *X, f *spec.Font, font *ggfnt.Font) {
	check := func(what string, total int, each func(fn func() error) error) {
		for stop := 0; stop <= total; stop++ {
			calls := 0
			err := each(func() error {
				calls++
				if calls == stop+1 {
					return errStop
				}
				return nil
			})
			want := error(nil)
			if stop < total {
				want = errStop
			}
			if err != want || calls != min(stop+1, total) {
				x.Failf("%s with a callback that fails on call %d of %d: %d calls, error %v", what, stop+1, total, calls, err)
			}
		}
	}
	for i := range f.GlyphSets {
		s := font.Rewrites().GetGlyphSet(uint8(i))
		check("EachRange", len(f.GlyphSets[i].Ranges), func(fn func() error) error {
			return s.EachRange(func(ggfnt.GlyphRange) error { return fn() })
		})
		check("EachListGlyph", len(f.GlyphSets[i].List), func(fn func() error) error {
			return s.EachListGlyph(func(ggfnt.GlyphIndex) error { return fn() })
		})
	}
	for i := range f.RuneSets {
		s := font.Rewrites().GetUtf8Set(uint8(i))
		check("EachRange", len(f.RuneSets[i].Ranges), func(fn func() error) error {
			return s.EachRange(func(a, b rune) error { return fn() })
		})
		check("EachListRune", len(f.RuneSets[i].List), func(fn func() error) error {
			return s.EachListRune(func(rune) error { return fn() })
		})
	}
}

// c23equal compares all pairs of a list of similar rules, within a font and
// between two fonts that have other things in them.
func c23equal(x *X) {
	wide := x.Bool()
	f := c23font(8, 3, 0)
	if wide {
		f = c23font(8, 0, 3)
	}
	s := quick(3, 1, 0)
	f.Settings = []spec.Setting{{Name: "s", Options: []string{"a", "b"}}}
	f.Conditions = [][]byte{s.bytes(), s.bytes()}
	var rules []spec.Rule
	add := func(cond uint8, h, b, t []spec.Elem, out ...uint32) {
		rules = append(rules, spec.Rule{Cond: cond, Head: h, Body: b, Tail: t, Out: out})
	}
	v := func(l ...uint32) (e []spec.Elem) {
		for _, k := range l {
			e = append(e, spec.V(k))
		}
		return
	}
	for _, c := range []uint8{255, 0, 1} {
		add(c, nil, v(1, 2), nil, 3)
	}
	add(255, nil, v(1), nil, 3)
	add(255, nil, v(1), v(2), 3)
	add(255, v(1), v(2), nil, 3)
	add(255, v(1), v(2, 1), nil, 3)
	add(255, nil, v(1, 2), v(1), 3)
	add(255, v(1), v(2), v(1), 3)
	add(255, nil, v(1, 2, 1), nil, 3)
	add(255, nil, v(1, 2), nil, 4)
	add(255, nil, v(1, 2), nil, 3, 4)
	add(255, nil, v(1, 2), nil, 4, 3)
	add(255, nil, v(2, 1), nil, 3)
	add(255, nil, v(1, 3), nil, 3)
	add(255, nil, []spec.Elem{spec.S(1), spec.S(2)}, nil, 3)
	add(255, nil, []spec.Elem{spec.S(1), spec.V(2)}, nil, 3)
	add(255, nil, []spec.Elem{spec.V(1), spec.S(2)}, nil, 3)
	add(255, nil, []spec.Elem{spec.S(0), spec.V(2)}, nil, 3)
	for k := uint32(0); k < 8; k++ {
		add(255, nil, v(k, k, k), nil, k)
	}
	// all of them after a chosen one, twice
	at := x.Choose(len(rules))
	rules = append(append(append([]spec.Rule{}, rules[at:]...), rules...), rules[:at]...)
	g := *f
	g.Glyphs = append(g.Glyphs, spec.Glyph{})
	g.About = "other"
	if wide {
		f.Utf8Rules = rules
		g.Utf8Rules = []spec.Rule{rules[3], rules[at], rules[0]}
	} else {
		f.GlyphRules = rules
		g.GlyphRules = []spec.Rule{rules[3], rules[at], rules[0]}
	}
	a, b := c23hand(x, f), c23hand(x, &g)
	for i := range rules {
		for j := 0; j < 3; j++ {
			var got, back, want bool
			if wide {
				p, q := a.Rewrites().GetUtf8Rule(uint16(i)), b.Rewrites().GetUtf8Rule(uint16(j))
				got, back = p.Equals(q), q.Equals(p)
				want = bytes.Equal(spec.RuleBytes(&f.Utf8Rules[i], true), spec.RuleBytes(&g.Utf8Rules[j], true))
			} else {
				p, q := a.Rewrites().GetGlyphRule(uint16(i)), b.Rewrites().GetGlyphRule(uint16(j))
				got, back = p.Equals(q), q.Equals(p)
				want = bytes.Equal(spec.RuleBytes(&f.GlyphRules[i], false), spec.RuleBytes(&g.GlyphRules[j], false))
			}
			if got != want || back != want {
				x.Failf("equality of rules %s and %s of two fonts: %v and %v, expected %v", fmt.Sprint(rules[i]), fmt.Sprint(j), got, back, want)
			}
		}
	}
	x.Outcome(uint64(len(rules)))
}

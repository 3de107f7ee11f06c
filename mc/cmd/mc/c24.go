package main

import (
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C24", Title: "set editing",
		Rule: "one execution = one history of set operations on a builder; after every step the enumerations of all sets (live and removed) are compared with ordered lists, and at the end the built font too; a state is the contents of all sets",
		Bounds: func(t string) string {
			d := "3 operations over all sets and of 4 operations over one set"
			if t == "thorough" {
				d = "4 operations over all sets and of 5 operations over one set"
			}
			return "all histories of " + d + " (create, remove, add/remove range, add/remove element) over 2 to 4 sets (empty or prefilled at the start), 3 ranges (one of a single element, one that overlaps) and 3 elements, plus removed and unknown sets and glyphs; the same for rune sets; limits of 255 sets, ranges, elements and range lengths, removals at every position of full sets"
		},
		Body: c24, QuickSec: 200, ThorSec: 820,
	})
}

type c24set struct {
	uid    uint64
	live   bool
	ranges [][2]uint64
	list   []uint64
}

// c24kind are the operations on one kind of sets.
type c24kind struct {
	create      func() (uint64, error)
	remove      func(uint64) bool
	addRange    func(s, a, b uint64) error
	removeRange func(s, a, b uint64) bool
	addElem     func(s, e uint64) error
	removeElem  func(s, e uint64) bool
	eachRange   func(s uint64, fn func(a, b uint64))
	eachElem    func(s uint64, fn func(e uint64))
	elems       []uint64
	reject      func(a, b uint64) bool // ranges that must be rejected
	badElem     uint64
}

func c24glyphs(b *builder.Font, uids []uint64) *c24kind {
	return &c24kind{
		create: b.CreateGlyphSet, remove: b.RemoveGlyphSet,
		addRange: b.AddGlyphSetRange, removeRange: b.RemoveGlyphSetRange,
		addElem: b.AddGlyphSetListGlyph, removeElem: b.RemoveGlyphSetListGlyph,
		eachRange: b.EachGlyphSetRange, eachElem: b.EachGlyphSetListGlyph,
		elems: uids, reject: func(a, b uint64) bool { return false }, badElem: 12345,
	}
}

func c24runes(b *builder.Font) *c24kind {
	return &c24kind{
		create: b.CreateRuneSet, remove: b.RemoveRuneSet,
		addRange:    func(s, p, q uint64) error { return b.AddRuneSetRange(s, rune(p), rune(q)) },
		removeRange: func(s, p, q uint64) bool { return b.RemoveRuneSetRange(s, rune(p), rune(q)) },
		addElem:     func(s, e uint64) error { return b.AddRuneSetListRune(s, rune(e)) },
		removeElem:  func(s, e uint64) bool { return b.RemoveRuneSetListRune(s, rune(e)) },
		eachRange: func(s uint64, fn func(a, b uint64)) {
			b.EachRuneSetRange(s, func(p, q rune) { fn(uint64(p), uint64(q)) })
		},
		eachElem: func(s uint64, fn func(e uint64)) { b.EachRuneSetListRune(s, func(e rune) { fn(uint64(e)) }) },
		elems:    []uint64{'a', 'b', 'c', 0x10000}, reject: func(a, b uint64) bool { return a > b },
	}
}

type c24state struct {
	x    *X
	k    *c24kind
	sets []*c24set // in creation order, removed ones too
	log  string
	font *spec.Font
	b    *builder.Font
}

func (s *c24state) check() {
	x := s.x
	x.Step()
	for i, set := range s.sets {
		var ranges [][2]uint64
		var list []uint64
		x.NoPanic("enumerating a set", func() {
			s.k.eachRange(set.uid, func(a, b uint64) { ranges = append(ranges, [2]uint64{a, b}) })
			s.k.eachElem(set.uid, func(e uint64) { list = append(list, e) })
		})
		if fmt.Sprint(ranges) != fmt.Sprint(set.ranges) || fmt.Sprint(list) != fmt.Sprint(set.list) {
			x.Failf("after %s: set %d has ranges %v and elements %v, expected %v and %v", s.log, i, ranges, list, set.ranges, set.list)
		}
	}
}

func (s *c24state) fails(what string, got error, want bool) {
	if (got != nil) != want {
		s.x.Failf("%s: error %v, expected an error: %v", s.log+" "+what, got, want)
	}
}

func (s *c24state) is(what string, got, want bool) {
	if got != want {
		s.x.Failf("%s reports %v, expected %v", s.log+" "+what, got, want)
	}
}

func (s *c24state) note(f string, a ...any) {
	s.log += fmt.Sprintf(f, a...) + "; "
	s.x.Logf(f, a...)
}

func (s *c24state) numLive() (n int) {
	for _, set := range s.sets {
		if set.live {
			n++
		}
	}
	return n
}

func (s *c24state) create() *c24set {
	s.note("create")
	uid, err := s.k.create()
	s.fails("", err, s.numLive() >= 255)
	if err != nil {
		return nil
	}
	set := &c24set{uid: uid, live: true}
	s.sets = append(s.sets, set)
	return set
}

func (s *c24state) addRange(set *c24set, a, b uint64) {
	s.note("add range %d-%d to set %d", a, b, s.index(set))
	bad := !set.live || s.k.reject(a, b) || len(set.ranges) >= 255
	for _, r := range set.ranges {
		bad = bad || r == [2]uint64{a, b}
	}
	s.fails("", s.k.addRange(set.uid, a, b), bad)
	if !bad {
		set.ranges = append(set.ranges, [2]uint64{a, b})
	}
}

func (s *c24state) removeRange(set *c24set, a, b uint64) {
	s.note("remove range %d-%d of set %d", a, b, s.index(set))
	at := -1
	for i, r := range set.ranges {
		if r == [2]uint64{a, b} {
			at = i
		}
	}
	s.is("", s.k.removeRange(set.uid, a, b), at >= 0)
	if at >= 0 {
		set.ranges = append(append([][2]uint64{}, set.ranges[:at]...), set.ranges[at+1:]...)
	}
}

func (s *c24state) addElem(set *c24set, e uint64) {
	s.note("add %d to set %d", e, s.index(set))
	bad := !set.live || len(set.list) >= 255
	for _, r := range set.list {
		bad = bad || r == e
	}
	s.fails("", s.k.addElem(set.uid, e), bad)
	if !bad {
		set.list = append(set.list, e)
	}
}

func (s *c24state) removeElem(set *c24set, e uint64) {
	s.note("remove %d of set %d", e, s.index(set))
	at := -1
	for i, r := range set.list {
		if r == e {
			at = i
		}
	}
	s.is("", s.k.removeElem(set.uid, e), at >= 0)
	if at >= 0 {
		set.list = append(append([]uint64{}, set.list[:at]...), set.list[at+1:]...)
	}
}

func (s *c24state) remove(set *c24set) {
	s.note("remove set %d", s.index(set))
	s.is("", s.k.remove(set.uid), set.live)
	set.live, set.ranges, set.list = false, nil, nil
}

func (s *c24state) index(set *c24set) int {
	for i := range s.sets {
		if s.sets[i] == set {
			return i
		}
	}
	return -1
}

// build compares the built font with the live sets (glyph sets only).
func (s *c24state) build(uids []uint64) {
	x := s.x
	f := s.font
	f.GlyphSets = nil
	at := map[uint64]int{}
	for i, u := range uids {
		at[u] = i
	}
	bad := false
	for _, set := range s.sets {
		if !set.live {
			continue
		}
		var g spec.GlyphSet
		for _, r := range set.ranges {
			a, b := at[r[0]], at[r[1]]
			if b < a || b-a > 255 {
				bad = true
				continue
			}
			g.Ranges = append(g.Ranges, spec.GRange{First: uint16(a), Extra: uint8(b - a)})
		}
		for _, e := range set.list {
			g.List = append(g.List, uint16(at[e]))
		}
		f.GlyphSets = append(f.GlyphSets, g)
	}
	font, err := tryBuild(x, s.b)
	if bad {
		if err == nil {
			x.Failf("after %s: a set with a reversed or too long range is built", s.log)
		}
		return
	}
	if err != nil {
		x.Failf("after %s: Build fails: %v", s.log, err)
	}
	cmp := func(font *ggfnt.Font) string { return f.RewriteData(font) }
	diff(x, "after "+s.log+": built font", func() string { return cmp(font) })
	again := reparse(x, font)
	diff(x, "after "+s.log+": parsed font", func() string { return cmp(again) })
}

func c24(x *X) {
	mode := x.Choose(3)
	n := 4
	if mode == 2 {
		n = 300
	}
	f := spec.New(n)
	built := fill(x, f)
	s := &c24state{x: x, font: f, b: built.B}
	glyphs := mode != 1
	if glyphs {
		s.k = c24glyphs(built.B, built.UIDs)
	} else {
		s.k = c24runes(built.B)
	}
	if mode == 2 {
		c24limits(x, s, built.UIDs)
		return
	}
	e := s.k.elems
	ranges := [][2]uint64{{e[0], e[1]}, {e[1], e[1]}, {e[1], e[2]}, {e[2], e[1]}}
	switch x.Choose(3) { // initial states
	case 0:
		s.create()
		s.create()
	case 1:
		a, b := s.create(), s.create()
		for _, r := range ranges[:3] {
			s.addRange(a, r[0], r[1])
		}
		for _, v := range e[:3] {
			s.addElem(b, v)
			s.addElem(a, v)
		}
	case 2:
		a, b, c := s.create(), s.create(), s.create()
		s.addElem(a, e[2])
		s.addRange(b, e[0], e[1])
		s.remove(a)
		s.addElem(c, e[0])
		s.sets = []*c24set{b, c, a} // (removed sets go last)
	}
	s.check()
	one := x.Bool() // operations on the first set only, one more of them
	depth := x.Pick(3, 4)
	if one {
		depth++
	}
	for ; depth > 0; depth-- {
		var op int
		if one {
			op = 1 + x.Choose(14)
			if op > 1 {
				op = 2 + (op-2)*2
			}
		} else {
			op = x.Choose(28)
		}
		switch {
		case op == 0:
			s.create()
		case op == 1: // unknown sets, glyphs
			s.is("remove an unknown set", s.k.remove(77), false)
			s.fails("add a range to an unknown set", s.k.addRange(77, e[0], e[1]), true)
			s.fails("add an element to an unknown set", s.k.addElem(77, e[0]), true)
			s.is("remove a range of an unknown set", s.k.removeRange(77, e[0], e[1]), false)
			s.is("remove an element of an unknown set", s.k.removeElem(77, e[0]), false)
			if s.k.badElem != 0 {
				set := s.sets[0].uid
				s.fails("add an unknown glyph", s.k.addElem(set, s.k.badElem), true)
				s.fails("add a range from an unknown glyph", s.k.addRange(set, s.k.badElem, e[0]), true)
				s.fails("add a range to an unknown glyph", s.k.addRange(set, e[0], s.k.badElem), true)
				s.is("remove an unknown glyph", s.k.removeElem(set, s.k.badElem), false)
			}
		default:
			op -= 2
			set := s.sets[op%2]
			op /= 2
			switch {
			case op == 0:
				s.remove(set)
			case op < 5:
				s.addRange(set, ranges[op-1][0], ranges[op-1][1])
			case op < 8:
				s.removeRange(set, ranges[op-5][0], ranges[op-5][1])
			case op < 11:
				s.addElem(set, e[op-8])
			case op < 13:
				s.removeElem(set, e[op-11])
			}
		}
		s.check()
		if x.AtFrontier() {
			x.State(explore.HashOf(glyphs, s.sets0()))
		}
	}
	if glyphs {
		s.build(built.UIDs)
		x.Count("glyph set histories")
	} else {
		x.Count("rune set histories")
	}
}

func (s *c24state) sets0() string {
	out := ""
	for _, set := range s.sets {
		out += fmt.Sprint(set.live, set.ranges, set.list)
	}
	return out
}

func c24limits(x *X, s *c24state, uids []uint64) {
	switch x.Choose(4) {
	case 0: // number of sets
		for i := 0; i < 257; i++ {
			if set := s.create(); set != nil && i%5 == 0 {
				s.addElem(set, uids[i])
			}
			s.log = ""
		}
		s.check()
		for k := 0; k < 3; k++ { // room again after removing
			s.remove(s.sets[x.Choose(3)*127])
			s.create()
			s.create()
			s.log = ""
		}
		s.check()
		s.build(uids)
		x.Count("255 sets")
	case 1: // number of ranges and elements
		set := s.create()
		nr, nl := pick(x, []int{0, 1, 254, 255, 256}), pick(x, []int{1, 254, 255, 256})
		for i := 0; i < nr; i++ {
			s.addRange(set, uids[i], uids[i+i%3])
		}
		for i := 0; i < nl; i++ {
			s.addElem(set, uids[i])
		}
		s.log = ""
		s.check()
		other := s.create()
		s.addElem(other, uids[7])
		s.check()
		s.build(uids)
		x.Count("big sets")
	case 2: // removals from a full set, at every position
		set := s.create()
		for i := 0; i < 255; i++ {
			s.addRange(set, uids[i], uids[i+1])
			s.addElem(set, uids[i])
		}
		at := x.Choose(255)
		s.log = ""
		s.removeRange(set, uids[at], uids[at+1])
		s.removeRange(set, uids[at], uids[at+1])
		s.removeElem(set, uids[at])
		s.removeElem(set, uids[at])
		s.check()
		s.addElem(set, uids[299])
		s.addRange(set, uids[at], uids[at+1])
		s.addElem(set, uids[298])
		s.check()
		s.build(uids)
		x.Count("removals from full sets")
	case 3: // lengths of ranges
		set := s.create()
		a := pick(x, []int{0, 1, 44, 150})
		s.addElem(set, uids[0])
		s.addRange(set, uids[a], uids[min(299, a+pick(x, []int{0, 1, 127, 128, 149, 254, 255, 256, 299}))])
		s.check()
		s.build(uids)
		x.Count("lengths of ranges")
	}
}

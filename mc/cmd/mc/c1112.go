package main

import (
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C11", Title: "glyph names",
		Rule: "one execution = one ordered choice of distinct names assigned to glyphs, built, exported and parsed; every name of the universe (and neighbours) is searched in built, parsed and hand laid out fonts; a state is the assignment",
		Bounds: func(t string) string {
			return "every ordered choice of up to 3 (quick) or 4 (thorough) names of a universe of 14 (a b c, digits, prefixes of one another, dashes, upper case, 31/32 letters) on 4 glyphs incl. unnamed ones; plus every prefix-closed list of 1..260 names in ascending, descending and interleaved assignment order" + bigBounds("C11")
		},
		Body: c11, QuickSec: 60, ThorSec: 800,
	})
	explore.Register(&explore.Check{
		ID: "C12", Title: "kerning",
		Rule: "one execution = one sequence of kerning pair edits (horizontal through the builder, vertical and horizontal through a specified layout), all pairs of glyphs queried in both directions in every font; a state is the resulting pair table",
		Bounds: func(t string) string {
			return "all sequences of up to 3 (quick) or 4 (thorough) SetKerningPair over 3x3 pairs x values {-128,-1,0,1,127}; all subsets of pairs over 3 glyphs (2^9) in both directions with mixed values; pair tables of 0..64 and boundary sizes (255,256,257,65536+) over many glyphs" + bigBounds("C12")
		},
		Body: c12, QuickSec: 60, ThorSec: 800,
	})
}

var c11names = []string{"a", "b", "ab", "aa", "a-b", "abc", "B", "0", "a0", "aB", "ba",
	"abcdefghijabcdefghijabcdefghij1", "abcdefghijabcdefghijabcdefghij12", "abcdefghijabcdefghijabcdefghij1a"}
var c11probes = append([]string{"", "A", "-", "c", "aaa", "a-", "b-", "z", "abcd", "bab", "notdef", "abcdefghijabcdefghijabcdefghij", "abcdefghijabcdefghijabcdefghij123", "\x00", "~", "ab\x00"}, c11names...)

func c11check(f *spec.Font, font *ggfnt.Font, probes []string) string {
	want := map[string]ggfnt.GlyphIndex{}
	for i := range f.Glyphs {
		if n := f.Glyphs[i].Name; n != "" {
			want[n] = ggfnt.GlyphIndex(i)
		}
	}
	g := font.Glyphs()
	if int(g.NamedCount()) != len(want) {
		return fmt.Sprintf("NamedCount is %d, expected %d", g.NamedCount(), len(want))
	}
	look := func(n string) string {
		w, ok := want[n]
		if !ok {
			w = ggfnt.GlyphMissing
		}
		if got := g.FindIndexByName(n); got != w {
			return fmt.Sprintf("FindIndexByName(%q) is %d, expected %d (names %v)", n, got, w, want)
		}
		return ""
	}
	for _, n := range probes {
		if m := look(n); m != "" {
			return m
		}
	}
	for n := range want {
		if m := look(n); m != "" {
			return m
		}
		for _, v := range []string{n + "0", n[:len(n)-1], "a" + n} {
			if m := look(v); m != "" {
				return m
			}
		}
	}
	return ""
}

func c11(x *X) {
	var f *spec.Font
	mode := x.Choose(3)
	if mode == 2 {
		bigRun(x, "C11")
		return
	}
	if mode == 0 {
		f = spec.New(4)
		left := append([]string(nil), c11names...)
		n := x.Choose(x.Pick(3, 4) + 1)
		used := 0
		for i := 0; i < 4; i++ {
			// skip some glyphs so that unnamed ones appear in between
			if used < n && (4-i == n-used || x.Bool()) {
				c := x.Choose(len(left))
				f.Glyphs[i].Name = left[c]
				left = append(left[:c:c], left[c+1:]...)
				used++
			}
		}
	} else {
		n := x.Choose(x.Pick(70, 262))
		order := x.Choose(3)
		f = spec.New(n + 1)
		for i := 0; i < n; i++ {
			k := i
			switch order {
			case 1:
				k = n - 1 - i
			case 2:
				k = (i * 7) % n
				if n%7 == 0 {
					k = (i * 11) % n
					if n%11 == 0 {
						k = (i * 13) % n
					}
				}
			}
			name := fmt.Sprintf("n%d", k)
			if k%5 == 0 {
				name += "-x"
			}
			f.Glyphs[i].Name = name
		}
	}
	var names []string
	for i := range f.Glyphs {
		names = append(names, f.Glyphs[i].Name)
	}
	if x.Logging() {
		x.Logf("names %q", names)
	}
	x.StateOf(names)
	both(x, f, func(font *ggfnt.Font) string { return c11check(f, font, c11probes) })
	hand := handMade(x, f)
	diff(x, "specified layout", func() string { return c11check(f, hand, c11probes) })
	x.Outcome(explore.HashOf(len(names)))
}

func c12(x *X) {
	switch x.Choose(4) {
	case 3:
		bigRun(x, "C12")
	case 0: // edit sequences in the builder
		f := spec.New(3)
		b := fill(x, f)
		ref := map[[2]uint16]int8{}
		n := x.Choose(x.Pick(3, 4) + 1)
		for i := 0; i < n; i++ {
			p := x.Choose(9)
			if i == 0 && n > 2 && p > 3 {
				x.Prune() // the first pair up to a representative
			}
			v := pick(x, []int8{-128, -1, 0, 1, 127})
			a, c := uint16(p/3), uint16(p%3)
			x.NoPanic("SetKerningPair", func() { b.B.SetKerningPair(b.UIDs[a], b.UIDs[c], v) })
			x.Step()
			x.Logf("pair %d %d = %d", a, c, v)
			if v == 0 {
				delete(ref, [2]uint16{a, c})
			} else {
				ref[[2]uint16{a, c}] = v
			}
		}
		for p, v := range ref {
			f.Kerns = append(f.Kerns, spec.Kern{A: p[0], B: p[1], V: v})
		}
		x.StateOf(ref)
		x.Outcome(explore.HashOf(ref))
		font := mustBuild(x, b.B)
		diff(x, "built font", func() string { return f.KernData(font) })
		again := reparse(x, font)
		diff(x, "parsed font", func() string { return f.KernData(again) })
	case 1: // all subsets, both directions, specified layout
		f := spec.New(3)
		vals := []int8{-128, 127, -1, 1, 5, -7, 100, -100, 3}
		s1 := x.Choose(512)
		s2 := x.Choose(x.Pick(64, 512))
		if !x.Thorough() {
			s2 = s2*8 + (s1+s2)%8
		}
		for p := 0; p < 9; p++ {
			if s1>>p&1 == 1 {
				f.Kerns = append(f.Kerns, spec.Kern{A: uint16(p / 3), B: uint16(p % 3), V: vals[p]})
			}
			if s2>>p&1 == 1 {
				f.VertKerns = append(f.VertKerns, spec.Kern{A: uint16(p / 3), B: uint16(p % 3), V: vals[8-p]})
			}
		}
		x.State(explore.HashU(uint64(s1), uint64(s2)))
		font := handMade(x, f)
		diff(x, "specified layout", func() string { return f.KernData(font) })
	case 2: // sizes
		sizes := []int{}
		for i := 0; i <= 40; i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 255, 256, 257, 1023, 1024)
		n := pick(x, sizes)
		const glyphs = 300
		f := spec.New(glyphs)
		dir := x.Choose(3)
		for i := 0; i < n; i++ {
			k := spec.Kern{A: uint16((i * 7) % glyphs), B: uint16((i/glyphs*13 + i*3) % glyphs), V: int8(i%255 - 127)}
			if k.V == 0 {
				k.V = -128
			}
			if dir != 1 {
				f.Kerns = append(f.Kerns, k)
			}
			if dir != 0 {
				f.VertKerns = append(f.VertKerns, k)
			}
		}
		uniq := func(l []spec.Kern) []spec.Kern {
			seen := map[[2]uint16]bool{}
			var out []spec.Kern
			for _, k := range l {
				if !seen[[2]uint16{k.A, k.B}] {
					seen[[2]uint16{k.A, k.B}] = true
					out = append(out, k)
				}
			}
			return out
		}
		f.Kerns, f.VertKerns = uniq(f.Kerns), uniq(f.VertKerns)
		x.State(explore.HashU(uint64(n)+9999, uint64(dir)))
		font := handMade(x, f)
		diff(x, "specified layout", func() string { return f.KernData(font) })
		if dir == 0 {
			both(x, f, f.KernData)
		}
	}
}

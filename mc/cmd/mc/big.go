package main

import (
	"fmt"
	"image"
	"slices"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

// Fonts that grow along one dimension until every offset, product of an index
// and a size, and counter of the format has gone past the widths of the
// integers it could be computed with (8, 15, 16 and 24 bits), or the limit of
// the format has been reached. They are fully read back, as built, parsed
// again, and laid out as specified.

type bigDim struct {
	name  string
	check string
	sizes []int
	deep  []int // only in the thorough tier
	make  func(n int) *spec.Font
	hand  bool // the builder has no operations for it
	light bool // only in its own check, not in C01
	cmp   func(f *spec.Font, font *ggfnt.Font) string
}

var bigCounts = []int{127, 128, 255, 256, 257, 8191, 8192, 16383, 16384, 16385, 21845, 21846, 32767, 32768, 32769}

// bigGlyphs makes n glyphs with all different masks and placements.
func bigGlyphs(n int, vert bool) *spec.Font {
	f := spec.New(n)
	f.Vert = vert
	if vert {
		f.VertLineWidth = 3
	}
	for i := range f.Glyphs {
		m := image.NewAlpha(image.Rect(0, -3, 6, 0))
		m.Pix[0] = 255
		for k := 0; k < 16; k++ {
			if i>>k&1 == 1 {
				m.Pix[k+1] = 255
			}
		}
		f.Glyphs[i].Mask = m
		f.Glyphs[i].Placement.Advance = uint8(i*7 + i>>8)
		if vert {
			p := &f.Glyphs[i].Placement
			p.TopAdvance, p.BottomAdvance, p.HorzCenter = uint8(i>>8), uint8(i*3), uint8(i^i>>5)
		}
	}
	return f
}

// bigPlain makes n glyphs of a single pixel.
func bigPlain(n int) *spec.Font {
	f := spec.New(n)
	for i := range f.Glyphs {
		f.Glyphs[i].Placement.Advance = uint8(i + i>>8)
	}
	return f
}

func bigNames(n, size int) *spec.Font {
	f := bigPlain(n)
	for i := range f.Glyphs {
		k := i * 7 % n // names are not in the order of the indices
		if n%7 == 0 {
			k = i * 11 % n
		}
		name := fmt.Sprintf("g%0*d", size-1, k)
		f.Glyphs[i].Name = name
	}
	return f
}

func checkers(w, h, ox, oy int) *image.Alpha {
	m := image.NewAlpha(image.Rect(ox, oy, ox+w, oy+h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if (x+y)%2 == 0 {
				m.Pix[y*m.Stride+x] = 255
			}
		}
	}
	return m
}

// runes far apart from each other, surrogates left out
func bigRune(i int) rune {
	r := rune(0x20 + i*16 + i%7)
	if r >= 0xD800 {
		r += 0x800
	}
	return r
}

func bigMappings(n int, group bool) *spec.Font {
	f := bigPlain(300)
	for i := 0; i < n; i++ {
		m := spec.Mapping{Rune: bigRune(i), Switch: spec.SwitchNone, Groups: []spec.Group{{Glyphs: []uint16{uint16(i % 300)}}}}
		if group && i%3 != 0 {
			m.Switch = spec.SwitchGroup
			m.Groups[0] = spec.Group{Flags: ggfnt.AnimationFlags(i % 16), Glyphs: []uint16{uint16(i % 300), uint16(i / 300 % 300), uint16(i % 7)}}
		}
		f.Mappings = append(f.Mappings, m)
	}
	return f
}

// n entries of a switch with 254 cases of 128 glyphs
func bigCases(n int) *spec.Font {
	f := bigPlain(300)
	f.Settings = []spec.Setting{{Name: "s", Options: c08options(127)}, {Name: "t", Options: c08options(2)}}
	f.Switches = [][]uint8{{0, 1}}
	for i := 0; i < n; i++ {
		m := spec.Mapping{Rune: bigRune(i), Switch: 0}
		for c := 0; c < 254; c++ {
			g := spec.Group{Flags: ggfnt.AnimationFlags(c % 4)}
			for k := 0; k < 128; k++ {
				g.Glyphs = append(g.Glyphs, uint16((k*7+c+i)%300))
			}
			m.Groups = append(m.Groups, g)
		}
		f.Mappings = append(f.Mappings, m)
	}
	return f
}

func bigKerns(n int, dir int) *spec.Font {
	const glyphs = 300
	f := bigPlain(glyphs)
	for i := 0; i < n; i++ {
		k := spec.Kern{A: uint16(i * 7 % glyphs), B: uint16((i/glyphs*13 + i*7) % glyphs), V: int8(i%255 - 127)}
		if k.V == 0 {
			k.V = -128
		}
		if dir != 1 {
			f.Kerns = append(f.Kerns, k)
		}
		if dir != 0 {
			k.V = ^k.V
			if k.V == 0 {
				k.V = 1
			}
			f.VertKerns = append(f.VertKerns, k)
		}
	}
	return f
}

// n settings of 255 options, names of 32 letters
func bigSettings(n int) *spec.Font {
	f := spec.New(1)
	words := []string{"custom-word-with-thirty2-letters", ggfnt.GetPredefinedWord(10), ggfnt.GetPredefinedWord(100), "b", ggfnt.GetPredefinedWord(200)}
	for i := 0; i < n; i++ {
		s := spec.Setting{Name: fmt.Sprintf("setting-with-thirty2-letters-%03d", i)}
		for k := 0; k < 255; k++ {
			s.Options = append(s.Options, words[(i*k+k)%len(words)])
		}
		f.Settings = append(f.Settings, s)
	}
	return f
}

// n switches on 255 settings of which 7 have two options
func bigSwitches(n int) *spec.Font {
	f := bigPlain(140)
	for i := 0; i < 255; i++ {
		opts := 1
		if i%40 == 3 {
			opts = 2
		}
		f.Settings = append(f.Settings, spec.Setting{Name: fmt.Sprintf("s%d", i), Options: c08options(opts)})
	}
	for i := 0; i < n; i++ {
		var sw []uint8
		for k := 0; k < 255; k++ {
			sw = append(sw, uint8((k+i)%255))
		}
		f.Switches = append(f.Switches, sw)
	}
	for _, sw := range []int{0, n / 2, n - 1} {
		m := spec.Mapping{Rune: rune('a' + len(f.Mappings)), Switch: uint8(sw)}
		for c := 0; c < f.NumCases(uint8(sw)); c++ {
			m.Groups = append(m.Groups, spec.Group{Glyphs: []uint16{uint16((c + len(f.Mappings)) % 140)}})
		}
		f.Mappings = append(f.Mappings, m)
	}
	return f
}

// sets with a total size of exactly n bytes
func bigGlyphSets(n int) *spec.Font {
	f := bigPlain(1000)
	for i := 0; n > 0; i++ {
		var s spec.GlyphSet
		size := min(n, 2+255*3+255*2)
		if n-size == 1 {
			size--
		}
		size -= 2
		for ; size >= 3 && (size%2 == 1 || size > 255*2) && len(s.Ranges) < 255; size -= 3 {
			s.Ranges = append(s.Ranges, spec.GRange{First: uint16((len(s.Ranges)*3 + i*5) % 740), Extra: uint8(len(s.Ranges) % 3)})
		}
		for ; size >= 2 && len(s.List) < 255; size -= 2 {
			s.List = append(s.List, uint16((len(s.List)*3+i)%1000))
		}
		n -= len(s.Bytes())
		f.GlyphSets = append(f.GlyphSets, s)
	}
	return f
}

// n/2288 sets of runes
func bigRuneSets(n int) *spec.Font {
	f := spec.New(1)
	for i := 0; n > 0; i++ {
		var s spec.RuneSet
		for k := 0; k < 254; k++ {
			s.Ranges = append(s.Ranges, spec.RRange{First: rune(0x100 + k*300 + i), Extra: uint8(k)})
			s.List = append(s.List, rune(0x30000+k*3+i))
		}
		n -= len(s.Bytes())
		f.RuneSets = append(f.RuneSets, s)
	}
	return f
}

// n rules of different sizes
func bigRules(n int, wide bool) *spec.Font {
	f := bigPlain(300)
	for i := 0; i < n; i++ {
		r := spec.Rule{Cond: 255, Out: []uint32{uint32(i % 300)}}
		for k := 0; k < 1+i%3+i/300; k++ {
			r.Body = append(r.Body, spec.V(uint32('A'+(i+k*3)%200)))
		}
		if r.Body = r.Body[:min(len(r.Body), 14)]; wide {
			r.Out[0] += ' '
			f.Utf8Rules = append(f.Utf8Rules, r)
		} else {
			for k := 0; k < i%4; k++ {
				r.Tail = append(r.Tail, spec.V(uint32(i>>k)%300))
			}
			f.GlyphRules = append(f.GlyphRules, r)
		}
	}
	return f
}

func bigConditions(n int) *spec.Font {
	f := spec.New(1)
	f.Settings = []spec.Setting{{Name: "zero", Options: []string{"off", "on", "custom"}}, {Name: "one", Options: []string{"off", "on"}}}
	for i := 0; i < n; i++ {
		e := bigCondition(i)
		f.Conditions = append(f.Conditions, e.bytes())
	}
	return f
}

// a condition of at most 255 bytes which depends on its number
func bigCondition(i int) cexpr {
	if i == 0 {
		return quick(3, 2, 0)
	}
	last := compare(i%6, false, uint8(i/6%2), uint8(i/12%3))
	var ors []cexpr
	for k := 0; k < 2+i%4; k++ {
		var ands []cexpr
		for j := 0; j < 15; j++ {
			ands = append(ands, compare(j%6, false, 0, uint8(j+k)))
		}
		ors = append(ors, group(1, append(ands, quick(3, 31, 0))...))
	}
	return group(0, append(ors, last)...)
}

func condData(f *spec.Font, font *ggfnt.Font) string {
	if int(font.Rewrites().NumConditions()) != len(f.Conditions) {
		return fmt.Sprintf("number of conditions is %d, expected %d", font.Rewrites().NumConditions(), len(f.Conditions))
	}
	for i := range f.Conditions {
		e := bigCondition(i)
		for a := uint8(0); a < 3; a++ {
			for b := uint8(0); b < 2; b++ {
				if got, want := font.Rewrites().EvaluateCondition(uint8(i), []uint8{a, b}), e.eval([]uint8{a, b}); got != want {
					return fmt.Sprintf("condition %d of %d with settings %d %d is %v, expected %v", i, len(f.Conditions), a, b, got, want)
				}
			}
		}
	}
	return ""
}

func seq(a, b int) (out []int) {
	for ; a <= b; a++ {
		out = append(out, a)
	}
	return out
}

var bigDims = []bigDim{
	{name: "glyphs", check: "C04", sizes: bigCounts, deep: []int{56788, 56789}, cmp: (*spec.Font).GlyphData,
		make: func(n int) *spec.Font { return bigGlyphs(n, false) }},
	{name: "glyphs with vertical layout", check: "C04", sizes: bigCounts, deep: []int{56788, 56789}, cmp: (*spec.Font).GlyphData,
		make: func(n int) *spec.Font { return bigGlyphs(n, true) }},
	{name: "big glyphs", check: "C04", sizes: []int{1, 2, 3, 4, 5, 8, 9}, deep: []int{64, 100}, cmp: (*spec.Font).GlyphData,
		make: func(n int) *spec.Font {
			f := spec.New(n + 1)
			f.Ascent, f.Descent = 255, 255
			for i := 0; i < n; i++ {
				f.Glyphs[i].Mask = checkers(80+n, 110-n+i, -i, -100+i)
				f.Glyphs[i].Placement.Advance = uint8(i)
			}
			return f
		}},
	{name: "a huge glyph", check: "C04", sizes: []int{100, 149, 200, 300, 512}, deep: []int{700, 1000}, cmp: (*spec.Font).GlyphData,
		make: func(n int) *spec.Font {
			f := spec.New(3)
			f.Ascent, f.Descent = 255, 255
			h := min(n, 500)
			f.Glyphs[1].Mask = checkers(n, h, -n/2, -h/2)
			return f
		}},
	{name: "names of 32 letters", check: "C11", sizes: append([]int{1023, 1024, 2047, 2048, 2049, 4095, 4096}, bigCounts...), deep: []int{56789}, cmp: bigC11,
		make: func(n int) *spec.Font { return bigNames(n, 32) }},
	{name: "names of 6 letters", check: "C11", sizes: append([]int{10922, 10923, 13107, 13108}, bigCounts...), deep: []int{56789}, cmp: bigC11,
		make: func(n int) *spec.Font { return bigNames(n, 6) }},
	{name: "mappings", check: "C08", sizes: append([]int{13107, 13108, 56789}, bigCounts...), cmp: bigC08,
		make: func(n int) *spec.Font { return bigMappings(n, false) }},
	{name: "mapped groups", check: "C08", sizes: append([]int{6553, 6554}, bigCounts...), deep: []int{56789}, cmp: bigC08,
		make: func(n int) *spec.Font { return bigMappings(n, true) }},
	{name: "switch cases of 128 glyphs", check: "C08", sizes: []int{1, 2, 3}, deep: []int{5, 100}, cmp: bigC08, light: true, make: bigCases},
	{name: "switches of 255 settings", check: "C08", sizes: []int{1, 2, 127, 128, 129, 254}, cmp: bigC08, light: true, make: bigSwitches},
	{name: "horizontal kerning", check: "C12", sizes: append([]int{13107, 13108, 65535, 65536, 65537, 90000}, bigCounts...), cmp: (*spec.Font).KernData,
		make: func(n int) *spec.Font { return bigKerns(n, 0) }},
	{name: "vertical kerning", check: "C12", sizes: append([]int{13107, 13108, 65535, 65536, 65537, 90000}, bigCounts...), cmp: (*spec.Font).KernData, hand: true,
		make: func(n int) *spec.Font { return bigKerns(n, 1) }},
	{name: "kerning in both directions", check: "C12", sizes: []int{8192, 16384, 32768, 65536}, cmp: (*spec.Font).KernData, hand: true,
		make: func(n int) *spec.Font { return bigKerns(n, 2) }},
	{name: "settings of 255 options", check: "C13", sizes: []int{1, 2, 127, 128, 129, 130, 254, 255}, cmp: (*spec.Font).SettingData, make: bigSettings},
	{name: "conditions", check: "C15", sizes: []int{1, 2, 127, 128, 175, 180, 200, 253, 254}, cmp: condData, hand: true, make: bigConditions},
	{name: "bytes of glyph sets", check: "C23", sizes: []int{1277, 32767, 32768, 32769, 49152, 65533, 65534, 65535}, cmp: (*spec.Font).RewriteData, make: bigGlyphSets},
	{name: "bytes of rune sets", check: "C23", sizes: []int{2288, 32032, 34320, 64064}, cmp: (*spec.Font).RewriteData, hand: true, make: bigRuneSets},
	{name: "glyph rules", check: "C23", sizes: bigCounts, deep: []int{65534, 65535}, cmp: (*spec.Font).RewriteData,
		make: func(n int) *spec.Font { return bigRules(n, false) }},
	{name: "code point rules", check: "C23", sizes: bigCounts, deep: []int{65534, 65535}, cmp: (*spec.Font).RewriteData,
		make: func(n int) *spec.Font { return bigRules(n, true) }},
}

// bigBounds describes the dimensions of a check (all of them for C01).
func bigBounds(check string) string {
	out := ""
	for _, d := range bigDims {
		if (check == "C01" && !d.light) || d.check == check {
			out += fmt.Sprintf(", %s (%d sizes up to %d)", d.name, len(d.sizes), slices.Max(d.sizes))
		}
	}
	return "; big fonts: " + strings.TrimPrefix(out, ", ")
}

func bigC11(f *spec.Font, font *ggfnt.Font) string {
	if m := f.GlyphData(font); m != "" {
		return m
	}
	return c11check(f, font, c11probes)
}

func bigC08(f *spec.Font, font *ggfnt.Font) string {
	return f.MappingData(font, []rune{0, -1, 0x10FFFF, 0xD7FF, 0xE000})
}

// bigRun explores the dimensions of a check.
func bigRun(x *X, check string) {
	var dims []*bigDim
	for i := range bigDims {
		if bigDims[i].check == check {
			dims = append(dims, &bigDims[i])
		}
	}
	d := pick(x, dims)
	sizes := d.sizes
	if x.Thorough() {
		sizes = append(append([]int{}, sizes...), d.deep...)
	}
	n := pick(x, sizes)
	x.Logf("%d %s", n, d.name)
	f := d.make(n)
	x.State(explore.HashOf("big", d.name, n))
	x.Outcome(explore.HashOf(d.name, n))
	cmp := func(font *ggfnt.Font) string { return d.cmp(f, font) }
	if !d.hand {
		both(x, f, cmp)
	}
	font := handMade(x, f)
	diff(x, fmt.Sprintf("%d %s, specified layout", n, d.name), func() string { return cmp(font) })
	if d.hand {
		again := reparse(x, font)
		diff(x, fmt.Sprintf("%d %s, exported and parsed", n, d.name), func() string { return cmp(again) })
	}
	x.Count("big fonts")
}

package main

import (
	"fmt"
	"image/color"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C03", Title: "dyes and palettes",
		Rule: "one execution = one sequence of AddDye/AddPalette calls (kind x size x name choice), each expected to be accepted or rejected by a reference, with the builder enumerations compared after each, then Build, Export and Parse compared with the reference; a state is the accepted list",
		Bounds: func(t string) string {
			return "all sequences of up to 3 (quick) or 4 (thorough) additions, sizes {0,1,2,3,126,127,128,252..256}, names: fresh, taken by a dye, taken by a palette, empty; plus all-singles fonts of every total 1..255 and all splits of the 255 budget into two sections; sections of 257 to 131073 colors after others"
		},
		Body: c03, QuickSec: 60, ThorSec: 800,
	})
}

func c03alphas(n, seed int) []uint8 {
	out := make([]uint8, n)
	for i := range out {
		out[i] = uint8(i*7 + seed*31 + 1)
	}
	return out
}

func c03colors(n, seed int) []color.RGBA {
	out := make([]color.RGBA, n)
	for i := range out {
		k := i*5 + seed*17
		out[i] = color.RGBA{uint8(k), uint8(k + 1), uint8(k * 3), uint8(255 - k)}
	}
	return out
}

func c03builder(f *spec.Font, b *builder.Font) string {
	// The direction in which the builder counts is open upstream: what's required
	// is that the indices of all the sections are one contiguous and disjoint run.
	var indices []int
	for _, d := range f.Dyes {
		var got []uint8
		err := b.EachDyeAlpha(d.Name, func(a, i uint8) { got, indices = append(got, a), append(indices, int(i)) })
		if err != nil || fmt.Sprint(got) != fmt.Sprint(d.Alphas) {
			return fmt.Sprintf("builder dye %s is %v (%v), expected %v", d.Name, got, err, d.Alphas)
		}
		if b.EachPaletteColor(d.Name, func(color.RGBA, uint8) {}) == nil {
			return "a dye name is found as a palette"
		}
	}
	for _, p := range f.Palettes {
		var got []color.RGBA
		err := b.EachPaletteColor(p.Name, func(a color.RGBA, i uint8) { got, indices = append(got, a), append(indices, int(i)) })
		if err != nil || fmt.Sprint(got) != fmt.Sprint(p.Colors) {
			return fmt.Sprintf("builder palette %s is %v (%v), expected %v", p.Name, got, err, p.Colors)
		}
		if b.EachDyeAlpha(p.Name, func(uint8, uint8) {}) == nil {
			return "a palette name is found as a dye"
		}
	}
	for k, i := range indices {
		if up, down := 1+k, 255-k; i != up && i != down || k > 0 && (i == down) != (indices[0] == 255) && up != down {
			return fmt.Sprintf("the builder gives the colors the indices %v", indices)
		}
	}
	if b.EachDyeAlpha("nothing", func(uint8, uint8) {}) == nil || b.EachPaletteColor("nothing", func(color.RGBA, uint8) {}) == nil {
		return "a name that was never added is found in the builder"
	}
	return ""
}

func c03(x *X) {
	f := spec.New(1)
	f.Dyes = nil
	spec.SeedRand(3)
	b := builder.New()
	f.ID = b.GetFontID()
	if _, err := b.AddGlyph(spec.OnePixel()); err != nil {
		x.Failf("AddGlyph: %v", err)
	}
	total := 0
	add := func(pal bool, n int, name string, seed int) {
		ok := n >= 1 && total+n <= 255 && name != ""
		for _, d := range f.Dyes {
			ok = ok && d.Name != name
		}
		for _, p := range f.Palettes {
			ok = ok && p.Name != name
		}
		var err error
		x.NoPanic("AddDye/AddPalette", func() {
			if pal {
				c := c03colors(n, seed)
				err = b.AddPalette(name, c...)
				if ok {
					f.Palettes = append(f.Palettes, spec.Palette{Name: name, Colors: c03colors(n, seed)})
				}
				for i := range c { // the caller may reuse its slice
					c[i] = color.RGBA{9, 9, 9, 9}
				}
			} else {
				a := c03alphas(n, seed)
				err = b.AddDye(name, a...)
				if ok {
					f.Dyes = append(f.Dyes, spec.Dye{Name: name, Alphas: c03alphas(n, seed)})
				}
				for i := range a {
					a[i] = 99
				}
			}
		})
		x.Step()
		if x.Logging() {
			x.Logf("add palette=%v %q with %d colors: %v", pal, name, n, err)
		}
		if (err == nil) != ok {
			x.Failf("adding palette=%v %q with %d colors to %d existing ones: error %v, expected success %v", pal, name, n, total, err, ok)
		}
		if ok {
			total += n
			x.Count("accepted")
		} else {
			x.Count("rejected")
		}
		diff(x, "builder", func() string { return c03builder(f, b) })
	}
	switch x.Choose(4) {
	case 3: // sizes that start again in narrow integers
		first := pick(x, []int{0, 1, 128, 254, 255})
		pal, pal2 := x.Bool(), x.Bool()
		if first > 0 {
			add(pal, first, "first", 1)
		}
		add(pal2, pick(x, []int{257, 511, 512, 513, 32767, 32768, 65281, 65282, 65408, 65535, 65536, 65537, 65791, 131072, 131073}), "huge", 2)
		add(pal, 1, "after", 3)
	case 0:
		depth := x.Choose(x.Pick(3, 4) + 1)
		sizes := []int{0, 1, 2, 3, 127, 128, 252, 254, 255, 256}
		if depth == 4 {
			sizes = []int{1, 2, 127, 128, 253, 255}
		}
		for i := 0; i < depth; i++ {
			pal := x.Bool()
			n := pick(x, sizes)
			name := fmt.Sprintf("section-%d", i)
			if n < 3 {
				switch x.Choose(3) {
				case 1:
					name = "section-0"
				case 2:
					name = ""
				}
			}
			add(pal, n, name, i)
		}
	case 1: // every split of the budget
		pal, pal2 := x.Bool(), x.Bool()
		n := x.Choose(255) + 1
		add(pal, n, "first", 1)
		add(pal2, 255-n, "second", 2) // rejected if empty
		add(pal, 1, "third", 3)       // always rejected unless it fits
	case 2: // many sections of one color
		n := x.Choose(256)
		kinds := x.Choose(4)
		for i := 0; i < n; i++ {
			pal := kinds == 1 || kinds == 2 && i%2 == 1 || kinds == 3 && i >= n/2
			name := fmt.Sprintf("s%d", i)
			if i%3 == 0 {
				name = fmt.Sprintf("a-name-of-thirty-two-letters-%03d", i)
			}
			name = name[:min(len(name), 32)]
			if x.Thorough() || n < 4 || n > 252 || n == 127 || n == 128 {
				add(pal, 1, name, i)
			} else {
				x.Prune()
			}
		}
	}
	if total == 0 {
		f.Dyes = []spec.Dye{{Name: "main", Alphas: []uint8{255}}}
	}
	x.StateOf(f.Dyes, f.Palettes)
	font := mustBuild(x, b)
	diff(x, "built font", func() string { return f.Color(font) })
	again := reparse(x, font)
	diff(x, "parsed font", func() string { return f.Color(again) })
	x.Outcome(explore.HashOf(total, len(f.Dyes), len(f.Palettes)))
	hand := handMade(x, f)
	diff(x, "specified layout", func() string { return f.Color(hand) })
	_ = ggfnt.DyeKey(0)
}

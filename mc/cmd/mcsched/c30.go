package main

import (
	"bytes"
	"image"
	"image/color"
	"strconv"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	scripts["C30"] = readerScripts
	explore.Register(&explore.Check{
		ID: "C30", Title: "concurrent reads",
		Rule: "one execution = one schedule of two or three goroutines that read one font through different groups of accessors, each with its own caches; the goroutines run one at a time, and the explorer decides who goes on at every function entry (and synchronization operation) of the code under check; the results must be those of each reader alone in another process, the font's bytes must not change, and the race detector, which does not see the scheduler, must find nothing; a state is a schedule",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "15 readers; all pairs with 1 preemption at function entries (2 for pairs of readers with few calls) and up to 2 (thorough: 4) preemptions at synchronization operations; all triples without preemptions"
			}
			return "15 readers; all pairs with 1 preemption at function entries and up to 2 (thorough: 4) preemptions at synchronization operations; all triples without preemptions"
		},
		Assume: []string{"preemptions happen at function entries and synchronization operations: what goes on between them is covered by the race detector"},
		Body:   c30, Init: prepare("C30"), QuickSec: 250, ThorSec: 820,
	})
}

var readFont *ggfnt.Font
var readData []byte

func fullFont() *spec.Font {
	f := sharedFont()
	f.Vert = true
	f.VertLineWidth, f.VertLnGap = 5, 1
	f.Name, f.Family, f.Author, f.About = "Full font", "Full", "Me", "About it."
	for i := range f.Glyphs {
		m := image.NewAlpha(image.Rect(-1, -3, 3, 2))
		for k := range m.Pix {
			if (k*7+i*5)%11 < 6 {
				m.Pix[k] = 255
			}
		}
		f.Glyphs[i].Mask = m
		f.Glyphs[i].Placement = ggfnt.GlyphPlacement{Advance: uint8(3 + i), TopAdvance: 2, BottomAdvance: 1, HorzCenter: uint8(i)}
		if i != 2 {
			f.Glyphs[i].Name = "glyph-" + string(rune('a'+(i*3)%7))
		}
	}
	f.Dyes = []spec.Dye{{Name: "main", Alphas: []uint8{255, 128}}, {Name: "second", Alphas: []uint8{7}}}
	f.Palettes = []spec.Palette{{Name: "pal", Colors: []color.RGBA{{1, 2, 3, 255}, {9, 8, 7, 128}}}}
	f.Switches = [][]uint8{{0}, {0, 1}}
	f.Mappings = []spec.Mapping{
		{Rune: 'a', Switch: spec.SwitchNone, Groups: []spec.Group{{Glyphs: []uint16{0}}}},
		{Rune: 'b', Switch: 0, Groups: []spec.Group{{Glyphs: []uint16{1}}, {Glyphs: []uint16{2, 3, 4}, Flags: ggfnt.AnimFlagLoopable}}},
		{Rune: 'c', Switch: 1, Groups: []spec.Group{{Glyphs: []uint16{0}}, {Glyphs: []uint16{1}}, {Glyphs: []uint16{2}}, {Glyphs: []uint16{3, 1}}, {Glyphs: []uint16{4}}, {Glyphs: []uint16{5}}}},
		{Rune: 0x1F600, Switch: spec.SwitchGroup, Groups: []spec.Group{{Glyphs: []uint16{5, 0, 2}}}},
	}
	f.Utf8Rules = []spec.Rule{{Cond: 255, Body: []spec.Elem{spec.V('a'), spec.S(0)}, Out: []uint32{'b'}}}
	f.GlyphRules = []spec.Rule{
		{Cond: 255, Head: []spec.Elem{spec.V(2)}, Body: []spec.Elem{spec.S(0), spec.V(3)}, Out: []uint32{5}},
		{Cond: 0, Body: []spec.Elem{spec.V(2), spec.V(0)}, Out: []uint32{1, 4}}}
	f.Kerns = []spec.Kern{{0, 1, -3}, {1, 1, 4}, {5, 0, 127}}
	f.VertKerns = []spec.Kern{{2, 1, 6}}
	return f
}

type transcript []byte

func (t *transcript) n(v ...int) {
	for _, i := range v {
		*t = append(strconv.AppendInt(*t, int64(i), 10), ' ')
	}
}
func (t *transcript) s(v ...string) {
	for _, s := range v {
		*t = append(strconv.AppendQuote(*t, s), ' ')
	}
}
func (t *transcript) b(v bool) { *t = strconv.AppendBool(*t, v) }
func (t *transcript) err(e error) {
	if e != nil {
		t.s(e.Error())
	}
}
func (t *transcript) date(d ggfnt.Date) { t.n(int(d.Year), int(d.Month), int(d.Day)) }

func readerScripts() (list []script) {
	font := fullFont().MustParse()
	readFont, readData = font, bytes.Clone(font.Data)
	add := func(name string, run func(t *transcript)) {
		list = append(list, script{name, func() string {
			var t transcript
			run(&t)
			return string(t)
		}})
	}
	add("header", func(t *transcript) {
		h := font.Header()
		t.n(int(h.FormatVersion()), int(h.ID()>>1), int(h.VersionMajor()), int(h.VersionMinor()))
		t.date(h.FirstVersionDate())
		t.date(h.MajorVersionDate())
		d := h.MinorVersionDate()
		t.date(d)
		t.b(d.IsValid())
		t.s(d.String(), h.Name(), h.Family(), h.Author(), h.About())
	})
	add("metrics", func(t *transcript) {
		m := font.Metrics()
		t.n(int(m.NumGlyphs()), int(m.MonoWidth()), m.LineHeight(), int(m.Ascent()), int(m.ExtraAscent()), int(m.Descent()), int(m.ExtraDescent()),
			int(m.UppercaseAscent()), int(m.MidlineAscent()), int(m.HorzInterspacing()), int(m.VertInterspacing()), int(m.LineGap()),
			m.VertLineFullWidth(), int(m.VertLineWidth()), int(m.VertLineGap()))
		t.b(m.HasVertLayout())
		t.b(m.Monospaced())
	})
	add("color", func(t *transcript) {
		c := font.Color()
		t.n(int(c.NumDyes()), int(c.NumPalettes()), int(c.NumDyeIndices()), int(c.NumPaletteIndices()), int(c.Count()))
		c.EachDye(func(k ggfnt.DyeKey, name string) {
			t.s(name)
			t.n(int(c.NumDyeAlphas(k)))
			c.EachDyeAlpha(k, func(a uint8) { t.n(int(a)) })
		})
		c.EachPalette(func(k ggfnt.PaletteKey, name string) {
			t.s(name)
			t.n(int(c.NumPaletteColors(k)))
			c.EachPaletteColor(k, func(a color.RGBA) { t.n(int(a.R), int(a.G), int(a.B), int(a.A)) })
		})
	})
	add("go palette", func(t *transcript) {
		for _, c := range font.Color().GoColorPalette() {
			r, g, b, a := c.RGBA()
			t.n(int(r), int(g), int(b), int(a))
		}
	})
	add("glyph names", func(t *transcript) {
		g := font.Glyphs()
		t.n(int(g.Count()), int(g.NamedCount()))
		for _, s := range []string{"glyph-a", "glyph-c", "glyph-f", "none", ""} {
			t.n(int(g.FindIndexByName(s)))
		}
	})
	add("masks", func(t *transcript) {
		for i := ggfnt.GlyphIndex(0); i < 3; i++ {
			m := font.Glyphs().RasterizeMask(i)
			t.n(m.Rect.Min.X, m.Rect.Min.Y, m.Rect.Max.X, m.Rect.Max.Y)
			for y := m.Rect.Min.Y; y < m.Rect.Max.Y; y++ {
				for x := m.Rect.Min.X; x < m.Rect.Max.X; x++ {
					t.n(int(m.AlphaAt(x, y).A))
				}
			}
		}
	})
	add("placements", func(t *transcript) {
		for i := ggfnt.GlyphIndex(0); i < 6; i++ {
			p := font.Glyphs().Placement(i)
			t.n(int(font.Glyphs().Advance(i)), int(p.Advance), int(p.TopAdvance), int(p.BottomAdvance), int(p.HorzCenter))
		}
	})
	add("settings", func(t *transcript) {
		s := font.Settings()
		t.n(int(s.NumWords()), int(s.Count()))
		t.s(s.GetWord(0), s.GetWord(200))
		s.Each(func(k ggfnt.SettingKey, name string) {
			t.s(name)
			t.n(int(s.GetNumOptions(k)))
			for i := uint8(0); i < s.GetNumOptions(k); i++ {
				t.s(s.GetOptionName(k, i))
			}
		})
	})
	group := func(t *transcript, g ggfnt.GlyphMappingGroup, found bool) {
		t.b(found)
		if !found {
			return
		}
		t.n(int(g.Size()), int(g.AnimationFlags()), int(g.CaseBranch()))
		for i := uint8(0); i < g.Size(); i++ {
			t.n(int(g.Select(i)))
		}
	}
	probes := []rune{'a', 'b', 'c', 0x1F600, 'x', 'b'}
	add("mapping", func(t *transcript) {
		m := font.Mapping()
		t.n(int(m.NumSwitchTypes()), int(m.NumEntries()))
		for _, s := range [][]uint8{{0, 0}, {1, 2}} {
			for _, r := range probes[:4] {
				g, ok := m.Utf8(r, s)
				group(t, g, ok)
			}
			t.n(int(m.EvaluateSwitch(1, s)))
			g, ok := m.Ascii('c', s)
			group(t, g, ok)
		}
	})
	add("mapping, settings cache", func(t *transcript) {
		c := ggfnt.NewSettingsCache(font)
		for _, r := range probes {
			g, ok := font.Mapping().Utf8WithCache(r, c)
			group(t, g, ok)
			a, b := c.Set(0, 1)
			t.b(a)
			t.b(b)
		}
	})
	add("mapping cache", func(t *transcript) {
		c := ggfnt.NewSettingsCache(font)
		m := ggfnt.NewMappingCache(font, 2)
		for i, r := range probes {
			g, ok := m.Get(r, c)
			group(t, g, ok)
			if i == 2 {
				c.Set(1, 1)
				m.Drop()
			}
		}
	})
	add("conditions", func(t *transcript) {
		r := font.Rewrites()
		t.n(int(r.NumConditions()))
		c := ggfnt.NewSettingsCache(font)
		for i := uint8(0); i < 2; i++ {
			c.Set(0, i)
			c.Set(1, 2*i)
			for k := uint8(0); k < r.NumConditions(); k++ {
				_, ok := c.GetRewriteCondition(k)
				t.b(ok)
				v := r.EvaluateCondition(k, c.UnsafeSlice())
				t.b(v)
				c.CacheRewriteCondition(k, v)
			}
		}
	})
	add("rules", func(t *transcript) {
		r := font.Rewrites()
		t.n(int(r.NumGlyphRules()), int(r.NumUTF8Rules()), int(r.NumGlyphSets()), int(r.NumUTF8Sets()))
		for i := uint16(0); i < r.NumGlyphRules(); i++ {
			rule := r.GetGlyphRule(i)
			t.n(int(rule.Condition()), int(rule.HeadLen()), int(rule.BodyLen()), int(rule.TailLen()), int(rule.InLen()), int(rule.OutLen()))
			rule.EachOut(func(g ggfnt.GlyphIndex) { t.n(int(g)) })
			t.b(rule.Equals(r.GetGlyphRule(0)))
		}
		u := r.GetUtf8Rule(0)
		t.n(int(u.Condition()), int(u.InLen()))
		u.EachOut(func(v rune) { t.n(int(v)) })
		for i := uint8(0); i < 2; i++ {
			set := r.GetGlyphSet(i)
			t.err(set.EachRange(func(g ggfnt.GlyphRange) error { t.n(int(g.First), int(g.Last)); return nil }))
			t.err(set.EachListGlyph(func(g ggfnt.GlyphIndex) error { t.n(int(g)); return nil }))
			runes := r.GetUtf8Set(i)
			t.err(runes.EachRange(func(a, b rune) error { t.n(int(a), int(b)); return nil }))
			t.err(runes.EachListRune(func(a rune) error { t.n(int(a)); return nil }))
		}
	})
	add("kerning", func(t *transcript) {
		k := font.Kerning()
		t.n(int(k.NumPairs()), int(k.NumVertPairs()))
		for _, p := range [][2]ggfnt.GlyphIndex{{0, 1}, {1, 1}, {5, 0}, {2, 1}} {
			t.n(int(k.Get(p[0], p[1])), int(k.GetVert(p[0], p[1])))
		}
	})
	add("export, validate", func(t *transcript) {
		t.n(font.RawSize())
		t.err(font.Validate(ggfnt.FmtDefault))
		var out bytes.Buffer
		t.err(font.Export(&out))
		t.n(out.Len())
	})
	return list
}

func c30(x *X) {
	n := len(loaded)
	pair := func() []int {
		i := x.Choose(n)
		return []int{i, i + x.Choose(n-i)}
	}
	switch x.Choose(3) {
	case 0:
		w := pair()
		budget := 1
		if x.Thorough() {
			calls := 1
			for _, i := range w {
				calls *= len(expected[loaded[i].name])
			}
			if calls < 15000 {
				budget = 2
			}
		}
		runScripts(x, w, true, budget)
	case 1:
		runScripts(x, pair(), false, x.Pick(2, 4))
	case 2:
		a := x.Choose(n)
		b := a + x.Choose(n-a)
		runScripts(x, []int{a, b, b + x.Choose(n-b)}, false, 0)
	}
	if !same(readFont.Data, readData) {
		x.Failf("reading changed the font")
	}
}

package spec

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"sort"

	"github.com/tinne26/ggfnt"
)

// SamePixels compares the non transparent pixels of two masks.
func SamePixels(a, b *image.Alpha) string {
	if a == nil { // what empty masks come back as
		a = &image.Alpha{}
	}
	r := a.Bounds().Union(b.Bounds())
	if a.Bounds().Empty() {
		r = b.Bounds()
	}
	if b.Bounds().Empty() {
		r = a.Bounds()
	}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			va, vb := at(a, x, y), at(b, x, y)
			if va != vb {
				return fmt.Sprintf("pixel (%d,%d) is %d, expected %d", x, y, va, vb)
			}
		}
	}
	return ""
}

func at(m *image.Alpha, x, y int) uint8 {
	if !(image.Point{X: x, Y: y}).In(m.Rect) {
		return 0
	}
	return m.Pix[(y-m.Rect.Min.Y)*m.Stride+(x-m.Rect.Min.X)]
}

// Tight returns the tight bounds of the non transparent pixels.
func Tight(m *image.Alpha) image.Rectangle {
	out := image.Rectangle{}
	b := m.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if at(m, x, y) != 0 {
				p := image.Rect(x, y, x+1, y+1)
				if out.Empty() {
					out = p
				} else {
					out = out.Union(p)
				}
			}
		}
	}
	return out
}

type diff struct{ msg string }

func (d *diff) eq(what string, got, want any) bool {
	if d.msg != "" {
		return false
	}
	if got != want {
		d.msg = fmt.Sprintf("%s is %v, expected %v", what, got, want)
		return false
	}
	return true
}

// Header compares the header.
func (f *Font) Header(font *ggfnt.Font) string {
	d := &diff{}
	h := font.Header()
	d.eq("format version", h.FormatVersion(), uint32(ggfnt.FormatVersion))
	d.eq("font ID", h.ID(), f.ID)
	d.eq("major version", h.VersionMajor(), f.VerMaj)
	d.eq("minor version", h.VersionMinor(), f.VerMin)
	d.eq("first version date", h.FirstVersionDate(), f.First)
	d.eq("major version date", h.MajorVersionDate(), f.Major)
	d.eq("minor version date", h.MinorVersionDate(), f.Minor)
	d.eq("name", h.Name(), f.Name)
	d.eq("family", h.Family(), f.Family)
	d.eq("author", h.Author(), f.Author)
	d.eq("about", h.About(), f.About)
	return d.msg
}

// Metrics compares the metrics.
func (f *Font) Metrics(font *ggfnt.Font) string {
	d := &diff{}
	m := font.Metrics()
	d.eq("number of glyphs", m.NumGlyphs(), uint16(len(f.Glyphs)))
	d.eq("vertical layout", m.HasVertLayout(), f.Vert)
	d.eq("monospaced", m.Monospaced(), f.MonoWidth != 0)
	d.eq("mono width", m.MonoWidth(), f.MonoWidth)
	d.eq("line height", m.LineHeight(), int(f.Ascent)+int(f.Descent)+int(f.LineGap))
	d.eq("ascent", m.Ascent(), f.Ascent)
	d.eq("extra ascent", m.ExtraAscent(), f.ExtraAscent)
	d.eq("descent", m.Descent(), f.Descent)
	d.eq("extra descent", m.ExtraDescent(), f.ExtraDescent)
	d.eq("uppercase ascent", m.UppercaseAscent(), f.UppercaseAscent)
	d.eq("midline ascent", m.MidlineAscent(), f.MidlineAscent)
	d.eq("horz interspacing", m.HorzInterspacing(), f.HorzInterspacing)
	d.eq("vert interspacing", m.VertInterspacing(), f.VertInter)
	d.eq("line gap", m.LineGap(), f.LineGap)
	d.eq("vert line width", m.VertLineWidth(), f.VertLineWidth)
	d.eq("vert line gap", m.VertLineGap(), f.VertLnGap)
	d.eq("vert line full width", m.VertLineFullWidth(), int(f.VertLineWidth)+int(f.VertLnGap))
	return d.msg
}

// Color compares dyes and palettes.
func (f *Font) Color(font *ggfnt.Font) string {
	d := &diff{}
	c := font.Color()
	d.eq("number of dyes", c.NumDyes(), uint8(len(f.Dyes)))
	d.eq("number of palettes", c.NumPalettes(), uint8(len(f.Palettes)))
	na, nc := 0, 0
	pal := color.Palette{color.RGBA{}}
	i := 0
	c.EachDye(func(k ggfnt.DyeKey, name string) {
		if i < len(f.Dyes) {
			d.eq("dye key", int(k), i)
			d.eq(fmt.Sprintf("name of dye %d", i), name, f.Dyes[i].Name)
		}
		i++
	})
	d.eq("dyes iterated", i, len(f.Dyes))
	if d.msg != "" {
		return d.msg
	}
	for i, dye := range f.Dyes {
		d.eq(fmt.Sprintf("alphas of dye %d", i), c.NumDyeAlphas(ggfnt.DyeKey(i)), uint8(len(dye.Alphas)))
		j := 0
		c.EachDyeAlpha(ggfnt.DyeKey(i), func(a uint8) {
			if j < len(dye.Alphas) {
				d.eq(fmt.Sprintf("alpha %d of dye %d", j, i), a, dye.Alphas[j])
			}
			j++
		})
		d.eq(fmt.Sprintf("alphas iterated of dye %d", i), j, len(dye.Alphas))
		na += len(dye.Alphas)
		for _, a := range dye.Alphas {
			pal = append(pal, color.RGBA{a, a, a, a})
		}
	}
	i = 0
	c.EachPalette(func(k ggfnt.PaletteKey, name string) {
		if i < len(f.Palettes) {
			d.eq("palette key", int(k), i)
			d.eq(fmt.Sprintf("name of palette %d", i), name, f.Palettes[i].Name)
		}
		i++
	})
	d.eq("palettes iterated", i, len(f.Palettes))
	if d.msg != "" {
		return d.msg
	}
	for i, p := range f.Palettes {
		d.eq(fmt.Sprintf("colors of palette %d", i), c.NumPaletteColors(ggfnt.PaletteKey(i)), uint8(len(p.Colors)))
		j := 0
		c.EachPaletteColor(ggfnt.PaletteKey(i), func(a color.RGBA) {
			if j < len(p.Colors) {
				d.eq(fmt.Sprintf("color %d of palette %d", j, i), a, p.Colors[j])
			}
			j++
		})
		d.eq(fmt.Sprintf("colors iterated of palette %d", i), j, len(p.Colors))
		nc += len(p.Colors)
		for _, a := range p.Colors {
			pal = append(pal, a)
		}
	}
	d.eq("dye indices", c.NumDyeIndices(), uint8(na))
	d.eq("palette indices", c.NumPaletteIndices(), uint8(nc))
	d.eq("color count", c.Count(), uint8(na+nc))
	if d.msg == "" {
		got := c.GoColorPalette()
		d.eq("go palette size", len(got), len(pal))
		for i := 0; d.msg == "" && i < len(pal); i++ {
			d.eq(fmt.Sprintf("go palette color %d", i), got[i], pal[i])
		}
	}
	return d.msg
}

// GlyphData compares names, placements and masks.
func (f *Font) GlyphData(font *ggfnt.Font) string {
	d := &diff{}
	g := font.Glyphs()
	d.eq("glyph count", g.Count(), uint16(len(f.Glyphs)))
	named := 0
	for i := range f.Glyphs {
		if f.Glyphs[i].Name != "" {
			named++
			d.eq("glyph named "+f.Glyphs[i].Name, g.FindIndexByName(f.Glyphs[i].Name), ggfnt.GlyphIndex(i))
		}
	}
	d.eq("named glyphs", g.NamedCount(), uint16(named))
	for i := range f.Glyphs {
		if d.msg != "" {
			return d.msg
		}
		gl := &f.Glyphs[i]
		want := gl.Placement
		if !f.Vert {
			want = ggfnt.GlyphPlacement{Advance: want.Advance}
		}
		if got := g.Placement(ggfnt.GlyphIndex(i)); got != want {
			d.eq(fmt.Sprintf("placement of glyph %d", i), got, want)
		}
		if got := g.Advance(ggfnt.GlyphIndex(i)); got != want.Advance {
			d.eq(fmt.Sprintf("advance of glyph %d", i), got, want.Advance)
		}
		if gl.Ops == nil {
			if m := SamePixels(g.RasterizeMask(ggfnt.GlyphIndex(i)), gl.GetMask()); m != "" {
				return fmt.Sprintf("mask of glyph %d: %s", i, m)
			}
		}
	}
	return d.msg
}

// SettingData compares settings, options and words.
func (f *Font) SettingData(font *ggfnt.Font) string {
	d := &diff{}
	s := font.Settings()
	d.eq("settings", s.Count(), uint8(len(f.Settings)))
	i := 0
	s.Each(func(k ggfnt.SettingKey, name string) {
		if i < len(f.Settings) {
			d.eq("setting key", int(k), i)
			d.eq(fmt.Sprintf("name of setting %d", i), name, f.Settings[i].Name)
		}
		i++
	})
	d.eq("settings iterated", i, len(f.Settings))
	if d.msg != "" {
		return d.msg
	}
	for i, st := range f.Settings {
		if !d.eq(fmt.Sprintf("options of setting %d", i), s.GetNumOptions(ggfnt.SettingKey(i)), uint8(len(st.Options))) {
			return d.msg
		}
		for j, o := range st.Options {
			d.eq(fmt.Sprintf("option %d of setting %d", j, i), s.GetOptionName(ggfnt.SettingKey(i), uint8(j)), o)
		}
	}
	d.eq("options of an undefined setting", s.GetNumOptions(ggfnt.SettingKey(len(f.Settings))), uint8(0))
	nw := s.NumWords()
	seen := map[string]int{}
	for i := 0; i < 256; i++ {
		w := s.GetWord(uint8(i))
		if i < int(nw) {
			if j, dup := seen[w]; dup {
				return fmt.Sprintf("word %d and word %d are both %q", i, j, w)
			}
			seen[w] = i
		} else {
			d.eq(fmt.Sprintf("word %d", i), w, ggfnt.GetPredefinedWord(uint8(i)))
		}
	}
	return d.msg
}

// NumCases of a switch.
func (f *Font) NumCases(sw uint8) int {
	if sw >= 254 {
		return 1
	}
	n := 1
	for _, s := range f.Switches[sw] {
		n *= len(f.Settings[s].Options)
	}
	return n
}

// Case of a switch for some setting values.
func (f *Font) Case(sw uint8, settings []uint8) int {
	if sw >= 254 {
		return 0
	}
	c := 0
	for _, s := range f.Switches[sw] {
		c = c*len(f.Settings[s].Options) + int(settings[s])
	}
	return c
}

// Lookup is the reference for rune lookups.
func (f *Font) Lookup(r rune, settings []uint8) (Group, int, bool) {
	for i := range f.Mappings {
		if f.Mappings[i].Rune == r {
			return f.entry(i, settings)
		}
	}
	return Group{}, 0, false
}

func (f *Font) entry(i int, settings []uint8) (Group, int, bool) {
	m := &f.Mappings[i]
	c := f.Case(m.Switch, settings)
	return m.Groups[c], c, true
}

// lookupFn is Lookup with an index if there are many entries.
func (f *Font) lookupFn() func(r rune, settings []uint8) (Group, int, bool) {
	if len(f.Mappings) < 64 {
		return f.Lookup
	}
	index := make(map[rune]int, len(f.Mappings))
	for i := range f.Mappings {
		if _, dup := index[f.Mappings[i].Rune]; !dup {
			index[f.Mappings[i].Rune] = i
		}
	}
	return func(r rune, settings []uint8) (Group, int, bool) {
		if i, ok := index[r]; ok {
			return f.entry(i, settings)
		}
		return Group{}, 0, false
	}
}

// CheckGroup compares a looked up group with the reference.
func CheckGroup(what string, got ggfnt.GlyphMappingGroup, want Group) string {
	d := &diff{}
	d.eq(what+" group size", int(got.Size()), len(want.Glyphs))
	flags := want.Flags
	if len(want.Glyphs) == 1 {
		flags = 0
	}
	d.eq(what+" animation flags", got.AnimationFlags(), flags)
	for i, g := range want.Glyphs {
		if d.msg != "" {
			return d.msg
		}
		d.eq(fmt.Sprintf("%s glyph %d", what, i), got.Select(uint8(i)), ggfnt.GlyphIndex(g))
	}
	return d.msg
}

// CheckLookup compares a lookup with the reference.
func (f *Font) CheckLookup(font *ggfnt.Font, r rune, settings []uint8) string {
	return checkLookup(f.Lookup, font, r, settings)
}

func checkLookup(lookup func(rune, []uint8) (Group, int, bool), font *ggfnt.Font, r rune, settings []uint8) string {
	want, cs, ok := lookup(r, settings)
	got, found := font.Mapping().Utf8(r, settings)
	if found != ok {
		return fmt.Sprintf("lookup of %q with settings %v: found = %v, expected %v", r, settings, found, ok)
	}
	if !ok {
		return ""
	}
	if int(got.CaseBranch()) != cs {
		return fmt.Sprintf("lookup of %q with settings %v: case %d, expected %d", r, settings, got.CaseBranch(), cs)
	}
	if sameGroup(got, want) {
		return ""
	}
	return CheckGroup(fmt.Sprintf("lookup of %q with settings %v:", r, settings), got, want)
}

// sameGroup is CheckGroup without the message.
func sameGroup(got ggfnt.GlyphMappingGroup, want Group) bool {
	if int(got.Size()) != len(want.Glyphs) || len(want.Glyphs) > 1 && got.AnimationFlags() != want.Flags ||
		len(want.Glyphs) == 1 && got.AnimationFlags() != 0 {
		return false
	}
	for i, g := range want.Glyphs {
		if got.Select(uint8(i)) != ggfnt.GlyphIndex(g) {
			return false
		}
	}
	return true
}

// EachAssignment calls fn with every assignment of valid option indices. If
// there are more than 1024 of them, only the settings used by switches vary
// and, if that is still too much, all of them in turn with the others at their
// first and at their last option.
func (f *Font) EachAssignment(fn func([]uint8) bool) {
	var vary []int
	total := 1
	used := func(only bool) {
		vary, total = nil, 1
		seen := make([]bool, len(f.Settings))
		for _, sw := range f.Switches {
			for _, k := range sw {
				seen[k] = true
			}
		}
		for i := range f.Settings {
			if !only || seen[i] {
				vary = append(vary, i)
				total = min(total*len(f.Settings[i].Options), 1<<20)
			}
		}
	}
	s := make([]uint8, len(f.Settings))
	if used(false); total > 1024 {
		used(true)
	}
	if total > 1024 {
		for _, i := range vary {
			for base := 0; base < 2; base++ {
				for j := range s {
					s[j] = uint8(base * (len(f.Settings[j].Options) - 1))
				}
				for v := range f.Settings[i].Options {
					s[i] = uint8(v)
					if !fn(s) {
						return
					}
				}
			}
		}
		return
	}
	for {
		if !fn(s) {
			return
		}
		i := len(vary) - 1
		for i >= 0 {
			k := vary[i]
			s[k]++
			if int(s[k]) < len(f.Settings[k].Options) {
				break
			}
			s[k] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// MappingData compares switches and mappings for every assignment.
func (f *Font) MappingData(font *ggfnt.Font, probes []rune) string {
	m := font.Mapping()
	if int(m.NumSwitchTypes()) != len(f.Switches) {
		return fmt.Sprintf("number of switches is %d, expected %d", m.NumSwitchTypes(), len(f.Switches))
	}
	if int(m.NumEntries()) != len(f.Mappings) {
		return fmt.Sprintf("number of mapping entries is %d, expected %d", m.NumEntries(), len(f.Mappings))
	}
	msg := ""
	lookup := f.lookupFn()
	f.EachAssignment(func(s []uint8) bool {
		for sw := range f.Switches {
			if got, want := int(m.EvaluateSwitch(uint8(sw), s)), f.Case(uint8(sw), s); got != want {
				msg = fmt.Sprintf("switch %d with settings %v is case %d, expected %d", sw, s, got, want)
				return false
			}
		}
		for i := range f.Mappings {
			r := f.Mappings[i].Rune
			for _, p := range [3]rune{r, r - 1, r + 1} {
				if msg = checkLookup(lookup, font, p, s); msg != "" {
					return false
				}
			}
		}
		for _, p := range probes {
			if msg = checkLookup(lookup, font, p, s); msg != "" {
				return false
			}
		}
		return true
	})
	return msg
}

func (r *Rule) check(what string, cond, hl, bl, tl, il, ol uint8, out []uint32) string {
	d := &diff{}
	d.eq(what+" condition", cond, r.Cond)
	d.eq(what+" head length", hl, uint8(len(r.Head)))
	d.eq(what+" body length", bl, uint8(len(r.Body)))
	d.eq(what+" tail length", tl, uint8(len(r.Tail)))
	d.eq(what+" in length", il, uint8(len(r.Head)+len(r.Body)+len(r.Tail)))
	d.eq(what+" out length", ol, uint8(len(r.Out)))
	d.eq(what+" outputs", fmt.Sprint(out), fmt.Sprint(append([]uint32{}, r.Out...)))
	return d.msg
}

// RewriteData compares rules and sets.
func (f *Font) RewriteData(font *ggfnt.Font) string {
	d := &diff{}
	w := font.Rewrites()
	d.eq("conditions", w.NumConditions(), uint8(len(f.Conditions)))
	d.eq("glyph rules", int(w.NumGlyphRules()), len(f.GlyphRules))
	d.eq("utf8 rules", int(w.NumUTF8Rules()), len(f.Utf8Rules))
	d.eq("glyph sets", int(w.NumGlyphSets()), len(f.GlyphSets))
	d.eq("rune sets", int(w.NumUTF8Sets()), len(f.RuneSets))
	if d.msg != "" {
		return d.msg
	}
	for i := range f.GlyphRules {
		r := w.GetGlyphRule(uint16(i))
		out := []uint32{}
		r.EachOut(func(g ggfnt.GlyphIndex) { out = append(out, uint32(g)) })
		if m := f.GlyphRules[i].check(fmt.Sprintf("glyph rule %d", i), r.Condition(), r.HeadLen(), r.BodyLen(), r.TailLen(), r.InLen(), r.OutLen(), out); m != "" {
			return m
		}
		if m := f.GlyphRules[i].checkInput(fmt.Sprintf("glyph rule %d", i), r.Data, false); m != "" {
			return m
		}
		for j := range f.GlyphRules {
			if len(f.GlyphRules) > 200 && (j < i-1 || j > i+1) {
				continue
			}
			o := w.GetGlyphRule(uint16(j))
			same := bytes.Equal(RuleBytes(&f.GlyphRules[i], false), RuleBytes(&f.GlyphRules[j], false))
			d.eq(fmt.Sprintf("equality of glyph rules %d and %d", i, j), r.Equals(o), same)
		}
	}
	for i := range f.Utf8Rules {
		r := w.GetUtf8Rule(uint16(i))
		out := []uint32{}
		r.EachOut(func(g rune) { out = append(out, uint32(g)) })
		if m := f.Utf8Rules[i].check(fmt.Sprintf("utf8 rule %d", i), r.Condition(), r.HeadLen(), r.BodyLen(), r.TailLen(), r.InLen(), r.OutLen(), out); m != "" {
			return m
		}
		if m := f.Utf8Rules[i].checkInput(fmt.Sprintf("utf8 rule %d", i), r.Data, true); m != "" {
			return m
		}
		for j := range f.Utf8Rules {
			if len(f.Utf8Rules) > 200 && (j < i-1 || j > i+1) {
				continue
			}
			o := w.GetUtf8Rule(uint16(j))
			same := bytes.Equal(RuleBytes(&f.Utf8Rules[i], true), RuleBytes(&f.Utf8Rules[j], true))
			d.eq(fmt.Sprintf("equality of utf8 rules %d and %d", i, j), r.Equals(o), same)
		}
	}
	for i := range f.GlyphSets {
		var got, want []string
		s := w.GetGlyphSet(uint8(i))
		e1 := s.EachRange(func(r ggfnt.GlyphRange) error { got = append(got, fmt.Sprintf("%d-%d", r.First, r.Last)); return nil })
		e2 := s.EachListGlyph(func(g ggfnt.GlyphIndex) error { got = append(got, fmt.Sprint(g)); return nil })
		if e1 != nil || e2 != nil {
			return fmt.Sprintf("iterating glyph set %d: unexpected error %v %v", i, e1, e2)
		}
		for _, r := range f.GlyphSets[i].Ranges {
			want = append(want, fmt.Sprintf("%d-%d", r.First, int(r.First)+int(r.Extra)))
		}
		for _, g := range f.GlyphSets[i].List {
			want = append(want, fmt.Sprint(g))
		}
		d.eq(fmt.Sprintf("glyph set %d", i), fmt.Sprint(got), fmt.Sprint(want))
	}
	for i := range f.RuneSets {
		var got, want []string
		s := w.GetUtf8Set(uint8(i))
		e1 := s.EachRange(func(a, b rune) error { got = append(got, fmt.Sprintf("%d-%d", a, b)); return nil })
		e2 := s.EachListRune(func(g rune) error { got = append(got, fmt.Sprint(g)); return nil })
		if e1 != nil || e2 != nil {
			return fmt.Sprintf("iterating rune set %d: unexpected error %v %v", i, e1, e2)
		}
		for _, r := range f.RuneSets[i].Ranges {
			want = append(want, fmt.Sprintf("%d-%d", r.First, r.First+rune(r.Extra)))
		}
		for _, g := range f.RuneSets[i].List {
			want = append(want, fmt.Sprint(g))
		}
		d.eq(fmt.Sprintf("rune set %d", i), fmt.Sprint(got), fmt.Sprint(want))
	}
	return d.msg
}

// KernData compares kerning for all pairs of glyphs if there are few, or
// all configured pairs and their neighbours otherwise.
func (f *Font) KernData(font *ggfnt.Font) string {
	d := &diff{}
	k := font.Kerning()
	d.eq("horz pairs", int(k.NumPairs()), len(f.Kerns))
	d.eq("vert pairs", int(k.NumVertPairs()), len(f.VertKerns))
	check := func(what string, list []Kern, get func(a, b ggfnt.GlyphIndex) int8) {
		want := map[[2]uint16]int8{}
		probe := map[[2]uint16]bool{}
		for _, x := range list {
			want[[2]uint16{x.A, x.B}] = x.V
			for da := -1; da <= 1; da++ {
				for db := -1; db <= 1; db++ {
					probe[[2]uint16{x.A + uint16(da), x.B + uint16(db)}] = true
				}
			}
		}
		if len(f.Glyphs) <= 12 {
			for a := range f.Glyphs {
				for b := range f.Glyphs {
					probe[[2]uint16{uint16(a), uint16(b)}] = true
				}
			}
		}
		probe[[2]uint16{uint16(ggfnt.GlyphMissing), 0}] = true
		keys := make([][2]uint16, 0, len(probe))
		for p := range probe {
			keys = append(keys, p)
		}
		sort.Slice(keys, func(i, j int) bool {
			return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
		})
		for _, p := range keys {
			if got := get(ggfnt.GlyphIndex(p[0]), ggfnt.GlyphIndex(p[1])); got != want[p] {
				d.eq(fmt.Sprintf("%s kerning of %v", what, p), got, want[p])
				return
			}
		}
	}
	check("horz", f.Kerns, k.Get)
	check("vert", f.VertKerns, k.GetVert)
	return d.msg
}

// Compare reports the first difference between a font and the description.
func (f *Font) Compare(font *ggfnt.Font) string {
	for _, m := range []func(*ggfnt.Font) string{f.Header, f.Metrics, f.Color, f.GlyphData, f.SettingData,
		func(x *ggfnt.Font) string { return f.MappingData(x, []rune{' ', 0x10FFFF, -1, 0}) }, f.RewriteData, f.KernData} {
		if msg := m(font); msg != "" {
			return msg
		}
	}
	return ""
}

// Has tells whether a rune is mapped.
func (f *Font) Has(r rune) bool {
	for i := range f.Mappings {
		if f.Mappings[i].Rune == r {
			return true
		}
	}
	return false
}

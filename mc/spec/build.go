package spec

import (
	"crypto/rand"
	"fmt"
	"io"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
)

// detRand is a deterministic replacement for crypto/rand.
type detRand struct{ s uint64 }

func (r *detRand) Read(p []byte) (int, error) {
	for i := 0; i < len(p); i += 8 {
		r.s += 0x9E3779B97F4A7C15
		z := r.s
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		z ^= z >> 31
		for j := i; j < i+8 && j < len(p); j++ {
			p[j] = byte(z)
			z >>= 8
		}
	}
	return len(p), nil
}

// SeedRand makes every random value drawn by the code under check
// deterministic.
func SeedRand(seed uint64) { rand.Reader = &detRand{seed} }

// RandSource, if set, is used by Fill instead of SeedRand.
var RandSource io.Reader

// Built is a builder filled from a description.
type Built struct {
	B    *builder.Font
	UIDs []uint64
	Sets []uint64
}

// Fill creates a builder with the described font. Parts that the builder has
// no operations for (conditions, rune sets, vertical kerning, rules with
// sets of runes...) must be empty.
func (f *Font) Fill() (*Built, error) {
	if RandSource != nil {
		rand.Reader = RandSource
	} else {
		SeedRand(1)
	}
	b := builder.New()
	f.ID = b.GetFontID()
	out := &Built{B: b}
	step := func(what string, err error) error {
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		return nil
	}
	b.SetVersion(f.VerMaj, f.VerMin)
	if err := step("first date", b.SetFirstVerDate(f.First)); err != nil {
		return nil, err
	}
	if err := step("major date", b.SetMajorVerDate(f.Major)); err != nil {
		return nil, err
	}
	if err := step("minor date", b.SetMinorVerDate(f.Minor)); err != nil {
		return nil, err
	}
	if err := step("name", b.SetName(f.Name)); err != nil {
		return nil, err
	}
	if err := step("family", b.SetFamily(f.Family)); err != nil {
		return nil, err
	}
	if err := step("author", b.SetAuthor(f.Author)); err != nil {
		return nil, err
	}
	if err := step("about", b.SetAbout(f.About)); err != nil {
		return nil, err
	}
	b.SetVertLayoutUsed(f.Vert)
	b.SetMonoWidth(f.MonoWidth)
	b.SetAscent(f.Ascent)
	b.SetExtraAscent(f.ExtraAscent)
	b.SetDescent(f.Descent)
	b.SetExtraDescent(f.ExtraDescent)
	b.SetUppercaseAscent(f.UppercaseAscent)
	b.SetMidlineAscent(f.MidlineAscent)
	b.SetHorzInterspacing(f.HorzInterspacing)
	b.SetVertInterspacing(f.VertInter)
	b.SetLineGap(f.LineGap)
	if f.VertLineWidth != 0 {
		if err := step("vert line width", b.SetVertLineWidth(f.VertLineWidth)); err != nil {
			return nil, err
		}
	}
	if err := step("vert line gap", b.SetVertLineGap(f.VertLnGap)); err != nil {
		return nil, err
	}
	for _, d := range f.Dyes {
		if err := step("dye", b.AddDye(d.Name, d.Alphas...)); err != nil {
			return nil, err
		}
	}
	for _, p := range f.Palettes {
		if err := step("palette", b.AddPalette(p.Name, p.Colors...)); err != nil {
			return nil, err
		}
	}
	for i := range f.Glyphs {
		g := &f.Glyphs[i]
		uid, err := b.AddGlyph(g.GetMask())
		if err := step("glyph", err); err != nil {
			return nil, err
		}
		out.UIDs = append(out.UIDs, uid)
		if err := step("placement", b.SetGlyphPlacement(uid, g.Placement)); err != nil {
			return nil, err
		}
		if g.Name != "" {
			if err := step("glyph name", b.SetGlyphName(uid, g.Name)); err != nil {
				return nil, err
			}
		}
	}
	for _, s := range f.Settings {
		if _, err := b.AddSetting(s.Name, s.Options...); err != nil {
			return nil, step("setting", err)
		}
	}
	for _, s := range f.Switches {
		keys := []ggfnt.SettingKey{}
		for _, k := range s {
			keys = append(keys, ggfnt.SettingKey(k))
		}
		if _, err := b.AddSwitch(keys...); err != nil {
			return nil, step("switch", err)
		}
	}
	for i := range f.Mappings {
		if err := step("mapping", out.Map(&f.Mappings[i])); err != nil {
			return nil, err
		}
	}
	for i := range f.GlyphSets {
		set, err := b.CreateGlyphSet()
		if err != nil {
			return nil, step("glyph set", err)
		}
		out.Sets = append(out.Sets, set)
		for _, r := range f.GlyphSets[i].Ranges {
			if err := b.AddGlyphSetRange(set, out.UIDs[r.First], out.UIDs[int(r.First)+int(r.Extra)]); err != nil {
				return nil, step("glyph set range", err)
			}
		}
		for _, g := range f.GlyphSets[i].List {
			if err := b.AddGlyphSetListGlyph(set, out.UIDs[g]); err != nil {
				return nil, step("glyph set glyph", err)
			}
		}
	}
	for i := range f.Utf8Rules {
		r := &f.Utf8Rules[i]
		if len(r.Head) > 0 || len(r.Tail) > 0 || len(r.Out) != 1 || r.Cond != 255 {
			return nil, fmt.Errorf("utf8 rule not supported by the builder")
		}
		var seq []rune
		for _, e := range r.Body {
			seq = append(seq, rune(e.Value))
		}
		if err := b.AddSimpleUtf8RewriteRule(rune(r.Out[0]), seq...); err != nil {
			return nil, step("utf8 rule", err)
		}
	}
	for i := range f.GlyphRules {
		r := &f.GlyphRules[i]
		var in, o []uint64
		for _, e := range r.In() {
			if e.Set {
				in = append(in, out.Sets[e.Value])
			} else {
				in = append(in, out.UIDs[e.Value])
			}
		}
		for _, g := range r.Out {
			o = append(o, out.UIDs[g])
		}
		if err := b.AddGlyphRewriteRule(uint8(len(r.Head)), uint8(len(r.Body)), uint8(len(r.Tail)), in, o...); err != nil {
			return nil, step("glyph rule", err)
		}
	}
	for _, k := range f.Kerns {
		b.SetKerningPair(out.UIDs[k.A], out.UIDs[k.B], k.V)
	}
	return out, nil
}

// Map adds a mapping to the builder.
func (o *Built) Map(m *Mapping) error {
	uids := func(g []uint16) []uint64 {
		var u []uint64
		for _, x := range g {
			u = append(u, o.UIDs[x])
		}
		return u
	}
	switch m.Switch {
	case SwitchNone:
		return o.B.Map(m.Rune, o.UIDs[m.Groups[0].Glyphs[0]])
	case SwitchGroup:
		return o.B.MapGroup(m.Rune, m.Groups[0].Flags, uids(m.Groups[0].Glyphs)...)
	}
	single := true
	var all [][]uint64
	var flags []ggfnt.AnimationFlags
	for _, g := range m.Groups {
		all = append(all, uids(g.Glyphs))
		if len(g.Glyphs) > 1 {
			single = false
			flags = append(flags, g.Flags)
		}
	}
	if single {
		var u []uint64
		for _, g := range all {
			u = append(u, g[0])
		}
		return o.B.MapWithSwitchSingles(m.Rune, m.Switch, u...)
	}
	return o.B.MapWithSwitch(m.Rune, m.Switch, all, flags)
}

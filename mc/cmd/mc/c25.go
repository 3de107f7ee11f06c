package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"slices"
	"sort"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C25", Title: "builder operations are atomic",
		Rule: "one execution = one history of builder operations (valid and invalid ones) over a base builder; each must be accepted or rejected as a reference model says, rejected ones must leave the result of Build byte for byte as it was, slices and images given to operations are overwritten right afterwards, and at the end Build must give the font of the model or an error if the model can't be built; a state is the model, an outcome the final font",
		Bounds: func(t string) string {
			d := "2 operations, and of 3 over a third of them"
			if t == "thorough" {
				d = "3 operations"
			}
			return "3 base builders (empty, small, with all the features), about 120 operation instances: all histories of " + d + "; each limited collection (glyph groups, colors, settings, options, switches, switch cases, words, sets, ranges, elements, string lengths) filled to its maximum and beyond; glyphs and mappings (56789), rules (65535) and rune sets one short of the maximum, full, and asked for more; masks, mappings, code point rules and glyph rules of 2^24-1, 2^24, ... bytes and fonts of about 32 MiB"
		},
		Body: c25, QuickSec: 300, ThorSec: 820,
	})
}

type c25set struct {
	uid    uint64
	live   bool
	ranges [][2]int
	list   []int
}

type c25rule struct {
	h, b, t int
	in      []c25in
	out     []uint16
}

type c25in struct {
	set   bool
	index int
}

type c25state struct {
	x        *X
	b        *builder.Font
	f        *spec.Font
	uids     []uint64
	sets     []*c25set
	rules    []c25rule
	kerns    map[[2]int]int8
	badKerns map[[2]uint64]bool
	runeSets []uint64
	log      string
	last     []byte // result of the last Build, nil if it failed
	lastErr  bool
}

type c25op struct {
	name string
	core bool // part of the reduced menu
	run  func(s *c25state)
}

const c25unknown = 0xDEAD_0000_BEEF_0001

// expect checks the verdict of an operation.
func (s *c25state) expect(err error, ok bool) bool {
	if ok && err != nil {
		s.x.Failf("%s: a valid operation is rejected: %v", s.log, err)
	}
	if !ok && err == nil {
		s.x.Failf("%s: an invalid operation is accepted", s.log)
	}
	return ok
}

func (s *c25state) uid(i int) uint64 {
	if i < 0 || i >= len(s.uids) {
		return c25unknown + uint64(i&0xFF)
	}
	return s.uids[i]
}

func (s *c25state) has(list ...int) bool {
	for _, i := range list {
		if i < 0 || i >= len(s.uids) {
			return false
		}
	}
	return true
}

// loan gives a slice to an operation, with spare capacity, and checks that it
// has not been changed when it comes back, and then overwrites it.
func loan[T comparable](s *c25state, list []T, junk T, fn func([]T)) {
	given := make([]T, len(list), len(list)+4)
	copy(given, list)
	spare := given[:cap(given)]
	for i := len(list); i < len(spare); i++ {
		spare[i] = junk
	}
	fn(given)
	if !slices.Equal(given, list) {
		s.x.Failf("%s: the operation changes the slice it was given", s.log)
	}
	for i := range spare {
		if i >= len(list) && spare[i] != junk {
			s.x.Failf("%s: the operation writes beyond the slice it was given", s.log)
		}
		spare[i] = junk
	}
}

func named(n string) bool { return validName(n) }

// ---- operations ----

func c25text(name string, max int, set func(*builder.Font, string) error, field func(*spec.Font) *string) []c25op {
	var out []c25op
	one := func(what, v string, ok, core bool) {
		out = append(out, c25op{name + " " + what, core, func(s *c25state) {
			if s.expect(set(s.b, v), ok) {
				*field(s.f) = v
			}
		}})
	}
	one("text", "Some "+name, true, name == "SetName")
	one("max", strings.Repeat("m", max), true, false)
	one("too long", strings.Repeat("m", max+1), false, name == "SetName")
	one("control", "a\x07b", false, false)
	one("invalid", "a\xffb", false, false)
	return out
}

func c25byte(name string, v uint8, core bool, set func(*builder.Font, uint8), field func(*spec.Font) *uint8) c25op {
	return c25op{fmt.Sprintf("%s(%d)", name, v), core, func(s *c25state) {
		set(s.b, v)
		*field(s.f) = v
	}}
}

func (s *c25state) addGlyph(m *image.Alpha) {
	t := spec.Tight(m)
	ok := true
	if !t.Empty() {
		f := s.f
		if -t.Min.Y > int(f.Ascent)+int(f.ExtraAscent) || t.Max.Y > int(f.Descent)+int(f.ExtraDescent) {
			ok = false
		}
		if f.MonoWidth != 0 && (t.Min.X < 0 || t.Max.X > int(f.MonoWidth)) {
			ok = false
		}
	}
	given := *m
	given.Pix = slices.Clone(m.Pix)
	uid, err := s.b.AddGlyph(&given)
	if !bytes.Equal(given.Pix, m.Pix) || given.Rect != m.Rect || given.Stride != m.Stride {
		s.x.Failf("%s: the operation changes the image it was given", s.log)
	}
	for i := range given.Pix {
		given.Pix[i] ^= 0x5A
	}
	if !s.expect(err, ok) {
		return
	}
	for _, u := range s.uids {
		if u == uid {
			s.x.Failf("%s: repeated glyph UID", s.log)
		}
	}
	own := image.NewAlpha(m.Rect)
	for y := m.Rect.Min.Y; y < m.Rect.Max.Y; y++ {
		for x := m.Rect.Min.X; x < m.Rect.Max.X; x++ {
			own.SetAlpha(x, y, m.AlphaAt(x, y))
		}
	}
	w := m.Rect.Dx()
	s.uids = append(s.uids, uid)
	s.f.Glyphs = append(s.f.Glyphs, spec.Glyph{Mask: own, Placement: ggfnt.GlyphPlacement{
		Advance: uint8(min(255, w)), TopAdvance: s.f.Ascent, BottomAdvance: s.f.Descent, HorzCenter: uint8(min(255, w/2))}})
}

func (s *c25state) numColors() (n int) {
	for _, d := range s.f.Dyes {
		n += len(d.Alphas)
	}
	for _, p := range s.f.Palettes {
		n += len(p.Colors)
	}
	return n
}

func (s *c25state) colorName(n string) bool {
	for _, d := range s.f.Dyes {
		if d.Name == n {
			return false
		}
	}
	for _, p := range s.f.Palettes {
		if p.Name == n {
			return false
		}
	}
	return named(n)
}

func (s *c25state) addDye(name string, alphas ...uint8) {
	ok := s.colorName(name) && len(alphas) > 0 && s.numColors()+len(alphas) <= 255
	loan(s, alphas, 77, func(l []uint8) {
		if s.expect(s.b.AddDye(name, l...), ok) {
			s.f.Dyes = append(s.f.Dyes, spec.Dye{Name: name, Alphas: alphas})
		}
	})
}

func (s *c25state) addPalette(name string, colors ...color.RGBA) {
	ok := s.colorName(name) && len(colors) > 0 && s.numColors()+len(colors) <= 255
	loan(s, colors, color.RGBA{7, 7, 7, 7}, func(l []color.RGBA) {
		if s.expect(s.b.AddPalette(name, l...), ok) {
			s.f.Palettes = append(s.f.Palettes, spec.Palette{Name: name, Colors: colors})
		}
	})
}

func (s *c25state) addSetting(name string, options ...string) {
	ok := named(name) && len(options) >= 1 && len(options) <= 255 && len(s.f.Settings) < 255
	for _, o := range options {
		ok = ok && named(o)
	}
	for _, q := range s.f.Settings {
		ok = ok && q.Name != name
	}
	loan(s, options, "junk", func(l []string) {
		key, err := s.b.AddSetting(name, l...)
		if s.expect(err, ok) {
			if int(key) != len(s.f.Settings) {
				s.x.Failf("%s: setting key %d, expected %d", s.log, key, len(s.f.Settings))
			}
			s.f.Settings = append(s.f.Settings, spec.Setting{Name: name, Options: options})
		}
	})
}

func (s *c25state) addSwitch(keys ...ggfnt.SettingKey) {
	ok := len(keys) >= 1 && len(keys) <= 255 && len(s.f.Switches) < 254
	cases := 1
	seen := map[ggfnt.SettingKey]bool{}
	for _, k := range keys {
		if int(k) >= len(s.f.Settings) || seen[k] {
			ok = false
			break
		}
		seen[k] = true
		cases *= len(s.f.Settings[k].Options)
		if cases > 254 {
			ok = false
			break
		}
	}
	loan(s, keys, 200, func(l []ggfnt.SettingKey) {
		key, err := s.b.AddSwitch(l...)
		if s.expect(err, ok) {
			if int(key) != len(s.f.Switches) {
				s.x.Failf("%s: switch key %d, expected %d", s.log, key, len(s.f.Switches))
			}
			var l []uint8
			for _, k := range keys {
				l = append(l, uint8(k))
			}
			s.f.Switches = append(s.f.Switches, l)
		}
	})
}

func (s *c25state) mapped(m spec.Mapping) {
	for i := range s.f.Mappings {
		if s.f.Mappings[i].Rune == m.Rune {
			s.f.Mappings[i] = m
			return
		}
	}
	s.f.Mappings = append(s.f.Mappings, m)
}

func u16s(list []int) (out []uint16) {
	for _, i := range list {
		out = append(out, uint16(i))
	}
	return out
}

func (s *c25state) uidList(list []int) (out []uint64) {
	for _, i := range list {
		out = append(out, s.uid(i))
	}
	return out
}

func (s *c25state) mapOne(r rune, g int) {
	if s.expect(s.b.Map(r, s.uid(g)), r >= ' ' && s.has(g)) {
		s.mapped(spec.Mapping{Rune: r, Switch: spec.SwitchNone, Groups: []spec.Group{{Glyphs: u16s([]int{g})}}})
	}
}

func (s *c25state) mapGroup(r rune, flags ggfnt.AnimationFlags, g ...int) {
	ok := r >= ' ' && len(g) >= 2 && len(g) <= 127 && s.has(g...)
	loan(s, s.uidList(g), 1, func(l []uint64) {
		if s.expect(s.b.MapGroup(r, flags, l...), ok) {
			s.mapped(spec.Mapping{Rune: r, Switch: spec.SwitchGroup, Groups: []spec.Group{{Flags: flags, Glyphs: u16s(g)}}})
		}
	})
}

func (s *c25state) cases(sw uint8) int {
	if int(sw) >= len(s.f.Switches) {
		return -1
	}
	return s.f.NumCases(sw)
}

func (s *c25state) mapSingles(r rune, sw uint8, g ...int) {
	ok := r >= ' ' && s.cases(sw) == len(g) && s.has(g...)
	loan(s, s.uidList(g), 1, func(l []uint64) {
		if s.expect(s.b.MapWithSwitchSingles(r, sw, l...), ok) {
			m := spec.Mapping{Rune: r, Switch: sw}
			for _, i := range g {
				m.Groups = append(m.Groups, spec.Group{Glyphs: u16s([]int{i})})
			}
			s.mapped(m)
		}
	})
}

func (s *c25state) mapSwitch(r rune, sw uint8, flags []ggfnt.AnimationFlags, groups ...[]int) {
	ok := r >= ' ' && s.cases(sw) == len(groups)
	m := spec.Mapping{Rune: r, Switch: sw}
	multi := 0
	var given [][]uint64
	for _, g := range groups {
		ok = ok && len(g) >= 1 && len(g) <= 128 && s.has(g...)
		group := spec.Group{Glyphs: u16s(g)}
		if len(g) > 1 {
			if multi < len(flags) {
				group.Flags = flags[multi]
			}
			multi++
		}
		m.Groups = append(m.Groups, group)
		given = append(given, s.uidList(g))
	}
	ok = ok && multi == len(flags)
	orig := fmt.Sprint(given)
	loan(s, flags, 0x15, func(l []ggfnt.AnimationFlags) {
		err := s.b.MapWithSwitch(r, sw, given, l)
		if fmt.Sprint(given) != orig {
			s.x.Failf("%s: the operation changes the groups it was given", s.log)
		}
		for i := range given {
			for j := range given[i] {
				given[i][j] = 3
			}
			given[i] = nil
		}
		if s.expect(err, ok) {
			s.mapped(m)
		}
	})
}

func (s *c25state) setAt(i int) *c25set {
	if i < 0 || i >= len(s.sets) {
		return &c25set{uid: c25unknown + 7}
	}
	return s.sets[i]
}

func (s *c25state) glyphRule(h, b, t int, in []c25in, out ...int) {
	ok := b >= 1 && h+b+t <= 255 && h+b+t == len(in) && len(out) >= 1 && len(out) <= b && s.has(out...)
	var uids []uint64
	for _, e := range in {
		if e.set {
			ok = ok && s.setAt(e.index).live
			uids = append(uids, s.setAt(e.index).uid)
		} else {
			ok = ok && s.has(e.index)
			uids = append(uids, s.uid(e.index))
		}
	}
	loan(s, uids, 1, func(l []uint64) {
		loan(s, s.uidList(out), 1, func(o []uint64) {
			if s.expect(s.b.AddGlyphRewriteRule(uint8(h), uint8(b), uint8(t), l, o...), ok) {
				s.rules = append(s.rules, c25rule{h, b, t, in, u16s(out)})
			}
		})
	})
}

func (s *c25state) runeRule(out rune, seq ...rune) {
	loan(s, seq, 'j', func(l []rune) {
		if s.expect(s.b.AddSimpleUtf8RewriteRule(out, l...), len(seq) >= 1 && len(seq) <= 255) {
			r := spec.Rule{Cond: 255, Out: []uint32{uint32(out)}}
			for _, v := range seq {
				r.Body = append(r.Body, spec.V(uint32(v)))
			}
			s.f.Utf8Rules = append(s.f.Utf8Rules, r)
		}
	})
}

func (s *c25state) kern(a, b int, v int8) {
	s.b.SetKerningPair(s.uid(a), s.uid(b), v)
	if s.has(a, b) {
		delete(s.kerns, [2]int{a, b})
		if v != 0 {
			s.kerns[[2]int{a, b}] = v
		}
		return
	}
	delete(s.badKerns, [2]uint64{s.uid(a), s.uid(b)})
	if v != 0 {
		s.badKerns[[2]uint64{s.uid(a), s.uid(b)}] = true
	}
}

func (s *c25state) version(fn func()) {
	before := ggfnt.CurrentDate()
	fn()
	if after := ggfnt.CurrentDate(); after != before {
		s.x.Prune() // midnight
	}
}

func c25menu() (ops []c25op) {
	add := func(name string, core bool, run func(s *c25state)) { ops = append(ops, c25op{name, core, run}) }
	// header
	ops = append(ops, c25text("SetName", 255, (*builder.Font).SetName, func(f *spec.Font) *string { return &f.Name })...)
	ops = append(ops, c25text("SetFamily", 255, (*builder.Font).SetFamily, func(f *spec.Font) *string { return &f.Family })...)
	ops = append(ops, c25text("SetAuthor", 255, (*builder.Font).SetAuthor, func(f *spec.Font) *string { return &f.Author })...)
	ops = append(ops, c25text("SetAbout", 65535, (*builder.Font).SetAbout, func(f *spec.Font) *string { return &f.About })...)
	for _, d := range []struct {
		date ggfnt.Date
		ok   bool
	}{{ggfnt.Date{Year: 2001, Month: 3, Day: 31}, true}, {ggfnt.Date{Year: 2023, Month: 2, Day: 29}, false}} {
		add(fmt.Sprint("SetFirstVerDate ", d.date), false, func(s *c25state) {
			if s.expect(s.b.SetFirstVerDate(d.date), d.ok) {
				s.f.First = d.date
			}
		})
		add(fmt.Sprint("SetMajorVerDate ", d.date), false, func(s *c25state) {
			if s.expect(s.b.SetMajorVerDate(d.date), d.ok) {
				s.f.Major = d.date
			}
		})
		add(fmt.Sprint("SetMinorVerDate ", d.date), false, func(s *c25state) {
			if s.expect(s.b.SetMinorVerDate(d.date), d.ok) {
				s.f.Minor = d.date
			}
		})
	}
	add("SetVersion", false, func(s *c25state) {
		s.version(func() {
			s.b.SetVersion(3, 4)
			s.f.VerMaj, s.f.VerMin, s.f.Major, s.f.Minor = 3, 4, ggfnt.CurrentDate(), ggfnt.CurrentDate()
		})
	})
	add("RaiseMajorVersion", false, func(s *c25state) {
		s.version(func() {
			s.b.RaiseMajorVersion()
			s.f.VerMaj, s.f.VerMin, s.f.Major, s.f.Minor = s.f.VerMaj+1, 0, ggfnt.CurrentDate(), ggfnt.CurrentDate()
		})
	})
	add("RaiseMinorVersion", false, func(s *c25state) {
		s.version(func() {
			s.b.RaiseMinorVersion()
			s.f.VerMin, s.f.Minor = s.f.VerMin+1, ggfnt.CurrentDate()
		})
	})
	// metrics
	ops = append(ops,
		c25byte("SetAscent", 4, true, (*builder.Font).SetAscent, func(f *spec.Font) *uint8 { return &f.Ascent }),
		c25byte("SetAscent", 0, false, (*builder.Font).SetAscent, func(f *spec.Font) *uint8 { return &f.Ascent }),
		c25byte("SetAscent", 60, false, (*builder.Font).SetAscent, func(f *spec.Font) *uint8 { return &f.Ascent }),
		c25byte("SetExtraAscent", 9, true, (*builder.Font).SetExtraAscent, func(f *spec.Font) *uint8 { return &f.ExtraAscent }),
		c25byte("SetExtraAscent", 3, false, (*builder.Font).SetExtraAscent, func(f *spec.Font) *uint8 { return &f.ExtraAscent }),
		c25byte("SetDescent", 0, false, (*builder.Font).SetDescent, func(f *spec.Font) *uint8 { return &f.Descent }),
		c25byte("SetExtraDescent", 30, false, (*builder.Font).SetExtraDescent, func(f *spec.Font) *uint8 { return &f.ExtraDescent }),
		c25byte("SetUppercaseAscent", 3, false, (*builder.Font).SetUppercaseAscent, func(f *spec.Font) *uint8 { return &f.UppercaseAscent }),
		c25byte("SetMidlineAscent", 9, false, (*builder.Font).SetMidlineAscent, func(f *spec.Font) *uint8 { return &f.MidlineAscent }),
		c25byte("SetMidlineAscent", 0, false, (*builder.Font).SetMidlineAscent, func(f *spec.Font) *uint8 { return &f.MidlineAscent }),
		c25byte("SetHorzInterspacing", 255, false, (*builder.Font).SetHorzInterspacing, func(f *spec.Font) *uint8 { return &f.HorzInterspacing }),
		c25byte("SetVertInterspacing", 3, false, (*builder.Font).SetVertInterspacing, func(f *spec.Font) *uint8 { return &f.VertInter }),
		c25byte("SetLineGap", 255, false, (*builder.Font).SetLineGap, func(f *spec.Font) *uint8 { return &f.LineGap }),
		c25byte("SetMonoWidth", 2, true, (*builder.Font).SetMonoWidth, func(f *spec.Font) *uint8 { return &f.MonoWidth }),
	)
	for _, v := range []bool{true, false} {
		add(fmt.Sprint("SetVertLayoutUsed ", v), v, func(s *c25state) { s.b.SetVertLayoutUsed(v); s.f.Vert = v })
	}
	for _, v := range []uint8{0, 5} {
		add(fmt.Sprint("SetVertLineWidth ", v), v == 5, func(s *c25state) {
			if s.expect(s.b.SetVertLineWidth(v), (v != 0) == s.f.Vert) {
				s.f.VertLineWidth = v
			}
		})
		add(fmt.Sprint("SetVertLineGap ", v), false, func(s *c25state) {
			if s.expect(s.b.SetVertLineGap(v), v == 0 || s.f.Vert) {
				s.f.VertLnGap = v
			}
		})
	}
	// glyphs
	add("AddGlyph small", true, func(s *c25state) { s.addGlyph(alpha(2, 2, 0, -2, 255, 0, 7, 255)) })
	add("AddGlyph empty", false, func(s *c25state) { s.addGlyph(image.NewAlpha(image.Rectangle{})) })
	add("AddGlyph transparent", false, func(s *c25state) { s.addGlyph(alpha(300, 1, 0, -300)) })
	add("AddGlyph too high", true, func(s *c25state) { s.addGlyph(alpha(1, 1, 0, -14, 255)) })
	add("AddGlyph too deep", false, func(s *c25state) { s.addGlyph(alpha(1, 7, 0, 0, 255, 0, 0, 0, 0, 0, 255)) })
	add("AddGlyph to the left", false, func(s *c25state) { s.addGlyph(alpha(2, 1, -1, 0, 255, 255)) })
	add("AddGlyph wide", false, func(s *c25state) { s.addGlyph(alpha(3, 1, 0, -1, 255, 0, 255)) })
	add("AddGlyph sub-image", false, func(s *c25state) {
		m := alpha(4, 4, -1, -4, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
		s.addGlyph(m.SubImage(image.Rect(0, -3, 2, -1)).(*image.Alpha))
	})
	place := func(name string, g int) {
		add("SetGlyphPlacement "+name, g == 0, func(s *c25state) {
			p := ggfnt.GlyphPlacement{Advance: 3, TopAdvance: 4, BottomAdvance: 5, HorzCenter: 6}
			if s.expect(s.b.SetGlyphPlacement(s.uid(g), p), s.has(g)) {
				s.f.Glyphs[g].Placement = p
			}
		})
	}
	place("0", 0)
	place("unknown", -1)
	name := func(g int, n string, core bool) {
		add(fmt.Sprintf("SetGlyphName %d %q", g, n), core, func(s *c25state) {
			if s.expect(s.b.SetGlyphName(s.uid(g), n), s.has(g) && named(n)) {
				s.f.Glyphs[g].Name = n
			}
		})
	}
	name(0, "aa", true)
	name(1, "aa", true)
	name(1, "ab", false)
	name(0, "-aa", true)
	name(0, "", false)
	name(1, strings.Repeat("n", 33), false)
	name(-1, "ac", false)
	// colors
	add("AddDye", true, func(s *c25state) { s.addDye("dd", 1, 255, 1) })
	add("AddDye empty", false, func(s *c25state) { s.addDye("de") })
	add("AddDye name", false, func(s *c25state) { s.addDye("d e", 5) })
	add("AddDye big", true, func(s *c25state) { s.addDye("dbig", bytes.Repeat([]byte{9}, 254)...) })
	add("AddDye pp", false, func(s *c25state) { s.addDye("pp", 4) })
	add("AddPalette", true, func(s *c25state) { s.addPalette("pp", color.RGBA{1, 2, 3, 4}, color.RGBA{9, 9, 9, 255}) })
	add("AddPalette empty", false, func(s *c25state) { s.addPalette("pe") })
	add("AddPalette dd", false, func(s *c25state) { s.addPalette("dd", color.RGBA{1, 2, 3, 4}) })
	add("AddPalette name", false, func(s *c25state) { s.addPalette("p--p", color.RGBA{1, 2, 3, 4}) })
	// settings, switches
	add("AddSetting s", true, func(s *c25state) { s.addSetting("s", "on", "off") })
	add("AddSetting t", false, func(s *c25state) { s.addSetting("t", "zz", "on", "zz") })
	add("AddSetting none", true, func(s *c25state) { s.addSetting("u") })
	add("AddSetting bad option", true, func(s *c25state) { s.addSetting("v", "fine", "not fine") })
	add("AddSetting bad name", false, func(s *c25state) { s.addSetting("v-", "fine") })
	many := func(prefix string, n int) (l []string) {
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("%s%d", prefix, i))
		}
		return l
	}
	add("AddSetting many", false, func(s *c25state) { s.addSetting("m", many("w", 130)...) })
	add("AddSetting many more", false, func(s *c25state) { s.addSetting("n", many("x", 130)...) })
	add("AddSetting too many", false, func(s *c25state) { s.addSetting("w", many("y", 256)...) })
	add("AddSwitch 0", true, func(s *c25state) { s.addSwitch(0) })
	add("AddSwitch 0 1", false, func(s *c25state) { s.addSwitch(0, 1) })
	add("AddSwitch 1 0", false, func(s *c25state) { s.addSwitch(1, 0) })
	add("AddSwitch 0 1 0", true, func(s *c25state) { s.addSwitch(0, 1, 0) })
	add("AddSwitch none", false, func(s *c25state) { s.addSwitch() })
	add("AddSwitch undefined", false, func(s *c25state) { s.addSwitch(0, 9) })
	// mapping
	add("Map a 0", true, func(s *c25state) { s.mapOne('a', 0) })
	add("Map a 1", false, func(s *c25state) { s.mapOne('a', 1) })
	add("Map highest", false, func(s *c25state) { s.mapOne(0x10FFFF, 1) })
	add("Map control", false, func(s *c25state) { s.mapOne('\n', 1) })
	add("Map negative", false, func(s *c25state) { s.mapOne(-5, 1) })
	add("Map unknown", true, func(s *c25state) { s.mapOne('a', -1) })
	add("MapGroup a", true, func(s *c25state) { s.mapGroup('a', ggfnt.AnimFlagLoopable, 0, 1) })
	add("MapGroup a falling", false, func(s *c25state) { s.mapGroup('a', 0, 1, 0, 1) })
	add("MapGroup one", false, func(s *c25state) { s.mapGroup('a', 0, 1) })
	add("MapGroup none", false, func(s *c25state) { s.mapGroup('a', 0) })
	add("MapGroup unknown", true, func(s *c25state) { s.mapGroup('a', 0, 0, 1, -1) })
	rep := func(v, n int) (l []int) {
		for i := 0; i < n; i++ {
			l = append(l, v)
		}
		return l
	}
	add("MapGroup control", false, func(s *c25state) { s.mapGroup(31, 0, 0, 1) })
	add("MapWithSwitch control", false, func(s *c25state) {
		s.mapSwitch(31, 0, nil, []int{0}, []int{1})
		s.mapSwitch('a', 254, nil, []int{0}, []int{1})
		s.mapSwitch('a', 255, nil, []int{0}, []int{1})
		s.mapSwitch('a', 9, nil, []int{0}, []int{1})
		s.mapSwitch('a', 254, nil)
		s.mapSingles('a', 255, 0, 1)
		s.mapSingles('a', 254)
	})
	add("MapGroup 127", false, func(s *c25state) { s.mapGroup('g', 0, rep(0, 127)...) })
	add("MapGroup 128", false, func(s *c25state) { s.mapGroup('g', 0, rep(0, 128)...) })
	add("MapWithSwitchSingles", true, func(s *c25state) { s.mapSingles('a', 0, 0, 1) })
	add("MapWithSwitchSingles more", false, func(s *c25state) { s.mapSingles('a', 0, 0, 1, 0) })
	add("MapWithSwitchSingles unknown", false, func(s *c25state) { s.mapSingles('a', 0, 0, -1) })
	add("MapWithSwitchSingles 254", false, func(s *c25state) { s.mapSingles('a', 254, 0, 1) })
	add("MapWithSwitchSingles undefined", false, func(s *c25state) { s.mapSingles('a', 9, 0, 1) })
	add("MapWithSwitchSingles control", false, func(s *c25state) { s.mapSingles(31, 0, 0, 1) })
	fl := []ggfnt.AnimationFlags{ggfnt.AnimFlagLoopable}
	add("MapWithSwitch", true, func(s *c25state) { s.mapSwitch('a', 0, fl, []int{1}, []int{0, 1}) })
	add("MapWithSwitch two", false, func(s *c25state) {
		s.mapSwitch('b', 0, []ggfnt.AnimationFlags{1, 2}, []int{1, 0}, rep(1, 128))
	})
	add("MapWithSwitch 129", false, func(s *c25state) { s.mapSwitch('b', 0, fl, []int{1}, rep(1, 129)) })
	add("MapWithSwitch no flags", false, func(s *c25state) { s.mapSwitch('a', 0, nil, []int{1}, []int{0, 1}) })
	add("MapWithSwitch flags", false, func(s *c25state) { s.mapSwitch('a', 0, fl, []int{1}, []int{0}) })
	add("MapWithSwitch empty", false, func(s *c25state) { s.mapSwitch('a', 0, fl, []int{0, 1}, []int{}) })
	add("MapWithSwitch empty groups", false, func(s *c25state) {
		two := []ggfnt.AnimationFlags{1, 2}
		s.mapSwitch('a', 0, two, []int{0, 1}, []int{})
		s.mapSwitch('a', 0, two, []int{}, []int{0, 1})
		s.mapSwitch('a', 0, fl, []int{}, []int{1})
		s.mapSwitch('a', 0, two, []int{}, nil)
		s.mapSwitch('a', 0, nil, nil, []int{1})
		s.mapSwitch('a', 0, nil, nil, nil)
	})
	add("MapWithSwitch unknown", true, func(s *c25state) { s.mapSwitch('a', 0, fl, []int{0}, []int{1, -1}) })
	add("MapWithSwitch cases", false, func(s *c25state) { s.mapSwitch('a', 0, fl, []int{0, 1}) })
	// sets
	add("CreateGlyphSet", true, func(s *c25state) {
		uid, err := s.b.CreateGlyphSet()
		if s.expect(err, true) {
			s.sets = append(s.sets, &c25set{uid: uid, live: true})
		}
	})
	for i := 0; i < 2; i++ {
		add(fmt.Sprint("RemoveGlyphSet ", i), i == 0, func(s *c25state) {
			set := s.setAt(i)
			if got := s.b.RemoveGlyphSet(set.uid); got != set.live {
				s.x.Failf("%s: reports %v", s.log, got)
			}
			set.live = false
		})
	}
	rng := func(set, p, q int, core bool) {
		add(fmt.Sprintf("AddGlyphSetRange %d %d %d", set, p, q), core, func(s *c25state) {
			t := s.setAt(set)
			ok := t.live && s.has(p, q) && !slices.Contains(t.ranges, [2]int{p, q})
			if s.expect(s.b.AddGlyphSetRange(t.uid, s.uid(p), s.uid(q)), ok) {
				t.ranges = append(t.ranges, [2]int{p, q})
			}
		})
	}
	rng(0, 0, 1, true)
	rng(0, 1, 0, true)
	rng(0, 0, -1, false)
	rng(0, -1, 0, false)
	rng(1, 1, 1, false)
	add("AddGlyphSetListGlyph 0", false, func(s *c25state) {
		t := s.setAt(0)
		if s.expect(s.b.AddGlyphSetListGlyph(t.uid, s.uid(0)), t.live && s.has(0) && !slices.Contains(t.list, 0)) {
			t.list = append(t.list, 0)
		}
	})
	add("AddGlyphSetListGlyph unknown", false, func(s *c25state) {
		s.expect(s.b.AddGlyphSetListGlyph(s.setAt(0).uid, s.uid(-1)), false)
	})
	add("RemoveGlyphSetRange", false, func(s *c25state) {
		t := s.setAt(0)
		at := slices.Index(t.ranges, [2]int{1, 0})
		if got := s.b.RemoveGlyphSetRange(t.uid, s.uid(1), s.uid(0)); got != (t.live && at >= 0) {
			s.x.Failf("%s: reports %v", s.log, got)
		}
		if t.live && at >= 0 {
			t.ranges = slices.Delete(t.ranges, at, at+1)
		}
	})
	add("rune set", true, func(s *c25state) {
		uid, err := s.b.CreateRuneSet()
		if s.expect(err, true) {
			s.runeSets = append(s.runeSets, uid)
			s.expect(s.b.AddRuneSetRange(uid, 'a', 'c'), true)
			s.expect(s.b.AddRuneSetRange(uid, 'c', 'a'), false)
			s.expect(s.b.AddRuneSetListRune(uid, 'q'), true)
		}
	})
	add("RemoveRuneSet", false, func(s *c25state) {
		uid := uint64(c25unknown)
		if len(s.runeSets) > 0 {
			uid = s.runeSets[0]
			s.runeSets = s.runeSets[1:]
		}
		if got := s.b.RemoveRuneSet(uid); got != (uid != c25unknown) {
			s.x.Failf("%s: reports %v", s.log, got)
		}
	})
	// rules
	add("AddSimpleUtf8RewriteRule", true, func(s *c25state) { s.runeRule('x', 'a', 'b') })
	add("AddSimpleUtf8RewriteRule 255", false, func(s *c25state) { s.runeRule('x', []rune(strings.Repeat("a", 255))...) })
	add("AddSimpleUtf8RewriteRule 256", false, func(s *c25state) { s.runeRule('x', []rune(strings.Repeat("a", 256))...) })
	add("AddSimpleUtf8RewriteRule empty", true, func(s *c25state) { s.runeRule('x') })
	g := func(i int) c25in { return c25in{false, i} }
	gs := func(i int) c25in { return c25in{true, i} }
	rule := func(name string, core bool, h, b, t int, in []c25in, out ...int) {
		add("AddGlyphRewriteRule "+name, core, func(s *c25state) { s.glyphRule(h, b, t, in, out...) })
	}
	gmany := func(n int) (l []c25in) {
		for i := 0; i < n; i++ {
			l = append(l, g(0))
		}
		return l
	}
	rule("plain", false, 0, 2, 0, []c25in{g(0), g(1)}, 1)
	rule("set 0", true, 1, 1, 1, []c25in{g(0), gs(0), g(1)}, 1)
	rule("set 1", false, 0, 1, 1, []c25in{gs(1), gs(0)}, 1)
	rule("unknown input", true, 0, 2, 0, []c25in{g(0), g(-1)}, 1)
	rule("unknown output", false, 0, 2, 0, []c25in{g(0), g(1)}, 1, -1)
	rule("no body", false, 1, 0, 1, []c25in{g(0), g(1)}, 1)
	rule("lengths", false, 1, 1, 1, []c25in{g(0), g(1)}, 1)
	rule("no output", false, 0, 1, 0, []c25in{g(0)})
	rule("long output", false, 1, 1, 0, []c25in{g(0), g(1)}, 1, 0)
	rule("255", false, 100, 55, 100, gmany(255), 1)
	rule("256", false, 100, 56, 100, gmany(256), 1)
	// kerning
	kern := func(a, b int, v int8, core bool) {
		add(fmt.Sprintf("SetKerningPair %d %d %d", a, b, v), core, func(s *c25state) { s.kern(a, b, v) })
	}
	kern(0, 1, 5, true)
	kern(0, 1, 0, false)
	kern(0, 0, -128, false)
	kern(0, -1, 4, true)
	kern(0, -1, 0, false)
	kern(-1, 1, 127, false)
	// edition data
	add("ParseEditionData damaged", true, func(s *c25state) {
		s.expect(s.b.ParseEditionData(strings.NewReader("wkgfnt and then nothing good")), false)
	})
	add("ClearEditionData", false, func(s *c25state) { s.b.ClearEditionData() })
	return ops
}

// describe gives the description of the font that Build must return, unless
// it must fail, or may fail.
func (s *c25state) describe() (f *spec.Font, must, may bool) {
	c := *s.f
	f = &c
	must = len(f.Glyphs) == 0 || f.Ascent == 0 || f.Ascent <= f.ExtraAscent || f.Ascent < f.MidlineAscent || f.Ascent < f.UppercaseAscent || f.MidlineAscent > f.UppercaseAscent
	may = !f.Vert && (f.VertInter != 0 || f.VertLineWidth != 0 || f.VertLnGap != 0) || f.Vert && f.VertLineWidth == 0
	names := map[string]bool{}
	for _, g := range f.Glyphs {
		must = must || g.Name != "" && names[g.Name]
		names[g.Name] = true
	}
	if len(f.Dyes)+len(f.Palettes) == 0 {
		f.Dyes = []spec.Dye{{Name: "main", Alphas: []uint8{255}}}
	}
	words := map[string]bool{}
	for _, q := range f.Settings {
		for _, o := range q.Options {
			words[o] = true
		}
	}
	must = must || len(words) > 255 || len(s.badKerns) > 0
	may = may || len(s.runeSets) > 0
	index := make([]int, len(s.sets))
	f.GlyphSets = nil
	for i, set := range s.sets {
		index[i] = -1
		if !set.live {
			continue
		}
		index[i] = len(f.GlyphSets)
		var gs spec.GlyphSet
		for _, r := range set.ranges {
			must = must || r[0] > r[1] || r[1]-r[0] > 255
			gs.Ranges = append(gs.Ranges, spec.GRange{First: uint16(r[0]), Extra: uint8(r[1] - r[0])})
		}
		gs.List = u16s(set.list)
		f.GlyphSets = append(f.GlyphSets, gs)
	}
	f.GlyphRules = nil
	for _, r := range s.rules {
		var in []spec.Elem
		for _, e := range r.in {
			if e.set {
				must = must || index[e.index] < 0
				in = append(in, spec.S(uint32(index[e.index])))
			} else {
				in = append(in, spec.V(uint32(e.index)))
			}
		}
		q := spec.Rule{Cond: 255, Head: in[:r.h], Body: in[r.h : r.h+r.b], Tail: in[r.h+r.b:]}
		for _, o := range r.out {
			q.Out = append(q.Out, uint32(o))
		}
		f.GlyphRules = append(f.GlyphRules, q)
	}
	f.Kerns = nil
	for k, v := range s.kerns {
		f.Kerns = append(f.Kerns, spec.Kern{A: uint16(k[0]), B: uint16(k[1]), V: v})
	}
	sort.Slice(f.Kerns, func(i, j int) bool {
		a, b := f.Kerns[i], f.Kerns[j]
		return a.A < b.A || a.A == b.A && a.B < b.B
	})
	return f, must, may
}

func (s *c25state) build() *ggfnt.Font {
	font, err := tryBuild(s.x, s.b)
	s.last, s.lastErr = nil, err != nil
	if err == nil {
		s.last = font.Data
	}
	return font
}

// step runs an operation with a Build before and after it.
func (s *c25state) step(op *c25op) {
	s.log += "; " + op.name
	s.x.Logf("%s", op.name)
	key := c25key(s)
	s.x.NoPanic(s.log, func() { op.run(s) })
	s.x.Step()
	old, oldErr := s.last, s.lastErr
	s.build()
	if c25key(s) == key { // nothing has changed in the model
		if oldErr != s.lastErr || !bytes.Equal(old, s.last) {
			s.x.Failf("%s: the operation changes nothing, but Build gives another result", s.log)
		}
	}
	f, must, may := s.describe()
	if must && !s.lastErr {
		s.x.Failf("%s: Build accepts an inconsistent state", s.log)
	}
	if !must && !may && s.lastErr {
		_, err := s.b.Build()
		s.x.Failf("%s: Build fails for a valid font: %v", s.log, err)
	}
	s.getters(f)
}

func c25key(s *c25state) string {
	f, must, may := s.describe()
	f2 := *f
	var glyphs []any
	for _, g := range f2.Glyphs {
		glyphs = append(glyphs, g.Name, g.Placement)
		if g.Mask != nil {
			glyphs = append(glyphs, g.Mask.Rect, g.Mask.Pix)
		}
	}
	return fmt.Sprint(must, may, f2.Name, f2.Family, f2.Author, len(f2.About), explore.HashOf(f2.About), f2.VerMaj, f2.VerMin, f2.First, f2.Major, f2.Minor,
		f2.Vert, f2.MonoWidth, f2.Ascent, f2.ExtraAscent, f2.Descent, f2.ExtraDescent, f2.UppercaseAscent, f2.MidlineAscent, f2.HorzInterspacing, f2.VertInter, f2.LineGap, f2.VertLineWidth, f2.VertLnGap,
		f2.Dyes, f2.Palettes, len(f2.Glyphs), glyphs, f2.Settings, f2.Switches, f2.Mappings, f2.GlyphSets, f2.Utf8Rules, f2.GlyphRules, f2.Kerns, s.badKerns, s.runeSets)
}

// getters compares what the builder itself reports.
func (s *c25state) getters(f *spec.Font) {
	b := s.b
	x := s.x
	for _, c := range []struct {
		what      string
		got, want any
	}{
		{"name", b.GetName(), f.Name}, {"family", b.GetFamily(), f.Family}, {"author", b.GetAuthor(), f.Author}, {"about", b.GetAbout(), f.About},
		{"version", [2]uint16{b.GetVersionMajor(), b.GetVersionMinor()}, [2]uint16{f.VerMaj, f.VerMin}},
		{"dates", [3]ggfnt.Date{b.GetFirstVerDate(), b.GetMajorVerDate(), b.GetMinorVerDate()}, [3]ggfnt.Date{f.First, f.Major, f.Minor}},
		{"font ID", b.GetFontID(), f.ID}, {"number of glyphs", b.GetNumGlyphs(), len(f.Glyphs)},
		{"metrics", [11]uint8{b.GetMonoWidth(), b.GetAscent(), b.GetExtraAscent(), b.GetDescent(), b.GetExtraDescent(), b.GetUppercaseAscent(), b.GetMidlineAscent(), b.GetHorzInterspacing(), b.GetVertInterspacing(), b.GetLineGap(), b.GetVertLineWidth()},
			[11]uint8{f.MonoWidth, f.Ascent, f.ExtraAscent, f.Descent, f.ExtraDescent, f.UppercaseAscent, f.MidlineAscent, f.HorzInterspacing, f.VertInter, f.LineGap, f.VertLineWidth}},
		{"vert line gap", b.GetVertLineGap(), f.VertLnGap},
	} {
		if c.got != c.want {
			x.Failf("%s: the builder reports %s %v, expected %v", s.log, c.what, c.got, c.want)
		}
	}
	for _, d := range s.f.Dyes {
		var got []uint8
		if err := b.EachDyeAlpha(d.Name, func(a, _ uint8) { got = append(got, a) }); err != nil || !bytes.Equal(got, d.Alphas) {
			x.Failf("%s: dye %s has %v (%v), expected %v", s.log, d.Name, got, err, d.Alphas)
		}
	}
	for _, d := range s.f.Palettes {
		var got []color.RGBA
		if err := b.EachPaletteColor(d.Name, func(a color.RGBA, _ uint8) { got = append(got, a) }); err != nil || !slices.Equal(got, d.Colors) {
			x.Failf("%s: palette %s has %v (%v), expected %v", s.log, d.Name, got, err, d.Colors)
		}
	}
}

// finish compares the final font.
func (s *c25state) finish() {
	x := s.x
	f, must, may := s.describe()
	font := s.build()
	if must || s.lastErr {
		if must != s.lastErr && !may {
			x.Failf("%s: Build fails: %v, expected %v", s.log, s.lastErr, must)
		}
		x.Count("histories that can't be built")
		x.Outcome(explore.HashOf("error", must))
		return
	}
	x.NoPanic("Validate", func() {
		if err := font.Validate(ggfnt.FmtDefault); err != nil {
			x.Failf("%s: Build gives a font that isn't valid: %v", s.log, err)
		}
	})
	if len(s.runeSets) > 0 {
		x.Prune()
	}
	diff(x, s.log+": built font", func() string { return f.Compare(font) })
	if s.x.Thorough() && len(s.last)%4 != 0 {
		return // the round trip is left to C01
	}
	again := reparse(x, font)
	if !bytes.Equal(again.Data, font.Data) {
		x.Failf("%s: the parsed font differs from the built one", s.log)
	}
}

func c25base(x *X, which int) *c25state {
	spec.SeedRand(1)
	s := &c25state{x: x, kerns: map[[2]int]int8{}, badKerns: map[[2]uint64]bool{}}
	f := spec.New(0)
	f.Dyes = nil
	s.f = f
	var built *spec.Built
	switch which {
	case 0:
	case 1:
		f.Glyphs = []spec.Glyph{{}, {}}
	case 2:
		f.Glyphs = []spec.Glyph{{Name: "zero"}, {}, {Name: "aa"}}
		f.Dyes = []spec.Dye{{Name: "main", Alphas: []uint8{255, 100}}}
		f.Palettes = []spec.Palette{{Name: "pal", Colors: []color.RGBA{{1, 1, 1, 1}}}}
		f.Settings = []spec.Setting{{Name: "first", Options: []string{"on", "off"}}, {Name: "second", Options: []string{"a", "b", "c"}}}
		f.Switches = [][]uint8{{0}, {1, 0}}
		f.Mappings = []spec.Mapping{
			{Rune: 'a', Switch: 0, Groups: []spec.Group{{Glyphs: []uint16{2}}, {Flags: 1, Glyphs: []uint16{0, 2}}}},
			{Rune: 'q', Switch: spec.SwitchNone, Groups: []spec.Group{{Glyphs: []uint16{1}}}},
		}
		f.GlyphSets = []spec.GlyphSet{{Ranges: []spec.GRange{{First: 0, Extra: 2}}, List: []uint16{1}}}
		f.Utf8Rules = []spec.Rule{{Cond: 255, Body: []spec.Elem{spec.V('f'), spec.V('i')}, Out: []uint32{'q'}}}
		f.Kerns = []spec.Kern{{A: 0, B: 1, V: -3}, {A: 2, B: 2, V: 9}}
	}
	built = fill(x, f)
	s.b, s.uids = built.B, built.UIDs
	for i, set := range f.GlyphSets {
		t := &c25set{uid: built.Sets[i], live: true}
		for _, r := range set.Ranges {
			t.ranges = append(t.ranges, [2]int{int(r.First), int(r.First) + int(r.Extra)})
		}
		for _, g := range set.List {
			t.list = append(t.list, int(g))
		}
		s.sets = append(s.sets, t)
	}
	f.GlyphSets = nil
	for _, k := range f.Kerns {
		s.kerns[[2]int{int(k.A), int(k.B)}] = k.V
	}
	if which == 2 {
		s.glyphRule(1, 1, 0, []c25in{{false, 1}, {true, 0}}, 2)
	}
	s.log = fmt.Sprint("base ", which)
	s.build()
	return s
}

var c25ops = c25menu()

func c25(x *X) {
	kind := x.Choose(5)
	if kind == 4 {
		c25huge(x)
		return
	}
	if kind == 3 {
		c25sizes(x)
		return
	}
	if kind == 2 {
		c25limits(x)
		return
	}
	s := c25base(x, x.Choose(3))
	x.Logf("%s", s.log)
	if kind == 0 {
		n := x.Pick(2, 3)
		for i := 0; i < n; i++ {
			s.step(&c25ops[x.Choose(len(c25ops))])
		}
	} else {
		if x.Thorough() {
			x.Prune() // included above
		}
		for i := 0; i < 3; i++ {
			s.step(&c25core[x.Choose(len(c25core))])
		}
	}
	s.finish()
	x.State(explore.HashOf(c25key(s)))
	x.Outcome(explore.HashOf(s.last))
}

var c25core = func() (out []c25op) {
	for _, o := range c25ops {
		if o.core {
			out = append(out, o)
		}
	}
	return out
}()

// c25limits fills collections to their limits.
func c25limits(x *X) {
	s := c25base(x, 1)
	type limit struct {
		name string
		max  int
		add  func(i int)
	}
	dye := 0
	limits := []limit{
		{"dye alphas", 255, func(i int) { s.addDye(fmt.Sprint("d", i), uint8(i)) }},
		{"palette colors", 255, func(i int) { s.addPalette(fmt.Sprint("p", i), color.RGBA{uint8(i), 0, 0, 255}) }},
		{"dyes and palettes", 255, func(i int) {
			dye++
			if dye%2 == 0 {
				s.addDye(fmt.Sprint("d", i), uint8(i))
			} else {
				s.addPalette(fmt.Sprint("p", i), color.RGBA{uint8(i), 0, 0, 255})
			}
		}},
		{"settings", 255, func(i int) { s.addSetting(fmt.Sprint("s", i), "on", fmt.Sprint("o", i%100)) }},
		{"words", 255, func(i int) { s.addSetting(fmt.Sprint("s", i), fmt.Sprint("o", i)) }},
		{"switches", 254, func(i int) {
			if len(s.f.Settings) == 0 {
				s.addSetting("s", "on")
			}
			s.addSwitch(0)
		}},
		{"glyph sets", 255, func(i int) {
			uid, err := s.b.CreateGlyphSet()
			if s.expect(err, len(s.sets) < 255) {
				s.sets = append(s.sets, &c25set{uid: uid, live: true})
			}
		}},
		{"switch cases", 7, func(i int) {
			s.addSetting(fmt.Sprint("s", i), "on", "off")
			var l []ggfnt.SettingKey
			for k := range s.f.Settings {
				l = append(l, ggfnt.SettingKey(k))
			}
			s.addSwitch(l...)
		}},
		{"glyph rules", 300, func(i int) { s.glyphRule(0, 1, 0, []c25in{{false, i % 2}}, 1) }},
		{"glyphs", 300, func(i int) { s.addGlyph(alpha(1, 1, 0, -1, uint8(i))) }},
		{"mappings", 300, func(i int) { s.mapOne(rune(' '+i), i%2) }},
	}
	l := limits[x.Choose(len(limits))]
	n := l.max + x.Choose(4) - 1
	x.Logf("%d %s", n, l.name)
	s.log = l.name
	x.NoPanic(l.name, func() {
		for i := 0; i < n; i++ {
			before := 0
			if i >= l.max-1 {
				s.build()
				before = len(s.last)
			}
			s.log = fmt.Sprintf("%s, number %d", l.name, i)
			old := s.last
			key := c25key2(s)
			l.add(i)
			if i >= l.max-1 {
				s.build()
				if key == c25key2(s) && (before != len(s.last) || !bytes.Equal(old, s.last)) {
					x.Failf("%s: rejected, but Build gives another result", s.log)
				}
			}
		}
	})
	s.finish()
	x.State(explore.HashOf(l.name, n))
}

func c25key2(s *c25state) string {
	return fmt.Sprint(len(s.f.Dyes), len(s.f.Palettes), len(s.f.Settings), len(s.f.Switches), len(s.sets), len(s.rules), len(s.f.Glyphs), len(s.f.Mappings))
}

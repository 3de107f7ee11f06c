package main

import (
	"bytes"
	"fmt"
	"image"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

// c25huge fills the big collections to their maximum: one less, exactly, and
// beyond, where the rejected operations must leave the result as it was.
func c25huge(x *X) {
	which := x.Choose(6)
	extra := x.Choose(3) - 1 // -1: one short of the maximum, 0: full, 1: full and asked for more
	if which == 5 {
		c25setBytes(x, extra)
		return
	}
	s := c25base(x, 1)
	b := s.b
	fail := func(what string, err error) {
		if err != nil {
			x.Failf("%s: rejected: %v", what, err)
		}
	}
	// beyond runs operations that must be rejected (if the collection is full) and leave all as it was
	beyond := func(what string, full bool, ops ...func() error) {
		if extra != 1 {
			return
		}
		s.build()
		old, oldErr := s.last, s.lastErr
		for i, op := range ops {
			var err error
			x.NoPanic(what, func() { err = op() })
			x.Step()
			if full && err == nil {
				x.Failf("%s: operation %d beyond the limit is accepted", what, i)
			}
			if !full && err != nil {
				x.Failf("%s: operation %d is rejected: %v", what, i, err)
			}
		}
		if full {
			s.build()
			if oldErr != s.lastErr || !bytes.Equal(old, s.last) {
				x.Failf("%s: rejected operations change the result of Build", what)
			}
		}
	}
	f := s.f
	switch which {
	case 0:
		mask := image.NewAlpha(image.Rect(0, -1, 1, 0))
		n := 56789 + min(extra, 0)
		for len(f.Glyphs) < n {
			i := len(f.Glyphs)
			mask.Pix[0] = uint8(i%255 + 1)
			own := *mask
			own.Pix = bytes.Clone(mask.Pix)
			uid, err := b.AddGlyph(&own)
			fail(fmt.Sprintf("glyph %d", i), err)
			s.uids = append(s.uids, uid)
			f.Glyphs = append(f.Glyphs, spec.Glyph{Mask: &own, Placement: ggfnt.GlyphPlacement{Advance: 1, TopAdvance: f.Ascent, BottomAdvance: f.Descent}})
		}
		if got := b.GetNumGlyphs(); got != n {
			x.Failf("the builder reports %d glyphs, %d were added", got, n)
		}
		add := func() error { _, err := b.AddGlyph(mask); return err }
		beyond("glyphs", true, add, add)
		// the last glyph is as good as any other
		fail("name", b.SetGlyphName(s.uids[n-1], "last"))
		f.Glyphs[n-1].Name = "last"
		fail("map", b.Map('z', s.uids[n-1]))
		s.mapped(spec.Mapping{Rune: 'z', Switch: spec.SwitchNone, Groups: []spec.Group{{Glyphs: []uint16{uint16(n - 1)}}}})
		s.kern(n-1, 0, 5)
		s.kern(0, n-1, -5)
	case 1:
		// all kinds of entries
		s.addSetting("s", "on", "off")
		s.addSwitch(0)
		n := 56789 + min(extra, 0)
		for i := 0; i < n; i++ {
			r := rune(' ' + i)
			m := spec.Mapping{Rune: r, Switch: spec.SwitchNone}
			u0, u1 := s.uids[i%2], s.uids[1-i%2]
			g0, g1 := uint16(i%2), uint16(1-i%2)
			var err error
			switch i % 5 {
			default:
				m.Groups = []spec.Group{{Glyphs: []uint16{g0}}}
				err = b.Map(r, u0)
			case 2:
				m.Switch = spec.SwitchGroup
				m.Groups = []spec.Group{{Glyphs: []uint16{g0, g1}, Flags: 1}}
				err = b.MapGroup(r, 1, u0, u1)
			case 3:
				m.Switch = 0
				m.Groups = []spec.Group{{Glyphs: []uint16{g0}}, {Glyphs: []uint16{g1}}}
				err = b.MapWithSwitchSingles(r, 0, u0, u1)
			case 4:
				m.Switch = 0
				m.Groups = []spec.Group{{Glyphs: []uint16{g0}}, {Glyphs: []uint16{g1, g0, g0}, Flags: 2}}
				err = b.MapWithSwitch(r, 0, [][]uint64{{u0}, {u1, u0, u0}}, []ggfnt.AnimationFlags{2})
			}
			fail(fmt.Sprintf("mapping %d", i), err)
			f.Mappings = append(f.Mappings, m)
		}
		fresh := rune(0x10FFFF)
		u := s.uids[0]
		beyond("mappings", true, func() error { return b.Map(fresh, u) },
			func() error { return b.MapGroup(fresh, 0, u, u) },
			func() error { return b.MapWithSwitchSingles(fresh, 0, u, u) },
			func() error { return b.MapWithSwitch(fresh, 0, [][]uint64{{u}, {u}}, nil) })
		// changing an entry is always possible
		fail("map again", b.Map(' '+2, u))
		f.Mappings[2] = spec.Mapping{Rune: ' ' + 2, Switch: spec.SwitchNone, Groups: []spec.Group{{Glyphs: []uint16{0}}}}
		fail("map group again", b.MapGroup(' '+3, 0, u, u))
		f.Mappings[3] = spec.Mapping{Rune: ' ' + 3, Switch: spec.SwitchGroup, Groups: []spec.Group{{Glyphs: []uint16{0, 0}}}}
		fail("map switch again", b.MapWithSwitchSingles(' '+1, 0, u, u))
		f.Mappings[1] = spec.Mapping{Rune: ' ' + 1, Switch: 0, Groups: []spec.Group{{Glyphs: []uint16{0}}, {Glyphs: []uint16{0}}}}
		fail("map switch groups again", b.MapWithSwitch(' '+5, 0, [][]uint64{{u, u}, {u}}, []ggfnt.AnimationFlags{1}))
		f.Mappings[5] = spec.Mapping{Rune: ' ' + 5, Switch: 0, Groups: []spec.Group{{Glyphs: []uint16{0, 0}, Flags: 1}, {Glyphs: []uint16{0}}}}
	case 2:
		n := 65535 + min(extra, 0)
		for i := 0; i < n; i++ {
			seq := []rune{rune('a' + i%20), rune(0x100 + i)}
			fail(fmt.Sprintf("code point rule %d", i), b.AddSimpleUtf8RewriteRule('x', seq...))
			f.Utf8Rules = append(f.Utf8Rules, spec.Rule{Cond: 255, Body: []spec.Elem{spec.V(uint32(seq[0])), spec.V(uint32(seq[1]))}, Out: []uint32{'x'}})
		}
		beyond("code point rules", true, func() error { return b.AddSimpleUtf8RewriteRule('x', 'y') },
			func() error { return b.AddSimpleUtf8RewriteRule('x', 'y', 'z') })
	case 3:
		n := 65535 + min(extra, 0)
		for i := 0; i < n; i++ {
			in := []uint64{s.uids[i%2], s.uids[i/2%2]}
			fail(fmt.Sprintf("glyph rule %d", i), b.AddGlyphRewriteRule(0, 2, 0, in, s.uids[i/4%2]))
			s.rules = append(s.rules, c25rule{0, 2, 0, []c25in{{false, i % 2}, {false, i / 2 % 2}}, []uint16{uint16(i / 4 % 2)}})
		}
		beyond("glyph rules", true, func() error { return b.AddGlyphRewriteRule(0, 1, 0, []uint64{s.uids[0]}, s.uids[1]) })
	case 4:
		var uids []uint64
		create := func() error {
			uid, err := b.CreateRuneSet()
			if err == nil {
				uids = append(uids, uid)
			}
			return err
		}
		for i := 0; i < 255+min(extra, 0); i++ {
			fail(fmt.Sprintf("rune set %d", i), create())
		}
		beyond("rune sets", true, create, create)
		for i, u := range uids {
			for _, v := range uids[:i] {
				if u == v {
					x.Failf("rune sets: repeated UID")
				}
			}
		}
		// room for one again
		if !b.RemoveRuneSet(uids[7]) {
			x.Failf("rune sets: removing one of them reports that it does not exist")
		}
		fail("a rune set after removing one", create())
		beyond("rune sets", true, create)
		for i, u := range uids {
			if got := b.RemoveRuneSet(u); got != (i != 7) {
				x.Failf("rune sets: removing number %d of them reports %v", i, got)
			}
		}
	}
	s.log = fmt.Sprintf("big collection %d, %d", which, extra)
	s.finish()
	x.Count("big collections at their limits")
	x.State(explore.HashOf("huge", which, extra))
}

// c25setBytes has glyph sets of 65535 bytes together, the most that their end
// offsets can tell, or one byte less or more (or much more).
func c25setBytes(x *X, extra int) {
	f := spec.New(900)
	f.GlyphSets = nil
	set := func(ranges, list int) (g spec.GlyphSet) {
		for i := 0; i < ranges; i++ {
			g.Ranges = append(g.Ranges, spec.GRange{First: uint16(3 * i), Extra: uint8(i%2) + 1})
		}
		for i := 0; i < list; i++ {
			g.List = append(g.List, uint16(899-3*i))
		}
		return g
	}
	for i := 0; i < 51; i++ {
		f.GlyphSets = append(f.GlyphSets, set(255, 255)) // 1277 bytes each
	}
	last := [][2]int{{1, 201}, {0, 203}, {1, 202}}[extra+1]
	f.GlyphSets = append(f.GlyphSets, set(last[0], last[1]))
	total := 0
	for i := range f.GlyphSets {
		total += len(f.GlyphSets[i].Bytes())
	}
	if total != 65535+extra {
		panic(fmt.Sprint("harness: glyph sets of ", total, " bytes"))
	}
	many := x.Choose(3) // sets after it
	for i := 0; i < many*100; i++ {
		f.GlyphSets = append(f.GlyphSets, set(i%2*255, 0))
		total += len(f.GlyphSets[len(f.GlyphSets)-1].Bytes())
	}
	built := fill(x, f)
	font, err := tryBuild(x, built.B)
	x.State(explore.HashOf("set bytes", extra, many))
	if (err == nil) != (total <= 65535) {
		x.Failf("glyph sets of %d bytes: the error of Build is %v", total, err)
	}
	if err != nil {
		x.Count("rejected by Build")
		return
	}
	diff(x, "built font", func() string { return f.RewriteData(font) })
	again := reparse(x, font)
	diff(x, "parsed font", func() string { return f.RewriteData(again) })
	x.Count("big collections at their limits")
}

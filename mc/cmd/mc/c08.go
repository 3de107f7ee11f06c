package main

import (
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C08", Title: "rune mapping",
		Rule: "one execution = one font of the mapping grammar (settings, switch, group shapes per case, neighbours), built through the builder, exported, parsed, and laid out by hand; every assignment of setting values and every probe rune (with and without settings cache) is looked up and compared with the reference; a state is a (font, assignment) pair",
		Bounds: func(t string) string {
			return "settings: all option count vectors over {1,2,3} (thorough: up to 4) of length 1..3; switches: every ordered subset of settings; group shapes single/list/range/descending per case (first 3 cases free, the rest cyclic); group sizes 1..128 x {range, list, almost range} x flags; all subsets of 9 runes x entry kinds; switches up to 254 cases and 128-glyph groups" + bigBounds("C08")
		},
		Body: c08, QuickSec: 90, ThorSec: 820,
	})
}

// shapes of a case group; base picks different glyphs per case
func shape(kind, base int) spec.Group {
	b := uint16(base)
	switch kind {
	case 0:
		return spec.Group{Glyphs: []uint16{b}}
	case 1:
		return spec.Group{Glyphs: []uint16{b, b + 2}, Flags: 1}
	case 2:
		return spec.Group{Glyphs: []uint16{b, b + 1}, Flags: 2}
	case 3:
		return spec.Group{Glyphs: []uint16{b + 1, b + 2, b + 3}, Flags: 0xFF}
	case 4:
		return spec.Group{Glyphs: []uint16{b + 1, b}, Flags: 4}
	case 5:
		return spec.Group{Glyphs: []uint16{b + 2, b, b + 1}, Flags: 8}
	default:
		return spec.Group{Glyphs: []uint16{b, b}, Flags: 3}
	}
}

func c08options(n int) []string {
	words := []string{"off", "on", "alpha-x", "beta-x", "gamma-x"}
	if n <= len(words) {
		return words[:n]
	}
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, "on")
	}
	return out
}

// cached checks Utf8WithCache against Utf8 for all runes of the font.
// (and Ascii for the probes that are bytes)
func c08cached(f *spec.Font, font *ggfnt.Font, probes []rune) string {
	msg := ""
	cache := ggfnt.NewSettingsCache(font)
	f.EachAssignment(func(s []uint8) bool {
		for i, v := range s {
			if cache.Get(ggfnt.SettingKey(i)) != v {
				cache.Set(ggfnt.SettingKey(i), v)
			}
		}
		for _, r := range probes {
			want, cs, has := f.Lookup(r, s)
			if got, ok := font.Mapping().Utf8WithCache(r, cache); ok != has || ok && int(got.CaseBranch()) != cs {
				msg = fmt.Sprintf("cached lookup of %q with %v: found %v (case %d), expected %v (case %d)", r, s, ok, got.CaseBranch(), has, cs)
				return false
			}
			if r < 0 || r > 255 {
				continue
			}
			got, ok := font.Mapping().Ascii(byte(r), s)
			if ok != has || ok && int(got.CaseBranch()) != cs {
				msg = fmt.Sprintf("lookup of byte %d with %v: found %v (case %d), expected %v (case %d)", r, s, ok, got.CaseBranch(), has, cs)
				return false
			}
			if !ok {
				continue
			}
			if msg = spec.CheckGroup(fmt.Sprintf("lookup of byte %d with %v:", r, s), got, want); msg != "" {
				return false
			}
		}
		for rep := 0; rep < 2; rep++ {
			for i := range f.Mappings {
				r := f.Mappings[i].Rune
				want, cs, _ := f.Lookup(r, s)
				got, ok := font.Mapping().Utf8WithCache(r, cache)
				if !ok {
					msg = fmt.Sprintf("cached lookup of %q with %v: not found", r, s)
					return false
				}
				if int(got.CaseBranch()) != cs {
					msg = fmt.Sprintf("cached lookup of %q with %v: case %d, expected %d", r, s, got.CaseBranch(), cs)
					return false
				}
				if msg = spec.CheckGroup(fmt.Sprintf("cached lookup of %q with %v:", r, s), got, want); msg != "" {
					return false
				}
				if _, ok := font.Mapping().Utf8WithCache(r+1, cache); ok != f.Has(r+1) {
					msg = fmt.Sprintf("cached lookup of %q: found %v", r+1, ok)
					return false
				}
			}
		}
		return true
	})
	return msg
}

func c08(x *X) {
	var f *spec.Font
	probes := []rune{0, ' ', 'a', 'b', 'c', 'z', 0x7F, 0x80, 0xFFFF, 0x10000, 0x10FFFF, -1}
	hand := true
	switch x.Choose(5) {
	case 4:
		bigRun(x, "C08")
		return
	case 0: // switch structure
		f = spec.New(40)
		n := x.Choose(x.Pick(3, 3)) + 1
		total := 1
		for i := 0; i < n; i++ {
			opts := x.Choose(x.Pick(3, 4)) + 1
			total *= opts
			f.Settings = append(f.Settings, spec.Setting{Name: fmt.Sprintf("s%d", i), Options: c08options(opts)})
		}
		// the switch under test: an ordered subset
		var sw []uint8
		left := []uint8{0, 1, 2}[:n]
		for len(left) > 0 {
			c := x.Choose(len(left) + 1)
			if c == len(left) {
				if len(sw) == 0 {
					x.Prune()
				}
				break
			}
			sw = append(sw, left[c])
			left = append(append([]uint8(nil), left[:c]...), left[c+1:]...)
		}
		other := []uint8{uint8(n - 1)}
		var key, okey uint8
		if x.Bool() {
			f.Switches = [][]uint8{other, sw}
			key, okey = 1, 0
		} else {
			f.Switches = [][]uint8{sw, other}
			key, okey = 0, 1
		}
		cases := f.NumCases(key)
		free := cases
		if free > 3 {
			free = 3
		}
		kinds := make([]int, cases)
		nk := 7
		if n == 3 && !x.Thorough() {
			free, nk = 1, 4
		}
		for i := range kinds {
			if i < free {
				kinds[i] = x.Choose(nk)
			} else {
				kinds[i] = (kinds[i-free] + 2*i + 1) % 7
			}
		}
		m := spec.Mapping{Rune: 'b', Switch: key}
		for i, k := range kinds {
			m.Groups = append(m.Groups, shape(k, (i*3)%36))
		}
		before := spec.Mapping{Rune: 'a', Switch: okey}
		after := spec.Mapping{Rune: 'c', Switch: key}
		for i := 0; i < f.NumCases(okey); i++ {
			before.Groups = append(before.Groups, shape(i, 30-i))
		}
		for i := range kinds {
			after.Groups = append(after.Groups, shape(0, i%40))
		}
		f.Mappings = []spec.Mapping{m, after, before,
			{Rune: 'd', Switch: spec.SwitchNone, Groups: []spec.Group{shape(0, 39)}},
			{Rune: 'Z', Switch: spec.SwitchGroup, Groups: []spec.Group{shape(kinds[0]%6+1, 7)}}}
	case 1: // group sizes
		f = spec.New(140)
		size := x.Choose(128) + 1
		form := x.Choose(4)
		flags := pick(x, []ggfnt.AnimationFlags{0, 1, 8, 0xFF})
		var g spec.Group
		for i := 0; i < size; i++ {
			g.Glyphs = append(g.Glyphs, uint16(i+5))
		}
		switch form {
		case 1:
			g.Glyphs[size-1] = 139
		case 2:
			g.Glyphs[0] = 0
		case 3:
			for i := range g.Glyphs {
				g.Glyphs[i] = uint16(135 - i)
			}
		}
		if size > 1 {
			g.Flags = flags
		}
		tail := spec.Mapping{Rune: 'y', Switch: spec.SwitchNone, Groups: []spec.Group{shape(0, 3)}}
		if size > 1 && size < 128 {
			f.Mappings = []spec.Mapping{{Rune: 'x', Switch: spec.SwitchGroup, Groups: []spec.Group{g}}, tail}
		} else {
			f.Mappings = []spec.Mapping{tail}
		}
		// the same group as a middle case of a switch
		f.Settings = []spec.Setting{{Name: "s", Options: c08options(3)}}
		f.Switches = [][]uint8{{0}}
		f.Mappings = append(f.Mappings, spec.Mapping{Rune: 'w', Switch: 0, Groups: []spec.Group{shape(size%7, 2), g, shape(form, 9)}})
	case 2: // search over runes
		f = spec.New(12)
		runes := []rune{' ', '!', 'a', 'b', 0x7F, 0x80, 0xFFFF, 0x10000, 0x10FFFF}
		if !x.Thorough() {
			runes = runes[:8]
			runes[7] = 0x10FFFF
		}
		mask := x.Choose(1 << len(runes))
		kind := x.Choose(3)
		order := x.Bool()
		for i := range runes {
			k := i
			if order {
				k = len(runes) - 1 - i
			}
			if mask>>k&1 == 1 {
				m := spec.Mapping{Rune: runes[k], Switch: spec.SwitchNone, Groups: []spec.Group{shape(0, k)}}
				if kind == 1 || kind == 2 && k%2 == 0 {
					m = spec.Mapping{Rune: runes[k], Switch: spec.SwitchGroup, Groups: []spec.Group{shape(k%6+1, k)}}
				}
				f.Mappings = append(f.Mappings, m)
			}
		}
		probes = append(probes, runes...)
	case 3: // limits
		opts := pick(x, [][]int{{254}, {127, 2}, {2, 127}, {2, 2, 2, 2, 2, 2, 2}, {15, 16}, {1, 254}, {254, 1}, {3, 5, 15}})
		f = spec.New(300)
		for i, n := range opts {
			f.Settings = append(f.Settings, spec.Setting{Name: fmt.Sprintf("s%d", i), Options: c08options(n)})
		}
		var sw []uint8
		rev := x.Bool()
		for i := range opts {
			if rev {
				sw = append(sw, uint8(len(opts)-1-i))
			} else {
				sw = append(sw, uint8(i))
			}
		}
		nsw := pick(x, []int{1, 2, 253, 254})
		for i := 0; i < nsw-1; i++ {
			f.Switches = append(f.Switches, []uint8{0})
		}
		f.Switches = append(f.Switches, sw)
		key := uint8(nsw - 1)
		m := spec.Mapping{Rune: 'b', Switch: key}
		big := x.Bool()
		for i := 0; i < f.NumCases(key); i++ {
			g := shape(i%7, i)
			if big && i%5 == 3 {
				g = spec.Group{Flags: 9}
				for k := 0; k < 128; k++ {
					g.Glyphs = append(g.Glyphs, uint16((k*(i%3+1)+i)%300))
				}
			}
			m.Groups = append(m.Groups, g)
		}
		f.Mappings = []spec.Mapping{m, {Rune: 'a', Switch: spec.SwitchNone, Groups: []spec.Group{shape(0, 1)}}, {Rune: 'c', Switch: spec.SwitchGroup, Groups: []spec.Group{shape(3, 1)}}}
	}
	if x.Logging() {
		x.Logf("settings %v switches %v mappings %v", len(f.Settings), f.Switches, f.Mappings)
	}
	x.StateOf(f.Settings, f.Switches, f.Mappings)
	x.Outcome(explore.HashOf(f.Mappings))
	cmp := func(font *ggfnt.Font) string {
		if m := f.MappingData(font, probes); m != "" {
			return m
		}
		return c08cached(f, font, probes)
	}
	font := mustBuild(x, fill(x, f).B)
	diff(x, "built font", func() string { return cmp(font) })
	again := reparse(x, font)
	diff(x, "parsed font", func() string { return f.MappingData(again, probes) })
	if hand {
		h := handMade(x, f)
		diff(x, "specified layout", func() string { return cmp(h) })
	}
	n := int64(1)
	for i := range f.Settings {
		n *= int64(len(f.Settings[i].Options))
	}
	x.CountN("assignments evaluated", n)
}

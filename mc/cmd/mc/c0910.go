package main

import (
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C09", Title: "mapping cache",
		Rule: "one execution = one history of Get / Set / Drop / Reset over one cache; every Get is compared with the reference lookup and with the uncached lookup, and the last returned group is re-read after every operation; a state is (settings, current font, last operations) as seen by the reference",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "all histories of length 7 over 13 operations (6 runes, 4 setting changes, drop, two resets), capacities 1..4, and of length 6 for capacities 1..8; two changes of the settings with up to 2^28 drops each, across every integer width but 32 bits; caches of 2 to 65000 entries with fewer and more runes than fit, up to 56789"
			}
			return "all histories of length 6 for capacities 1 and 2 and of length 5 for capacities 3..8 over 13 operations (6 runes, 4 setting changes, drop, two resets); runs of 1..40 distinct runes for capacities 1..33; two changes of the settings with up to 2^24 drops each; caches of 126 to 32769 entries with fewer and more runes than fit"
		},
		Body: c09, QuickSec: 90, ThorSec: 820,
	})
	explore.Register(&explore.Check{
		ID: "C10", Title: "settings cache",
		Rule: "one execution = one history of Set / evaluate-and-cache / cached lookup operations; after every operation all cached cases and conditions are compared with direct evaluations and with the reference, and all settings with the last written values; a state is (settings, what is cached)",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "all histories of length 7 over 15-18 operations on 2 fonts (3 switches and conditions; overlapping switches of 10 settings) and of length 6 on one with 10 switches and 10 conditions, across byte boundaries; a font with 255 settings, 254 switches and 255 conditions, all cached, and every one of the settings changed"
			}
			return "all histories of length 6 over 15-18 operations on 2 fonts (3 switches and conditions; overlapping switches of 10 settings) and of length 5 on one with 10 switches and 10 conditions, across byte boundaries; a font with 255 settings, 254 switches and 255 conditions, all cached, and every one of the settings changed"
		},
		Body: c10, QuickSec: 90, ThorSec: 820,
	})
}

type c09font struct {
	f    *spec.Font
	font *ggfnt.Font
}

var c09fonts []c09font

func c09make() []c09font {
	if c09fonts != nil {
		return c09fonts
	}
	for v := 0; v < 2; v++ {
		f := spec.New(60)
		f.Settings = []spec.Setting{{Name: "s", Options: c08options(2)}, {Name: "t", Options: c08options(3)}}
		f.Switches = [][]uint8{{0}, {1, 0}}
		o := v * 3
		f.Mappings = []spec.Mapping{
			{Rune: 'a', Switch: spec.SwitchNone, Groups: []spec.Group{shape(0, 1+o)}},
			{Rune: 'b', Switch: 0, Groups: []spec.Group{shape(1, 4+o), shape(0, 9+o)}},
			{Rune: 'd', Switch: spec.SwitchGroup, Groups: []spec.Group{shape(3, 20+o)}},
			{Rune: 0xE000, Switch: spec.SwitchNone, Groups: []spec.Group{shape(0, 2+o)}},
		}
		m := spec.Mapping{Rune: 'c', Switch: 1}
		for i := 0; i < 6; i++ {
			m.Groups = append(m.Groups, shape(i, 30+2*i+o))
		}
		f.Mappings = append(f.Mappings, m)
		if v == 1 { // also different runes
			f.Mappings = f.Mappings[1:]
		}
		c09fonts = append(c09fonts, c09font{f, f.MustParse()})
	}
	return c09fonts
}

func c09(x *X) {
	fonts := c09make()
	cur := fonts[0]
	caches := []*ggfnt.SettingsCache{ggfnt.NewSettingsCache(fonts[0].font), ggfnt.NewSettingsCache(fonts[1].font)}
	vals := [][]uint8{{0, 0}, {0, 0}}
	which := 0
	switch x.Choose(4) {
	case 1: // long runs
		c09long(x)
		return
	case 2:
		c09drops(x)
		return
	case 3:
		c09wide(x)
		return
	}
	capacity := x.Choose(8) + 1
	depth := 5
	if capacity <= 2 {
		depth = 6
	}
	if x.Thorough() {
		depth = 6
		if capacity <= 4 {
			depth = 7
		}
	}
	var cache *ggfnt.MappingCache
	x.NoPanic("NewMappingCache", func() { cache = ggfnt.NewMappingCache(cur.font, capacity) })
	var last ggfnt.GlyphMappingGroup
	var lastWant spec.Group
	hasLast, dirty := false, false
	runes := []rune{'a', 'b', 'c', 'd', 0xE000, 'z'}
	check := func(what string, g ggfnt.GlyphMappingGroup, w spec.Group) {
		if msg := spec.CheckGroup(what, g, w); msg != "" {
			x.Failf("%s", msg)
		}
	}
	for i := 0; i < depth; i++ {
		op := x.Choose(13)
		x.Step()
		switch {
		case op < 6:
			r := runes[op]
			if dirty {
				cache.Drop()
				dirty = false
			}
			want, cs, ok := cur.f.Lookup(r, vals[which])
			var g ggfnt.GlyphMappingGroup
			var found bool
			x.NoPanic("Get", func() { g, found = cache.Get(r, caches[which]) })
			if x.Logging() {
				x.Logf("Get %q settings %v: found %v", r, vals[which], found)
			}
			if found != ok {
				x.Failf("Get of %q: found %v, expected %v", r, found, ok)
			}
			if ok {
				if int(g.CaseBranch()) != cs {
					x.Failf("Get of %q with settings %v: case %d, expected %d", r, vals[which], g.CaseBranch(), cs)
				}
				check("Get", g, want)
				u, _ := cur.font.Mapping().Utf8(r, vals[which])
				if u.CaseBranch() != g.CaseBranch() || u.Size() != g.Size() || u.Select(u.Size()-1) != g.Select(u.Size()-1) {
					x.Failf("cached and uncached lookups of %q differ", r)
				}
				last, lastWant, hasLast = g, want, true
			}
		case op < 10:
			k := (op - 6) / 2
			v := uint8((op-6)%2) + uint8(k)
			if k == 1 && vals[which][1] == v { // give the third value a chance
				v = 0
			}
			m, _ := caches[which].Set(ggfnt.SettingKey(k), v)
			dirty = dirty || m
			vals[which][k] = v
			if x.Logging() {
				x.Logf("Set %d = %d", k, v)
			}
		case op == 10:
			cache.Drop()
			x.Logf("Drop")
			dirty = false
		default:
			which = op - 11
			cur = fonts[which]
			x.NoPanic("Reset", func() { cache.Reset(cur.font) })
			x.Logf("Reset to font %d", which)
		}
		if hasLast {
			check("a group returned earlier:", last, lastWant)
		}
		if x.AtFrontier() {
			x.State(explore.HashOf(capacity, which, vals, op, i))
		}
	}
	x.Outcome(explore.HashOf(vals, which))
}

func c09long(x *X) {
	f := spec.New(50)
	f.Settings = []spec.Setting{{Name: "s", Options: c08options(2)}}
	f.Switches = [][]uint8{{0}}
	n := x.Choose(40) + 1
	capacity := x.Choose(33) + 1
	stride := x.Choose(3)
	for i := 0; i < n; i++ {
		f.Mappings = append(f.Mappings, spec.Mapping{Rune: rune('a' + i), Switch: 0, Groups: []spec.Group{shape(0, i), shape(i%6+1, (i+7)%45)}})
	}
	font := f.MustParse()
	cache := ggfnt.NewMappingCache(font, capacity)
	sc := ggfnt.NewSettingsCache(font)
	s := []uint8{0}
	for step := 0; step < 3*n; step++ {
		k := step
		switch stride {
		case 1:
			k = step * step
		case 2:
			if step/3%2 == 1 {
				k = -step
			}
		}
		r := rune('a' + ((k%n)+n)%n)
		if step%5 == 4 {
			s[0] = 1 - s[0]
			sc.Set(0, s[0])
			cache.Drop()
		}
		want, _, _ := f.Lookup(r, s)
		x.Step()
		x.NoPanic("Get", func() {
			g, ok := cache.Get(r, sc)
			if !ok {
				x.Failf("Get of %q: not found", r)
			}
			if msg := spec.CheckGroup("Get", g, want); msg != "" {
				x.Failf("capacity %d, %d runes, step %d: %s", capacity, n, step, msg)
			}
		})
	}
}

type c10font struct {
	f        *spec.Font
	font     *ggfnt.Font
	switches []uint8
	conds    []uint8
	exprs    []cexpr
}

var c10fonts []*c10font

func c10make() []*c10font {
	if c10fonts != nil {
		return c10fonts
	}
	add := func(nsw int, switches, conds []uint8, gen func(i int) []uint8, ex func(i int) cexpr, settings int) {
		f := spec.New(40)
		for i := 0; i < settings; i++ {
			f.Settings = append(f.Settings, spec.Setting{Name: fmt.Sprintf("s%d", i), Options: c08options(3)})
		}
		c := &c10font{f: f, switches: switches, conds: conds}
		for i := 0; i < nsw; i++ {
			f.Switches = append(f.Switches, gen(i))
			e := ex(i)
			c.exprs = append(c.exprs, e)
			f.Conditions = append(f.Conditions, e.bytes())
		}
		for _, s := range switches {
			m := spec.Mapping{Rune: rune('a' + int(s)), Switch: s}
			for k := 0; k < f.NumCases(s); k++ {
				m.Groups = append(m.Groups, shape(0, (k+int(s))%40))
			}
			f.Mappings = append(f.Mappings, m)
		}
		c.font = f.MustParse()
		c10fonts = append(c10fonts, c)
	}
	add(3, []uint8{0, 1, 2}, []uint8{0, 1, 2}, func(i int) []uint8 { return [][]uint8{{0}, {1, 0}, {2}}[i] },
		func(i int) cexpr {
			return []cexpr{quick(3, 1, 0), group(1, quick(3, 1, 1), quick(4, 2, 2)), compare(2, true, 0, 1)}[i]
		}, 3)
	add(10, []uint8{0, 7, 8, 9}, []uint8{0, 7, 8, 9}, func(i int) []uint8 { return []uint8{uint8(i) % 3} },
		func(i int) cexpr { return quick(3, uint8(i%3), uint8(i+1)%3) }, 3)
	add(2, []uint8{0, 1}, []uint8{0, 1}, func(i int) []uint8 { return [][]uint8{{8, 0}, {9}}[i] },
		func(i int) cexpr { return quick(3, 1, []uint8{8, 9}[i]) }, 10)
	return c10fonts
}

func c10(x *X) {
	fi := x.Choose(4)
	if fi == 3 {
		c10wide(x)
		return
	}
	c := c10make()[fi]
	keys := []uint8{0, 1, 2}
	if fi == 2 {
		keys = []uint8{0, 8, 9}
	}
	depth := x.Pick(6, 7)
	if fi == 1 {
		depth--
	}
	var cache *ggfnt.SettingsCache
	x.NoPanic("NewSettingsCache", func() { cache = ggfnt.NewSettingsCache(c.font) })
	vals := make([]uint8, len(c.f.Settings))
	nops := 9 + len(c.switches)*2 + len(c.conds)
	for i := 0; i < depth; i++ {
		op := x.Choose(nops)
		x.Step()
		x.NoPanic("operation", func() {
			switch {
			case op < 9:
				k, v := keys[op/3], uint8(op%3)
				before := append([]uint8(nil), vals...)
				vals[k] = v
				m, r := cache.Set(ggfnt.SettingKey(k), v)
				if x.Logging() {
					x.Logf("Set %d = %d: %v %v", k, v, m, r)
				}
				for s := range c.f.Switches {
					if !m && c.f.Case(uint8(s), before) != c.f.Case(uint8(s), vals) {
						x.Failf("Set(%d, %d) changes switch %d but reports that mappings are not affected", k, v, s)
					}
				}
				for s := range c.exprs {
					if !r && c.exprs[s].eval(before) != c.exprs[s].eval(vals) {
						x.Failf("Set(%d, %d) changes condition %d but reports that conditions are not affected", k, v, s)
					}
				}
			case op < 9+len(c.switches):
				s := c.switches[op-9]
				cache.CacheMappingCase(s, c.font.Mapping().EvaluateSwitch(s, cache.UnsafeSlice()))
				x.Logf("cache switch %d", s)
			case op < 9+2*len(c.switches):
				s := c.switches[op-9-len(c.switches)]
				r := rune('a' + int(s))
				want, cs, _ := c.f.Lookup(r, vals)
				g, ok := c.font.Mapping().Utf8WithCache(r, cache)
				x.Logf("lookup %q", r)
				if !ok || int(g.CaseBranch()) != cs {
					x.Failf("lookup of %q with cache and settings %v: found %v case %d, expected case %d", r, vals, ok, g.CaseBranch(), cs)
				}
				if msg := spec.CheckGroup("lookup with cache", g, want); msg != "" {
					x.Failf("%s", msg)
				}
			default:
				k := c.conds[op-9-2*len(c.switches)]
				cache.CacheRewriteCondition(k, c.font.Rewrites().EvaluateCondition(k, cache.UnsafeSlice()))
				x.Logf("cache condition %d", k)
			}
		})
		if !x.AtFrontier() {
			continue // this prefix was already checked
		}
		c10verify(x, c, cache, vals)
	}
}

func c10verify(x *X, c *c10font, cache *ggfnt.SettingsCache, vals []uint8) {
	x.NoPanic("query", func() {
		h := uint64(0)
		for k, v := range vals {
			if cache.Get(ggfnt.SettingKey(k)) != v || cache.UnsafeSlice()[k] != v {
				x.Failf("setting %d reads %d, expected %d", k, cache.Get(ggfnt.SettingKey(k)), v)
			}
			h = explore.HashU(h, uint64(v))
		}
		for s := range c.f.Switches {
			want := c.f.Case(uint8(s), vals)
			if got, ok := cache.GetMappingCase(uint8(s)); ok {
				h = explore.HashU(h, uint64(s)+100)
				if int(got) != want {
					x.Failf("cached case of switch %d is %d with settings %v, expected %d", s, got, vals, want)
				}
			}
			if got := c.font.Mapping().EvaluateSwitch(uint8(s), cache.UnsafeSlice()); int(got) != want {
				x.Failf("switch %d evaluates to %d with settings %v, expected %d", s, got, vals, want)
			}
		}
		for s := range c.exprs {
			want := c.exprs[s].eval(vals)
			if got, ok := cache.GetRewriteCondition(uint8(s)); ok {
				h = explore.HashU(h, uint64(s)+200)
				if got != want {
					x.Failf("cached condition %d is %v with settings %v, expected %v", s, got, vals, want)
				}
			}
			if got := c.font.Rewrites().EvaluateCondition(uint8(s), cache.UnsafeSlice()); got != want {
				x.Failf("condition %d evaluates to %v with settings %v, expected %v", s, got, vals, want)
			}
		}
		for _, s := range []uint8{254, 255} {
			if v, ok := cache.GetMappingCase(s); !ok || v != 0 {
				x.Failf("case of the reserved switch %d is %d, %v", s, v, ok)
			}
		}
		if v, ok := cache.GetRewriteCondition(255); !ok || !v {
			x.Failf("the empty condition is %v, %v", v, ok)
		}
		x.State(h)
		x.Outcome(h)
	})
}

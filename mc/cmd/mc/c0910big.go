package main

import (
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

// c09drops makes lookups around as many drops as make narrow counters of
// them start again.
func c09drops(x *X) {
	counts := []int{1, 2, 3, 127, 128, 129, 255, 256, 257, 510, 511, 512, 32767, 32768, 65535, 65536, 65537, 131072, 1<<24 - 1, 1 << 24}
	if x.Thorough() {
		counts = append(counts, 254, 258, 65534, 196608, 1<<20, 1<<24+1, 1<<25, 1<<28)
	}
	c := c09make()[0]
	n, m := counts[x.Choose(len(counts))], counts[x.Choose(len(counts))]
	capacity := []int{1, 2, 3, 5}[x.Choose(4)]
	between := x.Choose(3) // lookups between the two changes: none, one rune, all
	runes := []rune{'a', 'b', 'c', 'd', 0xE000}
	cache := ggfnt.NewMappingCache(c.font, capacity)
	sc := ggfnt.NewSettingsCache(c.font)
	vals := []uint8{0, 0}
	get := func(r rune) {
		want, cs, _ := c.f.Lookup(r, vals)
		x.Step()
		x.NoPanic("Get", func() {
			g, ok := cache.Get(r, sc)
			if !ok || int(g.CaseBranch()) != cs {
				x.Failf("%d and %d drops, capacity %d: Get of %q with settings %v: found %v, case %d, expected %d", n, m, capacity, r, vals, ok, g.CaseBranch(), cs)
			}
			if msg := spec.CheckGroup("Get", g, want); msg != "" {
				x.Failf("%d and %d drops, capacity %d: %s", n, m, capacity, msg)
			}
		})
	}
	set := func(a, b uint8, drops int) {
		vals[0], vals[1] = a, b
		sc.Set(0, a)
		sc.Set(1, b)
		for i := 0; i < drops; i++ {
			cache.Drop()
		}
		x.Steps(drops)
	}
	for _, r := range runes {
		get(r)
	}
	set(1, 2, n)
	switch between {
	case 1:
		get('e' - 1)
	case 2:
		for _, r := range runes {
			get(r)
		}
	}
	set(0, 1, m)
	for k := len(runes) - 1; k >= 0; k-- {
		get(runes[k])
	}
	x.State(explore.HashOf("drops", n, m, capacity, between))
}

// c09wide uses as many runes and entries as a cache can have.
func c09wide(x *X) {
	caps := []int{126, 127, 128, 129, 254, 255, 256, 257, 1000, 32767, 32768, 32769}
	if x.Thorough() {
		caps = append(caps, 2, 3, 511, 512, 513, 4096, 16384, 40000, 56788, 56789, 65000)
	}
	capacity := caps[x.Choose(len(caps))]
	n := capacity + []int{-1, 0, 1, 2, 70, capacity}[x.Choose(6)]
	if n > ggfnt.MaxGlyphs {
		n = ggfnt.MaxGlyphs
	}
	order := x.Choose(3)
	f := spec.New(50)
	f.Settings = []spec.Setting{{Name: "s", Options: c08options(2)}}
	f.Switches = [][]uint8{{0}}
	f.Mappings = make([]spec.Mapping, n)
	for i := range f.Mappings {
		f.Mappings[i] = spec.Mapping{Rune: rune(i), Switch: 0, Groups: []spec.Group{shape(0, i%50), shape(0, (i*3+i/50+7)%50)}}
		if f.Mappings[i].Rune >= 0xD800 {
			f.Mappings[i].Rune += 0x2800
		}
	}
	font := f.MustParse()
	cache := ggfnt.NewMappingCache(font, capacity)
	sc := ggfnt.NewSettingsCache(font)
	sc.Set(0, 0)
	s := []uint8{0}
	get := func(i int) {
		m := &f.Mappings[i]
		x.Step()
		g, ok := cache.Get(m.Rune, sc)
		if !ok || g.CaseBranch() != s[0] {
			x.Failf("capacity %d, %d runes: Get of rune %d: found %v, case %d, expected %d", capacity, n, m.Rune, ok, g.CaseBranch(), s[0])
		}
		if msg := spec.CheckGroup("Get", g, m.Groups[s[0]]); msg != "" {
			x.Failf("capacity %d, %d runes, rune %d, settings %v: %s", capacity, n, m.Rune, s, msg)
		}
	}
	pass := func() {
		switch order {
		case 0:
			for i := 0; i < n; i++ {
				get(i)
			}
		case 1:
			for i := n - 1; i >= 0; i-- {
				get(i)
			}
		default: // keep some of them recent
			for i := 0; i < n; i++ {
				get(i)
				get(i / 2)
				if i > 0 {
					get(i - 1)
				}
			}
		}
	}
	x.NoPanic("Get", func() {
		pass()
		pass()
		s[0] = 1
		sc.Set(0, 1)
		cache.Drop()
		pass()
		order = (order + 1) % 3
		pass()
	})
	x.State(explore.HashOf("wide", capacity, n, order))
}

var c10full *c10font

// c10wide uses as many settings, switches and conditions as there can be.
func c10wide(x *X) {
	const nset, nsw, nco = 255, 254, 255
	if c10full == nil {
		f := spec.New(40)
		for i := 0; i < nset; i++ {
			f.Settings = append(f.Settings, spec.Setting{Name: fmt.Sprintf("s%d", i), Options: c08options(3)})
		}
		c := &c10font{f: f}
		for i := 0; i < nsw; i++ {
			f.Switches = append(f.Switches, []uint8{uint8(i)})
		}
		for i := 0; i < nco; i++ {
			e := quick(3, 1, uint8(i))
			if i%2 == 1 {
				e = quick(4, 1, uint8(i))
			}
			c.exprs = append(c.exprs, e)
			f.Conditions = append(f.Conditions, e.bytes())
		}
		c.font = f.MustParse()
		c10full = c
	}
	c := c10full
	var cache *ggfnt.SettingsCache
	x.NoPanic("NewSettingsCache", func() { cache = ggfnt.NewSettingsCache(c.font) })
	vals := make([]uint8, nset)
	k := x.Choose(nset)
	step := []int{0, 1, 7, 8, 9, 32, 64, 128, 254}[x.Choose(x.Pick(3, 9))]
	j := (k + step) % nsw
	x.Steps(2*nsw + 2*nco + 8)
	fill := func(i int) {
		if i < nsw {
			cache.CacheMappingCase(uint8(i), c.font.Mapping().EvaluateSwitch(uint8(i), cache.UnsafeSlice()))
		}
		cache.CacheRewriteCondition(uint8(i), c.font.Rewrites().EvaluateCondition(uint8(i), cache.UnsafeSlice()))
	}
	set := func(k int, v uint8) {
		vals[k] = v
		m, r := cache.Set(ggfnt.SettingKey(k), v)
		if (k < nsw && !m) || !r {
			x.Failf("Set(%d, %d): %v, %v", k, v, m, r)
		}
	}
	x.NoPanic("operation", func() {
		for i := 0; i < nco; i++ {
			fill(i)
		}
		c10verify(x, c, cache, vals)
		set(k, 1)
		c10verify(x, c, cache, vals) // what is not cached again is not remembered
		fill(j)
		c10verify(x, c, cache, vals)
		for i := 0; i < nco; i++ {
			fill(i)
		}
		set(k, 2)
		c10verify(x, c, cache, vals)
		fill(j)
		set(j, 1)
		c10verify(x, c, cache, vals)
	})
}

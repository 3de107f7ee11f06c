package main

import (
	"fmt"
	"image"
	"strings"
	"sync"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

// Fonts with a section of up to 2^24 - 1 bytes, the most that an offset can
// tell, and of some bytes more; and fonts of up to the maximum total size.
// Building gives a font which can be parsed again in the first case, and an
// error in the second one.

// c25coin is something to add to a font; the sizes are measured.
type c25coin struct {
	add  func(f *spec.Font)
	size int
}

type c25section struct {
	name     string
	overhead int // bytes of a new element which are not in the section
	base     func() *spec.Font
	coins    []c25coin // the biggest one first
	cmp      func(f *spec.Font, font *ggfnt.Font) string
	once     sync.Once
}

// noise is a mask without any regularity.
func noise(w, h, ox, oy int) *image.Alpha {
	m := image.NewAlpha(image.Rect(ox, oy, ox+w, oy+h))
	v := uint32(w*h + 1)
	for i := range m.Pix {
		v = v*1664525 + 1013904223
		m.Pix[i] = uint8(v>>24) & 0xF8
	}
	return m
}

func c25plainRule(body, outs int) spec.Rule {
	r := spec.Rule{Cond: 255}
	for i := 0; i < body; i++ {
		r.Body = append(r.Body, spec.V(uint32('0'+i%60)))
	}
	for i := 0; i < outs; i++ {
		r.Out = append(r.Out, uint32('a'+i%20))
	}
	return r
}

var c25sections = func() (out []*c25section) {
	s := &c25section{name: "masks", overhead: 3, base: func() *spec.Font { f := spec.New(1); f.Ascent, f.Descent = 255, 255; return f }, cmp: (*spec.Font).GlyphData}
	masks := []*image.Alpha{noise(120, 100, -7, -60), noise(30, 20, 0, -20), noise(10, 8, 0, -7)}
	for w := 1; w < 40; w++ {
		masks = append(masks, checkers(w, 1, w%3, -1))
	}
	for _, m := range masks {
		m := m
		s.coins = append(s.coins, c25coin{add: func(f *spec.Font) {
			f.Glyphs = append(f.Glyphs, spec.Glyph{Mask: m, Placement: f.Glyphs[0].Placement})
		}})
	}
	out = append(out, s)

	s = &c25section{name: "mappings", overhead: 7, base: func() *spec.Font { return bigCases(0) }, cmp: bigC08}
	cases := bigCases(1).Mappings[0].Groups
	s.coins = append(s.coins, c25coin{add: func(f *spec.Font) {
		f.Mappings = append(f.Mappings, spec.Mapping{Rune: bigRune(len(f.Mappings)), Switch: 0, Groups: cases})
	}})
	for _, n := range []int{127, 20, 3, 2, 1} {
		n := n
		g := spec.Group{Flags: 1}
		for k := 0; k < n; k++ {
			g.Glyphs = append(g.Glyphs, uint16(k*k%300))
		}
		s.coins = append(s.coins, c25coin{add: func(f *spec.Font) {
			m := spec.Mapping{Rune: bigRune(len(f.Mappings)), Switch: spec.SwitchGroup, Groups: []spec.Group{g}}
			if n == 1 {
				m.Switch, m.Groups = spec.SwitchNone, []spec.Group{{Glyphs: g.Glyphs}}
			}
			f.Mappings = append(f.Mappings, m)
		}})
	}
	out = append(out, s)

	for _, wide := range []bool{true, false} {
		s = &c25section{name: "glyph rules", overhead: 3, base: func() *spec.Font { return bigPlain(300) }, cmp: (*spec.Font).RewriteData}
		if wide {
			s.name = "code point rules"
		}
		for _, p := range [][2]int{{255, 255}, {255, 1}, {40, 3}, {33, 1}, {31, 1}, {30, 1}, {17, 1}, {16, 1}, {15, 1}, {3, 1}, {2, 1}, {1, 1}} {
			if wide {
				p[1] = 1
			}
			r, wide := c25plainRule(p[0], p[1]), wide
			s.coins = append(s.coins, c25coin{add: func(f *spec.Font) {
				if wide {
					f.Utf8Rules = append(f.Utf8Rules, r)
				} else {
					f.GlyphRules = append(f.GlyphRules, r)
				}
			}})
		}
		out = append(out, s)
	}
	return out
}()

// measure finds the sizes of the coins.
func (s *c25section) measure(x *X) {
	s.once.Do(func() {
		size := func(i int) int {
			f := s.base()
			s.coins[0].add(f)
			if i >= 0 {
				s.coins[i].add(f)
			}
			return len(mustBuild(x, fill(x, f).B).Data)
		}
		base := size(-1)
		for i := range s.coins {
			s.coins[i].size = size(i) - base - s.overhead
		}
	})
}

// filled returns a font with a section of n bytes, on top of those in base.
func (s *c25section) filled(f *spec.Font, n int) bool {
	big := &s.coins[0]
	for n >= big.size+4000 {
		big.add(f)
		n -= big.size
	}
	by := make([]int, n+1) // the coin to use for a total
	for t := 1; t <= n; t++ {
		by[t] = -1
		for i := range s.coins {
			if c := &s.coins[i]; c.size > 0 && c.size <= t && (t == c.size || by[t-c.size] >= 0) {
				by[t] = i
				break
			}
		}
	}
	for n > 0 {
		if by[n] < 0 {
			return false
		}
		s.coins[by[n]].add(f)
		n -= s.coins[by[n]].size
	}
	return true
}

// first is the size of the section in the base font.
func (s *c25section) first(x *X) int {
	if s.name != "masks" {
		return 0
	}
	one := s.base()
	f := s.base()
	f.Glyphs = append(f.Glyphs, f.Glyphs[0])
	return len(mustBuild(x, fill(x, f).B).Data) - len(mustBuild(x, fill(x, one).B).Data) - s.overhead
}

func c25sizes(x *X) {
	k := x.Choose(len(c25sections) + 1)
	if k == len(c25sections) {
		c25total(x)
		return
	}
	s := c25sections[k]
	over := pick(x, []int{-1, 0, 1, 300, 70000})
	what := fmt.Sprintf("2^24 %+d bytes of %s", over, s.name)
	x.Logf("%s", what)
	if x.Planning() {
		return
	}
	s.measure(x)
	f := s.base()
	if !s.filled(f, 1<<24+over-s.first(x)) {
		x.Failf("%s: the sizes of the elements do not allow for it", what)
	}
	b := fill(x, f).B
	font, err := tryBuild(x, b)
	if (err == nil) != (over < 0) {
		x.Failf("%s: Build error %v", what, err)
	}
	if err == nil {
		again := reparse(x, font)
		diff(x, what, func() string { return s.cmp(f, again) })
	}
	x.State(explore.HashOf(what))
	x.Outcome(explore.HashOf("size", err == nil))
	x.Count("sections of about 2^24 bytes")
}

// c25total makes fonts of about the maximum total size.
func c25total(x *X) {
	over := pick(x, []int{0, 1, 300})
	what := fmt.Sprintf("font of %d %+d bytes", ggfnt.MaxFontDataSize, over)
	x.Logf("%s", what)
	if x.Planning() {
		return
	}
	for _, s := range c25sections[:2] {
		s.measure(x)
	}
	f := c25sections[1].base()
	f.Ascent, f.Descent = 255, 255
	c25sections[0].filled(f, 1<<24-15000)
	f.About = strings.Repeat("a", 1000)
	c25sections[1].filled(f, 1<<24-40000)
	b := fill(x, f).B
	missing := ggfnt.MaxFontDataSize + over - len(mustBuild(x, b).Data)
	f.About += strings.Repeat("b", max(missing, 0))
	if missing < 0 || len(f.About) > 65535 {
		x.Failf("%s: the sizes of the elements do not allow for it (%d)", what, missing)
	}
	if err := b.SetAbout(f.About); err != nil {
		x.Failf("SetAbout: %v", err)
	}
	font, err := tryBuild(x, b)
	if (err == nil) != (over == 0) {
		x.Failf("%s: Build error %v", what, err)
	}
	if err == nil {
		again := reparse(x, font)
		diff(x, what, func() string {
			if m := f.Header(again); m != "" {
				return m
			}
			if m := f.GlyphData(again); m != "" {
				return m
			}
			return bigC08(f, again)
		})
	}
	x.State(explore.HashOf(what))
	x.Outcome(explore.HashOf("total", err == nil))
	x.Count("fonts of about the maximum size")
}

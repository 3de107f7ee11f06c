package main

import (
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C13", Title: "settings and words",
		Rule: "one execution = one list of settings with options chosen from a universe of predefined and custom words, built, exported, parsed and laid out by hand; all settings, options and all 256 word indices are enumerated and compared; a state is the list of settings",
		Bounds: func(t string) string {
			return "all lists of up to 2 (quick) / 3 (thorough) settings with 1..2 options and single settings with 3 options over 8 words; n custom words for n in 0..256 next to predefined words whose index is n-1, n, n+1, 0 and 254; up to 255 settings and 255 options" + bigBounds("C13")
		},
		Body: c13, QuickSec: 90, ThorSec: 820,
	})
}

func c13compare(f *spec.Font, font *ggfnt.Font) string {
	if m := f.SettingData(font); m != "" {
		return m
	}
	s := font.Settings()
	for _, k := range []int{len(f.Settings), len(f.Settings) + 1, 255} {
		if k >= len(f.Settings) && k < 256 && s.GetNumOptions(ggfnt.SettingKey(k)) != 0 {
			return fmt.Sprintf("undefined setting %d has options", k)
		}
	}
	for k := range f.Settings {
		for _, o := range []int{len(f.Settings[k].Options), 255} {
			if o >= len(f.Settings[k].Options) && o < 256 {
				if name := quiet(func() string { return s.GetOptionName(ggfnt.SettingKey(k), uint8(o)) }); name != "" {
					return fmt.Sprintf("undefined option %d of setting %d is reported as %q", o, k, name)
				}
			}
		}
	}
	return ""
}

func quiet(f func() string) (s string) {
	defer func() { _ = recover() }()
	return f()
}

func distinctPredefined() []string {
	var out []string
	seen := map[string]bool{}
	for i := 0; i < 256; i++ {
		w := ggfnt.GetPredefinedWord(uint8(i))
		if !seen[w] && w != "" {
			seen[w] = true
			out = append(out, w)
		}
	}
	return out
}

func c13(x *X) {
	f := spec.New(1)
	last := ggfnt.GetPredefinedWord(254)
	words := []string{ggfnt.GetPredefinedWord(10), ggfnt.GetPredefinedWord(11), last, ggfnt.GetPredefinedWord(0), "custom-a", "custom-b", "a", "zz"}
	if !x.Thorough() {
		words = append(words[:2:2], words[3:]...)
	}
	switch x.Choose(5) {
	case 4:
		bigRun(x, "C13")
		return
	case 0:
		n := x.Choose(x.Pick(2, 3) + 1)
		for i := 0; i < n; i++ {
			s := spec.Setting{Name: fmt.Sprintf("setting-%d", i)}
			for k := x.Choose(2) + 1; k > 0; k-- {
				if n == 3 {
					s.Options = append(s.Options, words[x.Choose(5)+1])
				} else {
					s.Options = append(s.Options, pick(x, words))
				}
			}
			f.Settings = append(f.Settings, s)
		}
	case 1:
		s := spec.Setting{Name: "only"}
		for k := 0; k < 3; k++ {
			s.Options = append(s.Options, pick(x, words))
		}
		f.Settings = []spec.Setting{s}
	case 2: // many custom words
		var counts []int
		for i := 0; i <= 256; i++ {
			if x.Thorough() || i < 20 || i%8 == 0 || i%8 == 7 || i > 240 {
				counts = append(counts, i)
			}
		}
		n := pick(x, counts)
		rev := x.Bool()
		var cs []string
		for i := 0; i < n; i++ {
			k := i
			if rev {
				k = n - 1 - i
			}
			w := fmt.Sprintf("cw%d", k)
			if k%3 == 0 {
				w = fmt.Sprintf("%s-a-rather-long-custom-word", w)
			}
			cs = append(cs, w)
		}
		which := x.Choose(6)
		if n > 0 {
			f.Settings = append(f.Settings, spec.Setting{Name: "custom", Options: cs[:min(n, 200)]})
			if n > 200 {
				f.Settings = append(f.Settings, spec.Setting{Name: "custom-too", Options: cs[200:]})
			}
		}
		for _, k := range [][]int{nil, {n - 1}, {n}, {n + 1, n}, {n, 254}, {0, n - 1, n, n + 1, 253, 254, 255}}[which] {
			if k >= 0 && k < 256 {
				w := ggfnt.GetPredefinedWord(uint8(k))
				if w == "" {
					continue
				}
				f.Settings = append(f.Settings, spec.Setting{Name: fmt.Sprintf("pre-%d", len(f.Settings)), Options: []string{w, "cw0-a-rather-long-custom-word"[:3+x.Choose(2)*26]}})
			}
		}
	case 3: // limits
		if x.Bool() {
			n := pick(x, []int{1, 2, 127, 128, 200, 254, 255, 256})
			for i := 0; i < n; i++ {
				f.Settings = append(f.Settings, spec.Setting{Name: fmt.Sprintf("a-setting-with-number-%d", i), Options: words[i%4 : i%4+1+i%2]})
			}
		} else {
			n := pick(x, []int{1, 2, 127, 128, 254, 255, 256})
			s := spec.Setting{Name: "big"}
			for i := 0; i < n; i++ {
				s.Options = append(s.Options, words[i%len(words)])
			}
			f.Settings = []spec.Setting{{Name: "x", Options: words[:1]}, s, {Name: "y", Options: words[1:3]}}
		}
	}
	if x.Logging() {
		x.Logf("%q", f.Settings)
	}
	x.StateOf(f.Settings)
	accepted := len(f.Settings) <= 255
	for _, s := range f.Settings {
		if len(s.Options) > 255 {
			accepted = false
		}
	}
	_, _, fits := f.WordTable()
	if !accepted {
		b, err := f.Fill()
		if err == nil {
			x.Failf("too many settings or options are accepted")
		}
		_ = b
		x.Count("rejected")
		return
	}
	b := fill(x, f)
	if !fits {
		_, err := tryBuild(x, b.B)
		if err == nil {
			x.Failf("a font with more than 255 custom words is built")
		}
		x.Count("too many words")
		return
	}
	font := mustBuild(x, b.B)
	cmp := func(font *ggfnt.Font) string { return c13compare(f, font) }
	diff(x, "built font", func() string { return cmp(font) })
	again := reparse(x, font)
	diff(x, "parsed font", func() string { return cmp(again) })
	h := handMade(x, f)
	diff(x, "specified layout", func() string { return cmp(h) })
	x.Outcome(explore.HashOf(font.Settings().NumWords(), len(f.Settings)))
	_ = builder.New
}

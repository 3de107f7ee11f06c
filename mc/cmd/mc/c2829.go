package main

import (
	"fmt"
	"image/color"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C28", Title: "dates",
		Rule: "one execution = one year; all 65536 month/day values are checked against a calendar, printed, and (for selected years) given to the three builder setters; a state is a date",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "all 2^32 dates"
			}
			return "years 0..1200, 1880..2120, 65000..65535 and all multiples of 100, times all 65536 month/day values; printing and builder setters for month/day 0..40 and 250..255 of all those years"
		},
		Body: c28, QuickSec: 90, ThorSec: 820,
	})
	explore.Register(&explore.Check{
		ID: "C29", Title: "names",
		Rule: "one execution = one string given to every builder operation taking a name, compared with a regular expression; an accepted name must be readable back from the built font; a state is a string",
		Bounds: func(t string) string {
			return "all strings up to length 4 (quick) or 5 (thorough) over 20 byte values (letters, digits, dash and all their neighbours, control, non ASCII), up to length 7 / 9 over {a - 0 _}, names at all positions of up to 255 of them, and lengths 0..40 and 255..257 with one or two special characters at every position"
		},
		Body: c29, QuickSec: 90, ThorSec: 820,
	})
}

func c28(x *X) {
	var year uint16
	if x.Thorough() {
		year = uint16(x.Choose(256)<<8 | x.Choose(256))
	} else {
		k := x.Choose(4)
		switch k {
		case 0:
			year = uint16(x.Choose(1201))
		case 1:
			year = uint16(1880 + x.Choose(241))
		case 2:
			year = uint16(65000 + x.Choose(536))
		case 3:
			year = uint16(x.Choose(656) * 100)
		}
	}
	b := builder.New()
	x.NoPanic("date check", func() {
		for m := 0; m < 256; m++ {
			for d := 0; d < 256; d++ {
				date := ggfnt.Date{Year: year, Month: uint8(m), Day: uint8(d)}
				want := validDate(date)
				if got := date.IsValid(); got != want {
					x.Failf("IsValid of %d-%d-%d is %v, expected %v", year, m, d, got, want)
				}
				if date.HasYear() != (year != 0) || date.HasMonth() != (m != 0) || date.HasDay() != (d != 0) ||
					date.IsComplete() != (year != 0 && m != 0 && d != 0) {
					x.Failf("wrong set parts for %d-%d-%d", year, m, d)
				}
				if (m > 40 && m < 250 || d > 40 && d < 250) && !x.Thorough() || year%16 != 0 && (m > 14 || d > 33) {
					continue
				}
				if s := date.String(); s == "" {
					x.Failf("empty text for %d-%d-%d", year, m, d)
				} else if want && year != 0 && !strings.Contains(s, fmt.Sprint(year)) {
					x.Failf("the text of %d-%d-%d is %q", year, m, d, s)
				}
				f, ma, mi := b.GetFirstVerDate(), b.GetMajorVerDate(), b.GetMinorVerDate()
				for i, e := range []error{b.SetFirstVerDate(date), b.SetMajorVerDate(date), b.SetMinorVerDate(date)} {
					if (e == nil) != want {
						x.Failf("builder date setter %d with %d-%d-%d: %v, expected success %v", i, year, m, d, e, want)
					}
				}
				if want {
					f, ma, mi = date, date, date
				}
				if b.GetFirstVerDate() != f || b.GetMajorVerDate() != ma || b.GetMinorVerDate() != mi {
					x.Failf("builder dates after setting %d-%d-%d", year, m, d)
				}
			}
		}
	})
	x.Steps(65536)
	x.State(uint64(year))
	x.CountN("dates", 65536)
	x.Outcome(explore.HashOf(year%4 == 0, year%100 == 0, year%400 == 0, year == 0))
}

func validName(s string) bool {
	if len(s) == 0 || len(s) > 32 || s[0] == '-' || s[len(s)-1] == '-' {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-') {
			return false
		}
		if c == '-' && i > 0 && s[i-1] == '-' {
			return false
		}
	}
	return true
}

// c29at is a name among others: as an option, a glyph name, a setting, a dye
// or a palette after n-1 of them.
func c29at(x *X) {
	s := pick(x, []string{"ok", "x-1", "-a", "a-", "a--b", "", "a_b", "é", "k{", strings.Repeat("n", 32), strings.Repeat("n", 33)})
	n := pick(x, []int{1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 200, 255})
	at := pick(x, []int{0, 1, 2, 7, 15, 16, 31, 32, 63, 64, 127, 128, 254, -1})
	if at < 0 {
		at += n
	}
	if at >= n {
		x.Prune()
	}
	want := validName(s)
	spec.SeedRand(29)
	b := builder.New()
	kind := x.Choose(5)
	what := fmt.Sprintf("%s %q as number %d of %d", []string{"option", "glyph name", "setting", "dye", "palette"}[kind], s, at, n)
	x.Logf("%s, valid: %v", what, want)
	expect := func(err error, ok bool) {
		if (err == nil) != ok {
			x.Failf("%s: error %v, expected success %v", what, err, ok)
		}
	}
	name := func(i int) string {
		if i == at {
			return s
		}
		return fmt.Sprintf("fine-%d", i)
	}
	x.NoPanic(what, func() {
		if kind == 0 {
			options := make([]string, n)
			for i := range options {
				options[i] = name(i)
			}
			_, err := b.AddSetting("setting", options...)
			expect(err, want)
			return
		}
		for i := 0; i < n; i++ {
			var err error
			switch kind {
			case 1:
				uid, e := b.AddGlyph(spec.OnePixel())
				if e != nil {
					x.Failf("AddGlyph: %v", e)
				}
				err = b.SetGlyphName(uid, name(i))
			case 2:
				_, err = b.AddSetting(name(i), "on")
			case 3:
				err = b.AddDye(name(i), 1)
			case 4:
				err = b.AddPalette(name(i), color.RGBA{1, 2, 3, 4})
			}
			expect(err, want || i != at)
		}
	})
	x.Step()
	x.State(explore.HashOf(s, n, at, kind))
	x.Outcome(explore.HashOf(want, kind))
	x.Count("names among others")
}

func c29(x *X) {
	var s string
	switch x.Choose(4) {
	case 3:
		c29at(x)
		return
	case 0:
		bytes := "azAZ09-,.`{@[/:_ \x00\xc3\xa9"
		n := x.Choose(x.Pick(4, 5) + 1)
		for i := 0; i < n; i++ {
			s += string(bytes[x.Choose(len(bytes))])
		}
		if n > 0 { // raw bytes, not code points
			raw := make([]byte, 0, n)
			for _, r := range s {
				raw = append(raw, byte(r))
			}
			s = string(raw)
		}
	case 1:
		n := x.Choose(x.Pick(7, 9) + 1)
		for i := 0; i < n; i++ {
			s += string("a-0_"[x.Choose(4)])
		}
	case 2:
		n := x.Choose(44)
		if n > 40 {
			n += 255 - 41
		}
		b := []byte(strings.Repeat("k", n))
		if n > 0 {
			c := "k-_\x7f"[x.Choose(4)]
			i := x.Choose(min(n, 41))
			b[i] = c
			if c == '-' && i+1 < n {
				d := x.Choose(3)
				if i+d < n {
					b[i+d] = '-'
				}
			}
		}
		s = string(b)
	}
	want := validName(s)
	x.State(explore.HashStr(1, s))
	x.Outcome(explore.HashOf(want, min(len(s), 33)))
	if x.Logging() {
		x.Logf("%q valid: %v", s, want)
	}
	spec.SeedRand(29)
	b := builder.New()
	uid, err := b.AddGlyph(spec.OnePixel())
	if err != nil {
		x.Failf("AddGlyph: %v", err)
	}
	for i, f := range []func() error{
		func() error { return b.SetGlyphName(uid, s) },
		func() error { _, err := b.AddSetting(s, "on"); return err },
		func() error { _, err := b.AddSetting("with-option", "on", s); return err },
		func() error { return b.AddDye(s, 1) },
		func() error { return builder2palette(s) },
	} {
		what := []string{"SetGlyphName", "AddSetting", "AddSetting (option)", "AddDye", "AddPalette"}[i]
		x.NoPanic(what, func() {
			if err := f(); (err == nil) != want {
				x.Failf("%s with %q: error %v, expected success %v", what, s, err, want)
			}
		})
		x.Step()
	}
	if !want || len(s) < 31 && len(s)%7 != 1 {
		return
	}
	font := reparse(x, mustBuild(x, b))
	if font.Glyphs().FindIndexByName(s) != 0 {
		x.Failf("glyph %q is not found", s)
	}
	if o := font.Settings().GetOptionName(1, 1); o != s {
		x.Failf("option %q reads %q", s, o)
	}
	font.Color().EachDye(func(k ggfnt.DyeKey, n string) {
		if n != s {
			x.Failf("dye %q reads %q", s, n)
		}
	})
	font.Settings().Each(func(k ggfnt.SettingKey, n string) {
		if k == 0 && n != s {
			x.Failf("setting %q reads %q", s, n)
		}
	})
}

func builder2palette(s string) error {
	return builder.New().AddPalette(s, color.RGBA{1, 2, 3, 4})
}

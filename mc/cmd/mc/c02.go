package main

import (
	"fmt"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C02", Title: "header and metrics",
		Rule: "one execution = one sequence of setter calls with chosen values, compared against a reference record after each call through all getters, then Build, Export and Parse compared field by field; a state is the reference record",
		Bounds: func(t string) string {
			return "all lengths {0,1,2,127,128,223..225,254,255,256} of name x family x author (quick: 7^3) x about {0,1,2,255,256,32767,65535,65536}; all 256 values of every metric alone and all pairs over 7 values, and all ascents over 6 values in two orders; every invalid/boundary date of 3 fields; all setter sequences of length 2 (quick) or 3 (thorough) over 80 operations"
		},
		Body: c02, QuickSec: 60, ThorSec: 800,
	})
}

type hdrOp struct {
	name string
	run  func(b *builder.Font, f *spec.Font) (err error, wantErr bool, any bool)
}

func c02getters(b *builder.Font, f *spec.Font) string {
	type pair struct {
		what      string
		got, want any
	}
	for _, p := range []pair{
		{"major version", b.GetVersionMajor(), f.VerMaj}, {"minor version", b.GetVersionMinor(), f.VerMin},
		{"version string", b.GetVersionStr(), fmt.Sprintf("v%d.%02d", f.VerMaj, f.VerMin)},
		{"id", b.GetFontID(), f.ID},
		{"id string", b.GetFontIDStr(), fmt.Sprintf("%016X", f.ID)},
		{"first date", b.GetFirstVerDate(), f.First}, {"major date", b.GetMajorVerDate(), f.Major}, {"minor date", b.GetMinorVerDate(), f.Minor},
		{"name", b.GetName(), f.Name}, {"family", b.GetFamily(), f.Family}, {"author", b.GetAuthor(), f.Author}, {"about", b.GetAbout(), f.About},
		{"mono width", b.GetMonoWidth(), f.MonoWidth},
		{"ascent", b.GetAscent(), f.Ascent}, {"extra ascent", b.GetExtraAscent(), f.ExtraAscent},
		{"descent", b.GetDescent(), f.Descent}, {"extra descent", b.GetExtraDescent(), f.ExtraDescent},
		{"uppercase ascent", b.GetUppercaseAscent(), f.UppercaseAscent}, {"midline ascent", b.GetMidlineAscent(), f.MidlineAscent},
		{"horz interspacing", b.GetHorzInterspacing(), f.HorzInterspacing}, {"vert interspacing", b.GetVertInterspacing(), f.VertInter},
		{"line gap", b.GetLineGap(), f.LineGap}, {"vert line width", b.GetVertLineWidth(), f.VertLineWidth}, {"vert line gap", b.GetVertLineGap(), f.VertLnGap},
		{"number of glyphs", b.GetNumGlyphs(), len(f.Glyphs)},
	} {
		if p.got != p.want {
			return fmt.Sprintf("%s is %v, expected %v", p.what, short(p.got), short(p.want))
		}
	}
	return ""
}

func short(v any) any {
	if s, ok := v.(string); ok && len(s) > 40 {
		return fmt.Sprintf("%q… (%d bytes)", s[:20], len(s))
	}
	return v
}

func c02text(field, n int) string {
	unit := string("nfab"[field%4])
	return strings.Repeat(unit, n)
}

// buildable tells whether the reference considers the record buildable.
func c02valid(f *spec.Font) bool {
	return f.Name != "" && f.Ascent > f.ExtraAscent && f.Ascent >= f.MidlineAscent && f.Ascent >= f.UppercaseAscent &&
		f.MidlineAscent <= f.UppercaseAscent && (f.VertInter == 0 || f.Vert) && len(f.Glyphs) > 0
}

type metric struct {
	name string
	set  func(b *builder.Font, v uint8) error
	ref  func(f *spec.Font) *uint8
	vert bool // requires the vertical layout
}

func plainSet(s func(b *builder.Font, v uint8)) func(b *builder.Font, v uint8) error {
	return func(b *builder.Font, v uint8) error { s(b, v); return nil }
}

var metrics = []metric{
	{"mono width", plainSet((*builder.Font).SetMonoWidth), func(f *spec.Font) *uint8 { return &f.MonoWidth }, false},
	{"ascent", plainSet((*builder.Font).SetAscent), func(f *spec.Font) *uint8 { return &f.Ascent }, false},
	{"extra ascent", plainSet((*builder.Font).SetExtraAscent), func(f *spec.Font) *uint8 { return &f.ExtraAscent }, false},
	{"descent", plainSet((*builder.Font).SetDescent), func(f *spec.Font) *uint8 { return &f.Descent }, false},
	{"extra descent", plainSet((*builder.Font).SetExtraDescent), func(f *spec.Font) *uint8 { return &f.ExtraDescent }, false},
	{"uppercase ascent", plainSet((*builder.Font).SetUppercaseAscent), func(f *spec.Font) *uint8 { return &f.UppercaseAscent }, false},
	{"midline ascent", plainSet((*builder.Font).SetMidlineAscent), func(f *spec.Font) *uint8 { return &f.MidlineAscent }, false},
	{"horz interspacing", plainSet((*builder.Font).SetHorzInterspacing), func(f *spec.Font) *uint8 { return &f.HorzInterspacing }, false},
	{"vert interspacing", plainSet((*builder.Font).SetVertInterspacing), func(f *spec.Font) *uint8 { return &f.VertInter }, false},
	{"line gap", plainSet((*builder.Font).SetLineGap), func(f *spec.Font) *uint8 { return &f.LineGap }, false},
	{"vert line width", (*builder.Font).SetVertLineWidth, func(f *spec.Font) *uint8 { return &f.VertLineWidth }, true},
	{"vert line gap", (*builder.Font).SetVertLineGap, func(f *spec.Font) *uint8 { return &f.VertLnGap }, true},
}

func (m *metric) op(v uint8) hdrOp {
	return hdrOp{fmt.Sprintf("set %s %d", m.name, v), func(b *builder.Font, f *spec.Font) (error, bool, bool) {
		err := m.set(b, v)
		wantErr := false
		if m.vert {
			wantErr = v != 0 && !f.Vert || m.name == "vert line width" && v == 0 && f.Vert
		}
		if !wantErr {
			*m.ref(f) = v
		}
		return err, wantErr, false
	}}
}

func textOp(field int, text, label string, bad bool) hdrOp {
	max := 255
	if field == 3 {
		max = 65535
	}
	return hdrOp{fmt.Sprintf("set text %d %s", field, label), func(b *builder.Font, f *spec.Font) (error, bool, bool) {
		set := []func(string) error{b.SetName, b.SetFamily, b.SetAuthor, b.SetAbout}[field]
		ref := []*string{&f.Name, &f.Family, &f.Author, &f.About}[field]
		wantErr := bad || len(text) > max
		err := set(text)
		if !wantErr {
			*ref = text
		}
		return err, wantErr, false
	}}
}

func validDate(d ggfnt.Date) bool {
	if d.Year == 0 {
		return d.Month == 0 && d.Day == 0
	}
	if d.Month == 0 {
		return d.Day == 0
	}
	if d.Month > 12 {
		return false
	}
	n := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[d.Month-1]
	if d.Month == 2 && d.Year%4 == 0 && (d.Year%100 != 0 || d.Year%400 == 0) {
		n = 29
	}
	return int(d.Day) <= n
}

func dateOp(field int, d ggfnt.Date) hdrOp {
	return hdrOp{fmt.Sprintf("set date %d %v", field, d), func(b *builder.Font, f *spec.Font) (error, bool, bool) {
		err := []func(ggfnt.Date) error{b.SetFirstVerDate, b.SetMajorVerDate, b.SetMinorVerDate}[field](d)
		ok := validDate(d)
		if ok {
			*[]*ggfnt.Date{&f.First, &f.Major, &f.Minor}[field] = d
		}
		return err, !ok, false
	}}
}

func today(x *X, what string, before ggfnt.Date, got ggfnt.Date) ggfnt.Date {
	if got != before && got != ggfnt.CurrentDate() {
		x.Failf("%s is %v, expected the current date", what, got)
	}
	return got
}

func versionOps(x *X) []hdrOp {
	type vop struct {
		name string
		run  func(b *builder.Font, f *spec.Font)
	}
	var out []hdrOp
	add := func(name string, major bool, run func(b *builder.Font), ref func(f *spec.Font)) {
		out = append(out, hdrOp{name, func(b *builder.Font, f *spec.Font) (error, bool, bool) {
			now := ggfnt.CurrentDate()
			run(b)
			ref(f)
			f.Minor = today(x, "minor version date", now, b.GetMinorVerDate())
			if major {
				f.Major = today(x, "major version date", now, b.GetMajorVerDate())
			}
			return nil, false, false
		}})
	}
	for _, v := range [][2]uint16{{0, 0}, {0, 1}, {1, 0}, {255, 256}, {256, 255}, {65535, 0}, {65535, 65535}, {99, 100}} {
		v := v
		add(fmt.Sprintf("version %v", v), true, func(b *builder.Font) { b.SetVersion(v[0], v[1]) },
			func(f *spec.Font) { f.VerMaj, f.VerMin = v[0], v[1] })
	}
	// raising the last version number is out of the domain
	add("raise major", true, func(b *builder.Font) { b.RaiseMajorVersion() }, func(f *spec.Font) {
		if f.VerMaj == 65535 {
			x.Prune()
		}
		f.VerMaj++
		f.VerMin = 0
	})
	add("raise minor", false, func(b *builder.Font) { b.RaiseMinorVersion() }, func(f *spec.Font) {
		if f.VerMin == 65535 {
			x.Prune()
		}
		f.VerMin++
	})
	return out
}

var c02dates = []ggfnt.Date{{}, {Year: 1}, {Year: 65535, Month: 12, Day: 31}, {Year: 2024, Month: 2, Day: 29}, {Year: 2023, Month: 2, Day: 29},
	{Year: 256, Month: 1, Day: 1}, {Year: 2000, Month: 13}, {Year: 0, Month: 1}, {Year: 2001, Month: 4, Day: 31}, {Year: 513, Month: 7}, {Year: 2001, Day: 3}}

func c02ops(x *X) []hdrOp {
	var ops []hdrOp
	for i := range metrics {
		for _, v := range []uint8{0, 3, 255} {
			ops = append(ops, metrics[i].op(v))
		}
	}
	for f := 0; f < 4; f++ {
		for _, n := range []int{0, 1, 255, 256} {
			if f == 3 && n == 256 {
				n = 65536
			}
			ops = append(ops, textOp(f, c02text(f, n), fmt.Sprint(n), false))
		}
		ops = append(ops, textOp(f, "Ünï ☃", "unicode", false), textOp(f, "a\nb", "control", true), textOp(f, "a\xff", "invalid", true))
	}
	for f := 0; f < 3; f++ {
		for _, d := range c02dates[1:5] {
			ops = append(ops, dateOp(f, d))
		}
	}
	ops = append(ops, versionOps(x)...)
	for _, v := range []bool{true, false} {
		v := v
		ops = append(ops, hdrOp{fmt.Sprintf("vertical layout %v", v), func(b *builder.Font, f *spec.Font) (error, bool, bool) {
			b.SetVertLayoutUsed(v)
			f.Vert = v
			return nil, false, false
		}})
	}
	return ops
}

func c02(x *X) {
	spec.SeedRand(2)
	b := builder.New()
	f := spec.New(0)
	now := ggfnt.CurrentDate()
	f.ID = b.GetFontID()
	f.First = today(x, "first version date", now, b.GetFirstVerDate())
	f.Major = today(x, "major version date", now, b.GetMajorVerDate())
	f.Minor = today(x, "minor version date", now, b.GetMinorVerDate())
	f.Name, f.Family, f.Author, f.About = b.GetName(), b.GetFamily(), b.GetAuthor(), b.GetAbout()
	apply := func(op hdrOp) {
		x.NoPanic(op.name, func() {
			x.Logf("%s", op.name)
			err, want, _ := op.run(b, f)
			if (err != nil) != want {
				x.Failf("%s: error is %v, expected an error: %v", op.name, err, want)
			}
			x.Step()
			if msg := c02getters(b, f); msg != "" {
				x.Failf("after %s: %s", op.name, msg)
			}
		})
	}
	if _, err := b.AddGlyph(spec.OnePixel()); err != nil {
		x.Failf("AddGlyph: %v", err)
	}
	f.Glyphs = append(f.Glyphs, spec.Glyph{})

	switch x.Choose(6) {
	case 5: // the metrics that depend on each other
		vals := []uint8{0, 1, 2, 3, 254, 255}
		order := x.Choose(2)
		for i := 0; i < 4; i++ {
			k := [][]int{{1, 2, 5, 6}, {6, 5, 2, 1}}[order][i]
			apply(metrics[k].op(pick(x, vals)))
		}
	case 0: // texts
		lens := []int{0, 1, 127, 128, 224, 255, 256}
		if x.Thorough() {
			lens = []int{0, 1, 2, 127, 128, 223, 224, 225, 254, 255, 256}
		}
		for field := 0; field < 3; field++ {
			n := pick(x, lens)
			apply(textOp(field, c02text(field, n), fmt.Sprint(n), false))
		}
		abouts := []int{0, 255, 256, 65535}
		if x.Thorough() {
			abouts = []int{0, 1, 2, 255, 256, 32767, 65535, 65536}
		}
		n := pick(x, abouts)
		apply(textOp(3, c02text(3, n), fmt.Sprint(n), false))
	case 1: // one metric, all values
		vert := x.Bool()
		if vert {
			b.SetVertLayoutUsed(true)
			f.Vert = true
		}
		m := &metrics[x.Choose(len(metrics))]
		apply(m.op(uint8(x.Choose(256))))
	case 2: // two metrics
		b.SetVertLayoutUsed(true)
		f.Vert = true
		apply(metrics[1].op(200))
		i := x.Choose(len(metrics))
		j := x.Choose(len(metrics))
		if i == j {
			x.Prune()
		}
		vals := []uint8{0, 1, 2, 127, 128, 254, 255}
		apply(metrics[i].op(pick(x, vals)))
		apply(metrics[j].op(pick(x, vals)))
	case 3: // dates
		for field := 0; field < 3; field++ {
			apply(dateOp(field, pick(x, c02dates)))
		}
	case 4: // sequences
		ops := c02ops(x)
		depth := x.Pick(2, 3)
		for i := 0; i < depth; i++ {
			apply(ops[x.Choose(len(ops))])
		}
	}
	x.StateOf(*f)
	if x.Logging() {
		x.Logf("build")
	}
	font, err := tryBuild(x, b)
	if ok := c02valid(f); ok != (err == nil) {
		x.Failf("Build: error is %v, expected success: %v", err, ok)
	}
	if msg := c02getters(b, f); msg != "" {
		x.Failf("after Build: %s", msg)
	}
	// (a vertical interspacing without vertical layout isn't part of it)
	g := *f
	g.Name, g.VertInter = "n", 0
	if status := b.GetMetricsStatus(); (status == nil) != c02valid(&g) {
		x.Failf("GetMetricsStatus is %v, expected it to be fine: %v", status, c02valid(&g))
	}
	x.Outcome(explore.HashOf(err == nil))
	if err != nil {
		x.Count("rejected by Build")
		return
	}
	cmp := func(font *ggfnt.Font) string {
		if m := f.Header(font); m != "" {
			return m
		}
		return f.Metrics(font)
	}
	diff(x, "built font", func() string { return cmp(font) })
	again := reparse(x, font)
	diff(x, "parsed font", func() string { return cmp(again) })
	x.Count("round trips")
}

package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C01", Title: "export and parse",
		Rule: "one execution = one font of the feature product, built, validated, exported, parsed, compared with the reference (every query), exported and parsed again; uncompressed bytes must be equal; a state is the uncompressed font",
		Bounds: func(t string) string {
			return "full product of: texts {short, empty+longest, mixed} x colors {1 dye, dye+palette, palette only, 255 indices} x glyphs {1,3,8,300} x vertical layout x names x settings/switch/mapping {5 kinds} x sets/rules {4 kinds} x kerning {3 kinds}; hand laid out fonts: product of condition kinds, sets, rules and kerning; total sizes crossing every read buffer boundary (about text of every length in 0..2100 quick, 0..5200 thorough); from bytes, from a file and from a fs.FS" + bigBounds("C01")
		},
		Body: c01, QuickSec: 120, ThorSec: 820,
	})
}

func gunzip(x *X, data []byte) []byte {
	if len(data) < 6 || string(data[:6]) != "tggfnt" {
		x.Failf("exported data starts with %q", clipb(data[:min(6, len(data))]))
	}
	r, err := gzip.NewReader(bytes.NewReader(data[6:]))
	if err != nil {
		x.Failf("exported data: %v", err)
	}
	raw, err := io.ReadAll(r)
	if err != nil {
		x.Failf("exported data: %v", err)
	}
	return raw
}

func c01validate(x *X, what string, font *ggfnt.Font) {
	x.NoPanic("Validate of the "+what+" font", func() {
		if err := font.Validate(ggfnt.FmtDefault); err != nil {
			x.Failf("the %s font does not validate: %v", what, err)
		}
		for name, err := range map[string]error{
			"header": font.Header().Validate(ggfnt.FmtDefault), "metrics": font.Metrics().Validate(ggfnt.FmtDefault),
			"color": font.Color().Validate(ggfnt.FmtDefault), "glyphs": font.Glyphs().Validate(ggfnt.FmtDefault),
			"settings": font.Settings().Validate(ggfnt.FmtDefault), "mapping": font.Mapping().Validate(ggfnt.FmtDefault),
			"rewrites": font.Rewrites().Validate(ggfnt.FmtDefault), "kerning": font.Kerning().Validate(ggfnt.FmtDefault),
		} {
			if err != nil {
				x.Failf("the %s of the %s font does not validate: %v", name, what, err)
			}
		}
	})
}

// c01cycle checks everything the property says about one built font.
func c01cycle(x *X, f *spec.Font, font *ggfnt.Font) {
	c01validate(x, "built", font)
	diff(x, "built font", func() string { return f.Compare(font) })
	data := export(x, font)
	raw := gunzip(x, data)
	if font.RawSize() != len(raw) {
		x.Failf("RawSize is %d, the exported data has %d bytes", font.RawSize(), len(raw))
	}
	x.State(explore.HashBytes(1, raw))
	second := parse(x, data)
	c01validate(x, "parsed", second)
	diff(x, "parsed font", func() string { return f.Compare(second) })
	if second.RawSize() != len(raw) {
		x.Failf("RawSize of the parsed font is %d, expected %d", second.RawSize(), len(raw))
	}
	data2 := export(x, second)
	if raw2 := gunzip(x, data2); !bytes.Equal(raw, raw2) {
		x.Failf("exporting the parsed font gives other bytes: %s", firstDiff(raw2, raw))
	}
	third := parse(x, data2)
	if raw3 := gunzip(x, export(x, third)); !bytes.Equal(raw, raw3) {
		x.Failf("exporting the font parsed twice gives other bytes: %s", firstDiff(raw3, raw))
	}
	if raw1 := gunzip(x, export(x, font)); !bytes.Equal(raw, raw1) {
		x.Failf("exporting the built font again gives other bytes: %s", firstDiff(raw1, raw))
	}
	diff(x, "built font after all that", func() string { return f.Header(font) })
}

func firstDiff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d is %d, expected %d", i, a[i], b[i])
		}
	}
	return fmt.Sprintf("%d bytes, expected %d", len(a), len(b))
}

func c01texts(f *spec.Font, kind int) {
	switch kind {
	case 1:
		f.Name = strings.Repeat("n", 255)
		f.Family, f.Author, f.About = "", "", ""
		f.VerMaj, f.VerMin = 65535, 65535
	case 2:
		f.Name, f.Family, f.Author = "é世", strings.Repeat("f", 255), "A"
		f.About = strings.Repeat("about ", 500)
		f.First, f.Major, f.Minor = ggfnt.Date{}, ggfnt.Date{Year: 1999}, ggfnt.Date{Year: 2000, Month: 12}
	}
}

func c01colors(f *spec.Font, kind int) {
	switch kind {
	case 1:
		f.Dyes = []spec.Dye{{Name: "main", Alphas: []uint8{255, 128, 1}}, {Name: "other-dye", Alphas: []uint8{77}}}
		f.Palettes = []spec.Palette{{Name: "pal", Colors: c03colors(3, 1)}}
	case 2:
		f.Dyes = nil
		f.Palettes = []spec.Palette{{Name: "p0", Colors: c03colors(1, 1)}, {Name: "p1", Colors: c03colors(2, 5)}}
	case 3:
		f.Dyes = []spec.Dye{{Name: "d", Alphas: c03alphas(100, 1)}}
		f.Palettes = []spec.Palette{{Name: "p", Colors: c03colors(155, 1)}}
	}
}

func c01glyphs(f *spec.Font, n int, named bool) {
	for i := 0; i < n; i++ {
		g := spec.Glyph{Mask: numbered(i), Placement: ggfnt.GlyphPlacement{Advance: uint8(i)}}
		if f.Vert {
			g.Placement.TopAdvance, g.Placement.BottomAdvance, g.Placement.HorzCenter = uint8(i+1), uint8(2*i+1), uint8(255-i)
		}
		if i%7 == 5 {
			g.Mask = bitmap(0, 0, 0, 0, 0, 2)
		}
		if named && i%3 == 0 {
			g.Name = fmt.Sprintf("g%d-x", (i*7)%n)
			if i == 0 {
				g.Name = "notdef"
			}
		}
		f.Glyphs = append(f.Glyphs, g)
	}
}

func c01mapping(f *spec.Font, kind int) {
	n := uint16(len(f.Glyphs))
	g := func(i uint16) uint16 { return i % n }
	one := func(i uint16) spec.Group { return spec.Group{Glyphs: []uint16{g(i)}} }
	switch kind {
	case 1:
		f.Mappings = []spec.Mapping{{Rune: 'a', Switch: spec.SwitchNone, Groups: []spec.Group{one(0)}}}
	case 2:
		f.Settings = []spec.Setting{{Name: "first", Options: []string{"off", "on"}}, {Name: "second-one", Options: []string{"custom", "on", "other"}}}
		f.Mappings = []spec.Mapping{
			{Rune: ' ', Switch: spec.SwitchNone, Groups: []spec.Group{one(1)}},
			{Rune: 'b', Switch: spec.SwitchGroup, Groups: []spec.Group{{Flags: 3, Glyphs: []uint16{g(0), g(2), g(1)}}}},
			{Rune: 0x10FFFF, Switch: spec.SwitchNone, Groups: []spec.Group{one(2)}},
		}
	case 3:
		f.Settings = []spec.Setting{{Name: "s", Options: []string{"off", "on"}}, {Name: "t", Options: []string{"on", "x1", "x2"}}}
		f.Switches = [][]uint8{{0}, {1, 0}}
		f.Mappings = []spec.Mapping{
			{Rune: 'A', Switch: 0, Groups: []spec.Group{one(0), one(1)}},
			{Rune: 'B', Switch: 1, Groups: []spec.Group{one(0), one(1), one(2), one(3), one(4), one(5)}},
			{Rune: 'C', Switch: 1, Groups: []spec.Group{one(5), {Flags: 1, Glyphs: []uint16{g(0), g(1), g(2)}}, one(3), {Flags: 9, Glyphs: []uint16{g(2), g(0)}}, one(1), one(1)}},
		}
	case 4:
		for i := 0; i < 120; i++ {
			f.Settings = append(f.Settings, spec.Setting{Name: fmt.Sprintf("setting-%d", i), Options: []string{"on", fmt.Sprintf("w%d", i/2)}})
		}
		f.Switches = [][]uint8{{119}, {0, 1, 2, 3, 4}}
		m := spec.Mapping{Rune: 'Z', Switch: 1}
		for i := 0; i < 32; i++ {
			m.Groups = append(m.Groups, one(uint16(i)))
		}
		f.Mappings = append(f.Mappings, m)
		for i := 0; i < 90; i++ {
			f.Mappings = append(f.Mappings, spec.Mapping{Rune: rune(0x4000 + i*3), Switch: spec.SwitchNone, Groups: []spec.Group{one(uint16(i))}})
		}
	}
}

func c01rules(f *spec.Font, kind int) {
	n := len(f.Glyphs)
	last := uint16(n - 1)
	if kind >= 1 {
		f.Utf8Rules = []spec.Rule{{Cond: 255, Body: []spec.Elem{spec.V('f'), spec.V('f')}, Out: []uint32{0xFB00}},
			{Cond: 255, Body: []spec.Elem{spec.V(0x10FFFF)}, Out: []uint32{'x'}}}
	}
	if kind >= 2 {
		f.GlyphSets = []spec.GlyphSet{{List: []uint16{0}}}
		f.GlyphRules = []spec.Rule{{Cond: 255, Head: []spec.Elem{spec.S(0)}, Body: []spec.Elem{spec.V(uint32(last)), spec.S(0)}, Tail: []spec.Elem{spec.V(0)}, Out: []uint32{uint32(last)}}}
	}
	if kind >= 3 && n > 2 {
		f.GlyphSets = append(f.GlyphSets, spec.GlyphSet{Ranges: []spec.GRange{{First: 0, Extra: uint8(n - 2)}}, List: []uint16{last}})
		for i := 0; i < 40; i++ {
			r := spec.Rule{Cond: 255, Body: []spec.Elem{spec.V(uint32(i % n))}, Out: []uint32{uint32((i + 1) % n)}}
			for j := 0; j < i%4; j++ {
				r.Head = append(r.Head, spec.S(1))
			}
			for j := 0; j < i%3; j++ {
				r.Tail = append(r.Tail, spec.V(uint32((i*j)%n)))
			}
			f.GlyphRules = append(f.GlyphRules, r)
		}
	}
}

func c01kerns(f *spec.Font, kind int) {
	n := uint16(len(f.Glyphs))
	switch kind {
	case 1:
		f.Kerns = []spec.Kern{{A: 0, B: 0, V: -128}}
		if n > 1 {
			f.Kerns = append(f.Kerns, spec.Kern{A: n - 1, B: 0, V: 127})
		}
	case 2:
		for a := uint16(0); a < n && a < 20; a++ {
			for b := uint16(0); b < n && b < 20; b++ {
				f.Kerns = append(f.Kerns, spec.Kern{A: n - 1 - a, B: b, V: int8(a*7+b) | 1})
			}
		}
	}
}

// c01big takes the biggest fonts along every dimension through the cycle.
func c01big(x *X) {
	var dims []*bigDim
	for i := range bigDims {
		if !bigDims[i].light {
			dims = append(dims, &bigDims[i])
		}
	}
	d := pick(x, dims)
	sizes := d.sizes
	if !x.Thorough() {
		sizes = []int{d.sizes[len(d.sizes)/2], d.sizes[len(d.sizes)-1]}
	}
	n := pick(x, sizes)
	x.Logf("%d %s", n, d.name)
	f := d.make(n)
	var font *ggfnt.Font
	if d.hand {
		font = handMade(x, f)
	} else {
		font = mustBuild(x, fill(x, f).B)
	}
	c01cycle(x, f, font)
	x.Count("big fonts")
}

func c01(x *X) {
	switch x.Choose(5) {
	case 4:
		c01big(x)
	case 0:
		f := spec.New(0)
		c01texts(f, x.Choose(3))
		c01colors(f, x.Choose(4))
		n := pick(x, []int{1, 3, 8, 300})
		f.Vert = x.Bool()
		if f.Vert {
			f.VertInter, f.VertLineWidth, f.VertLnGap = 1, 2, 3
		}
		c01glyphs(f, n, x.Bool())
		if n == 300 && !x.Thorough() { // the rest of the product only in the thorough tier
			k := x.Choose(4)
			c01mapping(f, k+1)
			c01rules(f, k)
			c01kerns(f, k%3)
		} else {
			c01mapping(f, x.Choose(5))
			c01rules(f, x.Choose(4))
			c01kerns(f, x.Choose(3))
		}
		font := mustBuild(x, fill(x, f).B)
		c01cycle(x, f, font)
		x.Count("built fonts")
		if n == 8 {
			hand := handMade(x, f)
			diff(x, "font laid out as specified", func() string { return f.Compare(hand) })
		}
	case 1: // hand laid out fonts with everything the builder can't make
		f := spec.New(0)
		f.Vert = x.Bool()
		if f.Vert {
			f.VertLineWidth = 2
		}
		c01glyphs(f, 8, true)
		c01mapping(f, x.Choose(4))
		if len(f.Settings) == 0 {
			f.Settings = []spec.Setting{{Name: "zero", Options: []string{"off", "on"}}}
		}
		e1, e2 := quick(3, 1, 0), group(0, quick(4, 0, 0), compare(0, false, 0, 1))
		switch x.Choose(3) {
		case 1:
			f.Conditions = [][]byte{e1.bytes()}
		case 2:
			f.Conditions = [][]byte{e1.bytes(), e2.bytes()}
		}
		nc := uint8(len(f.Conditions))
		c01rules(f, x.Choose(4))
		if nc > 0 {
			for i := range f.GlyphRules {
				if i%2 == 0 {
					f.GlyphRules[i].Cond = uint8(i/2) % nc
				}
			}
			for i := range f.Utf8Rules {
				f.Utf8Rules[i].Cond = nc - 1
			}
		}
		switch x.Choose(3) {
		case 1:
			f.RuneSets = []spec.RuneSet{{List: []rune{'a', 0x10FFFF}}}
		case 2:
			f.RuneSets = []spec.RuneSet{{Ranges: []spec.RRange{{First: 'a', Extra: 25}}}, {Ranges: []spec.RRange{{First: 0x10FF00, Extra: 255}, {First: 'A', Extra: 0}}, List: []rune{'0'}}}
			f.Utf8Rules = append(f.Utf8Rules, spec.Rule{Cond: 255, Head: []spec.Elem{spec.S(1)}, Body: []spec.Elem{spec.S(0), spec.V('-')}, Tail: []spec.Elem{spec.S(0), spec.S(1)}, Out: []uint32{'_', '='}})
		}
		c01kerns(f, x.Choose(3))
		if x.Bool() {
			f.VertKerns = []spec.Kern{{A: 0, B: 1, V: -3}, {A: 7, B: 7, V: 100}}
		}
		raw := f.Raw()
		font := handMade(x, f)
		c01cycle(x, f, font)
		if got := gunzip(x, export(x, font)); !bytes.Equal(got, raw) {
			x.Failf("a font laid out as specified is exported with other bytes: %s", firstDiff(got, raw))
		}
		x.Count("laid out fonts")
	case 2: // sizes across every buffer boundary
		n := x.Choose(x.Pick(2100, 5200))
		f := spec.New(3)
		f.About = strings.Repeat("x", n)
		c01mapping(f, 1+n%2)
		c01rules(f, n%3)
		font := mustBuild(x, fill(x, f).B)
		c01cycle(x, f, font)
		x.Count("sizes")
	case 3: // files
		f := spec.New(0)
		c01texts(f, x.Choose(3))
		c01glyphs(f, 8, true)
		c01mapping(f, x.Choose(4))
		font := mustBuild(x, fill(x, f).B)
		dir, err := os.MkdirTemp("", "c01-")
		if err != nil {
			panic(err)
		}
		x.Cleanup(func() { _ = os.RemoveAll(dir) })
		if err := os.WriteFile(filepath.Join(dir, "font.ggfnt"), export(x, font), 0o600); err != nil {
			panic(err)
		}
		x.NoPanic("ParseFromPath", func() {
			got, err := ggfnt.ParseFromPath(filepath.Join(dir, "font.ggfnt"))
			if err != nil {
				x.Failf("ParseFromPath: %v", err)
			}
			diff(x, "font parsed from a path", func() string { return f.Compare(got) })
			got, err = ggfnt.ParseFromFS(os.DirFS(dir), "font.ggfnt")
			if err != nil {
				x.Failf("ParseFromFS: %v", err)
			}
			diff(x, "font parsed from a fs.FS", func() string { return f.Compare(got) })
		})
		x.Count("files")
	}
}

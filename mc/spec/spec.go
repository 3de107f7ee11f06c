// Package spec is the reference model of a ggfnt font: a plain description,
// a serializer written from the format specification (independent from the
// builder), and a comparison of every observable of a real font with it.
package spec

import (
	"bytes"
	"compress/gzip"
	"image"
	"image/color"
	"io"
	"sort"
	"sync"

	"github.com/tinne26/ggfnt"
)

type Glyph struct {
	Name      string
	Placement ggfnt.GlyphPlacement
	Mask      *image.Alpha // nil: one opaque pixel at the origin
	Ops       []byte       // if not nil, raw raster operations used by Raw instead of Mask
}

type Dye struct {
	Name   string
	Alphas []uint8
}

type Palette struct {
	Name   string
	Colors []color.RGBA
}

type Setting struct {
	Name    string
	Options []string
}

type Group struct {
	Flags  ggfnt.AnimationFlags
	Glyphs []uint16
}

const (
	SwitchNone  = 255
	SwitchGroup = 254
)

type Mapping struct {
	Rune   rune
	Switch uint8
	Groups []Group
}

type GRange struct {
	First uint16
	Extra uint8
}

type GlyphSet struct {
	Ranges []GRange
	List   []uint16
}

type RRange struct {
	First rune
	Extra uint8
}

type RuneSet struct {
	Ranges []RRange
	List   []rune
}

// Elem is an input element of a rule: a set index or a value.
type Elem struct {
	Set   bool
	Value uint32 // set index, glyph index or rune
}

func V(v uint32) Elem { return Elem{false, v} }
func S(s uint32) Elem { return Elem{true, s} }

type Rule struct {
	Cond uint8 // 255 none
	Head []Elem
	Body []Elem
	Tail []Elem
	Out  []uint32
}

func (r *Rule) In() []Elem {
	in := make([]Elem, 0, len(r.Head)+len(r.Body)+len(r.Tail))
	in = append(in, r.Head...)
	in = append(in, r.Body...)
	return append(in, r.Tail...)
}

type Kern struct {
	A, B uint16
	V    int8
}

type Font struct {
	ID                   uint64
	VerMaj, VerMin       uint16
	First, Major, Minor  ggfnt.Date
	Name, Family, Author string
	About                string

	Vert                              bool
	MonoWidth                         uint8
	Ascent, ExtraAscent               uint8
	Descent, ExtraDescent             uint8
	UppercaseAscent, MidlineAscent    uint8
	HorzInterspacing, VertInter       uint8
	LineGap, VertLineWidth, VertLnGap uint8

	Dyes     []Dye
	Palettes []Palette
	Glyphs   []Glyph
	Settings []Setting
	Switches [][]uint8
	Mappings []Mapping

	Conditions [][]byte
	RuneSets   []RuneSet
	GlyphSets  []GlyphSet
	Utf8Rules  []Rule
	GlyphRules []Rule

	RawUtf8Rules  [][]byte // if not nil, used instead
	RawGlyphRules [][]byte

	Kerns     []Kern
	VertKerns []Kern
}

// ID with enough entropy for validation.
const GoodID = 0x1B4E_D872_93C6_27B1

// New returns a minimal valid font with n glyphs.
func New(n int) *Font {
	d := ggfnt.Date{Year: 2024, Month: 2, Day: 29}
	f := &Font{ID: GoodID, VerMin: 1, First: d, Major: d, Minor: d, Name: "Unnamed", Family: "Unnamed",
		Author: "Authorless", About: "None.", Ascent: 9, Descent: 5, UppercaseAscent: 9, MidlineAscent: 5,
		HorzInterspacing: 1, LineGap: 1, Dyes: []Dye{{"main", []uint8{255}}}}
	for i := 0; i < n; i++ {
		f.Glyphs = append(f.Glyphs, Glyph{})
	}
	return f
}

func u16(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8)) }
func u24(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16)) }
func u32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func u64(b []byte, v uint64) []byte  { return u32(u32(b, uint32(v)), uint32(v>>32)) }
func sstr(b []byte, s string) []byte { return append(append(b, byte(len(s))), s...) }
func date(b []byte, d ggfnt.Date) []byte {
	return append(u16(b, int(d.Year)), d.Month, d.Day)
}

// OnePixel is the default mask.
func OnePixel() *image.Alpha {
	m := image.NewAlpha(image.Rect(0, -1, 1, 0))
	m.Pix[0] = 255
	return m
}

// MaskOps encodes a mask in the most direct way: one pixel at a time.
// (the index change, pre moves and single pixel flags only)
func MaskOps(m *image.Alpha) []byte {
	var out []byte
	cx, cy, cur := 0, 0, 255
	b := m.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			a := m.AlphaAt(x, y).A
			if a == 0 {
				continue
			}
			for x-cx > 128 || x-cx < -128 || y-cy > 128 || y-cy < -128 {
				dx, dy := clamp(x-cx), clamp(y-cy)
				out = moves(out, 0, dx, dy)
				cx += dx
				cy += dy
			}
			ctrl := byte(0x80)
			dx, dy := x-cx, y-cy
			if int(a) != cur {
				ctrl |= 1
			}
			if dx != 0 {
				ctrl |= 2
			}
			if dy != 0 {
				ctrl |= 4
			}
			out = append(out, ctrl)
			if int(a) != cur {
				out = append(out, a)
				cur = int(a)
			}
			if dx != 0 {
				out = append(out, nz(dx))
			}
			if dy != 0 {
				out = append(out, nz(dy))
			}
			cx, cy = x+1, y
		}
	}
	return out
}

func clamp(v int) int {
	if v > 128 {
		return 128
	}
	if v < -128 {
		return -128
	}
	return v
}

// nz encodes a non zero distance in [-128, 128].
func nz(v int) byte {
	if v > 0 {
		return byte(v - 1)
	}
	return byte(v)
}

func moves(out []byte, ctrl byte, dx, dy int) []byte {
	if dx != 0 {
		ctrl |= 2
	}
	if dy != 0 {
		ctrl |= 4
	}
	out = append(out, ctrl)
	if dx != 0 {
		out = append(out, nz(dx))
	}
	if dy != 0 {
		out = append(out, nz(dy))
	}
	return out
}

// GlyphMask returns the mask of a glyph.
func (g *Glyph) GetMask() *image.Alpha {
	if g.Mask == nil {
		return OnePixel()
	}
	return g.Mask
}

// WordTable assigns word indices: every word which is not predefined gets a
// custom index, and predefined words hidden by custom ones become custom.
func (f *Font) WordTable() (custom []string, index map[string]uint8, ok bool) {
	index = map[string]uint8{}
	builtin := map[string]int{}
	for i := 255; i >= 0; i-- {
		builtin[ggfnt.GetPredefinedWord(uint8(i))] = i
	}
	set := map[string]bool{}
	for _, s := range f.Settings {
		for _, o := range s.Options {
			set[o] = true
		}
	}
	all := make([]string, 0, len(set))
	for w := range set {
		all = append(all, w)
	}
	sort.Strings(all)
	isCustom := map[string]bool{}
	for {
		n := len(isCustom)
		for _, w := range all {
			if isCustom[w] {
				continue
			}
			if i, found := builtin[w]; !found || i < len(isCustom) || i == 255 {
				isCustom[w] = true
			}
		}
		if len(isCustom) == n {
			break
		}
	}
	if len(isCustom) > 255 {
		return nil, nil, false
	}
	for _, w := range all {
		if isCustom[w] {
			index[w] = uint8(len(custom))
			custom = append(custom, w)
		} else {
			index[w] = uint8(builtin[w])
		}
	}
	return custom, index, true
}

func block(b []byte, elems []Elem, wide bool) []byte {
	if len(elems) == 0 {
		return append(b, 0)
	}
	for i := 0; i < len(elems); {
		ns, nv := 0, 0
		for i+ns < len(elems) && elems[i+ns].Set && ns < 15 {
			ns++
		}
		for i+ns+nv < len(elems) && !elems[i+ns+nv].Set && nv < 15 {
			nv++
		}
		b = append(b, byte(ns<<4|nv))
		for k := 0; k < ns; k++ {
			b = append(b, byte(elems[i+k].Value))
		}
		for k := 0; k < nv; k++ {
			if wide {
				b = u32(b, elems[i+ns+k].Value)
			} else {
				b = u16(b, int(elems[i+ns+k].Value))
			}
		}
		i += ns + nv
	}
	return b
}

// RuleBytes encodes a rule.
func RuleBytes(r *Rule, wide bool) []byte {
	b := []byte{r.Cond, byte(len(r.Head)), byte(len(r.Body)), byte(len(r.Tail)), byte(len(r.Out))}
	for _, o := range r.Out {
		if wide {
			b = u32(b, o)
		} else {
			b = u16(b, int(o))
		}
	}
	b = block(b, r.Head, wide)
	b = block(b, r.Body, wide)
	return block(b, r.Tail, wide)
}

// SetBytes encodes sets.
func (s *GlyphSet) Bytes() []byte {
	b := []byte{byte(len(s.Ranges))}
	for _, r := range s.Ranges {
		b = append(u16(b, int(r.First)), r.Extra)
	}
	b = append(b, byte(len(s.List)))
	for _, g := range s.List {
		b = u16(b, int(g))
	}
	return b
}

func (s *RuneSet) Bytes() []byte {
	b := []byte{byte(len(s.Ranges))}
	for _, r := range s.Ranges {
		b = append(u32(b, uint32(r.First)), r.Extra)
	}
	b = append(b, byte(len(s.List)))
	for _, r := range s.List {
		b = u32(b, uint32(r))
	}
	return b
}

// Section is a named position in the raw data (used to aim corruptions).
type Section struct {
	Name  string
	Start int
}

// Raw serializes the font following the format specification.
func (f *Font) Raw() []byte {
	b, _ := f.RawSections()
	return b
}

func (f *Font) RawSections() ([]byte, []Section) {
	var secs []Section
	var b []byte
	sec := func(name string) { secs = append(secs, Section{name, len(b)}) }

	sec("header")
	b = u32(b, ggfnt.FormatVersion)
	b = u64(b, f.ID)
	b = u16(u16(b, int(f.VerMaj)), int(f.VerMin))
	b = date(date(date(b, f.First), f.Major), f.Minor)
	b = sstr(sstr(sstr(b, f.Name), f.Family), f.Author)
	b = append(u16(b, len(f.About)), f.About...)

	sec("metrics")
	b = u16(b, len(f.Glyphs))
	vert := byte(0)
	if f.Vert {
		vert = 1
	}
	b = append(b, vert, f.MonoWidth, f.Ascent, f.ExtraAscent, f.Descent, f.ExtraDescent, f.UppercaseAscent,
		f.MidlineAscent, f.HorzInterspacing, f.VertInter, f.LineGap, f.VertLineWidth, f.VertLnGap)

	sec("dyes")
	b = append(b, byte(len(f.Dyes)))
	n := 0
	for _, d := range f.Dyes {
		n += len(d.Alphas)
		b = append(b, byte(n))
	}
	for _, d := range f.Dyes {
		b = append(b, d.Alphas...)
	}
	n = 0
	for _, d := range f.Dyes {
		n += len(d.Name)
		b = u16(b, n)
	}
	for _, d := range f.Dyes {
		b = append(b, d.Name...)
	}

	sec("palettes")
	b = append(b, byte(len(f.Palettes)))
	n = 0
	for _, p := range f.Palettes {
		n += len(p.Colors)
		b = append(b, byte(n))
	}
	for _, p := range f.Palettes {
		for _, c := range p.Colors {
			b = append(b, c.R, c.G, c.B, c.A)
		}
	}
	n = 0
	for _, p := range f.Palettes {
		n += len(p.Name)
		b = u16(b, n)
	}
	for _, p := range f.Palettes {
		b = append(b, p.Name...)
	}

	sec("glyph names")
	type named struct {
		name string
		idx  int
	}
	var names []named
	for i := range f.Glyphs {
		if f.Glyphs[i].Name != "" {
			names = append(names, named{f.Glyphs[i].Name, i})
		}
	}
	sort.Slice(names, func(i, j int) bool { return names[i].name < names[j].name })
	b = u16(b, len(names))
	for _, x := range names {
		b = u16(b, x.idx)
	}
	n = 0
	for _, x := range names {
		n += len(x.name)
		b = u24(b, n)
	}
	for _, x := range names {
		b = append(b, x.name...)
	}

	sec("glyph masks")
	var masks []byte
	for i := range f.Glyphs {
		g := &f.Glyphs[i]
		masks = append(masks, g.Placement.Advance)
		if f.Vert {
			masks = append(masks, g.Placement.TopAdvance, g.Placement.BottomAdvance, g.Placement.HorzCenter)
		}
		if g.Ops != nil {
			masks = append(masks, g.Ops...)
		} else {
			masks = append(masks, MaskOps(g.GetMask())...)
		}
		b = u24(b, len(masks))
	}
	b = append(b, masks...)

	sec("words")
	custom, index, _ := f.WordTable()
	b = append(b, byte(len(custom)))
	n = 0
	for _, w := range custom {
		n += len(w)
		b = u16(b, n)
	}
	for _, w := range custom {
		b = append(b, w...)
	}

	sec("settings")
	b = append(b, byte(len(f.Settings)))
	n = 0
	for _, s := range f.Settings {
		n += len(s.Name)
		b = u16(b, n)
	}
	for _, s := range f.Settings {
		b = append(b, s.Name...)
	}
	n = 0
	for _, s := range f.Settings {
		n += len(s.Options)
		b = u16(b, n)
	}
	for _, s := range f.Settings {
		for _, o := range s.Options {
			b = append(b, index[o])
		}
	}

	sec("switches")
	b = append(b, byte(len(f.Switches)))
	n = 0
	for _, s := range f.Switches {
		n += len(s)
		b = u16(b, n)
	}
	for _, s := range f.Switches {
		b = append(b, s...)
	}

	sec("mapping")
	maps := append([]Mapping(nil), f.Mappings...)
	sort.Slice(maps, func(i, j int) bool { return uint32(maps[i].Rune) < uint32(maps[j].Rune) })
	b = u16(b, len(maps))
	for _, m := range maps {
		b = u32(b, uint32(m.Rune))
	}
	var md []byte
	for _, m := range maps {
		md = append(md, m.Switch)
		if m.Switch == SwitchNone {
			md = u16(md, int(m.Groups[0].Glyphs[0]))
		} else {
			for _, g := range m.Groups {
				md = GroupBytes(md, g)
			}
		}
		b = u24(b, len(md))
	}
	b = append(b, md...)

	sec("conditions")
	b = append(b, byte(len(f.Conditions)))
	n = 0
	for _, c := range f.Conditions {
		n += len(c)
		b = u16(b, n)
	}
	for _, c := range f.Conditions {
		b = append(b, c...)
	}

	sec("rune sets")
	b = append(b, byte(len(f.RuneSets)))
	var sd []byte
	for i := range f.RuneSets {
		sd = append(sd, f.RuneSets[i].Bytes()...)
		b = u16(b, len(sd))
	}
	b = append(b, sd...)

	sec("glyph sets")
	b = append(b, byte(len(f.GlyphSets)))
	sd = nil
	for i := range f.GlyphSets {
		sd = append(sd, f.GlyphSets[i].Bytes()...)
		b = u16(b, len(sd))
	}
	b = append(b, sd...)

	rules := func(raw [][]byte, list []Rule, wide bool) {
		if raw == nil {
			for i := range list {
				raw = append(raw, RuleBytes(&list[i], wide))
			}
		}
		b = u16(b, len(raw))
		n := 0
		for _, r := range raw {
			n += len(r)
			b = u24(b, n)
		}
		for _, r := range raw {
			b = append(b, r...)
		}
	}
	sec("utf8 rules")
	rules(f.RawUtf8Rules, f.Utf8Rules, true)
	sec("glyph rules")
	rules(f.RawGlyphRules, f.GlyphRules, false)

	kern := func(list []Kern) {
		ks := append([]Kern(nil), list...)
		sort.Slice(ks, func(i, j int) bool {
			return uint32(ks[i].A)<<16|uint32(ks[i].B) < uint32(ks[j].A)<<16|uint32(ks[j].B)
		})
		b = u24(b, len(ks))
		for _, k := range ks {
			b = u32(b, uint32(k.A)<<16|uint32(k.B))
		}
		for _, k := range ks {
			b = append(b, byte(k.V))
		}
	}
	sec("horz kerning")
	kern(f.Kerns)
	sec("vert kerning")
	kern(f.VertKerns)
	return b, secs
}

// GroupBytes encodes a glyph group (consecutive groups as ranges).
func GroupBytes(b []byte, g Group) []byte {
	n := len(g.Glyphs)
	if n == 1 {
		return u16(append(b, 0), int(g.Glyphs[0]))
	}
	cons := true
	for i := 1; i < n; i++ {
		if g.Glyphs[i] != g.Glyphs[i-1]+1 {
			cons = false
		}
	}
	if cons {
		return u16(append(b, 0x80|byte(n-1), byte(g.Flags)), int(g.Glyphs[0]))
	}
	b = append(b, byte(n-1), byte(g.Flags))
	for _, x := range g.Glyphs {
		b = u16(b, int(x))
	}
	return b
}

// Zip wraps raw data as a ggfnt stream.
func Zip(raw []byte) []byte { return ZipSig("tggfnt", raw) }

// ZipSig wraps raw data with a signature. Stored (uncompressed) deflate
// blocks keep it quick.
func ZipSig(sig string, raw []byte) []byte {
	var out bytes.Buffer
	out.WriteString(sig)
	w := zipWriters.Get().(*gzip.Writer)
	w.Reset(&out)
	_, _ = w.Write(raw)
	_ = w.Close()
	zipWriters.Put(w)
	return out.Bytes()
}

var zipWriters = sync.Pool{New: func() any {
	w, _ := gzip.NewWriterLevel(io.Discard, gzip.NoCompression)
	return w
}}

// Parse serializes and parses the font with the real parser.
func (f *Font) Parse() (*ggfnt.Font, error) {
	return ggfnt.Parse(bytes.NewReader(Zip(f.Raw())))
}

// MustParse parses or panics (used for fonts that are part of a harness).
func (f *Font) MustParse() *ggfnt.Font {
	font, err := f.Parse()
	if err != nil {
		panic("harness font does not parse: " + err.Error())
	}
	return font
}

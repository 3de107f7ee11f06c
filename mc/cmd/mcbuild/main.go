// Command mcbuild explores the orders in which the builder may visit its
// collections. It runs over instrumented copies of the sources.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image/color"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/shim/vorder"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

type X = explore.X

func main() { explore.Main() }

func init() {
	explore.Register(&explore.Check{
		ID: "C14", Title: "determinism",
		Rule: "one execution = one font description built with one choice of the iteration order of every map visited, of the order of the identifiers drawn for glyphs and sets, and of the order in which mappings, kerning pairs and glyph names were added; built, possibly edited, built again, cleared of edition data; the bytes must be those of the reference order; a state is the description with all its orders",
		Bounds: func(t string) string {
			s := "small fonts (collections of up to 3): all orders of all maps × all orders of identifiers; all orders of additions × all orders of identifiers; medium ones (4): all orders of up to 2 maps at a time (%d), all identifiers; large ones (12 to 60): rotations, reversal and adjacent transpositions of up to %d map at a time"
			if t == "thorough" {
				return fmt.Sprintf(s, 3, 2)
			}
			return fmt.Sprintf(s, 2, 1)
		},
		Assume: []string{"random values are drawn through crypto/rand", "iteration orders are controlled for range statements and package maps; a map that grows while it is visited is visited without the new entries"},
		Body:   c14, QuickSec: 200, ThorSec: 820, Init: func(string) { cache = map[string][]byte{} },
	})
}

// ids gives out a font id and then identifiers in a chosen order.
type ids struct {
	perm []int
	n    int
}

// Neither the numeric order nor the order of the bytes follows the index.
func idOf(rank int) uint64 {
	return uint64(rank+1)<<56 | 0x00a55a3cc3960f1e&^0xff | uint64(255-rank)
}

func (s *ids) Read(p []byte) (int, error) {
	v := uint64(0x8f1c3a5e7d92b604)
	if s.n > 0 {
		r := s.n - 1
		if r < len(s.perm) {
			r = s.perm[r]
		}
		v = idOf(r)
	}
	s.n++
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	for i := range p {
		p[i] = b[i%8]
	}
	return len(p), nil
}

func permOf(n, index int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var out []int
	for k := n; k > 0; k-- {
		f := 1
		for i := 2; i < k; i++ {
			f *= i
		}
		at := index / f
		index %= f
		out = append(out, rest[at])
		rest = append(rest[:at:at], rest[at+1:]...)
	}
	return out
}

func factorial(n int) int {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	return f
}

func choosePerm(x *X, n int) []int { return permOf(n, x.Choose(factorial(n))) }

// order picks the order of a map: all permutations of a small one, and
// rotations, reversals and adjacent transpositions of others. The first
// alternative is the natural order.
func order(x *X, n int) ([]int, bool) {
	if n <= 4 {
		k := x.Choose(factorial(n))
		return permOf(n, k), k > 0
	}
	shifts := []int{1, 2, n / 2, n - 1}
	swaps := []int{0, 1, n / 2, n - 2}
	k := x.Choose(2 + len(shifts) + len(swaps))
	out := permOf(n, 0)
	switch {
	case k == 0:
	case k == 1:
		for i := range out {
			out[i] = n - 1 - i
		}
	case k < 2+len(shifts):
		for i := range out {
			out[i] = (i + shifts[k-2]) % n
		}
	default:
		i := swaps[k-2-len(shifts)]
		out[i], out[i+1] = out[i+1], out[i]
	}
	return out, k > 0
}

func reversed(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = n - 1 - i
	}
	return out
}

func describe(kind int) *spec.Font {
	n := []int{3, 3, 4, 12, 60, 3}[kind]
	f := spec.New(n)
	f.First, f.Major, f.Minor = ggfnt.Date{Year: 2024}, ggfnt.Date{Year: 2025}, ggfnt.Date{Year: 2025, Month: 3, Day: 4}
	name := func(i int) string { return "g" + string(rune('a'+(i*7)%26)) + string(rune('a'+i/26)) }
	for i := range f.Glyphs {
		f.Glyphs[i].Name = name(i)
		f.Glyphs[i].Placement.Advance = uint8(i + 1)
	}
	f.Dyes = []spec.Dye{{Name: "main", Alphas: []uint8{255, 128}}}
	f.Palettes = []spec.Palette{{Name: "pal", Colors: []color.RGBA{{1, 2, 3, 255}}}}
	for i := 0; i < min(n, 8); i++ {
		// shared, custom and predefined words
		f.Settings = append(f.Settings, spec.Setting{Name: "set-" + string(rune('a'+i)), Options: []string{
			"Zz" + string(rune('z'-i)), "Common", "Off", "a" + string(rune('a'+i))}[:2+i%3]})
	}
	if kind == 0 {
		f.Settings = f.Settings[:1]
		f.Settings[0].Options = []string{"Zy", "Common", "Aa"}
	}
	f.Switches = [][]uint8{{0}, {0, 1}}
	if len(f.Settings) < 2 {
		f.Switches = [][]uint8{{0}}
	}
	glyph := func(i int) uint16 { return uint16(i % n) }
	for i := 0; i < n; i++ {
		m := spec.Mapping{Rune: rune(0x1F600 - 7*i*(i%3)), Switch: spec.SwitchNone, Groups: []spec.Group{{Glyphs: []uint16{glyph(i * 5)}}}}
		if i%2 == 1 {
			m.Rune = rune('a' + i)
			m.Switch = 0
			m.Groups = nil
			for k := range f.Settings[0].Options {
				m.Groups = append(m.Groups, spec.Group{Glyphs: []uint16{glyph(i + k)}})
			}
		} else if i == 2 {
			m.Rune = 'Z'
			m.Switch = spec.SwitchGroup
			m.Groups = []spec.Group{{Flags: ggfnt.AnimFlagLoopable, Glyphs: []uint16{2, 0, 1}}}
		} else if i > 2 {
			m.Rune = rune(0x100 + (i*37)%101)
		}
		f.Mappings = append(f.Mappings, m)
		f.Kerns = append(f.Kerns, spec.Kern{A: glyph(i * 2), B: glyph(i + 1), V: int8(i - 2)})
	}
	if kind > 0 {
		f.GlyphSets = []spec.GlyphSet{{Ranges: []spec.GRange{{0, 1}}}, {List: []uint16{2, 0}}}
		f.GlyphRules = []spec.Rule{
			{Cond: 255, Head: []spec.Elem{spec.S(1)}, Body: []spec.Elem{spec.S(0), spec.V(1)}, Out: []uint32{2}},
			{Cond: 255, Body: []spec.Elem{spec.V(2), spec.V(2)}, Out: []uint32{0, 1}}}
		f.Utf8Rules = []spec.Rule{{Cond: 255, Body: []spec.Elem{spec.V('a'), spec.V('b')}, Out: []uint32{'c'}}}
	}
	return f
}

// edition gives edition data with a class for the pairs.
func edition(f *spec.Font, id uint64) []byte {
	var b []byte
	b = binary.LittleEndian.AppendUint64(b, id)
	b = append(b, 0)
	b = append(b, 2, 0, 3, 'o', 'n', 'e', 3, 't', 'w', 'o', 11, 0xF0)
	pairs := func(l [][3]uint16) {
		b = binary.LittleEndian.AppendUint32(b, uint32(len(l)))
		for _, p := range l {
			for _, v := range p {
				b = binary.LittleEndian.AppendUint16(b, v)
			}
		}
	}
	pairs([][3]uint16{{0, 1, 2}, {1, 1, 1}})
	pairs([][3]uint16{{2, 1, 1}, {0, 1, 2}, {1, 0, 2}})
	b = append(b, 0)
	return spec.ZipSig("wkgfnt", b)
}

type history struct {
	kind, edit int
	edition    int // 0: none, 1: parsed, 2: parsed and cleared
}

var cache map[string][]byte

func fail(x *X, what string, err error) {
	if err != nil {
		x.Failf("%s: %v", what, err)
	}
}

// prepare fills a builder in the given orders.
func prepare(x *X, kind int, uids, names, maps, kerns []int) *spec.Built {
	f := describe(kind)
	glyphNames := make([]string, len(f.Glyphs))
	for i := range f.Glyphs {
		glyphNames[i], f.Glyphs[i].Name = f.Glyphs[i].Name, ""
	}
	mappings, pairs := f.Mappings, f.Kerns
	f.Mappings, f.Kerns = nil, nil
	// rules refer to sets, which are created after the mappings
	spec.RandSource = &ids{perm: uids}
	b, err := f.Fill()
	spec.RandSource = nil
	fail(x, "filling the builder", err)
	at := func(perm []int, i int) int {
		if i < len(perm) {
			return perm[i]
		}
		return i
	}
	for i := range glyphNames {
		k := at(names, i)
		fail(x, "name", b.B.SetGlyphName(b.UIDs[k], glyphNames[k]))
	}
	for i := range mappings {
		fail(x, "mapping", b.Map(&mappings[at(maps, i)]))
	}
	for i := range pairs {
		p := pairs[at(kerns, i)]
		b.B.SetKerningPair(b.UIDs[p.A], b.UIDs[p.B], p.V)
	}
	return b
}

func build(x *X, b *builder.Font) []byte {
	var data []byte
	x.NoPanic("Build", func() {
		font, err := b.Build()
		fail(x, "Build of a valid font", err)
		data = bytes.Clone(font.Data)
		var out bytes.Buffer
		fail(x, "Export", font.Export(&out))
		if back, err := ggfnt.Parse(&out); err != nil {
			x.Failf("the built font does not parse: %v", err)
		} else if !bytes.Equal(back.Data, data) {
			x.Failf("the parsed font has other bytes than the built one")
		}
	})
	x.Step()
	return data
}

const numEdits = 7

func editName(e int) string {
	return []string{"nothing", "glyph renamed", "mapping added", "pair replaced", "pair added", "word added", "glyph added"}[e]
}

func applyEdit(x *X, b *spec.Built, e int) {
	x.NoPanic("editing", func() {
		switch e {
		case 1:
			fail(x, "rename", b.B.SetGlyphName(b.UIDs[1], "zzz"))
		case 2:
			fail(x, "map", b.B.Map('0', b.UIDs[1]))
		case 3:
			b.B.SetKerningPair(b.UIDs[0], b.UIDs[1], 99)
		case 4:
			b.B.SetKerningPair(b.UIDs[2], b.UIDs[1], 98)
		case 5:
			_, err := b.B.AddSetting("new", "Bb", "Common")
			fail(x, "setting", err)
		case 6:
			spec.RandSource = nil
			g := spec.New(1)
			uid, err := b.B.AddGlyph(g.Glyphs[0].GetMask())
			fail(x, "glyph", err)
			fail(x, "name", b.B.SetGlyphName(uid, "aaa"))
		}
	})
}

func applyEdition(x *X, f *spec.Font, b *builder.Font, e int) {
	x.NoPanic("edition data", func() {
		if e > 0 {
			fail(x, "edition data", b.ParseEditionData(bytes.NewReader(edition(f, b.GetFontID()))))
		}
		if e > 1 {
			b.ClearEditionData()
		}
	})
}

// reference is what the description gives in the natural orders, in a builder
// that has not built anything before.
func reference(x *X, h history) []byte {
	key := fmt.Sprint(h)
	if b, ok := cache[key]; ok {
		return b
	}
	saved := vorder.Order
	vorder.Order = nil
	b := prepare(x, h.kind, nil, nil, nil, nil)
	f := describe(h.kind)
	applyEdition(x, f, b.B, h.edition)
	applyEdit(x, b, h.edit)
	data := build(x, b.B)
	vorder.Order = saved
	if strings.HasPrefix(key, "{") {
		cache[key] = data
	}
	return data
}

func c14(x *X) {
	kind := x.Choose(6)
	mode := 0
	if kind < 3 || kind == 5 {
		mode = x.Choose(2)
	}
	var uids, names, maps, kerns []int
	budget := 0 // maps that may be visited in other orders
	f := describe(kind)
	n := len(f.Glyphs)
	h := history{kind: kind}
	drawn := n + len(f.GlyphSets)
	switch {
	case mode == 1 && n == 3: // orders of additions
		h.kind = kind
		uids = choosePerm(x, drawn)
		if drawn > 3 && !x.Thorough() {
			names = permOf(n, x.Choose(2)*5)
		} else {
			names = choosePerm(x, n)
		}
		maps, kerns = choosePerm(x, n), choosePerm(x, n)
	case mode == 1: // the same for 4, one at a time
		uids = choosePerm(x, n)
		switch x.Choose(3) {
		case 0:
			names = choosePerm(x, n)
		case 1:
			maps = choosePerm(x, n)
		case 2:
			kerns = choosePerm(x, n)
		}
	case kind == 5: // several builds with edition data
		h.edition = x.Choose(3)
		h.edit = x.Choose(numEdits)
		uids = permOf(drawn, x.Choose(2)*(factorial(drawn)-1))
		budget = x.Pick(2, 3)
	case n == 3:
		if kind == 0 {
			uids = choosePerm(x, drawn)
			budget = 100
		} else {
			uids = permOf(drawn, x.Choose(2)*(factorial(drawn)-1))
			h.edit = x.Choose(numEdits)
			budget = x.Pick(3, 100)
		}
	case n == 4:
		uids = permOf(n, x.Choose(2)*(factorial(n)-1))
		h.edit = x.Choose(numEdits)
		budget = x.Pick(1, 3)
		if h.edit == 0 {
			budget = x.Pick(2, 4)
		}
	default:
		h.edit = x.Choose(numEdits)
		uids = reversed(n)
		if x.Bool() {
			uids = nil
		}
		names, maps, kerns = reversed(n), reversed(n), reversed(n)
		if x.Bool() {
			names, maps, kerns = nil, nil, nil
		}
		budget = x.Pick(1, 2)
	}
	want := reference(x, history{kind: kind, edition: h.edition})
	wantEdited := want
	if h.edit > 0 {
		wantEdited = reference(x, h)
	}
	var visits []string
	vorder.Order = func(n int) []int {
		if budget == 0 {
			return permOf(n, 0)
		}
		perm, other := order(x, n)
		if other {
			budget--
			if len(visits) < 40 {
				visits = append(visits, fmt.Sprint(perm))
			}
		} else {
			visits = append(visits, "-")
		}
		return perm
	}
	x.Cleanup(func() { vorder.Order = nil })
	b := prepare(x, kind, uids, names, maps, kerns)
	applyEdition(x, f, b.B, h.edition)
	what := func() string {
		return fmt.Sprintf("font %d, identifiers in order %v, names %v, mappings %v, pairs %v, map orders %v, edition data %d", kind, uids, names, maps, kerns, visits, h.edition)
	}
	if got := build(x, b.B); !bytes.Equal(got, want) {
		x.Failf("%s: byte %d differs from the reference build", what(), firstDiff(got, want))
	}
	x.Logf("%s", what())
	x.State(explore.HashOf(kind, uids, names, maps, kerns, visits, h))
	// the second build visits everything backwards
	left := budget
	vorder.Order = func(n int) []int {
		if left == 100 {
			return permOf(n, 0)
		}
		return reversed(n)
	}
	applyEdit(x, b, h.edit)
	if got := build(x, b.B); !bytes.Equal(got, wantEdited) {
		x.Failf("%s: second build (after: %s): byte %d differs from the reference build", what(), editName(h.edit), firstDiff(got, wantEdited))
	}
	if h.edition == 0 && h.edit == 0 { // and a third one with edition data
		applyEdition(x, f, b.B, 1+x.Choose(2))
		_ = build(x, b.B)
	}
	x.Outcome(explore.HashOf(string(wantEdited)))
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

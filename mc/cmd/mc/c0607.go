package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C06", Title: "damaged data", Level: "fault_enumeration",
		Rule: "one execution = one damage position applied to one of five base fonts (with every replacement value at it): cut, appended, replaced bytes of the uncompressed data, or of the compressed stream; an accepted result must be exactly the undamaged data, or data that an independent walker of the layout accepts; a state is a damaged stream",
		Bounds: func(t string) string {
			return "every cut of the compressed stream and of the uncompressed data; every byte of the uncompressed data x 256 values; every byte of the compressed stream x 8 bit flips (thorough: 256 values); 1..16 appended bytes inside and outside; all pairs of size fields with boundary values (thorough); every table of end offsets with every smaller size and the limits of its size, the data after it being moved; every signature byte x 256; all streams of up to 2 bytes; well laid out fonts with glyph, named glyph, kerning pair, switch and color counts, format versions and ascents at and around their limits; sizes 32 MiB -1, +0, +1, +4096"
		},
		Assume: []string{"content that is not a section size may be accepted damaged (default validation does not look at it)", "gzip header bytes that do not affect the data may be accepted"},
		Body:   c06, QuickSec: 100, ThorSec: 820, HangSec: 60, Init: func(string) { c06init() },
	})
	explore.Register(&explore.Check{
		ID: "C07", Title: "delivery and failures", Level: "fault_enumeration",
		Rule: "one execution = one delivery schedule or one failure point of a reader, file system, file or writer; results must equal those of the plain delivery, failures must be reported, files must be closed once; a state is a schedule",
		Bounds: func(t string) string {
			return "every uniform chunk size 1..N, every single split (thorough: every pair of splits) of the stream, up to 3 empty reads at every position, EOF with or after the data, with and without ReadByte; a failure at every byte, alone or together with data; open, stat, size, read, close failures of a fs.FS; a failing writer at every call and at every byte"
		},
		Body: c07, QuickSec: 100, ThorSec: 820, Init: func(string) { c06init() },
	})
}

type c06base struct {
	raw    []byte
	stored []byte // stream with stored blocks
	real   []byte // stream as exported
	sizes  []int  // positions of bytes that belong to sizes (found by the walker)
}

var c06bases []*c06base

func c06init() {
	if c06bases != nil {
		return
	}
	for base := 0; base < 5; base++ {
		k := base % 4 // (the last one is the first with vertical layout)
		f := spec.New(0)
		f.Name, f.Family, f.Author, f.About = "N", "Fam", "Au", "Text."
		f.Vert = k == 1 || base == 4
		if f.Vert {
			f.VertLineWidth = 1
		}
		if k > 0 {
			f.Dyes = append(f.Dyes, spec.Dye{Name: "e", Alphas: []uint8{1, 2}})
			f.Palettes = []spec.Palette{{Name: "p", Colors: c03colors(2, 1)}}
		}
		for i := 0; i < k+1; i++ {
			f.Glyphs = append(f.Glyphs, spec.Glyph{Mask: bitmap(2, 2, 0, -1, 5+i, 2)})
		}
		if k > 0 {
			f.Glyphs[0].Name = "notdef"
			f.Glyphs[1].Name = "ab"
			f.Settings = []spec.Setting{{Name: "s", Options: []string{"off", "on", "xyz"}}, {Name: "ts", Options: []string{"uvw", "on"}}}
			f.Switches = [][]uint8{{1}, {1, 0}}
			f.Mappings = []spec.Mapping{{Rune: 'a', Switch: spec.SwitchNone, Groups: []spec.Group{{Glyphs: []uint16{0}}}},
				{Rune: 'b', Switch: 0, Groups: []spec.Group{{Glyphs: []uint16{0}}, {Flags: 1, Glyphs: []uint16{0, 1}}}}}
			f.RuneSets = []spec.RuneSet{{List: []rune{'a'}}}
			f.GlyphSets = []spec.GlyphSet{{Ranges: []spec.GRange{{First: 0, Extra: 1}}}, {List: []uint16{0}}}
			c := quick(3, 1, 0)
			f.Conditions = [][]byte{c.bytes(), c.bytes()}
			f.Utf8Rules = []spec.Rule{{Cond: 255, Body: []spec.Elem{spec.V('f'), spec.S(0)}, Out: []uint32{'x'}}}
			f.GlyphRules = []spec.Rule{{Cond: 1, Head: []spec.Elem{spec.V(0)}, Body: []spec.Elem{spec.S(1)}, Out: []uint32{1}}}
			f.Kerns = []spec.Kern{{A: 0, B: 1, V: 3}, {A: 1, B: 1, V: -3}}
			f.VertKerns = []spec.Kern{{A: 0, B: 1, V: 1}}
		}
		if k == 3 { // longer than one read of the parser
			f.About = string(bytes.Repeat([]byte("z"), 1500))
		}
		b := &c06base{raw: f.Raw()}
		b.stored = spec.Zip(b.raw)
		font := f.MustParse()
		var buf bytes.Buffer
		if err := font.Export(&buf); err != nil {
			panic(err)
		}
		b.real = buf.Bytes()
		// a byte matters to the layout if changing it makes the walk fail
		for i := range b.raw {
			c := append([]byte(nil), b.raw...)
			for _, d := range []byte{1, 0x80, 0xFF} {
				c[i] = b.raw[i] ^ d
				if !spec.Fits(c) {
					b.sizes = append(b.sizes, i)
					break
				}
			}
		}
		if !spec.Fits(b.raw) {
			panic("the walker of the layout rejects a valid font")
		}
		c06bases = append(c06bases, b)
	}
}

func c06parse(x *X, what string, data []byte) (font *ggfnt.Font, err error) {
	msg, panicked := x.Catch(func() { font, err = ggfnt.Parse(bytes.NewReader(data)) })
	x.Step()
	if panicked {
		x.Failf("parsing %s panics: %s", what, msg)
	}
	if err == nil && font == nil {
		x.Failf("parsing %s returns neither a font nor an error", what)
	}
	return font, err
}

func c06reject(x *X, data []byte, what string, args ...any) {
	if _, err := c06parse(x, fmt.Sprintf(what, args...), data); err == nil {
		x.Failf("%s is accepted", fmt.Sprintf(what, args...))
	}
	x.State(explore.HashBytes(6, data))
	x.Count("must be rejected")
}

// c06raw parses damaged uncompressed data.
func c06raw(x *X, raw []byte, what string, args ...any) {
	fits := spec.Fits(raw)
	font, err := c06parse(x, fmt.Sprintf(what, args...), spec.Zip(raw))
	x.State(explore.HashBytes(7, raw))
	if err != nil {
		x.Count("rejected")
		return
	}
	x.Count("accepted")
	if fits {
		if bad := spec.Forbidden(raw); bad != "" {
			x.Failf("%s: it has %s, but it is accepted", fmt.Sprintf(what, args...), bad)
		}
	} else {
		x.Failf("%s: section sizes do not fit the data, but it is accepted", fmt.Sprintf(what, args...))
	}
	if font.RawSize() != len(raw) {
		x.Failf("%s: accepted with RawSize %d, the data has %d bytes", fmt.Sprintf(what, args...), font.RawSize(), len(raw))
	}
}

func c06(x *X) {
	kind := x.Choose(10)
	var b *c06base
	if kind < 6 || kind == 8 {
		b = c06bases[x.Choose(len(c06bases))]
	}
	switch kind {
	case 0: // cuts of the stream
		s := b.stored
		if x.Bool() {
			s = b.real
		}
		c06reject(x, s[:x.Choose(len(s))], "a stream cut short")
	case 1: // cuts of, and additions to, the uncompressed data
		if x.Bool() {
			n := x.Choose(len(b.raw))
			c06reject(x, spec.Zip(b.raw[:n]), "data cut at byte %d of %d", n, len(b.raw))
			return
		}
		n, v := pick(x, []int{1, 2, 3, 4, 5, 8, 16, 1023, 1024, 1025, 5000}), pick(x, []byte{0, 1, 255})
		c06reject(x, spec.Zip(append(append([]byte(nil), b.raw...), bytes.Repeat([]byte{v}, n)...)), "data followed by %d bytes %d", n, v)
	case 2: // additions to the stream
		s := append([]byte(nil), b.real...)
		switch x.Choose(3) {
		case 0:
			s = append(s, bytes.Repeat([]byte{pick(x, []byte{0, 1, 0x1f, 255})}, x.Choose(40)+1)...)
		case 1: // another compressed member with more data
			s = append(s, spec.Zip(make([]byte, x.Choose(3)+1))[6:]...)
		case 2: // cut second member
			z := spec.Zip(b.raw)[6:]
			s = append(s, z[:x.Choose(len(z)-1)+1]...)
		}
		c06reject(x, s, "a stream followed by other data")
	case 3: // every value of every byte of the data
		i := x.Choose(len(b.raw))
		if len(b.raw) > 1000 && !x.Thorough() && i%8 != 0 && i > 40 && i < 1400 { // the long text
			x.Prune()
		}
		c := append([]byte(nil), b.raw...)
		for v := 0; v < 256; v++ {
			if c[i] = byte(v); c[i] != b.raw[i] {
				c06raw(x, c, "data with byte %d set to %d", i, v)
			}
		}
	case 4: // damaged stream
		s := b.real
		if x.Bool() {
			s = b.stored
		}
		i := x.Choose(len(s))
		c := append([]byte(nil), s...)
		for v := 0; v < 256; v++ {
			d := byte(v)
			if d == 0 || !x.Thorough() && d&(d-1) != 0 && d != 255 {
				continue
			}
			c[i] = s[i] ^ d
			font, err := c06parse(x, fmt.Sprintf("a stream with byte %d xor %d", i, d), c)
			x.State(explore.HashBytes(8, c))
			if i < 6 && err == nil {
				x.Failf("a stream with signature %q is accepted", c[:6])
			}
			if err == nil && !bytes.Equal(gunzip(x, export(x, font)), b.raw) {
				x.Failf("a stream with byte %d xor %d is accepted as other data", i, d)
			}
			if err == nil {
				x.Count("accepted, not damaged")
			} else {
				x.Count("rejected")
			}
		}
	case 5: // pairs of sizes
		if len(b.raw) > 1000 {
			x.Prune()
		}
		i := x.Choose(len(b.sizes))
		j := x.Choose(len(b.sizes))
		if j <= i || !x.Thorough() && j > i+6 {
			x.Prune()
		}
		c := append([]byte(nil), b.raw...)
		p, q := b.sizes[i], b.sizes[j]
		for _, v := range []int{-1, 1, 2, -2, 16, 127, 128, 255} {
			for _, w := range []int{-1, 1, 2, -2, 16, 127, 128, 255} {
				c[p], c[q] = b.raw[p]+byte(v), b.raw[q]+byte(w)
				if v > 100 {
					c[p] = byte(v)
				}
				if w > 100 {
					c[q] = byte(w)
				}
				c06raw(x, c, "data with byte %d set to %d and byte %d set to %d", p, c[p], q, c[q])
			}
		}
	case 6: // very short streams and data
		switch x.Choose(4) {
		case 0:
			c06reject(x, nil, "an empty stream")
			for i := 0; i < 256; i++ {
				c06reject(x, []byte{byte(i)}, "a stream of one byte")
			}
		case 1:
			i := x.Choose(256)
			for j := 0; j < 256; j++ {
				c06reject(x, []byte{byte(i), byte(j)}, "a stream of two bytes")
				c06reject(x, append([]byte("tggfnt"), byte(i), byte(j)), "a signature and two bytes")
			}
		case 2:
			i := x.Choose(256)
			for j := 0; j < 256; j++ {
				c06reject(x, spec.Zip([]byte{byte(i), byte(j)}), "two bytes of data")
			}
		case 3: // other signatures
			sig := pick(x, []string{"wggfnt", "wkgfnt", "TGGFNT", "tggfnT", "\x00\x00\x00\x00\x00\x00", "ggfntt", "tggfn ", ""})
			c06reject(x, spec.ZipSig(sig, c06bases[1].raw), "a stream with signature %q", sig)
		}
	case 8: // sections of other sizes, everything after them being where it should
		tables, _ := spec.Tables(b.raw)
		t := tables[x.Choose(len(tables))]
		for _, total := range c06totals(t) {
			raw := t.Resize(b.raw, total)
			if !spec.Fits(raw) {
				panic("harness: resized data does not fit")
			}
			if total < t.Min {
				c06reject(x, spec.Zip(raw), "a font with %d bytes of %s, %d entries need at least %d,", total, t.Name, t.N, t.Min)
			} else if t.Max > 0 && total > t.Max {
				c06reject(x, spec.Zip(raw), "a font with %d bytes of %s, %d entries can't have more than %d,", total, t.Name, t.N, t.Max)
			} else {
				c06raw(x, raw, "data with %d bytes of %s", total, t.Name)
			}
		}
	case 9: // whole fonts with values and counts that are forbidden, and with the last allowed ones
		c06forbidden(x)
	case 7: // size limit
		c06limit(x, pick(x, []int{-70000, -1, 0, 1, 2, 4096, 3 << 20}))
	}
}

// c06forbidden parses well laid out fonts with counts and values around their limits.
func c06forbidden(x *X) {
	f := spec.New(2)
	f.Dyes = nil
	bad, what := false, ""
	var raw []byte
	switch x.Choose(8) {
	case 7: // texts
		lens := [4]int{}
		for k := range lens {
			lens[k] = pick(x, []int{0, 1, 255})
		}
		f.Name, f.Family = strings.Repeat("n", lens[0]), strings.Repeat("f", lens[1])
		f.Author, f.About = strings.Repeat("a", lens[2]), strings.Repeat("t", lens[3])
		bad, what = f.Name == "", fmt.Sprintf("texts of %v bytes", lens)
	case 0:
		n := pick(x, []int{56788, 56789, 56790, 56791, 56792, 60000, 65534, 65535})
		bad, what = n > 56789, fmt.Sprintf("%d glyphs", n)
		f.Glyphs = f.Glyphs[:1]
		for len(f.Glyphs) < n {
			f.Glyphs = append(f.Glyphs, spec.Glyph{Mask: spec.OnePixel()})
		}
	case 1: // more named glyphs than glyphs
		n, named := x.Choose(3)+1, x.Choose(6)
		f.Glyphs = f.Glyphs[:1]
		for len(f.Glyphs) < n {
			f.Glyphs = append(f.Glyphs, spec.Glyph{})
		}
		f.Glyphs[0].Name = "zzz"
		bad, what = named > n, fmt.Sprintf("%d named glyphs of %d", named, n)
		raw = f.Raw()
		tables, _ := spec.Tables(raw)
		for _, t := range tables {
			if t.Name != "glyph names" {
				continue
			}
			section := []byte{byte(named), 0}
			for k := 0; k < named; k++ {
				section = append(section, byte(k%n), 0)
			}
			for k := 0; k < named; k++ {
				section = append(section, byte(k+1), 0, 0)
			}
			for k := 0; k < named; k++ {
				section = append(section, byte('a'+k))
			}
			raw = append(append(append([]byte(nil), raw[:t.LastEnd-4]...), section...), raw[t.Data+t.Total:]...)
			break
		}
	case 2: // kerning pairs
		n, pairs := x.Choose(3)+1, x.Choose(12)
		vert := x.Bool()
		f.Vert = vert
		f.Glyphs = f.Glyphs[:1]
		for len(f.Glyphs) < n {
			f.Glyphs = append(f.Glyphs, spec.Glyph{})
		}
		if vert {
			f.VertLineWidth = 1
		}
		bad, what = pairs > n*n, fmt.Sprintf("%d kerning pairs of %d glyphs (vertical: %v)", pairs, n, vert)
		for k := 0; k < pairs; k++ {
			pair := spec.Kern{A: uint16(min(k, n*n-1) / n), B: uint16(min(k, n*n-1) % n), V: 1}
			if vert {
				f.VertKerns = append(f.VertKerns, pair)
			} else {
				f.Kerns = append(f.Kerns, pair)
			}
		}
	case 3:
		n := pick(x, []int{253, 254, 255})
		bad, what = n == 255, fmt.Sprintf("%d switches", n)
		f.Settings = []spec.Setting{{Name: "s", Options: []string{"off", "on"}}}
		for len(f.Switches) < n {
			f.Switches = append(f.Switches, []uint8{0})
		}
	case 4:
		alphas, colors := pick(x, []int{1, 100, 128, 200, 254}), 255+x.Choose(3)-1
		colors -= alphas
		bad, what = alphas+colors > 255, fmt.Sprintf("%d dye alphas and %d palette colors", alphas, colors)
		f.Dyes = []spec.Dye{{Name: "d", Alphas: bytes.Repeat([]byte{9}, alphas)}}
		if colors > 0 {
			f.Palettes = []spec.Palette{{Name: "p", Colors: c03colors(colors, 1)}}
		}
	case 5:
		raw = f.Raw()
		v := pick(x, []uint32{0, 1, 2, 3, 255, 256, 257, 0x10000, 0x10001, 0x1000000, 0x1000001, 0xFFFFFFFF})
		bad, what = v != ggfnt.FormatVersion, fmt.Sprintf("format version %d", v)
		binary.LittleEndian.PutUint32(raw, v)
	case 6:
		ref := []*uint8{&f.Ascent, &f.ExtraAscent, &f.VertInter}[x.Choose(3)]
		f.Vert = x.Bool()
		if f.Vert {
			f.VertLineWidth = 1
		}
		f.UppercaseAscent, f.MidlineAscent = 0, 0
		if x.Bool() {
			f.ExtraAscent = 3
		}
		*ref = pick(x, []uint8{0, 1, 2, 3, 4, 8, 9, 10, 127, 128, 255})
		if f.Ascent == f.ExtraAscent { // forbidden by the specification; undetermined in the code
			x.Prune()
		}
		raw = f.Raw()
		bad = spec.Forbidden(raw) != ""
		what = fmt.Sprintf("ascent %d, extra ascent %d, vertical interspacing %d, vertical layout %v", f.Ascent, f.ExtraAscent, f.VertInter, f.Vert)
	}
	if raw == nil {
		raw = f.Raw()
	}
	if bad {
		c06reject(x, spec.Zip(raw), "a font with %s", what)
		return
	}
	font, err := c06parse(x, "a font with "+what, spec.Zip(raw))
	x.State(explore.HashBytes(9, raw))
	if err != nil {
		x.Failf("a font with %s, which is valid, is rejected: %v", what, err)
	} else if font.RawSize() != len(raw) {
		x.Failf("a font with %s has RawSize %d, its data has %d bytes", what, font.RawSize(), len(raw))
	}
	x.Count("last allowed values")
}

func c06totals(t spec.Table) (out []int) {
	for v := 0; v <= t.Total+3; v++ {
		out = append(out, v)
	}
	if t.Max > 0 {
		for _, v := range []int{-1, 0, 1, 2, 300} {
			if t.Max+v > t.Total+3 {
				out = append(out, t.Max+v)
			}
		}
	}
	return out
}

func c06limit(x *X, delta int) {
	const rule = 4000
	f := spec.New(1)
	f.RawUtf8Rules, f.RawGlyphRules = [][]byte{}, [][]byte{}
	// glyph programs can be of any size; rules need plausible sizes
	want := ggfnt.MaxFontDataSize + delta
	f.Glyphs[0].Ops = bytes.Repeat([]byte{0x80}, 1<<23)
	f.RawUtf8Rules = [][]byte{{}}
	for i := 0; i < (1<<24)/rule-1; i++ {
		f.RawUtf8Rules = append(f.RawUtf8Rules, make([]byte, rule))
	}
	n := want - len(f.Raw())
	for n > 0 {
		k := min(n, rule)
		if n-k > 0 && n-k < 40 { // room for a whole rule and its offset
			k -= 60
		}
		f.RawGlyphRules = append(f.RawGlyphRules, make([]byte, k-3))
		n -= k
	}
	f.RawUtf8Rules[0] = make([]byte, 8)
	f.RawGlyphRules[len(f.RawGlyphRules)-1] = f.RawGlyphRules[len(f.RawGlyphRules)-1][8:]
	raw := f.Raw()
	if len(raw) != want || !spec.Fits(raw) {
		panic(fmt.Sprintf("harness: size %d, wanted %d", len(raw), want))
	}
	font, err := c06parse(x, fmt.Sprintf("a font of %d bytes", want), spec.Zip(raw))
	x.StateOf(want)
	if delta > 0 && err == nil {
		x.Failf("a font of %d bytes is accepted, the limit is %d", want, ggfnt.MaxFontDataSize)
	}
	if delta <= 0 && (err != nil || font.RawSize() != want) {
		x.Failf("a font of %d bytes, within the limit of %d, is not accepted: %v", want, ggfnt.MaxFontDataSize, err)
	}
	x.Count("sizes around the limit")
}

// --- C07 ---

var errC07 = errors.New("injected failure")

// chunkReader delivers data in pieces that end at the given positions.
type chunkReader struct {
	data   []byte
	at     int
	next   func(at int) int // end of the piece that starts here
	empty  func(at int) int // number of empty reads before the piece that starts here
	gaveAt int
	gave   int
	eof    bool  // EOF together with the last data
	failAt int   // -1: never
	fail   error // error to report there
	with   bool  // ...together with the data before it
	reads  int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.reads++
	if r.failAt >= 0 && r.at >= r.failAt {
		return 0, r.fail
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.empty != nil {
		if r.gaveAt != r.at+1 {
			r.gaveAt, r.gave = r.at+1, 0
		}
		if r.gave < r.empty(r.at) {
			r.gave++
			return 0, nil
		}
	}
	if r.at >= len(r.data) {
		return 0, io.EOF
	}
	end := len(r.data)
	if r.next != nil {
		end = min(end, max(r.next(r.at), r.at+1))
	}
	if r.failAt >= 0 {
		end = min(end, r.failAt)
	}
	n := copy(p, r.data[r.at:end])
	r.at += n
	if r.at == r.failAt && r.with {
		return n, r.fail
	}
	if r.eof && r.at == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

type byteReader struct{ *chunkReader }

func (r byteReader) ReadByte() (byte, error) {
	var b [1]byte
	for k := 0; k < 200; k++ {
		n, err := r.Read(b[:])
		if n == 1 {
			// an error that came with the byte is reported by the next call
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func c07parse(x *X, r *chunkReader, bytewise bool) (font *ggfnt.Font, err error) {
	var rd io.Reader = r
	if bytewise {
		rd = byteReader{r}
	}
	msg, panicked := x.Catch(func() { font, err = ggfnt.Parse(rd) })
	x.Step()
	if panicked {
		x.Failf("parsing panics: %s", msg)
	}
	return
}

func c07same(x *X, b *c06base, r *chunkReader, bytewise bool, what string, args ...any) {
	font, err := c07parse(x, r, bytewise)
	if err != nil {
		x.Failf("a valid stream delivered %s does not parse: %v", fmt.Sprintf(what, args...), err)
	}
	if !bytes.Equal(gunzip(x, export(x, font)), b.raw) {
		x.Failf("a valid stream delivered %s gives another font", fmt.Sprintf(what, args...))
	}
	x.Count("deliveries")
}

type c07file struct {
	*chunkReader
	size             int64
	stat, closeErr   error
	closed, afterEnd int
}

func (f *c07file) Stat() (fs.FileInfo, error) {
	if f.stat != nil {
		return nil, f.stat
	}
	return c07info{f.size}, nil
}
func (f *c07file) Close() error { f.closed++; return f.closeErr }
func (f *c07file) Read(p []byte) (int, error) {
	if f.closed > 0 {
		f.afterEnd++
	}
	return f.chunkReader.Read(p)
}

type c07info struct{ size int64 }

func (i c07info) Name() string       { return "x" }
func (i c07info) Size() int64        { return i.size }
func (i c07info) Mode() fs.FileMode  { return 0 }
func (i c07info) ModTime() time.Time { return time.Time{} }
func (i c07info) IsDir() bool        { return false }
func (i c07info) Sys() any           { return nil }

type c07fs struct {
	f    *c07file
	err  error
	name string
}

func (s *c07fs) Open(name string) (fs.File, error) {
	s.name = name
	if s.err != nil {
		return nil, s.err
	}
	return s.f, nil
}

type c07writer struct {
	buf      bytes.Buffer
	calls    int
	failCall int // -1: never
	failByte int
	partial  bool
}

func (w *c07writer) Write(p []byte) (int, error) {
	w.calls++
	if w.failCall >= 0 && w.calls > w.failCall {
		if w.partial && len(p) > 0 {
			w.buf.Write(p[:len(p)/2])
			return len(p) / 2, errC07
		}
		return 0, errC07
	}
	if w.failByte >= 0 && w.buf.Len()+len(p) > w.failByte {
		n := w.failByte - w.buf.Len()
		w.buf.Write(p[:n])
		return n, errC07
	}
	return w.buf.Write(p)
}

func openFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

func c07(x *X) {
	kind := x.Choose(7)
	if kind == 6 { // real files
		dir, err := os.MkdirTemp("", "c07-")
		if err != nil {
			panic(err)
		}
		x.Cleanup(func() { _ = os.RemoveAll(dir) })
		b := pick(x, c06bases)
		data := b.real
		bad := true
		switch x.Choose(5) {
		case 0:
			bad = false
		case 1:
			data = data[:len(data)/2]
		case 2:
			data = append(append([]byte{}, data...), 0)
		case 3:
			data = nil
		case 4:
			data = []byte("not a font at all")
		}
		path := filepath.Join(dir, "a.ggfnt")
		if err := os.WriteFile(path, data, 0o600); err != nil {
			panic(err)
		}
		before := openFiles()
		for k := 0; k < 3; k++ {
			msg, panicked := x.Catch(func() {
				_, err = ggfnt.ParseFromPath(path)
				if (err != nil) != bad {
					x.Failf("ParseFromPath of a damaged=%v file: error %v", bad, err)
				}
				_, err = ggfnt.ParseFromFS(os.DirFS(dir), "a.ggfnt")
				if (err != nil) != bad {
					x.Failf("ParseFromFS of a damaged=%v file: error %v", bad, err)
				}
				if _, err = ggfnt.ParseFromPath(path + "x"); err == nil {
					x.Failf("ParseFromPath of a missing file gives no error")
				}
				if _, err = ggfnt.ParseFromPath(dir); err == nil {
					x.Failf("ParseFromPath of a directory gives no error")
				}
			})
			if panicked {
				x.Failf("parsing a file panics: %s", msg)
			}
			x.Steps(4)
		}
		if after := openFiles(); after > before {
			x.Failf("%d files are left open after parsing (damaged=%v)", after-before, bad)
		}
		x.Count("real files")
		return
	}
	b := c06bases[x.Choose(len(c06bases))]
	s := b.real
	if kind < 3 && x.Bool() {
		s = b.stored
	}
	r := &chunkReader{data: s, failAt: -1}
	switch kind {
	case 0: // uniform chunks
		n := x.Choose(len(s)) + 1
		r.next = func(at int) int { return at + n }
		r.eof = x.Bool()
		e := x.Choose(3)
		r.empty = func(int) int { return e }
		x.StateOf(len(s), n, r.eof, e)
		c07same(x, b, r, x.Bool(), "in chunks of %d (eof with data %v, %d empty reads)", n, r.eof, e)
	case 1: // splits
		i, j := x.Choose(len(s)+1), 0
		if x.Thorough() && len(s) < 600 {
			j = x.Choose(len(s) + 1)
			if j > i {
				x.Prune()
			}
		}
		r.eof = x.Bool()
		r.next = func(at int) int {
			if at < j {
				return j
			}
			if at < i {
				return i
			}
			return len(s)
		}
		e := x.Choose(4)
		r.empty = func(at int) int {
			if at == i || at == j {
				return e
			}
			return 0
		}
		x.StateOf(len(s), i, j, e, r.eof)
		c07same(x, b, r, x.Bool(), "split at %d and %d (eof with data %v, %d empty reads)", j, i, r.eof, e)
	case 2: // a failure at every byte
		r.failAt = x.Choose(len(s) + 1)
		r.fail = pick(x, []error{errC07, io.ErrUnexpectedEOF, io.ErrClosedPipe})
		r.with = x.Bool()
		if x.Bool() {
			r.next = func(at int) int { return at + 7 }
		}
		bytewise := x.Bool()
		x.StateOf(len(s), r.failAt, r.fail, r.with)
		if _, err := c07parse(x, r, bytewise); err == nil {
			x.Failf("the reader fails at byte %d of %d (%v), but parsing reports success", r.failAt, len(s), r.fail)
		}
		x.Count("read failures")
	case 3: // file systems
		f := &c07file{chunkReader: r, size: int64(len(s))}
		sys := &c07fs{f: f}
		bad := true
		switch x.Choose(7) {
		case 0:
			bad = false
		case 1:
			sys.err = errC07
		case 2:
			f.stat = errC07
		case 3:
			f.size = ggfnt.MaxFontDataSize + int64(x.Choose(2))*1000 + 1
		case 4:
			r.failAt, r.fail, r.with = x.Choose(len(s)+1), errC07, x.Bool()
		case 5:
			f.closeErr = errC07
		case 6:
			r.data = s[:x.Choose(len(s))]
		}
		var font *ggfnt.Font
		var err error
		msg, panicked := x.Catch(func() { font, err = ggfnt.ParseFromFS(sys, "dir/file.ggfnt") })
		x.Step()
		if panicked {
			x.Failf("ParseFromFS panics: %s", msg)
		}
		if (err != nil) != bad {
			x.Failf("ParseFromFS with a failure=%v: error %v", bad, err)
		}
		if sys.name != "dir/file.ggfnt" {
			x.Failf("ParseFromFS opens %q", sys.name)
		}
		if sys.err == nil && f.closed != 1 {
			x.Failf("the file is closed %d times (error %v)", f.closed, err)
		}
		if f.afterEnd > 0 {
			x.Failf("the file is read after closing it")
		}
		if !bad && !bytes.Equal(gunzip(x, export(x, font)), b.raw) {
			x.Failf("ParseFromFS gives another font")
		}
		x.Count("file systems")
	case 4, 5: // writers
		font, err := ggfnt.Parse(bytes.NewReader(s))
		if err != nil {
			x.Failf("Parse: %v", err)
		}
		w := &c07writer{failCall: -1, failByte: -1}
		bad := true
		if kind == 4 {
			probe := &c07writer{failCall: -1, failByte: -1}
			_ = font.Export(probe)
			w.failCall = x.Choose(probe.calls + 1)
			w.partial = x.Bool()
			bad = w.failCall < probe.calls
		} else {
			w.failByte = x.Choose(len(s) + 1)
			bad = w.failByte < len(s)
		}
		msg, panicked := x.Catch(func() { err = font.Export(w) })
		x.Step()
		if panicked {
			x.Failf("Export panics: %s", msg)
		}
		x.StateOf(len(s), w.failCall, w.failByte, w.partial)
		if bad && err == nil {
			x.Failf("the writer fails (call %d, byte %d), but Export reports success", w.failCall, w.failByte)
		}
		if !bad && err != nil {
			x.Failf("Export fails: %v", err)
		}
		if err == nil && !bytes.Equal(gunzip(x, w.buf.Bytes()), b.raw) {
			x.Failf("Export reports success for other data")
		}
		x.Count("writers")
	}
}

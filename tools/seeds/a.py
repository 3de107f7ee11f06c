PRE='''package main

import (
	"bytes"
	"fmt"
	"image"
	"os"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
)

var _ = bytes.NewReader
var _ = image.Rect
var _ = ggfnt.GlyphMissing

func fail(f string, a ...any) { fmt.Printf("BROKEN: "+f+"\\n", a...); os.Exit(1) }
func must(err error) { if err != nil { fail("%v", err) } }
func mask(i int) *image.Alpha {
	m := image.NewAlpha(image.Rect(0, -4, 2, 0))
	m.Pix[0] = 255
	for k := 0; k < 7; k++ { if i>>k&1 == 1 { m.Pix[k+1] = 255 } }
	return m
}
func newFont() *builder.Font {
	b := builder.New()
	must(b.SetFamily("demo")); must(b.SetName("demo")); must(b.SetAuthor("demo"))
	b.SetAscent(8); b.SetUppercaseAscent(8); b.SetMidlineAscent(4); b.SetDescent(4); b.SetLineGap(1); b.SetHorzInterspacing(1)
	return b
}
func glyphs(b *builder.Font, n int) []uint64 {
	var out []uint64
	for i := 0; i < n; i++ { u, err := b.AddGlyph(mask(i)); must(err); out = append(out, u) }
	return out
}
func build(b *builder.Font) *ggfnt.Font { f, err := b.Build(); must(err); return f }
func reparse(f *ggfnt.Font) *ggfnt.Font {
	var buf bytes.Buffer
	must(f.Export(&buf))
	g, err := ggfnt.Parse(&buf); must(err)
	return g
}
'''
def d(body, extra=""): return PRE+extra+"\nfunc main() {\n"+body+"\n}\n"
SEEDS=[
dict(id="s08-astral", property="C08",
 needs="a code point beyond the basic multilingual plane, or a lookup of an unmapped one that is equal to a mapped one modulo 65536",
 breaks="the uncached lookup searches only the low 16 bits of the code point",
 edits=[("font.go","""func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGroup, bool) {
	// binary search the code point
	target := uint32(int32(codePoint))""","""func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGroup, bool) {
	// binary search the code point
	target := uint32(uint16(codePoint))""")],
 demo=d('''b := newFont(); u := glyphs(b, 2); must(b.Map('a', u[0])); must(b.Map(0x1F600, u[1]))
	f := build(b)
	g, ok := f.Mapping().Utf8(0x1F600, nil)
	if !ok || g.Select(0) != 1 { fail("U+1F600 isn't found") }
	if _, ok := f.Mapping().Utf8(0x10000+'a', nil); ok { fail("unmapped code point found") }''')),
dict(id="s08-switch-order", property="C08",
 needs="a switch over two settings with three or more options, with the last setting changed to an option whose multiplier differs",
 breaks="switch evaluation multiplies by the option count of the wrong setting, so different setting values select the wrong or the same case",
 edits=[("font.go","""		caseCombinations *= (*FontSettings)(self).GetNumOptions(SettingKey(settingKey))
		endOffset -= 1
	}""","""		endOffset -= 1
		caseCombinations *= (*FontSettings)(self).GetNumOptions(SettingKey(self.Data[offsetToMappingSwitchesData + uint32(endOffset)]))
	}""")],
 demo=d('''b := newFont(); u := glyphs(b, 6)
	s1, err := b.AddSetting("one", "a", "b"); must(err)
	s2, err := b.AddSetting("two", "a", "b", "c"); must(err)
	sw, err := b.AddSwitch(s1, s2); must(err)
	must(b.MapWithSwitchSingles('a', sw, u...))
	f := build(b)
	for i := 0; i < 6; i++ {
		g, ok := f.Mapping().Utf8('a', []uint8{uint8(i/3), uint8(i%3)})
		if !ok || int(g.Select(0)) != i { fail("case %d selects %d", i, g.Select(0)) }
	}''')),
dict(id="s09-stale-switch", property="C09",
 needs="a full mapping cache whose entry is reused for a code point with another switch, then a setting change, a drop, and the old switch evaluated by another lookup",
 breaks="a cache entry that was reused for a code point with another switch keeps the old switch, so after dropping the cached cases it may keep an outdated case",
 edits=[("mapping_cache.go","""	self.switchType    = group.switchType
	self.caseBranch""","""	if self.switchType == 0 { self.switchType = group.switchType }
	self.caseBranch""")],
 demo=d('''b := newFont(); u := glyphs(b, 4)
	s1, err := b.AddSetting("one", "a", "b"); must(err)
	s2, err := b.AddSetting("two", "a", "b"); must(err)
	w1, err := b.AddSwitch(s1); must(err)
	w2, err := b.AddSwitch(s2); must(err)
	must(b.MapWithSwitchSingles('a', w1, u[0], u[1])); must(b.MapWithSwitchSingles('b', w2, u[2], u[3]))
	must(b.Map('c', u[3]))
	f := build(b)
	settings := ggfnt.NewSettingsCache(f); cache := ggfnt.NewMappingCache(f, 1)
	cache.Get('b', settings)
	cache.Get('a', settings)
	settings.Set(0, 1); cache.Drop()
	f.Mapping().Utf8WithCache('b', settings)
	g, ok := cache.Get('a', settings)
	if !ok || g.Select(0) != 1 { fail("outdated glyph %d for 'a'", g.Select(0)) }''')),
dict(id="s10-falling", property="C10",
 needs="a cached condition and a setting that is changed to a lower option",
 breaks="cached conditions aren't dropped when the new option is lower than the old one",
 edits=[("settings_cache.go","""	self.settings[key] = option
	""","""	rising := option > self.settings[key]
	self.settings[key] = option
	"""),("settings_cache.go","""	if self.rewriteConditionsSettingRelevanceFlags.Get(int(key)) {""","""	if rising && self.rewriteConditionsSettingRelevanceFlags.Get(int(key)) {""")],
 demo=d('''data := fontWithCondition()
	f, err := ggfnt.Parse(bytes.NewReader(data)); must(err)
	c := ggfnt.NewSettingsCache(f)
	c.Set(0, 1)
	c.CacheRewriteCondition(0, f.Rewrites().EvaluateCondition(0, c.UnsafeSlice()))
	c.Set(0, 0)
	v, ok := c.GetRewriteCondition(0)
	if ok && v != f.Rewrites().EvaluateCondition(0, c.UnsafeSlice()) { fail("outdated condition") }''','''
func fontWithCondition() []byte {
	b := newFont(); glyphs(b, 1)
	_, err := b.AddSetting("one", "a", "b"); must(err)
	f := build(b)
	at := int(f.OffsetToRewriteConditions)
	raw := append([]byte{}, f.Data[:at]...)
	raw = append(raw, 1, 2, 0, 0b0110_0001, 0)
	raw = append(raw, f.Data[at+1:]...)
	return pack(raw)
}
func pack(raw []byte) []byte {
	var buf bytes.Buffer
	buf.WriteString("tgfnt"[:1]); buf.Reset(); buf.WriteString("tggfnt")
	w := gzip.NewWriter(&buf); w.Write(raw); must(w.Close())
	return buf.Bytes()
}
''').replace('"bytes"\n','"bytes"\n\t"compress/gzip"\n',1)),
dict(id="s11-prefix", property="C11",
 needs="searching a name that was not assigned and is a prefix of an assigned one",
 breaks="prefixes of assigned names are found",
 edits=[("font.go","""	if len(bytes) != len(str) { return false }
	for i""","""	if len(bytes) < len(str) { return false }
	bytes = bytes[ : len(str)]
	for i""")],
 demo=d('''b := newFont(); names := []string{"a", "abcd", "abcde", "b", "ab"}
	u := glyphs(b, len(names))
	for i, n := range names { must(b.SetGlyphName(u[i], n)) }
	f := build(b)
	for i, n := range names { if g := f.Glyphs().FindIndexByName(n); int(g) != i { fail("%s is %d", n, g) } }
	for _, n := range []string{"abc", "bb", "", "aa"} { if g := f.Glyphs().FindIndexByName(n); g != ggfnt.GlyphMissing { fail("%s is %d", n, g) } }''')),
dict(id="s13-many-words", property="C13",
 needs="128 or more custom words",
 breaks="with 128 or more custom words the words are read from a wrapped offset",
 edits=[("font.go","""		wordStartIndex := self.OffsetToWords + 1 + (uint32(numWords) << 1) + uint32(wordStartOffsetIndex)""","""		wordStartIndex := self.OffsetToWords + 1 + uint32(numWords << 1) + uint32(wordStartOffsetIndex)""")],
 demo=d('''b := newFont(); glyphs(b, 1)
	var opts []string
	for i := 0; i < 140; i++ { opts = append(opts, fmt.Sprintf("word-x%d", i)) }
	_, err := b.AddSetting("one", opts...); must(err)
	f := build(b)
	for i, o := range opts { if n := f.Settings().GetOptionName(0, uint8(i)); n != o { fail("option %d is %q", i, n) } }''')),
dict(id="s15-operand-high", property="C15",
 needs="a comparison with a constant of 128 or more",
 breaks="the high bit of comparison operands is dropped",
 edits=[("font.go","""	case 0b0100_0000: // comparison
		setting := self.Data[dataIndex + 1]
		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
		operand := self.Data[dataIndex + 2]""","""	case 0b0100_0000: // comparison
		setting := self.Data[dataIndex + 1]
		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
		operand := self.Data[dataIndex + 2] & 0b0111_1111""")],
 demo=d('''b := newFont(); glyphs(b, 1)
	var opts []string
	for i := 0; i < 200; i++ { opts = append(opts, fmt.Sprintf("w%d", i)) }
	_, err := b.AddSetting("one", opts...); must(err)
	f := build(b)
	at := int(f.OffsetToRewriteConditions)
	raw := append([]byte{}, f.Data[:at]...)
	raw = append(raw, 1, 3, 0, 0b0101_0000, 0, 150)
	raw = append(raw, f.Data[at+1:]...)
	var buf bytes.Buffer
	buf.WriteString("tggfnt")
	w := gzip.NewWriter(&buf); w.Write(raw); must(w.Close())
	f, err = ggfnt.Parse(&buf); must(err)
	if !f.Rewrites().EvaluateCondition(0, []uint8{150}) { fail("150 == 150 is false") }''').replace('"bytes"\n','"bytes"\n\t"compress/gzip"\n',1)),
dict(id="s04-nz-negative", property="C04",
 needs="two fragments of a mask whose horizontal distance is negative and big",
 breaks="masks with long leftward jumps between fragments are drawn displaced",
 edits=[("mask/rasterize.go","""	if value >= 128 {
		return int(int8(value))""","""	if value > 128 {
		return int(int8(value))""")],
 demo='''package main

import (
	"fmt"
	"image"
	"image/color"
	"os"

	"github.com/tinne26/ggfnt/mask"
)

func main() {
	for w := 100; w < 300; w++ {
		m := image.NewAlpha(image.Rect(0, 0, w, 3))
		m.SetAlpha(w-1, 0, color.Alpha{255}); m.SetAlpha(0, 2, color.Alpha{255})
		var e mask.Encoder
		out, err := mask.Rasterize(e.AppendRasterOps(nil, m))
		if err != nil { fmt.Println("BROKEN", err); os.Exit(1) }
		for y := -1; y < 4; y++ { for x := -300; x < 600; x++ { if out.AlphaAt(x, y) != m.AlphaAt(x, y) { fmt.Println("BROKEN at", w, x, y); os.Exit(1) } } }
	}
}
'''),
dict(id="s05-diag-end", property="C05",
 needs="a program that ends right after a diagonal control byte",
 breaks="malformed programs ending right after a diagonal control byte index out of range instead of returning an error",
 edits=[("mask/rasterize.go","""			// we can ignore the diagonal direction because it doesn't change
			// the boundaries nor adds extra data on the raster command	
			index += 1
			if index >= len(rasterOps) { return rect, ErrUnexpectedRasterOptsEnd }""","""			// we can ignore the diagonal direction because it doesn't change
			// the boundaries nor adds extra data on the raster command	
			index += 1
			if index > len(rasterOps) { return rect, ErrUnexpectedRasterOptsEnd }""")],
 demo='''package main

import (
	"fmt"
	"os"

	"github.com/tinne26/ggfnt/mask"
)

func main() {
	defer func() { if r := recover(); r != nil { fmt.Println("BROKEN", r); os.Exit(1) } }()
	if _, err := mask.Rasterize([]byte{0x31, 9}); err == nil { fmt.Println("BROKEN: no error"); os.Exit(1) }
}
'''),
dict(id="s07-close", property="C07",
 needs="a parsing error (not only a success) on a file opened through a file system",
 breaks="files are left open when parsing them fails",
 edits=[("parse.go","""	font, err := Parse(file)
	if err != nil {
		_ = file.Close()
		return font, err
	}
	return font, file.Close()
}""","""	font, err := Parse(file)
	if err != nil && font == nil {
		_ = file.Close()
		return font, err
	}
	if err != nil { return font, err }
	return font, file.Close()
}""")],
 demo='''package main

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"testing/fstest"

	"github.com/tinne26/ggfnt"
)

type file struct { fs.File; closed *int }
func (f file) Close() error { *f.closed++; return f.File.Close() }
type fsys struct { fs.FS; closed *int }
func (f fsys) Open(n string) (fs.File, error) { x, err := f.FS.Open(n); if err != nil { return nil, err }; return file{x, f.closed}, nil }

func main() {
	_ = io.EOF
	n := 0
	f := fsys{fstest.MapFS{"a": &fstest.MapFile{Data: []byte("tggfntxxxx")}}, &n}
	if _, err := ggfnt.ParseFromFS(f, "a"); err == nil { fmt.Println("BROKEN: no error"); os.Exit(1) }
	if n != 1 { fmt.Println("BROKEN: closed", n, "times"); os.Exit(1) }
}
'''),
dict(id="s06-glyph-masks-len", property="C06",
 needs="a font with vertical layout whose glyph mask section is declared shorter than its placements",
 breaks="fonts with vertical layout and too small glyph mask sections are parsed without errors",
 edits=[("parse.go","""	placementSize := 1
	if hasVertLayout { placementSize += 3 }
	if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {""","""	placementSize := 1
	if hasVertLayout && numGlyphs > 1 { placementSize += 3 }
	if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {""")],
 demo=d('''b := newFont(); b.SetVertLayoutUsed(true); must(b.SetVertLineWidth(4)); glyphs(b, 1)
	f := build(b)
	at := int(f.OffsetToGlyphMasks)
	n := int(f.Data[at])|int(f.Data[at+1])<<8
	raw := append([]byte{}, f.Data[:at]...)
	raw = append(raw, 1, 0, 0, 5)
	raw = append(raw, f.Data[at+3+n:]...)
	var buf bytes.Buffer
	buf.WriteString("tggfnt")
	w := gzip.NewWriter(&buf); w.Write(raw); must(w.Close())
	if _, err := ggfnt.Parse(&buf); err == nil { fail("accepted") }''').replace('"bytes"\n','"bytes"\n\t"compress/gzip"\n',1)),
dict(id="s28-century", property="C28",
 needs="February 29 of a year that is divisible by 100",
 breaks="leap years of centuries",
 edits=[("date.go",None,None)], demo=""),
]
SEEDS=[s for s in SEEDS if s["edits"][0][1]]

import os, runpy
_a=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),"a.py")); PRE=_a["PRE"]; d=_a["d"]
PACK='''
func pack(raw []byte) []byte {
	var buf bytes.Buffer
	buf.WriteString("tggfnt")
	w := gzip.NewWriter(&buf); w.Write(raw); must(w.Close())
	return buf.Bytes()
}
'''
def dz(body, extra=""): return d(body, PACK+extra).replace('"bytes"\n','"bytes"\n\t"compress/gzip"\n',1)
RR='''
func gset(ranges [][2]int, list ...int) []byte { // first, extra length
	out := []byte{byte(len(ranges))}
	for _, r := range ranges { out = append(out, byte(r[0]), byte(r[0]>>8), byte(r[1])) }
	out = append(out, byte(len(list)))
	for _, g := range list { out = append(out, byte(g), byte(g>>8)) }
	return out
}
func u8set(ranges [][2]int, list ...int) []byte {
	out := []byte{byte(len(ranges))}
	for _, r := range ranges { out = append(out, byte(r[0]), byte(r[0]>>8), byte(r[0]>>16), 0, byte(r[1])) }
	out = append(out, byte(len(list)))
	for _, g := range list { out = append(out, byte(g), byte(g>>8), byte(g>>16), 0) }
	return out
}
func table(sets [][]byte) []byte {
	out := []byte{byte(len(sets))}
	n := 0
	for _, s := range sets { n += len(s); out = append(out, byte(n), byte(n>>8)) }
	for _, s := range sets { out = append(out, s...) }
	return out
}
// a font with n glyphs, one setting with 2 options, condition 0 (setting is 1), and the given sets
func ruleFont(n int, u8, g [][]byte) *ggfnt.Font {
	b := newFont()
	glyphs(b, n)
	_, err := b.AddSetting("one", "a", "b"); must(err)
	f := build(b)
	raw := append([]byte{}, f.Data[:f.OffsetToRewriteConditions]...)
	raw = append(raw, 1, 2, 0, 0b0110_0001, 0)
	raw = append(raw, table(u8)...)
	raw = append(raw, table(g)...)
	raw = append(raw, f.Data[f.OffsetToUtf8Rewrites:]...)
	f, err = ggfnt.Parse(bytes.NewReader(pack(raw))); must(err)
	return f
}
// elements: >= 0 literals, < 0 sets (-1 is set 0)
func fragments(block []int, size int) []byte {
	if len(block) == 0 { return []byte{0} }
	var out []byte
	for _, e := range block {
		if e < 0 { out = append(out, 0x10, byte(-e-1)); continue }
		out = append(out, 0x01)
		for i := 0; i < size; i++ { out = append(out, byte(e>>(8*i))) }
	}
	return out
}
func rule(cond int, head, body, tail, to []int, size int) []byte {
	out := []byte{byte(cond), byte(len(head)), byte(len(body)), byte(len(tail)), byte(len(to))}
	for _, e := range to { for i := 0; i < size; i++ { out = append(out, byte(e>>(8*i))) } }
	for _, b := range [][]int{head, body, tail} { out = append(out, fragments(b, size)...) }
	return out
}
func grule(cond int, head, body, tail, to []int) ggfnt.GlyphRewriteRule {
	var r ggfnt.GlyphRewriteRule
	r.Data = rule(cond, head, body, tail, to, 2)
	return r
}
func urule(cond int, head, body, tail, to []int) ggfnt.Utf8RewriteRule {
	var r ggfnt.Utf8RewriteRule
	r.Data = rule(cond, head, body, tail, to, 4)
	return r
}
func runG(t *rerules.GlyphTester, f *ggfnt.Font, c *ggfnt.SettingsCache, in ...int) string {
	must(t.BeginSequence(f, c))
	out := ""
	fn := func(g ggfnt.GlyphIndex) { out += fmt.Sprint(g, " ") }
	for _, g := range in { if g < 0 { t.Break(fn) } else { must(t.Feed(ggfnt.GlyphIndex(g), fn)) } }
	t.FinishSequence(fn)
	return out
}
func runU(t *rerules.Utf8Tester, f *ggfnt.Font, c *ggfnt.SettingsCache, in ...int) string {
	must(t.BeginSequence(f, c))
	out := ""
	fn := func(g rune) { out += fmt.Sprint(g, " ") }
	for _, g := range in { if g < 0 { t.Break(fn) } else { must(t.Feed(rune(g), fn)) } }
	t.FinishSequence(fn)
	return out
}
func expect(got, want string) { if got != want { fail("got %q, expected %q", got, want) } }
type L = []int
var _ = gset
var _ = u8set
'''
def dr(body, extra=""):
    return dz(body, RR+extra).replace('"github.com/tinne26/ggfnt/builder"\n','"github.com/tinne26/ggfnt/builder"\n\t"github.com/tinne26/ggfnt/rerules"\n',1)
def both(edits):
    """glyphrule edit also for utf8rule"""
    return edits
G="internal/rerules/glyphrule/"; U="internal/rerules/utf8rule/"
SEEDS=[
dict(id="s18-stale-index", property="C18",
 needs="rules with two conditions, and the removal, after a sequence, of a rule that precedes a rule with the other condition",
 breaks="decision trees that weren't edited aren't recompiled although the indices of their rules have changed",
 edits=[(G+"tester.go","""			tree.DecisionTree.states = compiler.Finish()

			// if no""","""			tree.DecisionTree.states, tree.NeedsResync = compiler.Finish(), false

			// if no""")],
 demo=dr('''f := ruleFont(10, nil, nil)
	c := ggfnt.NewSettingsCache(f); c.Set(0, 1)
	var t rerules.GlyphTester
	r0, r1, r2 := grule(0, nil, L{1}, nil, L{7}), grule(255, nil, L{2}, nil, L{8}), grule(255, nil, L{3}, nil, L{9})
	must(t.AddRule(r0)); must(t.AddRule(r1)); must(t.AddRule(r2))
	expect(runG(&t, f, c, 1, 2, 3), "7 8 9 ")
	t.RemoveRule(r0)
	expect(runG(&t, f, c, 1, 2, 3), "1 8 9 ")''')),
dict(id="s24-full-list", property="C24",
 needs="a glyph set whose list already has 255 elements",
 breaks="a set accepts a 256th list element and building panics later",
 edits=[("builder/font_builder_rewrite_sets.go","if len(set.list) >= 255 { return errors.New(\"glyph set can't contain more than 255 glyphs\") }","if len(set.list) > 255 { return errors.New(\"glyph set can't contain more than 255 glyphs\") }")],
 demo=d('''b := newFont(); u := glyphs(b, 127); u = append(u, glyphs(b, 127)...); u = append(u, glyphs(b, 2)...)
	s, err := b.CreateGlyphSet(); must(err)
	n := 0
	for _, g := range u { if b.AddGlyphSetListGlyph(s, g) == nil { n++ } }
	if n != 255 { fail("%d elements accepted", n) }
	build(b)''')),
dict(id="s22-pool", property="C22",
 needs="two testers of different goroutines that compile their rules at the same time",
 breaks="the shared compiler may be given to two goroutines at once",
 edits=[("internal/single_instance_pool.go","""	if atomic.CompareAndSwapUint32(&self.inUse, 0, 1) {
		return""","""	if atomic.LoadUint32(&self.inUse) == 0 {
		atomic.StoreUint32(&self.inUse, 1)
		return""")],
 demo=dr('''f := ruleFont(10, nil, nil)
	done := make(chan bool)
	for k := 0; k < 8; k++ {
		go func(k int) {
			defer func() { if e := recover(); e != nil { fail("panic: %v", e) } }()
			for n := 0; n < 3000; n++ {
				var t rerules.GlyphTester
				for i := 0; i < 6; i++ { must(t.AddRule(grule(255, nil, L{i, i, i + k%2}, nil, L{9}))) }
				expect(runG(&t, f, nil, 1, 1, 1 + k%2, 2), "9 2 ")
			}
			done <- true
		}(k)
	}
	for k := 0; k < 8; k++ { <-done }'''), flags=" -race"),
dict(id="s30-mask-cache", property="C30",
 needs="two goroutines that get masks of one font, or a caller that modifies a mask it got",
 breaks="the last mask is kept in a package variable without synchronization and given to several callers",
 edits=[("font.go","""	glyphMask, err := mask.Rasterize(self.Data[offsetToMasksData + startOffset : offsetToMasksData + endOffset])
	if err != nil { panic(err) }
	return glyphMask
}""","""	program := self.Data[offsetToMasksData + startOffset : offsetToMasksData + endOffset]
	if len(program) > 0 && lastMaskProgram == &program[0] { return lastMask }
	glyphMask, err := mask.Rasterize(program)
	if err != nil { panic(err) }
	if len(program) > 0 { lastMaskProgram, lastMask = &program[0], glyphMask }
	return glyphMask
}

var lastMaskProgram *byte
var lastMask *image.Alpha""")],
 demo=d('''b := newFont(); glyphs(b, 100)
	f := build(b)
	done := make(chan bool)
	for k := 0; k < 8; k++ {
		go func(k int) {
			for n := 0; n < 20000; n++ {
				i := (n*7 + k*31) % 100
				m := f.Glyphs().RasterizeMask(ggfnt.GlyphIndex(i))
				for q := 0; q < 7; q++ { // pixel q+1 of a 2 wide mask at (0, -4)
					want := uint8(0); if i>>q&1 == 1 { want = 255 }
					if m.AlphaAt((q+1)%2, (q+1)/2-4).A != want { fail("wrong mask for glyph %d", i) }
				}
			}
			done <- true
		}(k)
	}
	for k := 0; k < 8; k++ { <-done }'''), flags=" -race"),
dict(id="s12-many-pairs", property="C12",
 needs="more than 16383 kerning pairs",
 breaks="with many pairs the kerning values are read from a wrong place",
 edits=[("font.go","return int8(self.Data[self.OffsetToHorzKernings + 3 + (numPairs << 2) + uint32(minIndex)])","return int8(self.Data[self.OffsetToHorzKernings + 3 + uint32(uint16(numPairs << 2)) + uint32(minIndex)])")],
 demo=d('''b := newFont(); u := glyphs(b, 128); u = append(u, glyphs(b, 10)...)
	v := func(i, j int) int8 { return int8((i*5+j*3)%100 + 1) }
	for i, p := range u { for j, q := range u { b.SetKerningPair(p, q, v(i, j)) } }
	f := build(b)
	for i := range u { for j := range u { if k := f.Kerning().Get(ggfnt.GlyphIndex(i), ggfnt.GlyphIndex(j)); k != v(i, j) { fail("pair %d %d has %d", i, j, k) } } }''')),
dict(id="s28-century", property="C28",
 needs="February 29 of a year that is a multiple of 400",
 breaks="some leap years aren't recognized",
 edits=[("date.go","return year % 400 == 0","return year % 400 == 0 && year % 1600 != 800")],
 demo=d('''for _, y := range []uint16{400, 800, 1200, 1600, 2000, 2400, 4000} {
		date := ggfnt.Date{Year: y, Month: 2, Day: 29}
		if !date.IsValid() { fail("29 February %d isn't valid", y) }
	}''')),
dict(id="s29-hyphens", property="C29",
 needs="a name with two hyphens in a row just before its last character",
 breaks="consecutive hyphens near the end are accepted",
 edits=[("internal/parsing_buffer.go","			if prevIsHyphen {\n				return","			if prevIsHyphen && i + 2 != len(name) {\n				return")],
 demo=d('''b := newFont(); u := glyphs(b, 1)
	for _, n := range []string{"a--b", "abc--d", "a---b", "a--bcd"} { if b.SetGlyphName(u[0], n) == nil { fail("%s accepted", n) } }
	must(b.SetGlyphName(u[0], "a-b-c"))''')),
dict(id="s02-about", property="C02",
 needs="an about text of more than 32767 bytes",
 breaks="long about texts are cut",
 edits=[("font.go","	aboutLen := internal.DecodeUint16LE(self.Data[aboutIndex : aboutIndex + 2])","	aboutLen := internal.DecodeUint16LE(self.Data[aboutIndex : aboutIndex + 2]) & 0x7FFF")],
 demo=d('''b := newFont(); glyphs(b, 1)
	s := string(bytes.Repeat([]byte("about "), 8000))
	must(b.SetAbout(s))
	if f := build(b); f.Header().About() != s { fail("about has %d bytes", len(f.Header().About())) }''')),
dict(id="s03-colors-64", property="C03",
 needs="64 or more palette colors",
 breaks="the colors from the 64th on are read from the wrong place",
 edits=[("font.go","colorDataOffset := offsetToPaletteColors + (uint32(colorIndex) << 2)","colorDataOffset := offsetToPaletteColors + uint32(colorIndex << 2)")],
 demo=d('''b := newFont(); glyphs(b, 1)
	var colors []color.RGBA
	for i := 0; i < 100; i++ { colors = append(colors, color.RGBA{uint8(i), 1, 2, 3}) }
	must(b.AddPalette("p", colors...))
	i := 0
	build(b).Color().EachPaletteColor(0, func(c color.RGBA) { if int(c.R) != i { fail("color %d is %v", i, c) }; i++ })''').replace('"image"\n','"image"\n\t"image/color"\n',1)),
dict(id="s01-named-many", property="C01",
 needs="named glyphs whose names add up to more than 65535 bytes",
 breaks="fonts with a lot of named glyphs don't parse",
 edits=[("parse.go","if glyphNamesLen > uint32(numNamedGlyphs)*32 {","if glyphNamesLen > uint32(numNamedGlyphs*32) {")],
 demo=d('''b := newFont()
	for k := 0; k < 18; k++ {
		for i, u := range glyphs(b, 120) { must(b.SetGlyphName(u, fmt.Sprintf("%02d-%03d-abcdefghijklmnopqrstuvwxy", k, i))) }
	}
	f := build(b)
	g := reparse(f)
	if !bytes.Equal(f.Data, g.Data) { fail("data differs") }''')),
]

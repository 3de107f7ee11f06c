import os, runpy
_b=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b.py"))
d,dz,dr,G,U=_b["d"],_b["dz"],_b["dr"],_b["G"],_b["U"]
def imp(text, *pkgs):
    return text.replace('"bytes"\n','"bytes"\n'+"".join('\t"%s"\n' % p for p in pkgs),1)
EDITION='''
func num(out []byte, v uint64, n int) []byte { for i := 0; i < n; i++ { out = append(out, byte(v>>(8*i))) }; return out }
func edition(id uint64, sizes []int, values []int8, horz, vert [][3]int) []byte {
	p := num(nil, id, 8)
	p = append(p, byte(len(sizes)))
	for i := range sizes { s := fmt.Sprint("cat ", i); p = append(append(p, byte(len(s))), s...) }
	for _, s := range sizes { p = num(p, uint64(s), 2) }
	p = num(p, uint64(len(values)), 2)
	for i := range values { s := fmt.Sprint("class ", i); p = append(append(p, byte(len(s))), s...) }
	for _, v := range values { p = append(p, byte(v)) }
	for _, l := range [][][3]int{horz, vert} {
		p = num(p, uint64(len(l)), 4)
		for _, e := range l { for _, v := range e { p = num(p, uint64(v), 2) } }
	}
	p = append(p, 0)
	var buf bytes.Buffer
	buf.WriteString("wkgfnt")
	w := gzip.NewWriter(&buf); w.Write(p); must(w.Close())
	return buf.Bytes()
}
'''
SEEDS=[
dict(id="s14-pair-order", property="C14",
 needs="two kerning pairs with the same first glyph, and a visit of the map of pairs in another order",
 breaks="kerning pairs are only sorted by their first glyph, so the bytes depend on the order in which the map is visited",
 edits=[("builder/font_builder.go","""	slices.Sort(self.tempSortingBuffer)
	var prevPair uint32""","""	slices.SortStableFunc(self.tempSortingBuffer, func(a, b uint64) int { return int(a >> 16) - int(b >> 16) })
	var prevPair uint32""")],
 demo=d('''b := newFont(); u := glyphs(b, 6)
	for i := range u { b.SetKerningPair(u[0], u[i], int8(i+1)) }
	first := build(b).Data
	for k := 0; k < 40; k++ { if !bytes.Equal(build(b).Data, first) { fail("two builds differ") } }''')),
dict(id="s16-many-transitions", property="C16",
 needs="a state of the decision tree with more than 128 transitions: that many rules that begin with different glyphs",
 breaks="the search of a transition overflows and doesn't find glyphs or never ends",
 edits=[(G+"decision_tree_state.go","midIndex := (minIndex + maxIndex) >> 1 //","midIndex := int(uint8(minIndex + maxIndex) >> 1) //")],
 demo=dr('''f := ruleFont(4, nil, nil)
	t := &rerules.GlyphTester{}
	for i := 0; i < 150; i++ { must(t.AddRule(grule(255, nil, L{2*i}, nil, L{2*i + 1}))) }
	go func() { time.Sleep(20*time.Second); fail("it doesn't end") }()
	for i := 0; i < 150; i++ { expect(runG(t, f, ggfnt.NewSettingsCache(f), 2*i), fmt.Sprint(2*i + 1, " ")) }''').replace('"os"\n','"os"\n\t"time"\n',1)),
dict(id="s16-reuse", property="C16",
 needs="three or more rules with overlapping prefixes, so that states for different sets of rules of one size exist at one depth",
 breaks="a state of the decision tree is shared although it stands for other rules, so rules that don't match are applied",
 edits=[(G+"decision_tree_compiler.go","""			if i < comparisonRulePosition {
				if ruleIndex != rules[i] { continue outerLoop }
			} else if i == comparisonRulePosition {""","""			if i < comparisonRulePosition - 1 {
				if ruleIndex != rules[i] { continue outerLoop }
			} else if i == comparisonRulePosition {""")],
 demo=dr('''f := ruleFont(40, nil, [][]byte{gset(nil, 1, 2, 3, 4), gset(nil, 1), gset(nil, 2)})
	c := ggfnt.NewSettingsCache(f)
	t := &rerules.GlyphTester{}
	rules := [][2]int{{-1, 10}, {-2, 11}, {-3, 12}}
	// orders, sets and second elements
	for mask := 0; mask < 6; mask++ {
		perm := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[mask]
		t.RemoveAllRules()
		for _, k := range perm { must(t.AddRule(grule(255, nil, L{rules[k][0], rules[k][1]}, nil, L{20 + k}))) }
		for a := 0; a < 6; a++ {
			for b := 9; b < 14; b++ {
				want := fmt.Sprint(a, " ", b, " ")
				for k := range rules {
					in := [][]int{{1, 2, 3, 4}, {1}, {2}}[k]
					for _, g := range in { if g == a && b == rules[k][1] { want = fmt.Sprint(20+k, " ") } }
				}
				expect(runG(t, f, c, a, b), want)
			}
		}
	}
	// one rule first, with the other ones in the states that follow
	t.RemoveAllRules()
	must(t.AddRule(grule(255, nil, L{1, 10}, nil, L{20})))
	must(t.AddRule(grule(255, nil, L{2, 11}, nil, L{21})))
	must(t.AddRule(grule(255, nil, L{-1, 12}, nil, L{22})))
	for a := 1; a < 5; a++ {
		for b := 9; b < 14; b++ {
			want := fmt.Sprint(a, " ", b, " ")
			if a == 1 && b == 10 { want = "20 " }
			if a == 2 && b == 11 { want = "21 " }
			if b == 12 { want = "22 " }
			expect(runG(t, f, c, a, b), want)
		}
	}''')),
dict(id="s19-break-once", property="C19",
 needs="a sequence broken or finished with three or more elements pending, whose rest matches a rule after two of them are reported",
 breaks="breaking a sequence only looks for one more match in what is pending",
 edits=[(G+"tester.go","""			self.rewrite(matchRuleIndex, fn)
		}
		for self.rerunDetection(fn) {}
	}

	// anything left""","""			self.rewrite(matchRuleIndex, fn)
		}
		self.rerunDetection(fn)
	}

	// anything left""")],
 demo=dr('''f := ruleFont(40, nil, nil)
	c := ggfnt.NewSettingsCache(f)
	t := &rerules.GlyphTester{}
	must(t.AddRule(grule(255, nil, L{1, 2, 3, 4, 5, 6, 7, 8}, nil, L{20})))
	must(t.AddRule(grule(255, nil, L{4, 5}, nil, L{21})))
	must(t.AddRule(grule(255, nil, L{6, 7}, nil, L{22})))
	expect(runG(t, f, c, 1, 2, 3, 4, 5, 6, 7), "1 2 3 21 22 ")''')),
dict(id="s21-shared-cache", property="C21",
 needs="a settings cache shared by two testers, one of which evaluates a condition after a setting changed before the other refreshes",
 breaks="refreshing skips the conditions that the settings cache already holds, though this tester may have an older value",
 edits=[(G+"tester.go","""		satisfied := self.testCondition(condition, font, settingsCache)
		self.trees[i].ConditionCachedValue = satisfied
		self.trees[i].ConditionIsCached = true
	}

	// make""","""		known := false
		if self.trees[i].ConditionIsCached && condition != 255 { _, known = settingsCache.GetRewriteCondition(condition) }
		if !known {
			self.trees[i].ConditionCachedValue = self.testCondition(condition, font, settingsCache)
			self.trees[i].ConditionIsCached = true
		}
	}

	// make""")],
 demo=dr('''f := ruleFont(40, nil, nil)
	c := ggfnt.NewSettingsCache(f)
	t, o := &rerules.GlyphTester{}, &rerules.GlyphTester{}
	must(t.AddRule(grule(0, nil, L{1}, nil, L{20})))
	must(o.AddRule(grule(0, nil, L{1}, nil, L{20})))
	on, off := "20 ", "1 "
	for k := 0; k < 6; k++ {
		want := off; if k&1 == 1 { want = on }
		c.Set(0, uint8(k&1))
		a, b := t, o
		if k >= 3 { a, b = o, t }
		expect(runG(a, f, c, 1), want)
		expect(runG(b, f, c, 1), want)
	}''')),
dict(id="s23-long-list", property="C23",
 needs="a code point set with a list of more than 63 elements",
 breaks="the elements of long lists of a set are read from a wrong place",
 edits=[("font.go","dataIndex := elemsIndex + 1 + (i << 2)","dataIndex := elemsIndex + 1 + int(uint8(i << 2))")],
 demo=dr('''var l []int
	for i := 0; i < 100; i++ { l = append(l, 1000 + 3*i) }
	f := ruleFont(4, [][]byte{u8set(nil, l...)}, nil)
	i := 0
	s := f.Rewrites().GetUtf8Set(0)
	must(s.EachListRune(func(r rune) error { if int(r) != l[i] { fail("element %d is %d", i, r) }; i++; return nil }))
	if i != 100 { fail("%d elements", i) }
	_ = rerules.GlyphTester{}''')),
dict(id="s23-equals", property="C23",
 needs="two rules that only differ in their condition",
 breaks="rules with different conditions compare equal",
 edits=[("font.go","""func (self *GlyphRewriteRule) Equals(other GlyphRewriteRule) bool {
	if len(self.Data) != len(other.Data) { return false }
	for i := 0;""","""func (self *GlyphRewriteRule) Equals(other GlyphRewriteRule) bool {
	if len(self.Data) != len(other.Data) { return false }
	for i := 1;""")],
 demo=dr('''a, b := grule(255, nil, L{1}, nil, L{20}), grule(0, nil, L{1}, nil, L{20})
	if a.Equals(b) || b.Equals(a) || !a.Equals(a) { fail("rules with different conditions are equal") }
	_ = rerules.GlyphTester{}''')),
dict(id="s25-palette-alias", property="C25",
 needs="a caller that reuses the slice of colors it passed to AddPalette before building",
 breaks="the builder keeps the slice of the caller when its capacity is exact, instead of a copy",
 edits=[("builder/font_builder_color.go","""	paletteSection.colors = make([]color.RGBA, len(colors))
	copy(paletteSection.colors, colors)
""","""	paletteSection.colors = colors[ : len(colors) : len(colors)] // full slice, appends can't affect it
""")],
 demo=imp(d('''b := newFont(); glyphs(b, 1)
	l := []color.RGBA{{1, 2, 3, 255}, {4, 5, 6, 255}}
	must(b.AddPalette("one", l...))
	l[0] = color.RGBA{9, 9, 9, 255}
	must(b.AddPalette("two", l...))
	i := 0
	f := build(b)
	must(b.EachPaletteColor("one", func(c color.RGBA, _ uint8) { if i == 0 && c.R != 1 { fail("palette changed with the slice: %v", c) }; i++ }))
	_ = f'''),"image/color")),
dict(id="s26-vert", property="C26",
 needs="edition data with a vertical pair of the same glyphs as a horizontal one",
 breaks="a vertical kerning class is given to the horizontal pair with the same glyphs",
 edits=[("builder/font_builder.go","kerningPair, found := self.vertKerningPairs[[2]uint64{first, second}]","kerningPair, found := self.horzKerningPairs[[2]uint64{first, second}]")],
 demo=imp(d('''b := newFont(); u := glyphs(b, 3)
	b.SetKerningPair(u[0], u[1], 4)
	must(b.ParseEditionData(bytes.NewReader(edition(b.GetFontID(), nil, []int8{7, -9}, [][3]int{{1, 2, 1}}, [][3]int{{0, 1, 2}}))))
	f := build(b)
	if f.Kerning().Get(0, 1) != 4 || f.Kerning().Get(1, 2) != 7 || f.Kerning().GetVert(0, 1) != -9 { fail("kerning: %d %d %d", f.Kerning().Get(0, 1), f.Kerning().Get(1, 2), f.Kerning().GetVert(0, 1)) }''',EDITION),"compress/gzip")),
dict(id="s26-index", property="C26",
 needs="edition data with a pair whose second glyph has an index above 32767",
 breaks="glyph indices of pairs are read as signed numbers, so valid data for big fonts fails",
 edits=[("builder/font_builder.go","""		first  := self.glyphOrder[firstIndex]
		second := self.glyphOrder[secondIndex]
		kerningPair, found := self.horzKerningPairs[[2]uint64{first, second}]""","""		first  := self.glyphOrder[firstIndex]
		second := self.glyphOrder[secondIndex & 0x7FFF]
		kerningPair, found := self.horzKerningPairs[[2]uint64{first, second}]""")],
 demo=imp(d('''b := newFont(); glyphs(b, 40000)
	must(b.ParseEditionData(bytes.NewReader(edition(b.GetFontID(), nil, []int8{7}, [][3]int{{1, 39000, 1}}, nil))))
	f := build(b)
	if f.Kerning().Get(1, 39000) != 7 { fail("kerning: %d", f.Kerning().Get(1, 39000)) }''',EDITION),"compress/gzip")),
dict(id="s27-peek-wrap", property="C27",
 needs="a buffer of more than 32768 elements with a peek beyond the end of its memory",
 breaks="peeks in big buffers read the wrong element when the index overflows",
 edits=[("internal/circular_buffer.go","return self.numPeeks - (self.capacity - self.headIndex)","return index")],
 demo=imp(d('''var c internal.CircularBufferU16[int]
	c.SetCapacity(60000)
	for i := 0; i < 60000; i++ { c.Push(i) }
	for i := 0; i < 50000; i++ { c.PopHead() }
	for i := 0; i < 40000; i++ { c.Push(60000 + i) }
	for i := 50001; i < 100000; i++ {
		v, ok := c.PeekAhead()
		if !ok || v != i { fail("peeked %d, expected %d", v, i) }
	}'''),"github.com/tinne26/ggfnt/internal")),
]

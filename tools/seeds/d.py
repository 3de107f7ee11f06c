import os, runpy
_b=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),"b.py"))
d,dz,dr,G,U=_b["d"],_b["dz"],_b["dr"],_b["G"],_b["U"]
SEEDS=[
dict(id="s17-copy-alias", property="C17",
 needs="a code point rule with a set that overlaps the literal of an earlier rule at a position that isn't the first, so that a state is copied and then extended",
 breaks="a copied state of the decision tree shares its transitions with the original one, so what is added to one shows up in the other",
 edits=[(U+"decision_tree_state.go","""	numTransitions := len(other.Transitions)
	self.Transitions = internal.SetSliceSize(self.Transitions, numTransitions)
	copy(self.Transitions, other.Transitions)
""","""	self.Transitions = append(other.Transitions[ : 0], other.Transitions...)
""")],
 demo=dr('''f := ruleFont(4, [][]byte{u8set(nil, 'a', 'b'), u8set(nil, 'a')}, nil)
	c := ggfnt.NewSettingsCache(f)
	t := &rerules.Utf8Tester{}
	must(t.AddRule(urule(255, nil, L{-1, 'c', 'x'}, nil, L{'1'})))
	must(t.AddRule(urule(255, nil, L{'a', 'c', 'y'}, nil, L{'2'})))
	for _, a := range []int{'a', 'b', 'c'} {
		for _, z := range []int{'x', 'y', 'z'} {
			want := fmt.Sprint(a, " ", 'c', " ", z, " ")
			if a != 'c' && z == 'x' { want = fmt.Sprint('1', " ") }
			if a == 'a' && z == 'y' { want = fmt.Sprint('2', " ") }
			expect(runU(t, f, c, a, 'c', z), want)
		}
	}''')),
dict(id="s17-split-match", property="C17",
 needs="a code point rule that ends with a set, and a later rule with an element inside of it at the same position",
 breaks="the second half of a split range forgets which rule it completes",
 edits=[(U+"decision_tree_state.go","""	self.Transitions[newTransIndex].RuleMatch = self.Transitions[transIndex].RuleMatch
""","""	self.Transitions[newTransIndex].RuleMatch = RuleNone
	if self.Transitions[newTransIndex].NextState == StateNone {
		self.Transitions[newTransIndex].RuleMatch = self.Transitions[transIndex].RuleMatch
	}
""")],
 demo=dr('''f := ruleFont(4, [][]byte{u8set([][2]int{{'a', 9}})}, nil)
	c := ggfnt.NewSettingsCache(f)
	t := &rerules.Utf8Tester{}
	must(t.AddRule(urule(255, nil, L{-1}, nil, L{'1'})))
	must(t.AddRule(urule(255, nil, L{-1, 'x'}, nil, L{'2'})))
	must(t.AddRule(urule(255, nil, L{'d', 'y'}, nil, L{'3'})))
	for a := 'a'; a <= 'j'; a++ {
		expect(runU(t, f, c, int(a)), fmt.Sprint('1', " "))
		expect(runU(t, f, c, int(a), 'z'), fmt.Sprint('1', " ", 'z', " "))
		expect(runU(t, f, c, int(a), 'x'), fmt.Sprint('2', " "))
	}
	expect(runU(t, f, c, 'd', 'y'), fmt.Sprint('3', " "))''')),
dict(id="s18-swap-remove", property="C18",
 needs="three or more rules of which one that isn't among the last two is removed, and a sequence that two of the rest match with the same length",
 breaks="a removed rule is replaced by the last one, so the order of the rules changes and another one is preferred",
 edits=[(U+"tester.go","""			self.rules = internal.DeleteElementAt(self.rules, i)
""","""			lastIndex := len(self.rules) - 1
			self.rules[i] = self.rules[lastIndex]
			self.rules = self.rules[ : lastIndex]
""")],
 demo=dr('''f := ruleFont(4, [][]byte{u8set([][2]int{{'a', 9}})}, nil)
	c := ggfnt.NewSettingsCache(f)
	t := &rerules.Utf8Tester{}
	list := []ggfnt.Utf8RewriteRule{urule(255, nil, L{'x'}, nil, L{'1'}), urule(255, nil, L{'b'}, nil, L{'2'}), urule(255, nil, L{-1}, nil, L{'3'})}
	for _, r := range list { must(t.AddRule(r)) }
	expect(runU(t, f, c, 'b', 'c'), fmt.Sprint('2', " ", '3', " "))
	if !t.RemoveRule(list[0]) { fail("rule not found") }
	expect(runU(t, f, c, 'b', 'c'), fmt.Sprint('2', " ", '3', " "))''')),
dict(id="s20-out-len", property="C20",
 needs="a glyph rule with a head whose output is longer than its body",
 breaks="the check of the output length is only made for rules without a head",
 edits=[(G+"rule_scanner.go","""	if rule.BodyLen() < rule.OutLen() { return rerules.ErrInvalidReRule }
""","""	if rule.HeadLen() == 0 && rule.BodyLen() < rule.OutLen() { return rerules.ErrInvalidReRule }
""")],
 demo=dr('''f := ruleFont(40, nil, nil)
	c := ggfnt.NewSettingsCache(f)
	for _, head := range []L{nil, L{5}, L{5, 6}} {
		t := &rerules.GlyphTester{}
		must(t.AddRule(grule(255, head, L{1, 2}, nil, L{10, 11})))
		must(t.BeginSequence(f, c))
		t.FinishSequence(func(ggfnt.GlyphIndex){})
		err := t.AddRule(grule(255, head, L{1}, nil, L{10, 11, 12}))
		if err == nil { err = t.BeginSequence(f, c) }
		if err == nil { fail("rule with a long output accepted") }
	}''')),
dict(id="s20-sum", property="C20",
 needs="a code point rule whose blocks have 256 or more elements together, with a set without elements, so that no limit is hit before",
 breaks="the sum of the lengths of the blocks isn't checked for the tail, and the depth overflows",
 edits=[(U+"rule_scanner.go","""	if rule.Data[3] > lenSum { return rerules.InvalidUtf8RuleErr(rule) }
""","""	if rule.Data[1] > lenSum { return rerules.InvalidUtf8RuleErr(rule) }
""")],
 demo=dr('''f := ruleFont(40, [][]byte{u8set(nil)}, nil)
	c := ggfnt.NewSettingsCache(f)
	long := func(n int) L { l := make(L, n); for i := range l { l[i] = -1 }; return l }
	for _, n := range [][3]int{{0, 254, 1}, {0, 255, 1}, {100, 100, 54}, {100, 100, 100}, {0, 1, 255}} {
		t := &rerules.Utf8Tester{}
		err := t.AddRule(urule(255, long(n[0]), long(n[1]), long(n[2]), L{'a'}))
		if err == nil { err = t.BeginSequence(f, c) }
		if (n[0] + n[1] + n[2] > 255) != (err != nil) { fail("lengths %v: error %v", n, err) }
	}''')),
dict(id="s25-set-bytes", property="C25",
 needs="glyph sets with more than 65535 bytes together: at least 52 sets, nearly full",
 breaks="the limit is applied to the size of each set instead of to the end offset, which is cut to 16 bits",
 edits=[("builder/font_builder.go","""			if offset > 65535 {
				return nil, errors.New("rewrite glyph sets""","""			if set.GetSize() > 65535 {
				return nil, errors.New("rewrite glyph sets""")],
 demo=d('''b := newFont(); u := glyphs(b, 300)
	for i := 0; i < 60; i++ {
		s, err := b.CreateGlyphSet(); must(err)
		for k := 0; k < 255; k++ { must(b.AddGlyphSetRange(s, u[k], u[k+1])); must(b.AddGlyphSetListGlyph(s, u[k])) }
		f, err := b.Build()
		if err != nil { if i < 51 { fail("%d sets: %v", i + 1, err) }; continue }
		f = reparse(f)
		n := 0
		gs := f.Rewrites().GetGlyphSet(uint8(i))
		must(gs.EachListGlyph(func(g ggfnt.GlyphIndex) error { if int(g) != n { fail("set %d: got %d", i, g) }; n++; return nil }))
		if n != 255 { fail("set %d has %d glyphs", i, n) }
	}''')),
]

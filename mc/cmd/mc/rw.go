package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/internal"
	"github.com/tinne26/ggfnt/rerules"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

// Common parts of the checks of rule testers (C16 to C21). Both kinds of
// testers are driven through one interface, on symbols.

type rwTester interface {
	add(data []byte) error
	remove(data []byte) bool
	removeAll()
	numRules() int
	operating() bool
	pending() int
	resync(f *ggfnt.Font, c *ggfnt.SettingsCache) error
	refresh(f *ggfnt.Font, c *ggfnt.SettingsCache)
	begin(f *ggfnt.Font, c *ggfnt.SettingsCache) error
	feed(v uint32, fn func(uint32)) error
	brk(fn func(uint32))
	finish(fn func(uint32))
}

type rwGlyph struct{ t rerules.GlyphTester }

func (g *rwGlyph) add(d []byte) error {
	return g.t.AddRule(ggfnt.GlyphRewriteRule(internal.RawBlock{Data: d}))
}
func (g *rwGlyph) remove(d []byte) bool {
	return g.t.RemoveRule(ggfnt.GlyphRewriteRule(internal.RawBlock{Data: d}))
}
func (g *rwGlyph) removeAll()      { g.t.RemoveAllRules() }
func (g *rwGlyph) numRules() int   { return g.t.NumRules() }
func (g *rwGlyph) operating() bool { return g.t.IsOperating() }
func (g *rwGlyph) pending() int    { return g.t.NumPendingGlyphs() }
func (g *rwGlyph) resync(f *ggfnt.Font, c *ggfnt.SettingsCache) error {
	return g.t.Resync(f, c)
}
func (g *rwGlyph) refresh(f *ggfnt.Font, c *ggfnt.SettingsCache) { g.t.RefreshConditions(f, c) }
func (g *rwGlyph) begin(f *ggfnt.Font, c *ggfnt.SettingsCache) error {
	return g.t.BeginSequence(f, c)
}
func (g *rwGlyph) feed(v uint32, fn func(uint32)) error {
	return g.t.Feed(ggfnt.GlyphIndex(v), func(i ggfnt.GlyphIndex) { fn(uint32(i)) })
}
func (g *rwGlyph) brk(fn func(uint32)) {
	g.t.Break(func(i ggfnt.GlyphIndex) { fn(uint32(i)) })
}
func (g *rwGlyph) finish(fn func(uint32)) {
	g.t.FinishSequence(func(i ggfnt.GlyphIndex) { fn(uint32(i)) })
}

type rwRune struct{ t rerules.Utf8Tester }

func (g *rwRune) add(d []byte) error {
	return g.t.AddRule(ggfnt.Utf8RewriteRule(internal.RawBlock{Data: d}))
}
func (g *rwRune) remove(d []byte) bool {
	return g.t.RemoveRule(ggfnt.Utf8RewriteRule(internal.RawBlock{Data: d}))
}
func (g *rwRune) removeAll()      { g.t.RemoveAllRules() }
func (g *rwRune) numRules() int   { return g.t.NumRules() }
func (g *rwRune) operating() bool { return g.t.IsOperating() }
func (g *rwRune) pending() int    { return g.t.NumPendingRunes() }
func (g *rwRune) resync(f *ggfnt.Font, c *ggfnt.SettingsCache) error {
	return g.t.Resync(f, c)
}
func (g *rwRune) refresh(f *ggfnt.Font, c *ggfnt.SettingsCache) { g.t.RefreshConditions(f, c) }
func (g *rwRune) begin(f *ggfnt.Font, c *ggfnt.SettingsCache) error {
	return g.t.BeginSequence(f, c)
}
func (g *rwRune) feed(v uint32, fn func(uint32)) error {
	return g.t.Feed(rune(v), func(i rune) { fn(uint32(i)) })
}
func (g *rwRune) brk(fn func(uint32))    { g.t.Break(func(i rune) { fn(uint32(i)) }) }
func (g *rwRune) finish(fn func(uint32)) { g.t.FinishSequence(func(i rune) { fn(uint32(i)) }) }

// rwKind is glyphs or runes. Symbol s stands for the glyph or rune base+s.
// With a table, it is table[s] instead.
type rwKind struct {
	wide  bool
	base  uint32
	name  string
	table []uint32
}

var (
	rwGlyphs = &rwKind{false, 0, "glyphs", nil}
	rwRunes  = &rwKind{true, 0xFF7E, "runes", nil} // the symbols 130 and up are beyond 0xFFFF
)

func (k *rwKind) tester() rwTester {
	if k.wide {
		return &rwRune{}
	}
	return &rwGlyph{}
}

func (k *rwKind) value(s uint8) uint32 {
	if k.table != nil {
		return k.table[s]
	}
	return k.base + uint32(s)
}

// The set menu (rwSetDefs): all intervals of the symbols 1..5 and these:

// indices of the sets after the intervals
const (
	rwList   = iota + 15 // 2 and 3, as elements
	rwGap                // ranges 1 and 3-4
	rwOver               // ranges 1-3 and 2-4, element 2: overlaps
	rwMixed              // range 3-5, elements 1 and 4
	rwEmpty              // nothing
	rwWide               // range 0-200
	rwDesc               // ranges 4-5, 1-2 in descending order
	rwSingle             // element 1, twice
	rwNumSets
)

func rwInterval(a, b int) uint32 {
	i := uint32(0)
	for p := 1; p <= 5; p++ {
		for q := p; q <= 5; q++ {
			if p == a && q == b {
				return i
			}
			i++
		}
	}
	panic("harness: interval")
}

type rwSetDef struct {
	ranges [][2]uint8
	list   []uint8
}

func rwSetDefs() []rwSetDef {
	var s []rwSetDef
	for p := uint8(1); p <= 5; p++ {
		for q := p; q <= 5; q++ {
			s = append(s, rwSetDef{ranges: [][2]uint8{{p, q}}})
		}
	}
	return append(s,
		rwSetDef{nil, []uint8{2, 3}},
		rwSetDef{[][2]uint8{{1, 1}, {3, 4}}, nil},
		rwSetDef{[][2]uint8{{1, 3}, {2, 4}}, []uint8{2}},
		rwSetDef{[][2]uint8{{3, 5}}, []uint8{1, 4}},
		rwSetDef{},
		rwSetDef{[][2]uint8{{0, 200}}, nil},
		rwSetDef{[][2]uint8{{4, 5}, {1, 2}}, nil},
		rwSetDef{nil, []uint8{1, 1}},
	)
}

// rwEnv is a font with the sets of the menu.
type rwEnv struct {
	kind *rwKind
	font *ggfnt.Font
	sets []spec.Syms
}

var rwEnvs [2]*rwEnv
var rwOnce sync.Once

// rwFont describes the font with the set menu, for both kinds.
func rwFont() *spec.Font {
	f := spec.New(260)
	f.Settings = []spec.Setting{{Name: "one", Options: []string{"off", "on"}}, {Name: "two", Options: []string{"a", "b", "c"}}}
	// 0: one == on; 1: one == off; 2: two > a; 3: one == on and two == b
	f.Conditions = [][]byte{{0b011_00001, 0}, {0b011_00000, 0}, {0b110_00000, 1}, {0b001_00010, 0b011_00001, 0, 0b011_00001, 1}}
	for _, d := range rwSetDefs() {
		var g spec.GlyphSet
		var r spec.RuneSet
		for _, p := range d.ranges {
			g.Ranges = append(g.Ranges, spec.GRange{First: uint16(rwGlyphs.value(p[0])), Extra: p[1] - p[0]})
			r.Ranges = append(r.Ranges, spec.RRange{First: rune(rwRunes.value(p[0])), Extra: p[1] - p[0]})
		}
		for _, v := range d.list {
			g.List = append(g.List, uint16(rwGlyphs.value(v)))
			r.List = append(r.List, rune(rwRunes.value(v)))
		}
		f.GlyphSets = append(f.GlyphSets, g)
		f.RuneSets = append(f.RuneSets, r)
	}
	return f
}

// rwHolds is the meaning of the conditions of rwFont.
func rwHolds(cond uint8, one, two uint8) bool {
	switch cond {
	case 0:
		return one == 1
	case 1:
		return one == 0
	case 2:
		return two > 0
	case 3:
		return one == 1 && two == 1
	}
	return cond == 255
}

func rwSyms() (out []spec.Syms) {
	for _, d := range rwSetDefs() {
		var s spec.Syms
		for _, p := range d.ranges {
			for v := int(p[0]); v <= int(p[1]); v++ {
				s.Add(uint8(v))
			}
		}
		for _, v := range d.list {
			s.Add(v)
		}
		out = append(out, s)
	}
	return out
}

func rwEnvOf(k *rwKind) *rwEnv {
	rwOnce.Do(func() {
		font := rwFont().MustParse()
		rwEnvs[0] = &rwEnv{rwGlyphs, font, rwSyms()}
		rwEnvs[1] = &rwEnv{rwRunes, font, rwSyms()}
	})
	if k.wide {
		return rwEnvs[1]
	}
	return rwEnvs[0]
}

// rwRule is a rule on symbols: its model and its encoding.
type rwRule struct {
	text  string
	cond  uint8
	model spec.RwRule
	data  []byte
}

func (e *rwEnv) rule(r spec.Rule) *rwRule {
	out := &rwRule{cond: r.Cond}
	var enc spec.Rule
	enc.Cond = r.Cond
	conv := func(list []spec.Elem) (res []spec.Elem) {
		for _, el := range list {
			if el.Set {
				out.model.In = append(out.model.In, e.sets[el.Value])
			} else {
				var s spec.Syms
				s.Add(uint8(el.Value))
				out.model.In = append(out.model.In, s)
				el.Value = e.kind.value(uint8(el.Value))
			}
			res = append(res, el)
		}
		return res
	}
	enc.Head, enc.Body, enc.Tail = conv(r.Head), conv(r.Body), conv(r.Tail)
	out.model.Head, out.model.Body, out.model.Tail = len(r.Head), len(r.Body), len(r.Tail)
	for _, o := range r.Out {
		enc.Out = append(enc.Out, e.kind.value(uint8(o)))
	}
	out.model.Out = enc.Out
	out.data = spec.RuleBytes(&enc, e.kind.wide)
	if e.kind.table != nil {
		out.text = fmt.Sprintf("[%s |%s |%s ] -> %#x", rwFarText(e.kind, r.Head), rwFarText(e.kind, r.Body), rwFarText(e.kind, r.Tail), enc.Out)
	} else {
		out.text = rwText(&r)
	}
	return out
}

func rwText(r *spec.Rule) string {
	one := func(l []spec.Elem) (s string) {
		for _, e := range l {
			if e.Set {
				d := rwSetDefs()[e.Value]
				s += fmt.Sprintf(" {%v %v}", d.ranges, d.list)
			} else {
				s += fmt.Sprintf(" %d", e.Value)
			}
		}
		return s
	}
	if len(r.Head)+len(r.Body)+len(r.Tail) > 20 {
		return fmt.Sprintf("head %d body %d tail %d", len(r.Head), len(r.Body), len(r.Tail))
	}
	c := ""
	if r.Cond != 255 {
		c = fmt.Sprintf(" if %d", r.Cond)
	}
	return fmt.Sprintf("[%s |%s |%s ] -> %v%s", one(r.Head), one(r.Body), one(r.Tail), r.Out, c)
}

// rwSplits calls fn with all rules for an input: all splits in head, body and
// tail. The outputs have the length of the body, with values from out.
func rwSplits(in []spec.Elem, out []uint32, fn func(r spec.Rule)) {
	n := len(in)
	for h := 0; h < n; h++ {
		for t := 0; h+t < n; t++ {
			r := spec.Rule{Cond: 255, Head: in[:h:h], Body: in[h : n-t : n-t], Tail: in[n-t:]}
			for i := range r.Body {
				r.Out = append(r.Out, out[i%len(out)])
			}
			fn(r)
		}
	}
}

// rwInputs calls fn with all inputs of a length over an alphabet of elements.
func rwInputs(n int, alphabet []spec.Elem, fn func(in []spec.Elem)) {
	in := make([]spec.Elem, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			fn(append([]spec.Elem(nil), in...))
			return
		}
		for _, e := range alphabet {
			in[i] = e
			rec(i + 1)
		}
	}
	rec(0)
}

// rwAll returns all rules with inputs of the lengths, over the alphabet.
func rwAll(minLen, maxLen int, alphabet []spec.Elem, out []uint32) (list []spec.Rule) {
	for n := minLen; n <= maxLen; n++ {
		rwInputs(n, alphabet, func(in []spec.Elem) {
			rwSplits(in, out, func(r spec.Rule) { list = append(list, r) })
		})
	}
	return list
}

func rwElems(syms []uint32, sets []uint32) (out []spec.Elem) {
	for _, v := range syms {
		out = append(out, spec.V(v))
	}
	for _, s := range sets {
		out = append(out, spec.S(s))
	}
	return out
}

// rwSeqs returns all sequences of up to n symbols.
func rwSeqs(n int, syms ...uint8) (out [][]uint8) {
	level := [][]uint8{{}}
	for i := 0; i < n; i++ {
		var next [][]uint8
		for _, s := range level {
			for _, v := range syms {
				next = append(next, append(append([]uint8(nil), s...), v))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// rwRun drives sequences through a tester and compares with the model.
type rwRun struct {
	x     *X
	env   *rwEnv
	t     rwTester
	rules []*rwRule
	cache *ggfnt.SettingsCache
	model []spec.RwRule // the active ones
	ctx   string

	got, want []uint32
	steps     []spec.RwStep
	at        []int
	hash      uint64
	emit      func(uint32)
	skipped   bool
}

func newRwRun(x *X, env *rwEnv, t rwTester, rules []*rwRule) *rwRun {
	r := &rwRun{x: x, env: env, t: t, rules: rules}
	r.emit = func(v uint32) { r.got = append(r.got, v) }
	r.setModel(func(*rwRule) bool { return true })
	return r
}

func (r *rwRun) setModel(active func(*rwRule) bool) {
	r.model = r.model[:0]
	for _, rule := range r.rules {
		if active(rule) {
			r.model = append(r.model, rule.model)
		}
	}
}

func (r *rwRun) describe() string {
	s := ""
	for _, rule := range r.rules {
		s += rule.text + "; "
	}
	if len(r.rules) > 8 {
		s = fmt.Sprintf("%d rules", len(r.rules))
	}
	return s + r.ctx
}

// plan computes the expected behaviour for a part of a sequence.
func (r *rwRun) plan(seq []uint8) bool {
	var amb bool
	r.want, r.steps, amb = spec.Rewrite(r.model, seq, r.env.kind.value, r.want[:0], r.steps[:0])
	r.at = r.at[:0]
	for i := 0; i <= len(seq); i++ {
		r.at = append(r.at, -1)
	}
	for _, s := range r.steps {
		r.at[s.Taken] = s.Emitted
	}
	return !amb
}

// check compares what has been reported after fed elements.
func (r *rwRun) check(seq []uint8, fed int, when string) {
	p := r.t.pending()
	if p < 0 || p > fed || r.at[fed-p] != len(r.got) {
		r.x.Failf("%s | sequence %v, %s %d: reported %v with %d pending, expected to report %v", r.describe(), seq, when, fed, r.got, p, r.want)
	}
	for i, v := range r.got {
		if v != r.want[i] {
			r.x.Failf("%s | sequence %v, %s %d: reported %v, expected %v", r.describe(), seq, when, fed, r.got, r.want)
		}
	}
}

func (r *rwRun) feedAll(seq []uint8) {
	for i, s := range seq {
		if err := r.t.feed(r.env.kind.value(s), r.emit); err != nil {
			r.x.Failf("%s | sequence %v: Feed of element %d fails: %v", r.describe(), seq, i, err)
		}
		r.check(seq, i+1, "after element")
	}
	r.x.Steps(len(seq))
}

func (r *rwRun) flushed(seq []uint8, what string) {
	if r.t.pending() != 0 || len(r.got) != len(r.want) {
		r.x.Failf("%s | sequence %v, after %s: reported %v with %d pending, expected %v and none", r.describe(), seq, what, r.got, r.t.pending(), r.want)
	}
	r.check(seq, len(seq), "after "+what)
	for _, v := range r.got {
		r.hash = (r.hash ^ uint64(v)) * 1099511628211
	}
	r.hash = (r.hash ^ 0xFFFFF) * 1099511628211
}

// mayLimit ends the execution if rules were rejected for needing too many
// states or transitions and they do need more than half of the maximum.
func (r *rwRun) mayLimit(err error) {
	if strings.Contains(err.Error(), "limit") {
		var all []spec.RwRule
		for _, rule := range r.rules {
			all = append(all, rule.model)
		}
		states, fan := spec.RwStates(all, 254)
		if states > 254 || fan > 254 {
			r.x.Count("rule lists beyond the compiler limits")
			r.x.Prune()
		}
		r.ctx += fmt.Sprintf(" (needs %d states with %d transitions)", states, fan)
	}
}

// sequence runs one whole sequence.
func (r *rwRun) sequence(seq []uint8) {
	if !r.plan(seq) {
		r.skipped = true
		return
	}
	defer func() {
		if p := recover(); p != nil {
			explore.Rethrow(p)
			r.x.Failf("%s | sequence %v, reported %v so far, expected %v: panic: %v", r.describe(), seq, r.got, r.want, p)
		}
	}()
	r.got = r.got[:0]
	if err := r.t.begin(r.env.font, r.cache); err != nil {
		r.mayLimit(err)
		r.x.Failf("%s | BeginSequence fails: %v", r.describe(), err)
	}
	if !r.t.operating() {
		r.x.Failf("%s | not operating after BeginSequence", r.describe())
	}
	r.feedAll(seq)
	r.t.finish(r.emit)
	r.flushed(seq, "finishing")
	if r.t.operating() {
		r.x.Failf("%s | still operating after FinishSequence", r.describe())
	}
}

// addAll adds the rules to the tester.
func (r *rwRun) addAll() {
	for _, rule := range r.rules {
		if err := r.t.add(rule.data); err != nil {
			r.x.Failf("%s | AddRule fails: %v", r.describe(), err)
		}
	}
	if r.t.numRules() != len(r.rules) {
		r.x.Failf("%s | NumRules is %d", r.describe(), r.t.numRules())
	}
}

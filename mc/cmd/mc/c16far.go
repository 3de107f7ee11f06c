package main

import (
	"fmt"
	"slices"
	"sync"

	"github.com/tinne26/ggfnt/verifmc/spec"
)

// Rules on elements all over the range of values: where the number of bytes
// or the sign of a narrower integer changes, and the first and last ones.

var rwFarGlyphs = &rwKind{false, 0, "far glyphs", []uint32{0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 0x3FFF, 0x4000, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 56785, 56786, 56787, 56788, 56789}}
var rwFarRunes = &rwKind{true, 0, "far runes", []uint32{0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0x7FFF, 0x8000, 0xD7FF, 0xE000, 0xFFFC, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0x20000, 0x10FFFE, 0x10FFFF, 0xFFFB}}

const rwFarSyms = 20

var rwFarOnce sync.Once
var rwFarEnvs [2]*rwEnv

func rwFarEnv(wide bool) *rwEnv {
	rwFarOnce.Do(func() {
		for i, k := range []*rwKind{rwFarGlyphs, rwFarRunes} {
			f := spec.New(56789)
			e := &rwEnv{kind: k}
			for a := 0; a < rwFarSyms; a++ {
				for b := a; b < rwFarSyms; b++ {
					first, last := k.table[a], k.table[b]
					if last-first > 255 || !k.wide && last >= 56789 || k.wide && first < 0xE000 && last >= 0xD800 || first <= 0xFFFD && last >= 0xFFFD {
						continue
					}
					var s spec.Syms
					for c := a; c <= b; c++ {
						s.Add(uint8(c))
					}
					e.sets = append(e.sets, s)
					if k.wide {
						f.RuneSets = append(f.RuneSets, spec.RuneSet{Ranges: []spec.RRange{{First: rune(first), Extra: uint8(last - first)}}})
					} else {
						f.GlyphSets = append(f.GlyphSets, spec.GlyphSet{Ranges: []spec.GRange{{First: uint16(first), Extra: uint8(last - first)}}})
					}
				}
			}
			for _, p := range [][]uint8{{0, 18}, {13, 14}, {3, 9, 15}, {17, 2}} {
				var s spec.Syms
				var g spec.GlyphSet
				var r spec.RuneSet
				slices.Sort(p)
				for _, v := range p {
					s.Add(v)
					g.List, r.List = append(g.List, uint16(k.table[v])), append(r.List, rune(k.table[v]))
				}
				e.sets = append(e.sets, s)
				if k.wide {
					f.RuneSets = append(f.RuneSets, r)
				} else {
					f.GlyphSets = append(f.GlyphSets, g)
				}
			}
			e.font = f.MustParse()
			rwFarEnvs[i] = e
		}
	})
	if wide {
		return rwFarEnvs[1]
	}
	return rwFarEnvs[0]
}

func c16far(x *X, env *rwEnv) {
	var singles []spec.Elem
	for i := uint32(0); i < rwFarSyms; i++ {
		singles = append(singles, spec.V(i))
	}
	for i := range env.sets {
		singles = append(singles, spec.S(uint32(i)))
	}
	var rules []*rwRule
	add := func(out uint32, in ...spec.Elem) {
		rules = append(rules, env.rule(spec.Rule{Cond: 255, Body: in, Out: []uint32{out}}))
	}
	var all []uint8
	for i := uint8(0); i <= rwFarSyms; i++ { // the last one is in no rule
		all = append(all, i)
	}
	seqs := rwSeqs(1, all...)
	name := ""
	switch x.Choose(3) {
	case 0: // lists of one element rules
		name = "far values"
		n := len(singles)
		a := singles[x.Choose(n)]
		b := singles[x.Choose(n)]
		if x.Thorough() {
			add(1, a)
			add(2, b)
			add(18, singles[x.Choose(n)])
		} else { // both of them among others
			add(1, spec.V(uint32(x.Choose(2)*13)))
			add(2, a)
			add(18, b)
		}
		seqs = append(seqs, []uint8{0, 19, 14, 13, 15, 1}, []uint8{19, 18, 17, 0, 3, 2}, []uint8{20, 1, 20, 20, 19})
	case 1: // all values with one element rules, in an order
		name = "all far values"
		step := pick(x, []int{1, 3, 7, 9, 11, 13, 17, 19})
		n := pick(x, []int{3, 5, 12, rwFarSyms})
		from := x.Choose(rwFarSyms)
		for i := 0; i < n; i++ {
			v := uint32((from + i*step) % rwFarSyms)
			add((v+5)%rwFarSyms, spec.V(v))
		}
		seqs = rwSeqs(2, all...)
	case 2: // one after the other
		name = "far pairs"
		a := singles[x.Choose(rwFarSyms)]
		b := x.Choose(len(singles))
		step := pick(x, []int{1, 7})
		for i := 0; i < 4; i++ {
			add(uint32(3*i+1), a, singles[(b+i*step)%len(singles)])
			a = singles[(b+3*i*step)%rwFarSyms]
		}
		seqs = rwSeqs(2, all...)
	}
	c16run(x, env, rules, seqs, name)
}

func rwFarText(k *rwKind, l []spec.Elem) (s string) {
	for _, e := range l {
		if e.Set {
			s += fmt.Sprint(" {set ", e.Value, "}")
		} else {
			s += fmt.Sprintf(" %#x", k.table[e.Value])
		}
	}
	return s
}

package main

import (
	"bytes"
	"image"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

type X = explore.X

// mustBuild builds and reports any panic or error as a violation.
func mustBuild(x *X, b *builder.Font) *ggfnt.Font {
	var font *ggfnt.Font
	x.NoPanic("Build", func() {
		var err error
		font, err = b.Build()
		if err != nil {
			x.Failf("Build of a valid font fails: %v", err)
		}
	})
	x.Step()
	if font == nil {
		x.Failf("Build returns no font and no error")
	}
	return font
}

// tryBuild builds and reports panics only.
func tryBuild(x *X, b *builder.Font) (font *ggfnt.Font, err error) {
	x.NoPanic("Build", func() { font, err = b.Build() })
	x.Step()
	if (font == nil) == (err == nil) {
		x.Failf("Build returns font=%v err=%v", font != nil, err)
	}
	return font, err
}

func export(x *X, font *ggfnt.Font) []byte {
	var buf bytes.Buffer
	x.NoPanic("Export", func() {
		if err := font.Export(&buf); err != nil {
			x.Failf("Export fails: %v", err)
		}
	})
	x.Step()
	return buf.Bytes()
}

func parse(x *X, data []byte) *ggfnt.Font {
	var font *ggfnt.Font
	x.NoPanic("Parse", func() {
		var err error
		font, err = ggfnt.Parse(bytes.NewReader(data))
		if err != nil {
			x.Failf("Parse of an exported font fails: %v", err)
		}
	})
	x.Step()
	return font
}

// reparse exports a font and parses it again.
func reparse(x *X, font *ggfnt.Font) *ggfnt.Font { return parse(x, export(x, font)) }

// diff fails if a comparison reports a difference (or panics).
func diff(x *X, what string, f func() string) {
	x.NoPanic(what, func() {
		if msg := f(); msg != "" {
			x.Failf("%s: %s", what, msg)
		}
	})
}

// fill fills a builder from a description that must be accepted.
func fill(x *X, f *spec.Font) *spec.Built {
	var b *spec.Built
	x.NoPanic("filling the builder", func() {
		var err error
		b, err = f.Fill()
		if err != nil {
			x.Failf("the builder rejects a valid operation: %v", err)
		}
	})
	x.Step()
	return b
}

// both compares a described font with the built and with the parsed font.
func both(x *X, f *spec.Font, cmp func(*ggfnt.Font) string) *ggfnt.Font {
	font := mustBuild(x, fill(x, f).B)
	diff(x, "built font", func() string { return cmp(font) })
	again := reparse(x, font)
	diff(x, "parsed font", func() string { return cmp(again) })
	return font
}

// handMade parses the independent serialization of a described font.
func handMade(x *X, f *spec.Font) *ggfnt.Font {
	var font *ggfnt.Font
	x.NoPanic("Parse", func() {
		var err error
		font, err = f.Parse()
		if err != nil {
			x.Failf("Parse of a font laid out as specified fails: %v", err)
		}
	})
	x.Step()
	return font
}

func alpha(w, h, ox, oy int, pix ...uint8) *image.Alpha {
	m := image.NewAlpha(image.Rect(ox, oy, ox+w, oy+h))
	copy(m.Pix, pix)
	return m
}

// distinct masks, so that glyphs can be told apart
func numbered(i int) *image.Alpha {
	m := image.NewAlpha(image.Rect(0, -4, 2, 0))
	m.Pix[0] = 255
	for k := 0; k < 7; k++ {
		if i>>k&1 == 1 {
			m.Pix[k+1] = 255
		}
	}
	return m
}

// perm returns the n-th permutation of 0..k-1 chosen by the explorer.
func perm(x *X, k int) []int {
	left := make([]int, k)
	for i := range left {
		left[i] = i
	}
	out := make([]int, 0, k)
	for len(left) > 0 {
		c := x.Choose(len(left))
		out = append(out, left[c])
		left = append(left[:c:c], left[c+1:]...)
	}
	return out
}

func pick[T any](x *X, list []T) T { return list[x.Choose(len(list))] }

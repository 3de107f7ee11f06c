package main

import (
	"bytes"
	"fmt"
	"image"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/mask"
	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C04", Title: "masks survive encoding",
		Rule: "one execution = one bitmap (or one list of glyphs in a font) encoded with a fresh, a used or a prefilled encoder, rasterized and compared pixel by pixel with the original; a state is a bitmap",
		Bounds: func(t string) string {
			return "all binary bitmaps of w*h <= 16 (quick) or 25 with w,h <= 5 plus 2x12, 12x2 (thorough); all bitmaps over 3 values of w*h <= 9 (quick) or 12 (thorough), in five positions around the origin; rectangles, diagonals (both directions), pixel pairs and frames for all sizes and distances in {1,2,3,126..130,254..258,300,511..514}; sub-images; glyph lists of up to 3 bitmaps in fonts" + bigBounds("C04")
		},
		Assume: []string{"masks up to 600 pixels per side"},
		Body:   c04, QuickSec: 90, ThorSec: 820,
	})
	explore.Register(&explore.Check{
		ID: "C05", Title: "raster programs",
		Rule: "one execution = one byte sequence interpreted by the code and by an independent interpreter of the specification; results must be the same image or both an error; a state is a program",
		Bounds: func(t string) string {
			return "all byte sequences of length <= 3; all sequences of 2 (quick) or 3 (thorough) operations over all 256 control codes with boundary operands, each cut at every byte; long programs that repeat one operation up to 200 times"
		},
		Assume: []string{"coordinates stay far from integer overflow (the specification lets those fail or panic)", "palette index 0 draws transparent pixels (the specification forbids it, the code accepts it)"},
		Body:   c05, QuickSec: 90, ThorSec: 820,
	})
}

var c04enc mask.Encoder // shared: earlier uses must not matter

var c04values = [4]uint8{0, 255, 254, 1}

func c04encode(x *X, m *image.Alpha) {
	before := append([]byte(nil), m.Pix...)
	var ops, fresh, pre []byte
	x.NoPanic("Encoder", func() {
		ops = c04enc.AppendRasterOps(nil, m)
		var e mask.Encoder
		fresh = e.AppendRasterOps(nil, m)
		pre = e.AppendRasterOps([]byte{1, 2, 3}, m)
	})
	x.Steps(2)
	if len(pre) < 3 || !bytes.Equal(pre[:3], []byte{1, 2, 3}) {
		x.Failf("appending to existing data gives %v, expected [1 2 3] and the operations", clipb(pre))
	}
	if !bytes.Equal(ops, fresh) { // any encoding will do, if it is right
		c04decode(x, fresh, m)
	}
	if !bytes.Equal(ops, pre[3:]) {
		c04decode(x, pre[3:], m)
	}
	if !bytes.Equal(before, m.Pix) {
		x.Failf("encoding modifies the mask")
	}
	c04decode(x, ops, m)
}

func c04decode(x *X, ops []byte, m *image.Alpha) {
	var got *image.Alpha
	x.NoPanic("Rasterize", func() {
		var err error
		got, err = mask.Rasterize(ops)
		if err != nil {
			x.Failf("encoded mask %s = %v can't be rasterized: %v", show(m), clipb(ops), err)
		}
	})
	x.Step()
	c04same(x, got, m)
}

func c04same(x *X, got, m *image.Alpha) {
	want := spec.Tight(m)
	if got == nil {
		if !want.Empty() {
			x.Failf("mask %s comes back empty", show(m))
		}
		return
	}
	if msg := spec.SamePixels(got, m); msg != "" {
		x.Failf("mask %s comes back different: %s", show(m), msg)
	}
	if got.Rect != want {
		x.Failf("mask %s comes back with bounds %v, expected %v", show(m), got.Rect, want)
	}
	if r := mask.ComputeRect(m); r != want && !(r.Empty() && want.Empty()) {
		x.Failf("ComputeRect of %s is %v, expected %v", show(m), r, want)
	}
	if r := mask.ComputeRect(got); r != want && !(r.Empty() && want.Empty()) {
		x.Failf("ComputeRect of the rasterized %s is %v, expected %v", show(m), r, want)
	}
}

func show(m *image.Alpha) string {
	if len(m.Pix) > 64 {
		return fmt.Sprintf("%v (%d pixels)", m.Rect, len(m.Pix))
	}
	return fmt.Sprintf("%v %v", m.Rect, m.Pix)
}

// bitmap makes the n-th bitmap of a size over the first k values.
func bitmap(w, h, ox, oy, n, k int) *image.Alpha {
	m := image.NewAlpha(image.Rect(ox, oy, ox+w, oy+h))
	for i := range m.Pix {
		m.Pix[i] = c04values[n%k]
		n /= k
	}
	return m
}

func ipow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

var c04offsets = [][2]int{{0, -3}, {0, 0}, {-2, -1}, {129, -300}, {-129, 128}}

var c04sizes = []int{1, 2, 3, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 511, 512, 513, 514}

func c04rect(m *image.Alpha, x, y, w, h int, v uint8) {
	for j := y; j < y+h; j++ {
		for i := x; i < x+w; i++ {
			if (image.Point{X: i, Y: j}).In(m.Rect) {
				m.Pix[m.PixOffset(i, j)] = v
			}
		}
	}
}

func c04(x *X) {
	switch x.Choose(7) {
	case 6:
		bigRun(x, "C04")
	case 0: // all small binary bitmaps
		w := x.Choose(x.Pick(5, 5)) + 1
		h := x.Choose(5) + 1
		limit := x.Pick(16, 25)
		if x.Thorough() && w == 1 && h == 1 {
			switch x.Choose(3) {
			case 1:
				w, h = 2, 12
			case 2:
				w, h = 12, 2
			}
		}
		if w*h > limit {
			x.Prune()
		}
		o := c04offsets[0]
		if w*h <= 9 {
			o = pick(x, c04offsets)
		}
		// the high bits are an explored choice, the low ones a plain loop
		bits := w * h
		low := min(bits, 8)
		hi := x.Choose(1 << (bits - low))
		for n := 0; n < 1<<low; n++ {
			m := bitmap(w, h, o[0], o[1], hi<<low|n, 2)
			x.State(explore.HashBytes(uint64(w*1000+h*100+o[0]), m.Pix))
			c04encode(x, m)
		}
		x.CountN("bitmaps", 1<<low)
	case 1: // all small bitmaps over three values
		w, h := x.Choose(4)+1, x.Choose(4)+1
		if w*h > x.Pick(9, 12) {
			x.Prune()
		}
		o := c04offsets[0]
		if w*h <= 6 {
			o = pick(x, c04offsets)
		}
		k := 3
		if w*h <= x.Pick(6, 8) {
			k = 4
		}
		total := ipow(k, w*h)
		low := min(total, k*k*k)
		hi := x.Choose(total / low)
		for n := 0; n < low; n++ {
			m := bitmap(w, h, o[0], o[1], hi*low+n, k)
			x.State(explore.HashBytes(uint64(w*1000+h*100+o[0]+7), m.Pix))
			c04encode(x, m)
		}
		x.CountN("bitmaps", int64(low))
	case 2: // big rectangles and frames
		w, h := pick(x, c04sizes), pick(x, c04sizes)
		o := pick(x, c04offsets)
		m := image.NewAlpha(image.Rect(o[0]-1, o[1]-1, o[0]+w+2, o[1]+h+2))
		c04rect(m, o[0], o[1], w, h, 255)
		switch x.Choose(x.Pick(4, 6)) {
		case 1:
			c04rect(m, o[0]+1, o[1]+1, w-2, h-2, 0) // frame
		case 2:
			c04rect(m, o[0]+w/2, o[1]+h/2, 1, 1, 7) // a hole of another value
		case 3:
			c04rect(m, o[0], o[1], w/2, h, 3) // two halves
		case 4:
			c04rect(m, o[0], o[1], w, h/2, 3)
		case 5:
			c04rect(m, o[0]+w/2, o[1], 1, h, 0)
			c04rect(m, o[0], o[1]+h/2, w, 1, 0) // four parts
		}
		x.StateOf(w, h, o, explore.HashBytes(0, m.Pix))
		c04encode(x, m)
		x.Count("rectangles")
	case 3: // pairs of pixels at every boundary distance, including diagonals
		dx, dy := pick(x, c04sizes), pick(x, c04sizes)
		o := pick(x, c04offsets)
		m := image.NewAlpha(image.Rect(o[0], o[1], o[0]+dx+1, o[1]+dy+1))
		v := uint8(255)
		if x.Bool() {
			v = 9
		}
		switch x.Choose(4) {
		case 0:
			c04rect(m, o[0], o[1], 1, 1, 255)
			c04rect(m, o[0]+dx, o[1]+dy, 1, 1, v)
		case 1:
			c04rect(m, o[0]+dx, o[1], 1, 1, 255)
			c04rect(m, o[0], o[1]+dy, 1, 1, v)
		case 2: // descending diagonal and a corner
			for i := 0; i <= min(dx, dy); i++ {
				c04rect(m, o[0]+i, o[1]+i, 1, 1, v)
			}
			c04rect(m, o[0]+dx, o[1], 1, 1, 255)
		case 3: // ascending diagonal and a corner
			for i := 0; i <= min(dx, dy); i++ {
				c04rect(m, o[0]+i, o[1]+dy-i, 1, 1, v)
			}
			c04rect(m, o[0], o[1], 1, 1, 255)
		}
		x.StateOf(dx, dy, o, v, explore.HashBytes(0, m.Pix))
		c04encode(x, m)
		x.Count("pairs")
	case 4: // sub-images
		big := bitmap(5, 5, -1, -2, 0x15AB3C7, 2)
		for i := range big.Pix {
			if big.Pix[i] == 0 && i%2 == 0 {
				big.Pix[i] = 77
			}
		}
		x0, y0 := x.Choose(5), x.Choose(5)
		w, h := x.Choose(6-x0), x.Choose(6-y0)
		sub := big.SubImage(image.Rect(-1+x0, -2+y0, -1+x0+w, -2+y0+h)).(*image.Alpha)
		c04encode(x, sub)
		x.Count("sub-images")
	case 5: // glyphs stored in fonts
		vert := x.Bool()
		n := x.Choose(3) + 1
		f := spec.New(0)
		f.Vert = vert
		b := builder.New()
		spec.SeedRand(4)
		b.SetVertLayoutUsed(vert)
		b.SetAscent(255)
		b.SetDescent(255)
		var uids []uint64
		list := []*image.Alpha{image.NewAlpha(image.Rect(0, 0, 0, 0)), image.NewAlpha(image.Rect(0, 0, 2, 2)),
			bitmap(1, 1, 0, 0, 1, 2), bitmap(3, 3, -1, -2, 325, 2), bitmap(3, 3, 140, -140, 17000, 3), bitmap(2, 3, 0, -3, 2900, 4)}
		big := image.NewAlpha(image.Rect(-1, -250, 301, 250))
		c04rect(big, 0, -249, 300, 480, 255)
		c04rect(big, 20, -200, 3, 3, 1)
		list = append(list, big)
		var masks []*image.Alpha
		for i := 0; i < n; i++ {
			m := pick(x, list)
			masks = append(masks, m)
			uid, err := b.AddGlyph(m)
			if err != nil {
				x.Failf("AddGlyph: %v", err)
			}
			uids = append(uids, uid)
		}
		if x.Bool() { // a replaced placement does not affect the mask
			_ = b.SetGlyphPlacement(uids[0], ggfnt.GlyphPlacement{Advance: 3, TopAdvance: 200, BottomAdvance: 255, HorzCenter: 1})
		}
		font := mustBuild(x, b)
		again := reparse(x, font)
		for i, m := range masks {
			for _, fo := range []*ggfnt.Font{font, again} {
				var got *image.Alpha
				x.NoPanic("RasterizeMask", func() { got = fo.Glyphs().RasterizeMask(ggfnt.GlyphIndex(i)) })
				c04same(x, got, m)
			}
		}
		x.Count("fonts")
	}
}

// --- C05 ---

type c05op struct {
	value         uint8
	x, y, w, h    int
	diag, diagAsc bool
}

// c05interpret is a direct transcription of the specification.
func c05interpret(p []byte) (ops []c05op, bad string) {
	x, y := 0, 0
	value := uint8(255)
	for len(p) > 0 {
		c := p[0]
		p = p[1:]
		short := false
		next := func() uint8 {
			if len(p) == 0 {
				short = true
				return 0
			}
			v := p[0]
			p = p[1:]
			return v
		}
		nzint := func() int {
			v := next()
			if v < 128 {
				return int(v) + 1
			}
			return int(v) - 256
		}
		if c&1 != 0 {
			value = next()
		}
		if c&2 != 0 {
			x += nzint()
		}
		if c&4 != 0 {
			y += nzint()
			if c&8 != 0 {
				return nil, "both vertical moves"
			}
		} else if c&8 != 0 {
			y++
		}
		if c&16 != 0 {
			if c&128 != 0 {
				return nil, "diagonal and single pixel"
			}
			if c&32 == 0 {
				return nil, "diagonal without length"
			}
			n := int(next()) + 1
			if short {
				return nil, "truncated"
			}
			ops = append(ops, c05op{value, x, y, n, n, true, c&64 != 0})
			x += n
			continue
		}
		w, h := 0, 0
		if c&32 != 0 {
			w, h = int(next())+1, 1
		}
		if c&64 != 0 {
			h = int(next()) + 1
			w = max(w, 1)
		}
		if c&128 != 0 {
			if w > 0 {
				return nil, "single pixel and draw lengths"
			}
			w, h = 1, 1
		}
		if short {
			return nil, "truncated"
		}
		if w > 0 {
			ops = append(ops, c05op{value, x, y, w, h, false, false})
			x += w
		}
	}
	return ops, ""
}

// c05paint draws the operations in an image of their own bounds.
func c05paint(ops []c05op) *image.Alpha {
	rect := image.Rectangle{}
	for _, o := range ops {
		r := image.Rect(o.x, o.y, o.x+o.w, o.y+o.h)
		if rect.Empty() {
			rect = r
		} else {
			rect = rect.Union(r)
		}
	}
	m := image.NewAlpha(rect)
	for _, o := range ops {
		if o.diag {
			for i := 0; i < o.w; i++ {
				y := o.y + i
				if o.diagAsc {
					y = o.y + o.w - 1 - i
				}
				m.Pix[m.PixOffset(o.x+i, y)] = o.value
			}
			continue
		}
		for j := 0; j < o.h; j++ {
			at := m.PixOffset(o.x, o.y+j)
			row := m.Pix[at : at+o.w]
			for i := range row {
				row[i] = o.value
			}
		}
	}
	return m
}

func c05run(x *X, p []byte) {
	ops, bad := c05interpret(p)
	var got *image.Alpha
	var err error
	msg, panicked := x.Catch(func() { got, err = mask.Rasterize(p) })
	x.Step()
	x.State(explore.HashBytes(5, p))
	if panicked {
		x.Failf("rasterizing % x panics: %s", clipb(p), msg)
	}
	if bad != "" {
		x.Count("malformed")
		if err == nil {
			x.Failf("rasterizing % x gives no error, but it is malformed: %s", clipb(p), bad)
		}
		return
	}
	if err != nil {
		x.Failf("rasterizing the well formed % x fails: %v", clipb(p), err)
	}
	if len(ops) == 0 {
		x.Count("empty")
		if got != nil && !spec.Tight(got).Empty() {
			x.Failf("rasterizing % x draws pixels, nothing is expected", clipb(p))
		}
		return
	}
	x.Count("well formed")
	want := c05paint(ops)
	if got == nil {
		x.Failf("rasterizing % x gives nothing, expected pixels in %v", clipb(p), want.Rect)
	}
	if got.Rect == want.Rect && bytes.Equal(got.Pix, want.Pix) {
		return
	}
	if msg := spec.SamePixels(got, want); msg != "" {
		x.Failf("rasterizing % x: %s", clipb(p), msg)
	}
	if t := spec.Tight(want); got.Rect != want.Rect && got.Rect != t {
		x.Failf("rasterizing % x: bounds %v, expected %v", clipb(p), got.Rect, want.Rect)
	}
}

// c05choose makes one operation; the operands of deeper ones come from smaller sets.
func c05choose(x *X, p []byte, moves, draws, values []uint8) []byte {
	c := uint8(x.Choose(256))
	p = append(p, c)
	if c&1 != 0 {
		p = append(p, pick(x, values))
	}
	if c&2 != 0 {
		p = append(p, pick(x, moves))
	}
	if c&4 != 0 {
		p = append(p, pick(x, moves))
	}
	if c&32 != 0 {
		p = append(p, pick(x, draws))
	}
	if c&64 != 0 && c&16 == 0 {
		p = append(p, pick(x, draws))
	}
	return p
}

func c05(x *X) {
	switch x.Choose(4) {
	case 0: // every byte sequence
		n := x.Choose(4)
		if n == 0 {
			c05run(x, nil)
			return
		}
		p := make([]byte, n)
		for i := 0; i < n-1; i++ {
			p[i] = byte(x.Choose(256))
		}
		for v := 0; v < 256; v++ {
			p[n-1] = byte(v)
			c05run(x, p)
		}
	case 1: // one operation with every boundary operand, cut at every byte
		p := c05choose(x, nil, []uint8{0, 1, 126, 127, 128, 129, 254, 255}, []uint8{0, 1, 2, 127, 128, 254, 255}, []uint8{0, 1, 127, 254, 255})
		if x.Bool() {
			p = p[:x.Choose(len(p))]
		}
		c05run(x, p)
	case 2: // sequences of operations, cut at every byte
		var p []byte
		if x.Thorough() && x.Bool() { // three
			for i := 0; i < 3; i++ {
				p = c05choose(x, p, []uint8{1, 254}, []uint8{0, 2}, []uint8{3})
				if _, bad := c05interpret(p); bad != "" && i < 2 { // nothing after it can matter
					x.Prune()
				}
			}
			c05run(x, p)
			return
		}
		for i := 0; i < 2; i++ {
			moves, draws, vals := []uint8{0, 127, 128, 255}, []uint8{0, 1, 255}, []uint8{3}
			if !x.Thorough() {
				moves, draws = []uint8{1, 128}, []uint8{0, 3}
			}
			p = c05choose(x, p, moves, draws, vals)
			if _, bad := c05interpret(p); bad != "" && i == 0 {
				x.Prune()
			}
		}
		c05run(x, p)
		for k := 0; k < len(p); k++ {
			c05run(x, p[:k])
		}
	case 3: // one operation repeated: positions, index and bounds persist
		var p []byte
		op := c05choose(x, nil, []uint8{0, 128, 255}, []uint8{0, 1}, []uint8{0, 200})
		if _, bad := c05interpret(op); bad != "" {
			x.Prune()
		}
		other := pick(x, [][]byte{{}, {0x80}, {0x84, 255}, {0x82, 250}, {0x01, 17}, {0x60, 1, 1}, {0x30, 2}, {0x70, 2}})
		n := pick(x, []int{3, 200})
		for i := 0; i < n; i++ {
			p = append(p, op...)
			p = append(p, other...)
		}
		if ops, _ := c05interpret(p); len(ops) > 0 { // keep images small
			first, last := ops[0], ops[len(ops)-1]
			if abs(first.x-last.x) > 4000 || abs(first.y-last.y) > 4000 || abs(first.x-last.x)*abs(first.y-last.y) > 1<<19 {
				x.Prune()
			}
		}
		c05run(x, p)
	}
}

func abs(v int) int {
	if v < 0 {
		return -v
	}
	return v
}

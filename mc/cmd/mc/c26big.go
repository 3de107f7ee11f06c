package main

import (
	"bytes"
	"fmt"

	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

// c26big parses edition data with as many categories, classes and pairs as
// make narrow counters start again, and fonts with as many glyphs.
func c26big(x *X) {
	var glyphs int
	d := &c26data{classes: []c26class{{"one", 10}, {"two", -20}}, horz: []c26pair{{0, 1, 1}}}
	ok := true
	text := ""
	switch x.Choose(4) {
	case 0: // sizes of the categories, right and not
		glyphs = pick(x, []int{1, 3, 255, 256, 300, 32768, 40000})
		k := pick(x, []int{1, 2, 3, 127, 128, 254, 255})
		total := glyphs + pick(x, []int{0, -1, 1, 65536, 256, 131072, -256, -65536, 32768})
		if total < 0 || total > k*65535 {
			x.Prune()
		}
		ok = total == glyphs
		first := x.Bool() // where the biggest are
		left := total
		for i := 0; i < k; i++ {
			d.categories = append(d.categories, fmt.Sprintf("cat %d", i))
			d.sizes = append(d.sizes, 0)
		}
		for i := range d.sizes {
			at := i
			if !first {
				at = k - 1 - i
			}
			d.sizes[at] = uint16(min(left, 65535))
			left -= min(left, 65535)
		}
		if glyphs == 1 {
			d.horz = nil
		}
		text = fmt.Sprintf("%d categories of %d glyphs in total, font of %d", k, total, glyphs)
	case 1: // classes
		glyphs = 300
		n := pick(x, []int{126, 127, 128, 254, 255, 256, 257, 32767, 32768, 32769, 65534, 65535})
		long := x.Bool()
		d.classes, d.horz = nil, nil
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("c%d", i)
			if long {
				name = fmt.Sprintf("a class with a long name -%05d x", i)[:32]
			}
			d.classes = append(d.classes, c26class{name, int8(i*7 + i>>8)})
		}
		used := []int{1, 2, 127, 128, 129, 255, 256, 257, 258, 32767, 32768, 32769, 65534, 65535, n - 1, n}
		for i, c := range used {
			if c <= n {
				d.horz = append(d.horz, c26pair{uint16(i), 299, uint16(c)})
				d.vert = append(d.vert, c26pair{uint16(i), uint16(i + 1), uint16(c)})
			}
		}
		if n < 65535 && x.Bool() {
			d.vert = append(d.vert, c26pair{100, 100, uint16(n + 1)})
			ok = false
		}
		text = fmt.Sprintf("%d classes, long names: %v", n, long)
	case 2: // pairs
		glyphs = 300
		n := pick(x, []int{127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 89999})
		k := x.Choose(3)
		var list []c26pair
		for i := 0; i < n; i++ {
			list = append(list, c26pair{uint16(i / 300), uint16(i % 300), uint16(i%2 + 1)})
		}
		if k != 1 {
			d.horz = list
		}
		if k != 0 {
			d.vert = list
		}
		text = fmt.Sprintf("%d pairs (%d)", n, k)
	case 3: // glyphs
		glyphs = pick(x, []int{255, 256, 257, 32768, 32769, 50000, 56789})
		d.horz = []c26pair{{0, uint16(glyphs - 1), 1}, {uint16(glyphs - 1), 0, 2}, {uint16(glyphs - 1), uint16(glyphs - 1), 1}, {uint16(glyphs / 2), 254, 2}}
		d.vert = d.horz[1:]
		at := x.Choose(5)
		if at > 0 {
			ok = false
			bad := append([]c26pair(nil), d.horz...)
			if at > 2 {
				bad = append([]c26pair(nil), d.vert...)
			}
			if at&1 == 0 {
				bad[len(bad)-1].a = uint16(glyphs)
			} else {
				bad[len(bad)-1].b = uint16(glyphs)
			}
			if at > 2 {
				d.vert = bad
			} else {
				d.horz = bad
			}
		}
		text = fmt.Sprintf("%d glyphs, altered: %d", glyphs, at)
	}
	if x.Planning() {
		return
	}
	f := spec.New(glyphs)
	if glyphs >= 3 {
		f.Kerns = c26plain
	}
	b := fill(x, f).B
	d.id = b.GetFontID()
	plain := mustBuild(x, b).Data
	unchanged := func(when string) {
		if font := mustBuild(x, b); !bytes.Equal(font.Data, plain) {
			x.Failf("%s: the font is not as without edition data %s", text, when)
		}
	}
	stream := spec.ZipSig("wkgfnt", d.payload())
	var err error
	x.NoPanic(text, func() { err = b.ParseEditionData(bytes.NewReader(stream)) })
	x.Step()
	switch {
	case ok && err != nil:
		x.Failf("%s: well formed edition data is rejected: %v", text, err)
	case !ok && err == nil:
		x.Failf("%s: inconsistent edition data is accepted", text)
	case ok:
		f.Kerns, f.VertKerns = d.model(f.Kerns)
		font := mustBuild(x, b)
		diff(x, text, func() string { return f.KernData(font) })
		x.NoPanic(text, b.ClearEditionData)
		unchanged("after clearing it")
		x.Count("big, accepted")
	default:
		unchanged("after an error")
		x.Count("big, rejected")
	}
	x.State(explore.HashOf("big", text, ok))
}

package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/spec"
)

func init() {
	explore.Register(&explore.Check{
		ID: "C26", Title: "edition data",
		Rule: "one execution = one stream of edition data (well formed, altered, cut or delivered in an unusual way) parsed by a builder with plain kerning pairs, with or without edition data parsed before, and what follows (building, clearing, parsing good data, clearing again); an independent decoder decides if it must be accepted, and after every step Build must give the kerning of the model, and exactly the same bytes as before any edition data once it is rejected or cleared; a state is the stream and the history",
		Bounds: func(t string) string {
			s := "10 base streams (no classes to 300 classes, horizontal and vertical pairs, categories) × all truncations, all appended bytes, all substitutions of every byte of the payload by all 256 values (by 8 of them with every history); all truncations and all bit flips of the compressed stream; all combinations of up to 2 pairs over 2 glyphs, 2 classes and undefined ones in each direction; read errors at every position and single byte deliveries; up to 255 categories whose sizes add up to the glyphs, or miss it by up to 131072, up to 65535 classes, 89999 pairs and 56789 glyphs"
			if t == "thorough" {
				s += "; pairs of bytes of the payload over 8 values"
			}
			return s
		},
		Assume: []string{"left open: repeated pairs, category names of more than 32 characters, names with unusual hyphens, data without categories, an empty gzip member at the end"},
		Body:   c26, QuickSec: 200, ThorSec: 820,
	})
}

type c26pair struct{ a, b, class uint16 }

type c26class struct {
	name string
	v    int8
}

type c26data struct {
	id         uint64
	categories []string
	sizes      []uint16
	classes    []c26class
	horz, vert []c26pair
	conditions []string
}

func (d *c26data) payload() []byte {
	var b []byte
	num := func(v uint64, n int) {
		for i := 0; i < n; i++ {
			b = append(b, byte(v>>(8*i)))
		}
	}
	str := func(s string) { num(uint64(len(s)), 1); b = append(b, s...) }
	num(d.id, 8)
	num(uint64(len(d.categories)), 1)
	for _, c := range d.categories {
		str(c)
	}
	for _, s := range d.sizes {
		num(uint64(s), 2)
	}
	num(uint64(len(d.classes)), 2)
	for _, c := range d.classes {
		str(c.name)
	}
	for _, c := range d.classes {
		num(uint64(uint8(c.v)), 1)
	}
	for _, l := range [][]c26pair{d.horz, d.vert} {
		num(uint64(len(l)), 4)
		for _, p := range l {
			num(uint64(p.a), 2)
			num(uint64(p.b), 2)
			num(uint64(p.class), 2)
		}
	}
	num(uint64(len(d.conditions)), 1)
	for _, c := range d.conditions {
		str(c)
	}
	return b
}

// c26decode decides if a payload is acceptable for a font without conditions.
func c26decode(b []byte, id uint64, glyphs int) (*c26data, c20verdict) {
	d := &c26data{}
	verdict := c20good
	bad := false
	num := func(n int) uint64 {
		if bad || len(b) < n {
			bad = true
			return 0
		}
		var v uint64
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | uint64(b[i])
		}
		b = b[n:]
		return v
	}
	name := func(max int) string {
		n := int(num(1))
		if bad || len(b) < n {
			bad = true
			return ""
		}
		s := string(b[:n])
		b = b[n:]
		if n == 0 || n > max {
			bad = true
		} else if n > 32 {
			verdict = c20either
		}
		for _, c := range []byte(s) {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == ' ') {
				bad = true
			}
		}
		if strings.HasPrefix(s, "-") || strings.HasSuffix(s, "-") || strings.Contains(s, "--") {
			verdict = c20either
		}
		if strings.HasPrefix(s, " ") || strings.HasSuffix(s, " ") || strings.Contains(s, "  ") {
			verdict = c20either
		}
		return s
	}
	if num(8) != id {
		return nil, c20bad
	}
	n := int(num(1))
	for i := 0; i < n && !bad; i++ {
		d.categories = append(d.categories, name(60))
	}
	sum := 0
	for i := 0; i < n && !bad; i++ {
		s := uint16(num(2))
		sum += int(s)
		d.sizes = append(d.sizes, s)
	}
	if n > 0 && sum != glyphs {
		bad = true
	}
	n = int(num(2))
	for i := 0; i < n && !bad; i++ {
		d.classes = append(d.classes, c26class{name: name(32)})
	}
	for i := 0; i < n && !bad; i++ {
		d.classes[i].v = int8(num(1))
	}
	for k := 0; k < 2; k++ {
		var list []c26pair
		seen := map[[2]uint16]bool{}
		pairs := int(num(4))
		for i := 0; i < pairs && !bad; i++ {
			p := c26pair{uint16(num(2)), uint16(num(2)), uint16(num(2))}
			if p.class == 0 || int(p.class) > len(d.classes) || int(p.a) >= glyphs || int(p.b) >= glyphs {
				bad = true
			}
			if seen[[2]uint16{p.a, p.b}] {
				verdict = c20either
			}
			seen[[2]uint16{p.a, p.b}] = true
			list = append(list, p)
		}
		if k == 0 {
			d.horz = list
		} else {
			d.vert = list
		}
	}
	if num(1) != 0 || len(b) != 0 {
		bad = true
	}
	if bad {
		return nil, c20bad
	}
	return d, verdict
}

// c26payload unpacks a stream. ok: it has to be accepted as far as the
// container is concerned; open: it may be.
func c26payload(stream []byte) (payload []byte, ok, open bool) {
	if len(stream) < 6 || string(stream[:6]) != "wkgfnt" {
		return nil, false, false
	}
	r := bytes.NewReader(stream[6:])
	z, err := gzip.NewReader(r)
	if err != nil {
		return nil, false, false
	}
	z.Multistream(false)
	if payload, err = io.ReadAll(z); err != nil {
		return nil, false, false
	}
	if r.Len() == 0 {
		return payload, true, false
	}
	rest := stream[len(stream)-r.Len():]
	if z, err = gzip.NewReader(bytes.NewReader(rest)); err != nil {
		return nil, false, false
	}
	more, err := io.ReadAll(z)
	if err != nil || len(more) > 0 {
		return nil, false, false
	}
	return payload, false, true
}

const c26glyphs = 3

var c26plain = []spec.Kern{{A: 0, B: 1, V: 5}, {A: 1, B: 1, V: -7}, {A: 2, B: 0, V: 1}}

func c26bases() (out []*c26data) {
	pairs := func(l ...c26pair) []c26pair { return l }
	cl := []c26class{{"one", 10}, {"class two", -20}, {"3", 127}, {"zero", 0}}
	many := make([]c26class, 300)
	for i := range many {
		many[i] = c26class{fmt.Sprint("c", i), int8(i)}
	}
	return []*c26data{
		{},
		{classes: cl[:1]},
		{classes: cl[:1], horz: pairs(c26pair{0, 1, 1})},
		{classes: cl[:2], horz: pairs(c26pair{0, 1, 2}, c26pair{0, 2, 1})},
		{classes: cl[:3], vert: pairs(c26pair{1, 1, 3}, c26pair{2, 2, 2})},
		{categories: []string{"All of them"}, sizes: []uint16{3}, classes: cl, horz: pairs(c26pair{1, 1, 1}, c26pair{2, 1, 3}, c26pair{0, 0, 4}), vert: pairs(c26pair{1, 1, 2})},
		{categories: []string{"a", "B-2", strings.Repeat("n", 32)}, sizes: []uint16{1, 0, 2}},
		{classes: many, horz: pairs(c26pair{2, 2, 300}, c26pair{1, 0, 256}), vert: pairs(c26pair{0, 0, 255})},
		{classes: cl, horz: pairs(c26pair{0, 1, 4}), vert: pairs(c26pair{0, 1, 4})},
		{classes: cl[:2], horz: pairs(c26pair{0, 0, 1}, c26pair{0, 1, 2}, c26pair{0, 2, 1}, c26pair{1, 0, 2}, c26pair{1, 1, 1}, c26pair{1, 2, 2}, c26pair{2, 0, 1}, c26pair{2, 1, 2}, c26pair{2, 2, 1})},
	}
}

// model returns the kerning with the edition data.
func (d *c26data) model(plain []spec.Kern) (horz, vert []spec.Kern) {
	one := func(list []spec.Kern, pairs []c26pair) (out []spec.Kern) {
		m := map[[2]uint16]int8{}
		for _, k := range list {
			m[[2]uint16{k.A, k.B}] = k.V
		}
		for _, p := range pairs {
			m[[2]uint16{p.a, p.b}] = d.classes[p.class-1].v
		}
		for k, v := range m {
			out = append(out, spec.Kern{A: k[0], B: k[1], V: v})
		}
		sort.Slice(out, func(i, j int) bool {
			return out[i].A < out[j].A || out[i].A == out[j].A && out[i].B < out[j].B
		})
		return out
	}
	return one(plain, d.horz), one(nil, d.vert)
}

type c26reader struct {
	data []byte
	max  int
	fail int // -1: never
	eof  bool
	pos  int
}

var errC26 = errors.New("read failure")

func (r *c26reader) Read(p []byte) (int, error) {
	if r.fail >= 0 && r.pos >= r.fail {
		return 0, errC26
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := min(len(p), r.max, len(r.data)-r.pos)
	if r.fail >= 0 {
		n = min(n, r.fail-r.pos)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.eof && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

var c26values = []byte{0, 1, 2, 3, 4, 32, 128, 255}

func c26(x *X) {
	if x.Choose(2) == 1 {
		c26big(x)
		return
	}
	f := spec.New(c26glyphs)
	f.Kerns = c26plain
	built := fill(x, f)
	b := built.B
	id := b.GetFontID()
	bases := c26bases()
	for _, d := range bases {
		d.id = id
	}
	text := ""
	var stream []byte
	reader := &c26reader{max: 1 << 20, fail: -1}
	short := false // a single history and nothing after an error
	mode := x.Choose(x.Pick(5, 6))
	if mode == 4 { // combinations of pairs
		d := &c26data{id: id, classes: []c26class{{"one", 10}, {"two", -20}}}
		for k := 0; k < 2; k++ {
			var list []c26pair
			n := x.Choose(3)
			if k == 1 && n > 0 && x.Choose(2) == 0 {
				list = d.horz // the same ones
				n = 0
			}
			for i := 0; i < n; i++ {
				list = append(list, c26pair{pick(x, []uint16{0, 1, 3}), pick(x, []uint16{0, 1}), pick(x, []uint16{0, 1, 2, 3})})
				if k == 1 {
					break
				}
			}
			if k == 0 {
				d.horz = list
			} else {
				d.vert = list
			}
		}
		text = fmt.Sprintf("pairs %v and %v", d.horz, d.vert)
		stream = spec.ZipSig("wkgfnt", d.payload())
	} else {
		i := x.Choose(len(bases))
		p := bases[i].payload()
		text = fmt.Sprint("base ", i)
		switch mode {
		case 0: // as it is, with some deliveries
			stream = spec.ZipSig("wkgfnt", p)
			reader.max = pick(x, []int{1 << 20, 1, 2, 7})
			reader.eof = x.Bool()
			text += fmt.Sprintf(", chunks of %d, eof with data: %v", reader.max, reader.eof)
		case 1: // payload cut or extended
			if x.Bool() {
				p = p[:x.Choose(len(p))]
			} else {
				p = append(p, byte(x.Choose(256)))
			}
			text += fmt.Sprintf(", payload of %d bytes", len(p))
			stream = spec.ZipSig("wkgfnt", p)
		case 2: // payload altered
			n := len(p)
			if i == 7 {
				n = min(n, 60)
			}
			at := x.Choose(n)
			if i == 7 && at > 30 { // the start and the end
				at = len(p) - (n - at)
			}
			if short = x.Bool(); short {
				p[at] = byte(x.Choose(256))
			} else {
				p[at] = pick(x, c26values)
			}
			text += fmt.Sprintf(", byte %d of the payload is %d", at, p[at])
			stream = spec.ZipSig("wkgfnt", p)
		case 3: // stream altered, cut or failing
			stream = spec.ZipSig("wkgfnt", p)
			if i == 7 {
				x.Prune() // too long for this
			}
			switch x.Choose(5) {
			case 0:
				stream = stream[:x.Choose(len(stream))]
				text += fmt.Sprintf(", cut at %d", len(stream))
			case 1:
				at := x.Choose(len(stream))
				stream[at] ^= 1 << x.Choose(8)
				text += fmt.Sprintf(", bit flipped at %d", at)
			case 2:
				reader.fail = x.Choose(len(stream))
				reader.max = pick(x, []int{1 << 20, 1})
				text += fmt.Sprintf(", read failure at %d", reader.fail)
			case 3:
				stream = append(stream, byte(x.Choose(256)))
				text += ", a byte more"
			case 4:
				stream = append(stream, spec.ZipSig("", pick(x, [][]byte{{}, {0}, p}))...)
				text += ", a gzip member more"
			}
		case 5: // pairs of bytes
			if len(p) > 60 {
				x.Prune()
			}
			a := x.Choose(len(p) - 1)
			c := a + 1 + x.Choose(len(p)-a-1)
			p[a], p[c] = pick(x, c26values), pick(x, c26values)
			text += fmt.Sprintf(", byte %d is %d, byte %d is %d", a, p[a], c, p[c])
			stream = spec.ZipSig("wkgfnt", p)
		}
	}
	reader.data = stream
	verdict := c20bad
	var want *c26data
	if payload, ok, open := c26payload(stream); (ok || open) && reader.fail < 0 {
		want, verdict = c26decode(payload, id, c26glyphs)
		if open && verdict == c20good {
			verdict = c20either
		}
	}
	history := 0
	if !short {
		history = x.Choose(3)
	}
	text += fmt.Sprintf(", history %d", history)
	x.Logf("%s, expected verdict %d (0: error, 1: accepted, 2: any)", text, verdict)
	x.State(explore.HashOf(string(stream), reader.max, reader.fail, reader.eof, history, short))

	plainKerns := append([]spec.Kern(nil), c26plain...)
	plain := mustBuild(x, b).Data
	sameAsPlain := func(when string) {
		if font := mustBuild(x, b); !bytes.Equal(font.Data, plain) {
			f.VertKerns, f.Kerns = nil, plainKerns
			x.Failf("%s: %s, the font differs from the one without edition data: %s", text, when, f.Compare(font))
		}
	}
	withData := func(when string, d *c26data, repeated bool) {
		font := mustBuild(x, b)
		if repeated {
			return
		}
		f.Kerns, f.VertKerns = d.model(plainKerns)
		diff(x, text+": "+when, func() string { return f.Compare(font) })
		if again := reparse(x, font); !bytes.Equal(again.Data, font.Data) {
			x.Failf("%s: %s, the parsed font is another one", text, when)
		}
	}
	good := bases[5]
	goodStream := spec.ZipSig("wkgfnt", good.payload())
	parseGood := func(when string) {
		x.NoPanic(text, func() {
			if err := b.ParseEditionData(bytes.NewReader(goodStream)); err != nil {
				x.Failf("%s: %s, good data is rejected: %v", text, when, err)
			}
		})
		withData(when, good, false)
	}
	if history == 1 {
		parseGood("before")
	}
	var err error
	x.NoPanic(text, func() { err = b.ParseEditionData(reader) })
	x.Step()
	if err == nil && verdict == c20bad {
		x.Failf("%s: damaged edition data is accepted", text)
	}
	if err != nil && verdict == c20good {
		x.Failf("%s: well formed edition data is rejected: %v", text, err)
	}
	if err != nil {
		x.Count("rejected")
		sameAsPlain("after an error")
		if short {
			return
		}
	} else {
		x.Count("accepted")
		rep := verdict == c20either
		withData("parsed", want, rep)
		if history == 2 { // plain values set afterwards are kept
			p := [2]uint16{2, 0}
			if len(want.horz) > 0 {
				p = [2]uint16{want.horz[0].a, want.horz[0].b}
			}
			x.NoPanic(text, func() { b.SetKerningPair(built.UIDs[p[0]], built.UIDs[p[1]], 33) })
			x.NoPanic(text, b.ClearEditionData)
			var l []spec.Kern
			for _, k := range plainKerns {
				if [2]uint16{k.A, k.B} != p {
					l = append(l, k)
				}
			}
			plainKerns = append(l, spec.Kern{A: p[0], B: p[1], V: 33})
			f.Kerns, f.VertKerns = (&c26data{}).model(plainKerns)
			font := mustBuild(x, b)
			diff(x, text+": cleared after setting a pair", func() string { return f.Compare(font) })
			plain = font.Data
		}
	}
	x.NoPanic(text, b.ClearEditionData)
	sameAsPlain("cleared")
	parseGood("parsed after it")
	x.NoPanic(text, b.ClearEditionData)
	sameAsPlain("cleared at the end")
	x.Outcome(explore.HashOf(verdict, err != nil, f.Kerns, f.VertKerns))
}

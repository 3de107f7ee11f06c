package spec

import (
	"encoding/binary"

	"github.com/tinne26/ggfnt"
)

// Fits walks raw font data as the format specification lays it out and tells
// whether every declared size fits and the data ends exactly at the end.
func Fits(raw []byte) bool {
	_, ok := Tables(raw)
	return ok
}

// Table is a section made of a table of end offsets and the data it refers to.
type Table struct {
	Name     string
	N        int // number of entries
	LastEnd  int // position of the last end offset
	EndSize  int // size of an end offset
	Data     int // position of the data
	Total    int // its size
	Min, Max int // smallest size that can be valid, and biggest one (0: no limit)
}

// Resize returns raw with the data of the table changed to a given size.
func (t Table) Resize(raw []byte, total int) []byte {
	out := append([]byte(nil), raw[:t.Data]...)
	for k := 0; k < t.EndSize; k++ {
		out[t.LastEnd+k] = byte(total >> (8 * k))
	}
	old := raw[t.Data : t.Data+t.Total]
	for k := 0; k < total; k++ {
		if k < len(old) {
			out = append(out, old[k])
		} else {
			out = append(out, 'a')
		}
	}
	return append(out, raw[t.Data+t.Total:]...)
}

// Tables walks raw font data and returns its tables (and whether all fits).
func Tables(raw []byte) (tables []Table, fits bool) {
	i, ok := 0, true
	skip := func(n int) {
		if n < 0 || i+n > len(raw) {
			ok = false
			return
		}
		i += n
	}
	num := func(n int) int {
		at := i
		skip(n)
		if !ok {
			return 0
		}
		v := 0
		for k := n - 1; k >= 0; k-- {
			v = v<<8 | int(raw[at+k])
		}
		return v
	}
	var lastEnd, lastSize, lastN int
	// ends reads a table of n end offsets of a given size; the last one is the total
	ends := func(n, size int) int {
		if n == 0 {
			return 0
		}
		skip((n - 1) * size)
		lastEnd, lastSize, lastN = i, size, n
		return num(size)
	}
	// data skips the data of the table whose end offsets were just read
	data := func(name string, total, least, most int) {
		if total > 0 || lastN > 0 {
			tables = append(tables, Table{name, lastN, lastEnd, lastSize, i, total, least * lastN, most * lastN})
		}
		lastN = 0
		skip(total)
	}
	skip(28)
	for k := 0; k < 3; k++ {
		skip(num(1))
	}
	skip(num(2))
	at := i
	skip(15)
	if !ok {
		return nil, false
	}
	glyphs := int(raw[at]) | int(raw[at+1])<<8
	colors := 0
	for _, size := range []int{1, 4} { // dyes, palettes
		n := num(1)
		c := ends(n, 1)
		colors += c
		lastN = 0
		skip(c * size)
		data("color names", ends(n, 2), 1, 0)
	}
	if colors > 255 {
		return nil, false
	}
	n := num(2) // glyph names
	if n > glyphs {
		return nil, false
	}
	skip(n * 2)
	data("glyph names", ends(n, 3), 0, 32)
	placement := 1
	if raw[at+2] == 1 {
		placement = 4
	}
	data("glyph masks", ends(glyphs, 3), placement, 0)
	n = num(1)
	data("words", ends(n, 2), 1, 32)
	n = num(1)
	data("setting names", ends(n, 2), 1, 32)
	data("settings", ends(n, 2), 1, 0)
	n = num(1)
	data("switches", ends(n, 2), 1, 0)
	n = num(2)
	skip(n * 4)
	data("mappings", ends(n, 3), 3, 0)
	for k := 0; k < 3; k++ {
		n = num(1)
		data([]string{"conditions", "rune sets", "glyph sets"}[k], ends(n, 2), 2, 0)
	}
	for k := 0; k < 2; k++ {
		n = num(2)
		data([]string{"rune rules", "glyph rules"}[k], ends(n, 3), 6, 0)
	}
	for k := 0; k < 2; k++ { // kerning
		n = num(3)
		if n > glyphs*glyphs {
			return nil, false
		}
		skip(n * 5)
	}
	return tables, ok && i == len(raw)
}

// Forbidden names a value of the header or the metrics that the format forbids
// (among those that can be told without looking at other sections), or "".
// The data must have whole header and metrics.
func Forbidden(raw []byte) string {
	if binary.LittleEndian.Uint32(raw) != ggfnt.FormatVersion {
		return "an unknown format version"
	}
	i := 28
	if raw[i] == 0 {
		return "an empty font name"
	}
	for k := 0; k < 3; k++ {
		i += 1 + int(raw[i])
	}
	i += 2 + int(raw[i]) + int(raw[i+1])<<8
	glyphs := int(raw[i]) | int(raw[i+1])<<8
	switch {
	case glyphs == 0:
		return "no glyphs"
	case glyphs > 56789:
		return "too many glyphs"
	case raw[i+2] > 1:
		return "a boolean that is neither 0 nor 1"
	case raw[i+4] == 0:
		return "an ascent of zero"
	case raw[i+5] > raw[i+4]:
		return "an extra ascent bigger than the ascent"
	case raw[i+11] != 0 && raw[i+2] == 0:
		return "vertical interspacing without a vertical layout"
	}
	return ""
}

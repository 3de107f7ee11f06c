package spec

// DecodeRule decodes a rewrite rule as the format specification defines it.
// strict is false if the only departures are superfluous fragments.
func DecodeRule(data []byte, wide bool) (r Rule, ok bool) {
	size := 2
	if wide {
		size = 4
	}
	i := 0
	take := func(n int) []byte {
		if n < 0 || i+n > len(data) {
			return nil
		}
		i += n
		return data[i-n : i]
	}
	num := func(n int) (uint32, bool) {
		b := take(n)
		if b == nil {
			return 0, false
		}
		var v uint32
		for k := n - 1; k >= 0; k-- {
			v = v<<8 | uint32(b[k])
		}
		return v, true
	}
	h := take(5)
	if h == nil {
		return r, false
	}
	r.Cond = h[0]
	lens := [3]int{int(h[1]), int(h[2]), int(h[3])}
	if lens[1] == 0 || lens[0]+lens[1]+lens[2] > 255 || int(h[4]) > lens[1] {
		return r, false
	}
	for k := 0; k < int(h[4]); k++ {
		v, good := num(size)
		if !good {
			return r, false
		}
		r.Out = append(r.Out, v)
	}
	for b, n := range lens {
		var elems []Elem
		first := true
		for len(elems) < n || first {
			c, good := num(1)
			if !good {
				return r, false
			}
			if c == 0 && n > 0 || c != 0 && n == 0 {
				return r, false
			}
			first = false
			for k := 0; k < int(c>>4); k++ {
				v, good := num(1)
				if !good {
					return r, false
				}
				elems = append(elems, S(v))
			}
			for k := 0; k < int(c&15); k++ {
				v, good := num(size)
				if !good {
					return r, false
				}
				elems = append(elems, V(v))
			}
		}
		if len(elems) != n {
			return r, false
		}
		switch b {
		case 0:
			r.Head = elems
		case 1:
			r.Body = elems
		case 2:
			r.Tail = elems
		}
	}
	return r, i == len(data)
}

func sameElems(a, b []Elem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkInput compares the input of a rule, as stored, with its description.
func (r *Rule) checkInput(what string, data []byte, wide bool) string {
	got, ok := DecodeRule(data, wide)
	if !ok {
		return what + " is stored malformed"
	}
	if !sameElems(got.Head, r.Head) || !sameElems(got.Body, r.Body) || !sameElems(got.Tail, r.Tail) {
		return what + " is stored with another input"
	}
	return ""
}

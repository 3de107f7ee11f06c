package spec

// Rewriting, as the rules define it: the reference for the rule testers. The
// model works on symbols (0..255); checks map them to glyphs or runes.

// Syms is a set of symbols.
type Syms [4]uint64

func (s *Syms) Add(v uint8)      { s[v>>6] |= 1 << (v & 63) }
func (s *Syms) Has(v uint8) bool { return s[v>>6]>>(v&63)&1 == 1 }

// RwRule is a rule whose input elements are sets of symbols.
type RwRule struct {
	Head, Body, Tail int
	In               []Syms
	Out              []uint32
}

func (r *RwRule) matches(in []uint8) bool {
	for i := range r.In {
		if !r.In[i].Has(in[i]) {
			return false
		}
	}
	return true
}

// RwStep tells that after taking Taken elements, Emitted elements have been
// reported.
type RwStep struct{ Taken, Emitted int }

// Rewrite applies the rules to a whole sequence. At each position the longest
// matching rule is applied (the first one if there are many), but the elements
// of a tail, already reported, can only be the head of another rule. Value
// maps a symbol that no rule touches to the reported value.
//
// ambiguous tells that somewhere the first rule of the longest length was not
// applicable due to that restriction while a later one of the same length was:
// the definition does not settle this.
func Rewrite(rules []RwRule, in []uint8, value func(uint8) uint32, out []uint32, steps []RwStep) (o []uint32, s []RwStep, ambiguous bool) {
	longest := 0
	for i := range rules {
		longest = max(longest, len(rules[i].In))
	}
	pos, kept := 0, 0
	for pos < len(in) {
		steps = append(steps, RwStep{pos, len(out)})
		var hit *RwRule
		for n := min(longest, len(in)-pos); n > 0 && hit == nil; n-- {
			blocked := false
			for i := range rules {
				r := &rules[i]
				if len(r.In) != n || !r.matches(in[pos:]) {
					continue
				}
				if r.Head < kept {
					blocked = true
					continue
				}
				if blocked {
					ambiguous = true
				}
				hit = r
				break
			}
		}
		if hit == nil {
			if kept > 0 {
				kept--
			} else {
				out = append(out, value(in[pos]))
			}
			pos++
			continue
		}
		for i := kept; i < hit.Head; i++ {
			out = append(out, value(in[pos+i]))
		}
		out = append(out, hit.Out...)
		pos += hit.Head + hit.Body
		kept = hit.Tail
		for i := 0; i < kept; i++ {
			out = append(out, value(in[pos+i]))
		}
	}
	steps = append(steps, RwStep{pos, len(out)})
	return out, steps, ambiguous
}

// Explained tells whether some way to apply any of the rules, or none, gives
// an output. Each element is in the body of at most one of the applied rules,
// the bodies are in order, and no head reaches into a previous body.
func Explained(rules []RwRule, in []uint8, value func(uint8) uint32, got []uint32) bool {
	var at func(i, j, rewritten int) bool
	at = func(i, j, rewritten int) bool {
		if i == len(in) {
			return j == len(got)
		}
		if j < len(got) && got[j] == value(in[i]) && at(i+1, j+1, rewritten) {
			return true
		}
		for n := range rules {
			r := &rules[n]
			from := i - r.Head
			if from < rewritten || from+len(r.In) > len(in) || j+len(r.Out) > len(got) || !r.matches(in[from:]) {
				continue
			}
			fits := true
			for k, o := range r.Out {
				fits = fits && got[j+k] == o
			}
			if fits && at(i+r.Body, j+len(r.Out), i+r.Body) {
				return true
			}
		}
		return false
	}
	return at(0, 0, 0)
}

// RwStates counts the states and the widest fan out of the automaton that
// follows all the rules at once: one state per number of elements and set of
// rules that are still possible. It stops counting at limit.
func RwStates(rules []RwRule, limit int) (states, fan int) {
	level := map[string][]int{}
	var all []int
	for i := range rules {
		all = append(all, i)
	}
	level[""] = all
	states = 1
	for depth := 0; len(level) > 0; depth++ {
		next := map[string][]int{}
		for _, set := range level {
			last, width := "", 0
			for v := 0; v < 256; v++ {
				var live []int
				key, done := "", ""
				for _, r := range set {
					if in := rules[r].In; depth < len(in) && in[depth].Has(uint8(v)) {
						if depth+1 < len(in) {
							live = append(live, r)
							key += string(rune(r)) + ","
						} else {
							done += string(rune(r)) + ";"
						}
					}
				}
				if key != "" {
					next[key] = live
				}
				if key+"/"+done != last {
					last = key + "/" + done
					if last != "/" {
						width++
					}
				}
			}
			fan = max(fan, width)
		}
		states += len(next)
		if states > limit {
			return states, fan
		}
		level = next
	}
	return states, fan
}

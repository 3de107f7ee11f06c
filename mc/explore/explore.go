// Package explore is a small stateless model checker: a check is a
// deterministic function of the values returned by (*X).Choose, and the
// explorer executes it once for every possible vector of choices (depth
// first), in several worker processes. Nothing is sampled.
package explore

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// X is one execution.
type X struct {
	vec     []int
	widths  []int
	pos     int
	limit   int // if > 0, abort at this number of choices
	logging bool
	logs    []string
	run     *runner
	tier    string
	cleanup []func()
}

type abortRun struct{}
type prune struct{}
type nondet struct{ msg string }

// Failure is a property violation found in an execution.
type Failure struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

// Thorough tells whether the thorough tier is running.
func (x *X) Thorough() bool { return x.tier == "thorough" }

// Pick returns a in the quick tier and b in the thorough one.
func (x *X) Pick(a, b int) int {
	if x.Thorough() {
		return b
	}
	return a
}

// Choose returns a value in [0, n); the explorer tries all of them.
func (x *X) Choose(n int) int {
	if n <= 0 {
		panic("harness: Choose with no alternatives")
	}
	if n == 1 {
		return 0
	}
	if x.pos < len(x.vec) {
		v := x.vec[x.pos]
		if x.pos < len(x.widths) {
			if x.widths[x.pos] != n {
				panic(nondet{fmt.Sprintf("choice %d had %d alternatives, now %d", x.pos, x.widths[x.pos], n)})
			}
		} else {
			x.widths = append(x.widths, n)
		}
		if v >= n {
			panic(nondet{fmt.Sprintf("choice %d is %d of %d", x.pos, v, n)})
		}
		x.pos++
		return v
	}
	if x.limit > 0 && x.pos >= x.limit {
		panic(abortRun{})
	}
	x.vec = append(x.vec, 0)
	x.widths = append(x.widths, n)
	x.pos++
	return 0
}

// Bool is a two way choice.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Replaying tells whether the upcoming choice point was already visited
// by an earlier execution (used by checks to count distinct nodes only once).
func (x *X) AtFrontier() bool { return x.pos >= len(x.vec) }

// Planning tells whether the work is only being divided: the result of the
// execution does not matter, only its choices.
func (x *X) Planning() bool { return x.limit > 0 }

// Step counts one transition of the system under check.
func (x *X) Step() { x.run.res.Transitions++ }

// Steps counts n transitions.
func (x *X) Steps(n int) { x.run.res.Transitions += int64(n) }

// State records the hash of a visited state.
func (x *X) State(h uint64) {
	r := x.run
	if len(r.states) < maxHashes {
		r.states[h] = struct{}{}
	} else if _, ok := r.states[h]; !ok {
		r.res.StatesCapped = true
	}
}

// StateOf is State over the formatted representation of its arguments.
func (x *X) StateOf(args ...any) { x.State(HashOf(args...)) }

// Outcome records a distinct observed result.
func (x *X) Outcome(h uint64) {
	r := x.run
	if len(r.outcomes) < maxHashes {
		r.outcomes[h] = struct{}{}
	}
}

// Count increments a named coverage counter.
func (x *X) Count(name string) { x.run.res.Counters[name]++ }

// CountN adds to a named coverage counter.
func (x *X) CountN(name string, n int64) { x.run.res.Counters[name] += n }

// Logging tells whether logs are being kept for this execution.
func (x *X) Logging() bool { return x.logging }

// Logf describes what the execution does (kept only for samples and replays).
func (x *X) Logf(format string, args ...any) {
	if x.logging && len(x.logs) < 400 {
		x.logs = append(x.logs, fmt.Sprintf(format, args...))
	}
}

// Failf ends the execution with a violation.
func (x *X) Failf(format string, args ...any) {
	panic(Failure{Msg: fmt.Sprintf(format, args...)})
}

// FailKey ends the execution with a violation identified by key (the key is
// what the known findings file refers to).
func (x *X) FailKey(key, format string, args ...any) {
	panic(Failure{Key: key, Msg: fmt.Sprintf(format, args...)})
}

// Prune ends the execution silently (the case is out of the domain).
func (x *X) Prune() { panic(prune{}) }

// Cleanup registers a function to run at the end of the execution.
func (x *X) Cleanup(f func()) { x.cleanup = append(x.cleanup, f) }

// Catch runs f and returns a description of its panic, if any.
func (x *X) Catch(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case abortRun, prune, nondet, Failure:
				panic(r)
			}
			msg, panicked = fmt.Sprint(r), true
		}
	}()
	f()
	return "", false
}

// Keep runs f; if it panics, the violation is reported with this context.
func (x *X) NoPanic(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case abortRun, prune, nondet, Failure:
				panic(r)
			}
			panic(Failure{Key: "", Msg: fmt.Sprintf("%s panicked: %v\n%s", what, r, stackOf())})
		}
	}()
	f()
}

func stackOf() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	// drop everything up to the panic call itself
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

const maxHashes = 6_000_000

// Check is a property check.
type Check struct {
	ID        string
	Title     string
	Level     string // defaults to model_checking
	Rule      string // how cases are made, what a state is
	Bounds    func(tier string) string
	Assume    []string
	Body      func(x *X)
	QuickSec  int // internal deadlines
	ThorSec   int
	Serial    bool // one worker only
	NoExhaust string
	Init      func(tier string)
	HangSec   int
}

// Result is what one worker reports.
type Result struct {
	Executions   int64             `json:"executions"`
	Pruned       int64             `json:"pruned"`
	Transitions  int64             `json:"transitions"`
	States       int64             `json:"states"`
	Outcomes     int64             `json:"outcomes"`
	StatesCapped bool              `json:"states_capped"`
	MaxDepth     int               `json:"max_depth"`
	Complete     bool              `json:"complete"`
	Nondet       []string          `json:"nondet"`
	Counters     map[string]int64  `json:"counters"`
	Samples      []Sample          `json:"samples"`
	Violation    *Violation        `json:"violation"`
	Known        map[string]string `json:"known"`
}

type Sample struct {
	Choices []int    `json:"choices"`
	Log     []string `json:"log"`
}

type Violation struct {
	Failure
	Choices []int    `json:"choices"`
	Log     []string `json:"log"`
	Before  [][]int  `json:"before"` // prefixes explored by the same process, this one last
	Index   int64    `json:"index"`
	Kind    string   `json:"kind"`
}

type runner struct {
	check    *Check
	tier     string
	known    map[string]string
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	res      Result
	deadline time.Time
	curVec   atomic.Pointer[[]int]
	started  atomic.Int64
	trace    *os.File
}

func newRunner(c *Check, tier string, known map[string]string) *runner {
	r := &runner{check: c, tier: tier, known: known}
	r.states = make(map[uint64]struct{})
	r.outcomes = make(map[uint64]struct{})
	r.res.Counters = make(map[string]int64)
	r.res.Known = make(map[string]string)
	return r
}

type runEnd int

const (
	endOK runEnd = iota
	endAbort
	endPrune
	endFail
	endNondet
)

func (r *runner) exec(vec, widths []int, limit int, logging bool) (x *X, end runEnd, fail Failure) {
	x = &X{vec: vec, widths: widths, limit: limit, logging: logging, run: r, tier: r.tier}
	if r.trace != nil {
		b := []byte(fmt.Sprint(vec) + "\n")
		_ = r.trace.Truncate(0)
		_, _ = r.trace.WriteAt(b, 0)
	}
	cp := append([]int(nil), vec...)
	r.curVec.Store(&cp)
	r.started.Store(time.Now().UnixNano())
	defer func() {
		r.started.Store(0)
		for i := len(x.cleanup) - 1; i >= 0; i-- {
			x.cleanup[i]()
		}
	}()
	defer func() {
		if p := recover(); p != nil {
			switch v := p.(type) {
			case abortRun:
				end = endAbort
			case prune:
				end = endPrune
			case nondet:
				end, fail = endNondet, Failure{Msg: v.msg}
			case Failure:
				end, fail = endFail, v
			default:
				end, fail = endFail, Failure{Msg: fmt.Sprintf("unexpected panic: %v\n%s", p, stackOf())}
			}
		}
	}()
	r.check.Body(x)
	return x, endOK, fail
}

func next(vec, widths []int, floor int) ([]int, []int) {
	n := len(vec)
	for n > floor && vec[n-1]+1 >= widths[n-1] {
		n--
	}
	if n <= floor {
		return nil, nil
	}
	vec, widths = vec[:n], widths[:n]
	vec[n-1]++
	return vec, widths
}

// frontier returns all distinct choice prefixes up to a length, in order. The
// length grows until there are enough of them or a time budget is used up.
func (r *runner) frontier(target int, budget time.Duration) [][]int {
	start := time.Now()
	best := [][]int{{}}
	for depth := 1; depth <= 24; depth++ {
		var out [][]int
		vec, widths := []int{}, []int{}
		full, late := true, false
		for {
			x, end, _ := r.exec(vec, widths, depth, false)
			if end == endAbort {
				full = false
			}
			n := len(x.vec)
			if n > depth {
				n = depth
			}
			out = append(out, append([]int(nil), x.vec[:n]...))
			vec, widths = next(x.vec, x.widths, 0)
			late = time.Since(start) > budget
			if vec == nil || late {
				break
			}
		}
		if vec != nil { // out of time
			break
		}
		best = out
		if full || late || len(out) >= target {
			break
		}
	}
	return best
}

// source hands out the prefixes of the plan that a worker has to explore.
type source struct {
	plan    [][]int
	claim   func() int // -1 at the end
	claimed []int
}

func (r *runner) explore(src *source) {
	r.res.Complete = true
	sampleEvery := int64(1)
	for {
		at := src.claim()
		if at < 0 {
			return
		}
		src.claimed = append(src.claimed, at)
		pre := src.plan[at]
		vec := append([]int(nil), pre...)
		var widths []int
		floor := len(pre)
		for {
			if r.res.Executions&15 == 0 && time.Now().After(r.deadline) {
				r.res.Complete = false
				return
			}
			logging := r.res.Executions == sampleEvery
			x, end, fail := r.exec(vec, widths, 0, logging)
			r.res.Executions++
			if logging {
				sampleEvery *= 9
				if len(r.res.Samples) < 6 {
					r.res.Samples = append(r.res.Samples, Sample{append([]int(nil), x.vec...), clip(x.logs, 40)})
				}
			}
			if len(x.vec) > r.res.MaxDepth {
				r.res.MaxDepth = len(x.vec)
			}
			switch end {
			case endPrune:
				r.res.Pruned++
			case endNondet:
				r.res.Complete = false
				if len(r.res.Nondet) < 5 {
					r.res.Nondet = append(r.res.Nondet, fail.Msg)
				}
			case endFail:
				if _, ok := r.known[fail.Key]; ok && fail.Key != "" {
					r.res.Known[fail.Key] = fail.Msg
				} else {
					// run it again with logs
					y, end2, fail2 := r.exec(append([]int(nil), x.vec...), nil, 0, true)
					v := &Violation{Failure: fail, Choices: append([]int(nil), x.vec...), Kind: "choices", Index: r.res.Executions}
					for _, c := range src.claimed {
						v.Before = append(v.Before, src.plan[c])
					}
					v.Log = clip(y.logs, 200)
					if end2 == endFail {
						v.Msg = fail2.Msg
					}
					r.res.Violation = v
					r.res.Complete = false
					return
				}
			}
			vec, widths = next(x.vec, x.widths, floor)
			if vec == nil {
				break
			}
		}
	}
}

func clip(s []string, n int) []string {
	if len(s) > n {
		s = s[:n]
	}
	return append([]string(nil), s...)
}

func (r *runner) watchdog() {
	hang := r.check.HangSec
	if hang == 0 {
		hang = 25
	}
	for {
		time.Sleep(200 * time.Millisecond)
		t := r.started.Load()
		kind := ""
		if t != 0 && time.Now().UnixNano()-t > int64(hang)*1e9 {
			kind = "hang"
		}
		var ms runtime.MemStats
		if kind == "" {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				kind = "memory"
			}
		}
		if kind == "" {
			continue
		}
		p := r.curVec.Load()
		v := &Violation{Kind: "choices", Choices: *p, Failure: Failure{Msg: "the execution does not end (" + kind + ")"}}
		buf := make([]byte, 1<<14)
		v.Log = []string{string(buf[:runtime.Stack(buf, true)])}
		res := Result{Violation: v, Counters: map[string]int64{}}
		emit(res)
		os.Exit(3)
	}
}

// Rethrow panics again with the explorer's own panics.
func Rethrow(p any) {
	switch p.(type) {
	case abortRun, prune, nondet, Failure:
		panic(p)
	}
}

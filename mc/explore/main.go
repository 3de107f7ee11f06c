package explore

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

var checks = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { checks[c.ID] = c }

func emit(res Result) {
	b, _ := json.Marshal(res)
	os.Stdout.Write(append([]byte("\n@@RESULT "), append(b, '\n')...))
}

// Replay is the artefact written for a violation.
type Replay struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Kind     string   `json:"kind"`
	Choices  []int    `json:"choices"`
	Before   [][]int  `json:"before,omitempty"`
	Index    int64    `json:"index"`
	Message  string   `json:"message"`
	Log      []string `json:"log"`
	HowTo    string   `json:"how_to_replay"`
}

// Main is the entry point of every harness binary.
func Main() {
	var (
		id     = flag.String("check", "", "property id")
		tier   = flag.String("tier", "quick", "quick or thorough")
		plan   = flag.String("plan", "", "internal: write the plan")
		work   = flag.String("work", "", "internal: plan to work on")
		count  = flag.String("counter", "", "internal: shared counter")
		claims = flag.String("claims", "", "internal: file for the claimed prefixes")
		one    = flag.String("choices", "", "internal: run one vector")
		replay = flag.String("replay", "", "replay file")
		out    = flag.String("out", "/verif", "framework directory")
		hashes = flag.String("hashes", "", "internal: file for hashes")
		trace  = flag.String("trace", "", "internal: file for the current vector")
		procs  = flag.Int("procs", 8, "worker processes")
		secs   = flag.Int("secs", 0, "override the internal deadline")
		list   = flag.Bool("list", false, "list checks")
	)
	flag.Parse()
	if *list {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	c := checks[*id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		os.Exit(2)
	}
	parental := *plan == "" && *one == "" && *work == ""
	if c.Init != nil && !parental {
		c.prepare(*tier)
	}
	known := loadKnown(*out, c.ID)
	limit := c.QuickSec
	if *tier == "thorough" {
		limit = c.ThorSec
		if limit == 0 {
			limit = 600
		}
	} else if limit == 0 {
		limit = 60
	}
	if *secs > 0 {
		limit = *secs
	}
	if *plan != "" {
		b, _ := json.Marshal(newRunner(c, *tier, known).frontier(4000, 4*time.Second))
		if os.WriteFile(*plan, b, 0o644) != nil {
			os.Exit(2)
		}
		return
	}
	if *one != "" || *work != "" {
		r := newRunner(c, *tier, known)
		go r.watchdog()
		if *trace != "" {
			r.trace, _ = os.Create(*trace)
		}
		if *one != "" {
			vec := parseVec(*one)
			x, end, fail := r.exec(vec, nil, 0, true)
			r.res.Executions = 1
			if end == endFail {
				r.res.Violation = &Violation{Failure: fail, Choices: x.vec, Log: x.logs, Kind: "choices"}
			} else {
				r.res.Samples = []Sample{{x.vec, x.logs}}
			}
			emit(r.res)
			return
		}
		r.deadline = time.Now().Add(time.Duration(limit) * time.Second)
		src, err := openSource(*work, *count, *claims)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r.explore(src)
		r.res.States, r.res.Outcomes = int64(len(r.states)), int64(len(r.outcomes))
		if *hashes != "" {
			writeHashes(*hashes+".s", r.states)
			writeHashes(*hashes+".o", r.outcomes)
		}
		emit(r.res)
		return
	}
	os.Exit(parent(c, *tier, *out, *procs, limit, known))
}

// prepare runs the Init of a check. What the check cannot prepare, because the
// code under check does not take valid fonts or never ends, is a violation.
func (c *Check) prepare(tier string) {
	failed := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				failed <- fmt.Sprintf("%v\n%s", p, stackOf())
				return
			}
			failed <- ""
		}()
		c.Init(tier)
	}()
	msg := ""
	select {
	case msg = <-failed:
	case <-time.After(50 * time.Second):
		msg = "it does not end"
	}
	if msg != "" {
		c.Body = func(x *X) { x.Failf("the valid fonts that the check starts from are not usable: %s", msg) }
	}
}

// openSource gives a worker its part of the plan: what a counter shared by all
// workers assigns to it or, without a counter, everything.
func openSource(work, count, claims string) (*source, error) {
	b, err := os.ReadFile(work)
	if err != nil {
		return nil, err
	}
	src := &source{}
	if err := json.Unmarshal(b, &src.plan); err != nil {
		return nil, err
	}
	n := len(src.plan)
	if count == "" {
		at := -1
		src.claim = func() int {
			if at++; at < n {
				return at
			}
			return -1
		}
		return src, nil
	}
	f, err := os.OpenFile(count, os.O_RDWR, 0o644)
	if err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	counter := (*int64)(unsafe.Pointer(&mem[0]))
	log, err := os.Create(claims)
	if err != nil {
		return nil, err
	}
	src.claim = func() int {
		at := atomic.AddInt64(counter, 1) - 1
		if at >= int64(n) {
			return -1
		}
		fmt.Fprintln(log, at)
		return int(at)
	}
	return src, nil
}

func parseVec(s string) []int {
	s = strings.Trim(s, "[] \n")
	vec := []int{}
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == ',' }) {
		n, _ := strconv.Atoi(f)
		vec = append(vec, n)
	}
	return vec
}

func vecStr(v []int) string {
	s := make([]string, len(v))
	for i, n := range v {
		s[i] = strconv.Itoa(n)
	}
	return "[" + strings.Join(s, ",") + "]"
}

func writeHashes(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(m))
	for k := range m {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	_ = os.WriteFile(path, b, 0o644)
}

func loadKnown(out, id string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(filepath.Join(out, "known_findings.json"))
	if err != nil {
		return known
	}
	var file struct {
		Findings []struct{ Property, Key, What string } `json:"findings"`
	}
	if json.Unmarshal(b, &file) != nil {
		return known
	}
	for _, f := range file.Findings {
		if f.Property == id {
			known[f.Key] = f.What
		}
	}
	return known
}

type childResult struct {
	res    Result
	ok     bool
	stderr string
	code   int
}

func child(timeout time.Duration, args ...string) childResult {
	cmd := exec.Command(os.Args[0], args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+childProcs, "GOGC=200")
	cr := childResult{}
	if err := cmd.Start(); err != nil {
		cr.stderr = err.Error()
		return cr
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		_ = cmd.Process.Kill()
		<-done
	}
	cr.code = cmd.ProcessState.ExitCode()
	cr.stderr = se.String()
	if i := bytes.LastIndex(so.Bytes(), []byte("\n@@RESULT ")); i >= 0 {
		if json.Unmarshal(so.Bytes()[i+10:], &cr.res) == nil {
			cr.ok = true
		}
	}
	return cr
}

var childProcs = "2"

func parent(c *Check, tier, out string, procs, limit int, known map[string]string) int {
	start := time.Now()
	if c.Serial {
		procs = 1
	}
	tmp, err := os.MkdirTemp("", "mc-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	planFile, counter := filepath.Join(tmp, "plan"), filepath.Join(tmp, "counter")
	planned := child(60*time.Second, "-check", c.ID, "-tier", tier, "-out", out, "-plan", planFile)
	if b, err := os.ReadFile(planFile); err != nil || !json.Valid(b) || planned.code != 0 {
		_ = os.WriteFile(planFile, []byte("[[]]"), 0o644)
	}
	_ = os.WriteFile(counter, make([]byte, 8), 0o644)
	if c.Init != nil && planned.code == 0 {
		c.prepare(tier)
	}
	results := make([]childResult, procs)
	var wg sync.WaitGroup
	hard := time.Duration(limit+60) * time.Second
	for i := 0; i < procs; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[i] = child(hard, "-check", c.ID, "-tier", tier, "-out", out, "-work", planFile, "-counter", counter,
				"-claims", filepath.Join(tmp, fmt.Sprintf("claims%d", i)), "-hashes", filepath.Join(tmp, strconv.Itoa(i)), "-secs", strconv.Itoa(limit))
		}()
	}
	wg.Wait()

	total := Result{Complete: true, Counters: map[string]int64{}, Known: map[string]string{}}
	var viol *Violation
	notes := []string{}
	for i := range results {
		cr := &results[i]
		if !cr.ok {
			// the worker died: find out which execution did it
			v, note := crashHunt(c, tier, out, tmp, i, procs, limit, cr)
			if v != nil && viol == nil {
				viol = v
			}
			if note != "" {
				notes = append(notes, note)
			}
			total.Complete = false
			continue
		}
		r := &cr.res
		total.Executions += r.Executions
		total.Pruned += r.Pruned
		total.Transitions += r.Transitions
		total.StatesCapped = total.StatesCapped || r.StatesCapped
		if r.MaxDepth > total.MaxDepth {
			total.MaxDepth = r.MaxDepth
		}
		total.Complete = total.Complete && r.Complete
		total.Nondet = append(total.Nondet, r.Nondet...)
		for k, n := range r.Counters {
			total.Counters[k] += n
		}
		for k, m := range r.Known {
			total.Known[k] = m
		}
		if len(total.Samples) < 8 {
			n := 2
			if len(r.Samples) < n {
				n = len(r.Samples)
			}
			total.Samples = append(total.Samples, r.Samples[len(r.Samples)-n:]...)
		}
		if r.Violation != nil && (viol == nil || len(r.Violation.Choices) < len(viol.Choices)) {
			viol = r.Violation
		}
	}
	total.States = union(tmp, procs, ".s")
	total.Outcomes = union(tmp, procs, ".o")

	violations := 0
	var replayPath string
	if viol != nil {
		confirmed, note := confirm(c, tier, out, tmp, procs, limit, viol)
		if note != "" {
			notes = append(notes, note)
		}
		if confirmed {
			violations = 1
			replayPath = writeReplay(c, tier, out, viol)
		} else {
			total.Complete = false
		}
	}
	writeEvidence(c, tier, out, total, violations, notes, time.Since(start).Seconds())
	for k, m := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, known[k], firstLine(m))
	}
	fmt.Printf("%s [%s] executions=%d states=%d transitions=%d outcomes=%d depth<=%d exhaustive=%v wall=%.1fs\n",
		c.ID, tier, total.Executions, total.States, total.Transitions, total.Outcomes, total.MaxDepth, total.Complete, time.Since(start).Seconds())
	var names []string
	for k := range total.Counters {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("  %s: %d\n", k, total.Counters[k])
	}
	for _, n := range total.Nondet {
		fmt.Println("  nondeterminism:", n)
	}
	for _, n := range notes {
		fmt.Println("  note:", n)
	}
	if violations > 0 {
		fmt.Println(viol.Msg)
		for _, l := range clip(viol.Log, 60) {
			fmt.Println("   |", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replayPath)
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func writePlan(tmp, name string, plan [][]int) string {
	b, _ := json.Marshal(plan)
	path := filepath.Join(tmp, name)
	_ = os.WriteFile(path, b, 0o644)
	return path
}

func crashHunt(c *Check, tier, out, tmp string, i, procs, limit int, cr *childResult) (*Violation, string) {
	tr := filepath.Join(tmp, "trace")
	var all, mine [][]int
	b, _ := os.ReadFile(filepath.Join(tmp, "plan"))
	_ = json.Unmarshal(b, &all)
	b, _ = os.ReadFile(filepath.Join(tmp, fmt.Sprintf("claims%d", i)))
	for _, n := range strings.Fields(string(b)) {
		if at, err := strconv.Atoi(n); err == nil && at < len(all) {
			mine = append(mine, all[at])
		}
	}
	// usually the last one is enough, and quicker
	var again childResult
	for _, part := range [][][]int{mine[max(0, len(mine)-1):], mine} {
		again = child(time.Duration(limit+60)*time.Second, "-check", c.ID, "-tier", tier, "-out", out,
			"-work", writePlan(tmp, "again", part), "-trace", tr, "-secs", strconv.Itoa(limit))
		if !again.ok || again.res.Violation != nil {
			break
		}
	}
	if again.ok {
		if again.res.Violation != nil {
			return again.res.Violation, ""
		}
		return nil, "a worker process died once and not when run again: " + tail(cr.stderr)
	}
	b, _ = os.ReadFile(tr)
	vec := parseVec(string(b))
	return &Violation{Kind: "crash", Choices: vec, Before: mine,
		Failure: Failure{Msg: "the process dies: " + tail(again.stderr)}, Log: []string{head(again.stderr, 3000)}}, ""
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string) string { return head(strings.TrimSpace(s), 400) }

// confirm re-executes the violation in fresh processes: five times alone or,
// if it needs what earlier executions left in the process, twice with them.
func confirm(c *Check, tier, out, tmp string, procs, limit int, v *Violation) (bool, string) {
	hang := c.HangSec
	if hang == 0 {
		hang = 25
	}
	hits := 0
	for k := 0; k < 5; k++ {
		cr := child(time.Duration(hang+30)*time.Second, "-check", c.ID, "-tier", tier, "-out", out, "-choices", vecStr(v.Choices))
		if !cr.ok || cr.res.Violation != nil {
			hits++
			if cr.ok && len(cr.res.Violation.Log) > 0 {
				v.Msg, v.Log = cr.res.Violation.Msg, clip(cr.res.Violation.Log, 200)
			}
		} else {
			break
		}
		if strings.Contains(v.Msg, "does not end") && hits >= 2 {
			break
		}
	}
	if hits >= 5 || (hits >= 2 && strings.Contains(v.Msg, "does not end")) {
		return true, ""
	}
	if len(v.Before) > 0 {
		for k := 0; k < 2; k++ {
			cr := child(time.Duration(limit+60)*time.Second, "-check", c.ID, "-tier", tier, "-out", out, "-work", writePlan(tmp, "before", v.Before), "-secs", strconv.Itoa(limit))
			if cr.ok && cr.res.Violation == nil {
				// state kept by the runtime itself (pools, map seeds) may matter
				return hits > 0, fmt.Sprintf("violation seen once, %d of 5 alone, not when the shard was run again: %s", hits, firstLine(v.Msg))
			}
		}
		v.Kind = "shard"
		return true, "needs the earlier executions of its shard"
	}
	return hits > 0, fmt.Sprintf("violation reproduced %d times of 5: %s", hits, firstLine(v.Msg))
}

func writeReplay(c *Check, tier, out string, v *Violation) string {
	dir := filepath.Join(out, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", c.ID, HashOf(v.Choices, v.Kind, tier)))
	r := Replay{Property: c.ID, Tier: tier, Kind: v.Kind, Choices: v.Choices, Index: v.Index,
		Message: v.Msg, Log: v.Log, HowTo: "bash /verif/run.sh " + c.ID + " --replay " + path}
	if v.Kind == "shard" {
		r.Before = v.Before
	}
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var cr childResult
	if r.Kind == "shard" {
		tmp, err := os.MkdirTemp("", "replay-")
		if err != nil {
			return 2
		}
		defer os.RemoveAll(tmp)
		cr = child(15*time.Minute, "-check", r.Property, "-tier", r.Tier, "-work", writePlan(tmp, "before", r.Before))
	} else {
		cr = child(2*time.Minute, "-check", r.Property, "-tier", r.Tier, "-choices", vecStr(r.Choices))
	}
	if cr.ok && cr.res.Violation == nil {
		for _, s := range cr.res.Samples {
			fmt.Println(strings.Join(s.Log, "\n"))
		}
		fmt.Println("the property holds on this execution")
		return 0
	}
	if cr.ok {
		fmt.Println(strings.Join(cr.res.Violation.Log, "\n"))
		fmt.Println(cr.res.Violation.Msg)
	} else {
		fmt.Println(tail(cr.stderr))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

func union(tmp string, procs int, ext string) int64 {
	m := map[uint64]struct{}{}
	for i := 0; i < procs; i++ {
		b, err := os.ReadFile(filepath.Join(tmp, strconv.Itoa(i)+ext))
		if err != nil {
			continue
		}
		for ; len(b) >= 8; b = b[8:] {
			m[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	return int64(len(m))
}

// Extra lets a check add measured values to its evidence.
var Extra = map[string]any{}

func writeEvidence(c *Check, tier, out string, t Result, violations int, notes []string, wall float64) {
	level := c.Level
	if level == "" {
		level = "model_checking"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := []any{}
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"states": t.States, "transitions": t.Transitions,
		"traces_validated_against_impl": t.Executions - t.Pruned,
		"executions":                    t.Executions,
		"evaluations":                   t.Executions,
		"distinct_nontrivial":           t.Outcomes,
		"rule":                          c.Rule,
		"samples":                       samples,
		"max_choice_depth":              t.MaxDepth,
		"counters":                      t.Counters,
		"exhaustive":                    t.Complete,
		"states_capped":                 t.StatesCapped,
	}
	if c.Bounds != nil {
		func() {
			defer func() {
				if p := recover(); p != nil {
					cov["bounds"] = fmt.Sprint("unknown: ", p)
				}
			}()
			cov["bounds"] = c.Bounds(tier)
		}()
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	for k, v := range Extra {
		cov[k] = v
	}
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": wall, "violations": violations}
	if len(c.Assume) > 0 {
		ev["assumptions"] = c.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(out, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
}

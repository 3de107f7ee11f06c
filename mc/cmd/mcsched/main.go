// Command mcsched explores the interleavings of goroutines that share the
// code and the fonts. It runs over instrumented copies of the sources, with
// the race detector.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"
	"time"

	"github.com/tinne26/ggfnt/verifmc/explore"
	"github.com/tinne26/ggfnt/verifmc/shim/vsched"
)

type X = explore.X

const refEnv = "MCSCHED_REFERENCE"

func main() {
	if id := os.Getenv(refEnv); id != "" {
		// what a script gives alone
		for _, s := range scripts[id]() {
			if s.name == os.Getenv(refEnv+"_SCRIPT") {
				_ = json.NewEncoder(os.Stdout).Encode(s.run())
			}
		}
		return
	}
	explore.Main()
}

type script struct {
	name string
	run  func() string
}

var scripts = map[string]func() []script{}
var expected, broken map[string]string
var loaded []script

// prepare makes the scripts, and gets the results that they must have from
// other processes, one for each, so that nothing has run in this one.
func prepare(id string) func(string) {
	return func(string) {
		loaded = scripts[id]()
		expected = map[string]string{}
		broken = map[string]string{}
		var mutex sync.Mutex
		var wg sync.WaitGroup
		for _, s := range loaded {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
				defer cancel()
				cmd := exec.CommandContext(ctx, os.Args[0])
				cmd.Env = append(os.Environ(), refEnv+"="+id, refEnv+"_SCRIPT="+s.name)
				var stderr bytes.Buffer
				cmd.Stderr = &stderr
				text, err := cmd.Output()
				var got string
				if err == nil {
					err = json.Unmarshal(text, &got)
				}
				mutex.Lock()
				defer mutex.Unlock()
				if err != nil {
					broken[s.name] = fmt.Sprint(err, ": ", stderr.String())
				}
				expected[s.name] = got
			}()
		}
		wg.Wait()
	}
}

func runScripts(x *X, which []int, calls bool, preemptions int) {
	for _, i := range which {
		if msg := broken[loaded[i].name]; msg != "" {
			x.Failf("%q alone in a new process: %s", loaded[i].name, msg)
		}
	}
	var fns []func() string
	text := ""
	for _, i := range which {
		fns = append(fns, loaded[i].run)
		text += loaded[i].name + ", "
	}
	text += fmt.Sprintf("up to %d preemptions", preemptions)
	if calls {
		text += " at function entries"
	}
	s := vsched.Run(x, calls, preemptions, fns)
	x.Steps(int(s.Points))
	x.CountN("scheduling points", s.Points)
	x.CountN("decisions", int64(s.Decisions))
	x.Logf("%s: %v", text, s.Switches)
	x.State(explore.HashOf(which, calls, s.Switches))
	if s.Deadlock {
		x.Failf("%s: deadlock, schedule %v", text, s.Switches)
	}
	for k, i := range which {
		r := s.Results[k]
		if r.Panic != "" {
			x.Failf("%s: %q panics: %s\nschedule %v", text, loaded[i].name, r.Panic, s.Switches)
		}
		if want := expected[loaded[i].name]; r.Out != want {
			x.Failf("%s: %q gives\n  %s\nalone it gives\n  %s\nschedule %v", text, loaded[i].name, r.Out, want, s.Switches)
		}
		x.Outcome(explore.HashOf(i, r.Out))
	}
}

func same(a, b []byte) bool { return bytes.Equal(a, b) }

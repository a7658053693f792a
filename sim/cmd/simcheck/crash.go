package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/sim/harness"
)

// A run can take its whole process with it (memory used up, stack overflow,
// any other fatal error of the Go runtime, none of which can be recovered) or
// never come back. The worker notes which run it is at, the parent repeats that
// run alone, and if it ends in the same way again that is the violation.

// maxData is the memory a worker may use; the largest runs need a third of it.
const maxData = 3 << 30

// A run that takes this long does not end; the longest take some seconds.
const hangAfter = 100 * time.Second

const exitHang = 7

// lifeline tells the parent and the watchdog which run a worker is at.
type lifeline struct {
	f     *os.File
	since atomic.Int64
}

func newLifeline(path string) *lifeline {
	lim := syscall.Rlimit{Cur: maxData, Max: maxData}
	syscall.Setrlimit(syscall.RLIMIT_DATA, &lim)
	debug.SetMemoryLimit(maxData / 3) // collect in time
	l := &lifeline{}
	if path != "" {
		f, err := os.Create(path)
		if err != nil {
			fatal("%v", err)
		}
		l.f = f
	}
	l.since.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, l.since.Load())) > hangAfter {
				fmt.Fprintf(os.Stderr, "simcheck: a run does not end within %v\n", hangAfter)
				os.Exit(exitHang)
			}
		}
	}()
	return l
}

func (l *lifeline) at(idx int) {
	l.since.Store(time.Now().UnixNano())
	if l.f != nil {
		l.f.WriteAt([]byte(fmt.Sprintf("%12d", idx)), 0)
	}
}

// death says how a process ended that did not exit by itself; "" if it did.
func death(err error, stderr []byte) (class, detail string) {
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return "", ""
	}
	if ee.ExitCode() == exitHang {
		return "hang", "the run does not end, and passes no scheduling point"
	}
	for _, l := range strings.Split(string(stderr), "\n") {
		for _, s := range []string{"fatal error: ", "runtime: out of memory", "runtime: goroutine stack exceeds"} {
			if strings.HasPrefix(l, s) {
				return "crash", "the process died: " + l
			}
		}
	}
	if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		return "crash", "the process died: " + ws.Signal().String()
	}
	return "", ""
}

// dies runs a case in a process of its own.
func dies(path string) (class, detail string) {
	cmd := self([]string{"-inner", "-replay", path})
	var b bytes.Buffer
	cmd.Stderr = &b
	_, err := cmd.Output()
	return death(err, b.Bytes())
}

// readIdx reads the number of the run a worker was at.
func readIdx(file string) (int, bool) {
	b, err := os.ReadFile(file)
	if err != nil {
		return 0, false
	}
	idx, err := strconv.Atoi(strings.TrimSpace(string(b)))
	return idx, err == nil
}

// diesAlone tells whether a run takes a process of its own with it.
func diesAlone(idx, worker int) bool {
	c := harness.Generate(*prop, profile(), runSeed(*prop, *seed, idx))
	path := filepath.Join(*outDir, fmt.Sprintf("%s-alone%d-%d.json", *prop, os.Getpid(), worker))
	b, _ := json.Marshal(&ReplayFile{Property: *prop, Tier: *tier, Seed: *seed, Run: idx, Finding: &harness.Finding{}, Case: c})
	if os.MkdirAll(*outDir, 0o755) != nil || os.WriteFile(path, b, 0o644) != nil {
		return true
	}
	defer os.Remove(path)
	class, _ := dies(path)
	return class != ""
}

// reportDeath reports the death of a worker, if its last run dies again.
func reportDeath(idx int, class string) bool {
	if err := os.MkdirAll(*outDir, 0o755); err != nil {
		fatal("%v", err)
	}
	c := harness.Generate(*prop, profile(), runSeed(*prop, *seed, idx))
	path := filepath.Join(*outDir, fmt.Sprintf("%s-seed%d-run%d.json", *prop, *seed, idx))
	put := func(c *harness.Case, f *harness.Finding) {
		rf := &ReplayFile{Property: *prop, Tier: *tier, Seed: *seed, Run: idx, Finding: f, Case: c, Original: nops(c), Ops: nops(c)}
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	f := &harness.Finding{Class: class}
	put(c, f)
	got, detail := dies(path)
	if got == "" {
		os.Remove(path)
		return false
	}
	f.Class, f.Detail = got, detail
	if got == "crash" { // hangs take too long to be made smaller
		deadline := time.Now().Add(20 * time.Second)
		c = harness.Shrink(c, func(k *harness.Case) bool {
			if time.Now().After(deadline) {
				return false
			}
			put(k, f)
			got, _ := dies(path)
			return got == f.Class
		})
	}
	put(c, f)
	if got == "hang" {
	} else if got, _ := dies(path); got != f.Class {
		fatal("run %d: the process died once and not again", idx)
	}
	fmt.Fprintf(stdout, "violation class=%s: %s\n", f.Class, f.Detail)
	for _, o := range harness.Describe(c) {
		fmt.Fprintln(stdout, "  "+o)
	}
	fmt.Fprintf(stdout, "run=%d run_seed=%d calls=%d\n", idx, c.Seed, nops(c))
	fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n", *prop, path)
	return true
}

// Command simcheck decides the properties by deterministic simulation.
//
//	simcheck -prop C01 -tier quick -seed 1 -out DIR -evidence FILE   (parent)
//	simcheck -replay FILE                                            (reproduce)
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/harness"
	"verif.local/sim/simrt"
)

var (
	prop     = flag.String("prop", "", "property")
	tier     = flag.String("tier", "quick", "quick or thorough")
	seed     = flag.Uint64("seed", 1, "VERIF_SEED")
	outDir   = flag.String("out", "/verif/out", "where replay files go")
	evidence = flag.String("evidence", "", "evidence file to write")
	replay   = flag.String("replay", "", "replay file")
	workers  = flag.Int("workers", 0, "worker processes")
	nruns    = flag.Int("runs", 0, "override the number of runs")
	wallCap  = flag.Int("cap", 0, "wall-clock cap in seconds")
	verbose  = flag.Bool("v", false, "print the replayed history")
	// worker mode
	worker  = flag.Int("worker", -1, "")
	scratch = flag.String("scratch", "", "")
	from    = flag.Int("from", 0, "first run of a worker")
	digests = flag.Int("digests", 0, "print the digests of the first n runs")
	inner   = flag.Bool("inner", false, "replay in this very process")
)

// runsFor is the number of runs of a tier.
func runsFor(p, tier string) (runs, capS int) {
	q, ok := quickRuns[p]
	if !ok {
		q = 200000
	}
	if tier == "thorough" {
		return q * 25, 840
	}
	return q, 240
}

// sized so that a quick check takes about half a minute on eight cores
var quickRuns = map[string]int{
	"C01": 1000000, "C02": 1000000, "C03": 900000, "C04": 700000, "C05": 600000, "C06": 600000,
	"C07": 400000, "C08": 250000, "C09": 250000, "C10": 350000, "C11": 350000, "C12": 600000,
	"C13": 700000, "C14": 350000, "C15": 600000, "C16": 400000, "C17": 400000, "C18": 600000, "C20": 500000, "C21": 300000,
}

func runSeed(p string, seed uint64, idx int) uint64 {
	h := uint64(14695981039346656037)
	for _, b := range []byte(p) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	r := harness.NewRNG(h ^ seed*0x9e3779b97f4a7c15 ^ uint64(idx)*0xd1342543de82ef95)
	r.U()
	return r.U()
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simcheck: "+f+"\n", a...)
	os.Exit(2)
}

// Stats is what a worker reports.
type Stats struct {
	Runs      int
	Steps     int64
	SimUS     int64
	Preempts  int64
	Ops       int64
	Overlaps  int64
	NonTriv   int
	Unknown   int
	Nodes     int64
	Faults    map[string]int64
	Results   map[string]int64 // system/op outcome probes
	Strats    map[string]int64
	Points    [16]int64
	Harness   string
	FailIdx   int
	Fail      *harness.Case
	Finding   *harness.Finding
	Capped    bool
	LastIdx   int
	Sample    []any
	MaxOpStep int
	MaxShare  float64 // of its step budget that a call used
}

// stdout is the real standard output; what the library prints goes nowhere.
var stdout = os.Stdout

func main() {
	flag.Parse()
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	switch {
	case *replay != "":
		doReplay(*replay)
	case *digests > 0:
		w := bufio.NewWriter(stdout)
		p := profile()
		life := newLifeline("")
		for i := 0; i < *digests; i++ {
			life.at(i)
			c := harness.Generate(*prop, p, runSeed(*prop, *seed, i))
			r := harness.Run(c)
			fmt.Fprintf(w, "%d %016x %016x %d\n", i, r.Digest, r.Sched, r.Steps)
		}
		w.Flush()
	case *worker >= 0:
		doWorker()
	default:
		parent()
	}
}

func profile() *harness.Profile {
	p := harness.Props[*prop]
	if p == nil {
		fatal("no profile for property %q", *prop)
	}
	if n := quickRuns[*prop]; n > 0 {
		harness.Rare(p, n, rareRuns)
	}
	return p
}

// rareRuns is how many runs of a quick check have very many entries or a very
// long history.
const rareRuns = 64

func doWorker() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	p := profile()
	st := &Stats{Faults: map[string]int64{}, Results: map[string]int64{}, Strats: map[string]int64{}, FailIdx: -1}
	seen := map[uint64]struct{}{}
	best := filepath.Join(*scratch, "best")
	deadline := time.Now().Add(time.Duration(*wallCap) * time.Second)
	life := newLifeline(filepath.Join(*scratch, fmt.Sprintf("at%d", *worker)))
	for idx := max(*worker, *from); idx < *nruns; idx += *workers {
		if st.Runs&127 == 127 {
			if b, err := os.ReadFile(best); err == nil {
				if n, err := strconv.Atoi(strings.TrimSpace(string(b))); err == nil && n < idx {
					break
				}
			}
			if time.Now().After(deadline) {
				st.Capped = true
				break
			}
		}
		st.LastIdx = idx
		life.at(idx)
		c := harness.Generate(*prop, p, runSeed(*prop, *seed, idx))
		r := harness.Run(c)
		st.Runs++
		st.Steps += int64(r.Steps)
		st.SimUS += r.Now
		st.Preempts += int64(r.Preempt)
		st.Ops += int64(len(r.Events))
		st.Overlaps += int64(r.Overlap)
		st.Strats[c.Strat.Kind]++
		for i, n := range r.Counts {
			st.Points[i] += int64(n)
		}
		for k, n := range r.Faults {
			st.Faults[k] += int64(n)
		}
		for _, e := range r.Events {
			o := "ok"
			switch {
			case e.Res.Pan != "":
				o = "panic"
			case e.Res.Skip:
				o = "skipped"
			case e.Res.Err:
				o = "refused"
			}
			st.Results[c.Insts[e.Op.I].Sys+"."+e.Op.K+"."+o]++
			if x := float64(e.Steps) / float64(c.StepBudget()); x > st.MaxShare {
				st.MaxShare = x
			}
			if e.Steps > st.MaxOpStep {
				st.MaxOpStep = e.Steps
			}
		}
		if r.Overlap > 0 || len(r.Events) >= 20 {
			seen[r.Sched] = struct{}{}
		}
		if len(st.Sample) < 2 && r.Overlap > 2 && len(r.Events) < 16 {
			st.Sample = append(st.Sample, map[string]any{"run": idx, "seed": c.Seed, "instances": c.Insts, "strategy": c.Strat, "history": harness.History(r)})
		}
		f, unk, nodes, hErr := harness.Judge(c, r)
		st.Nodes += int64(nodes)
		if hErr != "" {
			st.Harness = fmt.Sprintf("run %d: %s", idx, hErr)
			break
		}
		if unk {
			st.Unknown++
		}
		if f != nil {
			st.FailIdx, st.Fail, st.Finding = idx, c, f
			lowerBest(best, idx)
			break
		}
	}
	st.NonTriv = len(seen)
	// the distinct set goes to a file so that the parent can merge them
	buf := make([]byte, 0, 8*len(seen))
	for h := range seen {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	if err := os.WriteFile(filepath.Join(*scratch, fmt.Sprintf("seen%d", *worker)), buf, 0o644); err != nil {
		fatal("%v", err)
	}
	js, _ := json.Marshal(st)
	if err := os.WriteFile(filepath.Join(*scratch, fmt.Sprintf("stats%d", *worker)), js, 0o644); err != nil {
		fatal("%v", err)
	}
}

func lowerBest(path string, idx int) {
	if b, err := os.ReadFile(path); err == nil {
		if n, err := strconv.Atoi(strings.TrimSpace(string(b))); err == nil && n <= idx {
			return
		}
	}
	tmp := fmt.Sprintf("%s.%d", path, os.Getpid())
	if os.WriteFile(tmp, []byte(strconv.Itoa(idx)), 0o644) == nil {
		os.Rename(tmp, path)
	}
}

func self(extra []string, env ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	base := []string{"-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed)}
	cmd := exec.Command(exe, append(base, extra...)...)
	cmd.Env = append(os.Environ(), env...)
	cmd.Stderr = os.Stderr
	return cmd
}

func parent() {
	start := time.Now()
	profile()
	n, capS := runsFor(*prop, *tier)
	if *nruns > 0 {
		n = *nruns
	}
	if *wallCap > 0 {
		capS = *wallCap
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	dir, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	fmt.Fprintf(stdout, "simcheck property=%s tier=%s seed=%d runs=%d workers=%d\n", *prop, *tier, *seed, n, *workers)

	// determinism: the same seeds in two more processes, at other degrees of
	// parallelism, must produce the same digests
	const nd = 96
	var dg [2]string
	var dead [2]string
	var wg sync.WaitGroup
	for i, procs := range []string{"GOMAXPROCS=1", "GOMAXPROCS=4"} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := self([]string{"-digests", fmt.Sprint(nd)}, procs)
			var b bytes.Buffer
			cmd.Stderr = &b
			out, err := cmd.Output()
			if err != nil {
				dg[i] = fmt.Sprintf("error %d: %v\n%s", i, err, tail(b.Bytes()))
				dead[i], _ = death(err, b.Bytes())
				return
			}
			dg[i] = string(out)
		}()
	}
	wg.Wait()
	died := dead[0] != "" && dead[1] != "" // a worker will find out where
	for _, d := range dg {
		if strings.HasPrefix(d, "error") && !died {
			fatal("determinism run failed: %s", d)
		}
	}
	detRuns = strings.Count(dg[0], "\n")
	if dg[0] != dg[1] && !died {
		a, b := strings.Split(dg[0], "\n"), strings.Split(dg[1], "\n")
		for i := range a {
			if i >= len(b) || a[i] != b[i] {
				fatal("not deterministic: run %q vs %q", a[i], b[min(i, len(b)-1)])
			}
		}
		fatal("not deterministic")
	}

	errs := make([]error, *workers)
	bufs := make([]bytes.Buffer, *workers)
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			at := filepath.Join(dir, fmt.Sprintf("at%d", w))
			for from, tries := 0, 0; ; tries++ {
				bufs[w].Reset()
				cmd := self([]string{"-worker", fmt.Sprint(w), "-workers", fmt.Sprint(*workers), "-runs", fmt.Sprint(n), "-scratch", dir, "-cap", fmt.Sprint(capS), "-from", fmt.Sprint(from)})
				cmd.Stderr = &bufs[w]
				if errs[w] = cmd.Run(); errs[w] == nil {
					return
				}
				idx, ok := readIdx(at)
				if !ok {
					return
				}
				if class, _ := death(errs[w], bufs[w].Bytes()); class == "" || tries == 3 || diesAlone(idx, w) {
					lowerBest(filepath.Join(dir, "best"), idx)
					return
				}
				// not the fault of that run: go on with a new process
				from = idx
			}
		}()
	}
	wg.Wait()
	tot := &Stats{Faults: map[string]int64{}, Results: map[string]int64{}, Strats: map[string]int64{}, FailIdx: -1}
	seen := map[uint64]struct{}{}
	lost := -1
	for w := 0; w < *workers; w++ {
		if errs[w] != nil {
			if class, _ := death(errs[w], bufs[w].Bytes()); class != "" {
				lost = w
				continue
			}
			os.RemoveAll(dir)
			fatal("worker %d: %v\n%s", w, errs[w], tail(bufs[w].Bytes()))
		}
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stats%d", w)))
		if err != nil {
			fatal("%v", err)
		}
		st := &Stats{}
		if err := json.Unmarshal(b, st); err != nil {
			fatal("%v", err)
		}
		if st.Harness != "" {
			os.RemoveAll(dir)
			fatal("the simulator itself failed: %s", st.Harness)
		}
		merge(tot, st)
		sb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("seen%d", w)))
		for ; len(sb) >= 8; sb = sb[8:] {
			seen[binary.LittleEndian.Uint64(sb)] = struct{}{}
		}
	}
	wall := time.Since(start)
	violations := 0
	if tot.FailIdx >= 0 || lost >= 0 {
		violations = 1
	}
	writeEvidence(tot, len(seen), wall, violations, n)
	fmt.Fprintf(stdout, "runs=%d distinct=%d calls=%d steps=%d preemptions=%d inconclusive=%d wall=%.1fs (%.0f runs/hour)\n",
		tot.Runs, len(seen), tot.Ops, tot.Steps, tot.Preempts, tot.Unknown, wall.Seconds(), float64(tot.Runs)/wall.Hours())
	if tot.FailIdx < 0 && lost >= 0 {
		class, _ := death(errs[lost], bufs[lost].Bytes())
		idx, ok := readIdx(filepath.Join(dir, fmt.Sprintf("at%d", lost)))
		ok = ok && reportDeath(idx, class)
		os.RemoveAll(dir)
		if !ok {
			fatal("worker %d died and its last run alone does not: %v\n%s", lost, errs[lost], tail(bufs[lost].Bytes()))
		}
		os.Exit(1)
	}
	if died {
		os.RemoveAll(dir)
		fatal("determinism run failed: %s", dg[0])
	}
	if tot.FailIdx < 0 && tot.Unknown*50 > tot.Runs {
		os.RemoveAll(dir)
		fatal("%d of %d runs were inconclusive", tot.Unknown, tot.Runs)
	}
	if tot.FailIdx < 0 {
		return
	}
	report(tot)
	os.RemoveAll(dir)
	os.Exit(1)
}

func merge(t, s *Stats) {
	t.Runs += s.Runs
	t.Steps += s.Steps
	t.SimUS += s.SimUS
	t.Preempts += s.Preempts
	t.Ops += s.Ops
	t.Overlaps += s.Overlaps
	t.Unknown += s.Unknown
	t.Nodes += s.Nodes
	t.Capped = t.Capped || s.Capped
	for i := range s.Points {
		t.Points[i] += s.Points[i]
	}
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Results {
		t.Results[k] += v
	}
	for k, v := range s.Strats {
		t.Strats[k] += v
	}
	if len(t.Sample) < 2 {
		t.Sample = append(t.Sample, s.Sample...)
	}
	t.MaxShare = max(t.MaxShare, s.MaxShare)
	if s.MaxOpStep > t.MaxOpStep {
		t.MaxOpStep = s.MaxOpStep
	}
	if s.FailIdx >= 0 && (t.FailIdx < 0 || s.FailIdx < t.FailIdx) {
		t.FailIdx, t.Fail, t.Finding = s.FailIdx, s.Fail, s.Finding
	}
}

// ReplayFile is the record of one violation.
type ReplayFile struct {
	Property string           `json:"property"`
	Tier     string           `json:"tier"`
	Seed     uint64           `json:"verif_seed"`
	Run      int              `json:"run"`
	Finding  *harness.Finding `json:"violation"`
	Case     *harness.Case    `json:"case"`
	Digest   string           `json:"digest"`
	History  []string         `json:"history"`
	Original int              `json:"operations_before_minimisation"`
	Ops      int              `json:"operations"`
	Preempts int              `json:"preemptions"`
}

func report(t *Stats) {
	if err := os.MkdirAll(*outDir, 0o755); err != nil {
		fatal("%v", err)
	}
	lim := 15 * time.Second
	c, r, f := harness.Minimize(t.Fail, t.Finding.Class, lim)
	if c == nil {
		fatal("run %d (seed %d) does not fail again in the parent process: the simulation is not deterministic", t.FailIdx, t.Fail.Seed)
	}
	path := filepath.Join(*outDir, fmt.Sprintf("%s-seed%d-run%d.json", *prop, *seed, t.FailIdx))
	rf, pre, msg := writeReplay(path, t, c, r, f)
	if msg != "" { // the case as it was drawn
		r = harness.Run(t.Fail)
		if f, _, _, _ = harness.Judge(t.Fail, r); f == nil {
			fatal("%s", msg)
		}
		if rf, pre, msg = writeReplay(path, t, t.Fail, r, f); msg != "" {
			fatal("%s", msg)
		}
	}
	fmt.Fprintf(stdout, "violation class=%s: %s\n", f.Class, f.Detail)
	for _, l := range rf.History {
		fmt.Fprintln(stdout, "  "+l)
	}
	fmt.Fprintf(stdout, "run=%d run_seed=%d calls=%d (from %d) preemptions=%d\n", t.FailIdx, t.Fail.Seed, rf.Ops, rf.Original, pre)
	fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n", *prop, path)
}

// writeReplay writes a replay file and checks that a fresh process reproduces it.
func writeReplay(path string, t *Stats, c *harness.Case, r *harness.Result, f *harness.Finding) (*ReplayFile, int, string) {
	pre := 0
	for _, s := range r.Trace {
		if !s.Forced {
			pre++
		}
	}
	rf := &ReplayFile{*prop, *tier, *seed, t.FailIdx, f, c, fmt.Sprintf("%016x", r.Digest), harness.History(r), nops(t.Fail), nops(c), pre}
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
	cmd := self([]string{"-replay", path})
	out, err := cmd.Output()
	if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
		return nil, 0, fmt.Sprintf("the replay of %s in a fresh process does not reproduce: %v\n%s", path, err, out)
	}
	return rf, pre, ""
}

func nops(c *harness.Case) int {
	n := len(c.Init) + len(c.Post)
	for _, t := range c.Tasks {
		n += len(t)
	}
	return n
}

// tail is the start of what a process that died said.
func tail(b []byte) string {
	l := strings.SplitN(string(b), "\n", 12)
	return strings.Join(l[:min(len(l), 11)], "\n")
}

func doReplay(path string) {
	runtime.GOMAXPROCS(1)
	if *inner {
		newLifeline("")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fatal("%v", err)
	}
	if c := rf.Finding.Class; !*inner && (c == "crash" || c == "hang") {
		class, detail := dies(path)
		if class == "" {
			fmt.Fprintln(stdout, "replay: no violation")
			os.Exit(0)
		}
		fmt.Fprintf(stdout, "violation class=%s: %s\nVIOLATION property=%s replay=%s\n", class, detail, rf.Property, path)
		os.Exit(1)
	}
	r := harness.Run(rf.Case)
	f, _, _, h := harness.Judge(rf.Case, r)
	if h != "" {
		fatal("%s", h)
	}
	for _, l := range harness.History(r) {
		fmt.Fprintln(stdout, "  "+l)
	}
	if *verbose {
		for _, s := range r.Trace {
			fmt.Fprintf(stdout, "  switch %+v\n", s)
		}
	}
	if f == nil {
		fmt.Fprintln(stdout, "replay: no violation")
		os.Exit(0)
	}
	fmt.Fprintf(stdout, "violation class=%s: %s\n", f.Class, f.Detail)
	if d := fmt.Sprintf("%016x", r.Digest); d != rf.Digest || f.Class != rf.Finding.Class {
		fmt.Fprintf(stdout, "replay: violates, but differs from the recording (%s %s, recorded %s %s)\n", f.Class, d, rf.Finding.Class, rf.Digest)
		os.Exit(3)
	}
	fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n", rf.Property, path)
	os.Exit(1)
}

var detRuns int // runs repeated in other processes and compared

var pointNames = []string{"memory read", "memory write", "loop iteration", "lock", "unlock", "caller-supplied selector", "between calls", "atomic", "channel", "forced"}

func writeEvidence(t *Stats, distinct int, wall time.Duration, violations, planned int) {
	if *evidence == "" {
		return
	}
	pts := map[string]int64{}
	for i, n := range pointNames {
		if t.Points[i] > 0 {
			pts[n] = t.Points[i]
		}
	}
	refused := int64(0)
	var zero []string
	calls := map[string]int64{}
	for k, v := range t.Results {
		if strings.HasSuffix(k, ".refused") {
			refused += v
		}
		calls[k] = v
	}
	sort.Strings(zero)
	faults := map[string]int64{"requests the library refused (invalid, taken, exhausted)": refused}
	for k, v := range t.Faults {
		faults[k] = v
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration",
		"wall_s": wall.Seconds(), "violations": violations,
		"assumptions": []string{
			"simulated memory is sequentially consistent; weaker orders are covered by the race check C14, which makes them unobservable when it holds",
			"preemption happens at lock operations, accesses to memory other tasks can reach, loop iterations, selector calls and between calls; code between two such points runs alone, which changes no observable order",
			"seeded sampling: a clean batch is evidence over the runs made, not proof",
		},
		"coverage": map[string]any{
			"evaluations":                       t.Runs,
			"distinct_nontrivial":               distinct,
			"rule":                              "one evaluation is one simulated execution: workload, configuration, faults and schedule drawn from one seed. Counted as distinct and non-trivial: executions with a distinct hash of (workload, full sequence of task switches with the call and step they happened at) in which at least two calls overlapped, or a single-caller history of 20 calls or more.",
			"samples":                           t.Sample,
			"runs_planned":                      planned,
			"stopped_by_time_cap":               t.Capped,
			"runs_per_hour_one_seed_each":       float64(t.Runs) / wall.Hours(),
			"simulated_steps":                   t.Steps,
			"simulated_time_s":                  float64(t.SimUS) / 1e6,
			"calls":                             t.Ops,
			"calls_overlapping_another":         t.Overlaps,
			"preemptions":                       t.Preempts,
			"points_by_kind":                    pts,
			"faults_fired":                      faults,
			"strategies":                        t.Strats,
			"results_by_call":                   calls,
			"checker_states":                    t.Nodes,
			"inconclusive_runs":                 t.Unknown,
			"largest_single_call_steps":         t.MaxOpStep,
			"largest_share_of_step_budget":      t.MaxShare,
			"instrumented_sites":                len(simrt.Sites) - 1,
			"determinism_runs_compared_2_procs": detRuns,
			"components_real":                   []string{"pkg/idxtable", "pkg/table/table16", "pkg/table/table32", "pkg/table/table64", "pkg/iptable", "pkg/tree", "pkg/tree/gtree", "pkg/tree/id16", "pkg/tree/id32", "pkg/tree/id64", "pkg/tree/tree16", "pkg/tree/tree32", "pkg/tree/tree64", "k8s.io/apimachinery labels", "nipam routes", "netipx"},
			"components_simulated":              []string{"sync", "sync/atomic", "goroutine scheduling", "map iteration order", "time and math/rand where used"},
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.MkdirAll(filepath.Dir(*evidence), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(*evidence, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

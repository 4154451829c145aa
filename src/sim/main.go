package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"simrt"
)

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: polsim check <property> <tier> | replay <file> | worker | selftest <property> <runs>")
		os.Exit(2)
	}
	loadKnown(os.Getenv("POLSIM_KNOWN"))
	switch os.Args[1] {
	case "worker":
		worker()
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "selftest":
		n, _ := strconv.Atoi(os.Args[3])
		os.Exit(selftest(os.Args[2], n))
	default:
		os.Exit(2)
	}
}

// job is one run handed to a worker.
type job struct {
	Index   int  `json:"index"`
	Plan    Plan `json:"plan"`
	KeepLog bool `json:"keep_log"`
}

func worker() {
	runtime.GOMAXPROCS(2)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		for i, s := range j.Plan.Prelude {
			p := j.Plan
			p.Prelude, p.Off, p.Sched, p.Seed = nil, nil, nil, s
			_ = i
			Run(&p, false)
		}
		res := Run(&j.Plan, j.KeepLog)
		res.Index = j.Index
		if err := enc.Encode(res); err != nil {
			return
		}
		out.Flush()
	}
}

// proc is a worker process.
type proc struct {
	cmd    *exec.Cmd
	enc    *json.Encoder
	dec    *json.Decoder
	stderr *tail
	seeds  []uint64 // executed so far
	kill   func()
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func binDir() string {
	e, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return filepath.Dir(e)
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "polsim: "+f+"\n", a...)
	os.Exit(2)
}

func startProc(group string) *proc {
	cmd := exec.Command(filepath.Join(binDir(), "polsim-"+group), "worker")
	cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=0", "GOGC=400", "GOMEMLIMIT=3GiB")
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal("%v", err)
	}
	outp, err := cmd.StdoutPipe()
	if err != nil {
		fatal("%v", err)
	}
	p := &proc{cmd: cmd, stderr: &tail{}}
	cmd.Stderr = p.stderr
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	p.enc = json.NewEncoder(in)
	p.dec = json.NewDecoder(bufio.NewReaderSize(outp, 1<<20))
	p.kill = func() { in.Close(); cmd.Process.Kill(); cmd.Wait() }
	return p
}

var runTimeout = 240 * time.Second

// do executes one job; died reports that the process ended, timeout that it had to be ended.
func (p *proc) do(j job) (res *Result, died, timeout bool) {
	type ans struct {
		r   *Result
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		if err := p.enc.Encode(j); err != nil {
			ch <- ans{nil, err}
			return
		}
		r := &Result{}
		err := p.dec.Decode(r)
		ch <- ans{r, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			p.kill()
			return nil, true, false
		}
		p.seeds = append(p.seeds, j.Plan.Seed)
		return a.r, false, false
	case <-time.After(runTimeout):
		p.kill()
		return nil, false, true
	}
}

// fresh executes one job in a process of its own. A process that dies is a violation of its own class.
func fresh(j job) (*Result, bool) {
	p := startProc(j.Plan.Group)
	defer p.kill()
	r, died, timeout := p.do(j)
	if died {
		p.cmd.Wait()
		r = &Result{Seed: j.Plan.Seed, Index: j.Index, Viol: &Violation{j.Plan.Prop, "process-death", "the process died: " + firstLines(string(p.stderr.b), 12)}}
	}
	if timeout {
		return nil, true
	}
	return r, false
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func seedOf(base uint64, prop, group string, i int) uint64 {
	return simrt.Mix(simrt.HashString(base, prop+"/"+group), uint64(i))
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

func makeJobs(d *Def, tier string, base uint64) []job {
	n, nr := d.Quick, d.QuickReal
	if tier == "thorough" {
		n, nr = d.Thorough, d.ThorReal
	}
	if v := envInt("POLSIM_RUNS", -1); v >= 0 {
		n = v
	}
	if v := envInt("POLSIM_REAL", -1); v >= 0 {
		nr = v
	}
	var jobs []job
	idx := 0
	for i := 0; i < nr; i++ {
		jobs = append(jobs, job{Index: idx, Plan: Plan{Prop: d.ID, Tier: tier, Group: "real", Seed: seedOf(base, d.ID, "real", i), N: i}})
		idx++
	}
	for i := 0; i < n; i++ {
		jobs = append(jobs, job{Index: idx, Plan: Plan{Prop: d.ID, Tier: tier, Group: "ideal", Seed: seedOf(base, d.ID, "ideal", i), N: i}})
		idx++
	}
	return jobs
}

type outcome struct {
	job   job
	res   *Result
	seeds []uint64 // executed before in the same process
	died  bool
	err   string
}

// execute runs the jobs on w worker slots. It stops handing out jobs after a violation or at the deadline.
func execute(jobs []job, w int, deadline time.Time) []outcome {
	var mu sync.Mutex
	next, stopAt := 0, len(jobs)
	outs := make([]outcome, 0, len(jobs))
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			procs := map[string]*proc{}
			defer func() {
				for _, p := range procs {
					p.kill()
				}
			}()
			for {
				mu.Lock()
				if next >= stopAt || (!deadline.IsZero() && time.Now().After(deadline)) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				g := j.Plan.Group
				p := procs[g]
				if p == nil || len(p.seeds) >= 200 {
					if p != nil {
						p.kill()
					}
					p = startProc(g)
					procs[g] = p
				}
				before := p.seeds[:len(p.seeds):len(p.seeds)]
				res, died, timeout := p.do(j)
				o := outcome{job: j, res: res, seeds: before}
				if died {
					p.cmd.Wait()
					o.died, o.err = true, string(p.stderr.b)
					delete(procs, g)
				}
				if timeout {
					o.err = "watchdog: the run did not end"
					delete(procs, g)
				}
				mu.Lock()
				outs = append(outs, o)
				if o.died || o.err != "" || (res != nil && (res.Viol != nil || res.Err != "")) {
					if j.Index+1 < stopAt {
						stopAt = next
						if os.Getenv("POLSIM_KEEP_GOING") != "" {
							stopAt = len(jobs)
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(outs, func(i, k int) bool { return outs[i].job.Index < outs[k].job.Index })
	return outs
}

func check(id, tier string) int {
	d := defs[id]
	if d == nil {
		fatal("unknown property %s", id)
	}
	base := uint64(envInt("VERIF_SEED", 1))
	start := time.Now()
	cap := time.Duration(envInt("POLSIM_CAP", 420)) * time.Second
	if tier == "thorough" {
		cap = time.Duration(envInt("POLSIM_CAP", 3000)) * time.Second
	}
	jobs := makeJobs(d, tier, base)
	outs := execute(jobs, envInt("POLSIM_WORKERS", 8), start.Add(cap))
	var first *outcome
	for i := range outs {
		o := &outs[i]
		if os.Getenv("POLSIM_KEEP_GOING") != "" && o.res != nil && o.res.Viol != nil {
			fmt.Printf("viol %d seed %d %s: %s\n", o.job.Index, o.job.Plan.Seed, o.res.Viol.Class, firstLines(o.res.Viol.Msg, 12))
		}
		if first == nil && (o.died || o.err != "" || (o.res != nil && (o.res.Viol != nil || o.res.Err != ""))) {
			first = o
		}
	}
	known := map[string]string{}
	for _, o := range outs {
		if o.res != nil {
			for _, k := range o.res.Known {
				known[k] = knownFindings[k]
			}
		}
	}
	var keys []string
	for k := range known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	code, nviol, rep := 0, 0, ""
	if first != nil {
		code, rep = report(first)
		if code == 1 {
			nviol = 1
		}
	}
	writeEvidence(d, tier, base, outs, len(jobs), start, nviol, rep, keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[k])
	}
	if code == 0 && len(outs) == 0 {
		fatal("nothing was executed")
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	}
	return code
}

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Plan      Plan       `json:"plan"`
	Violation *Violation `json:"violation"`
	Hash      uint64     `json:"hash"`
	Steps     uint64     `json:"steps"`
	Ops       []string   `json:"operations"`
	Fired     []string   `json:"faults"`
	Schedule  string     `json:"schedule"`
	Log       []string   `json:"log"`
	Minimised string     `json:"minimised"`
	Original  Plan       `json:"original"`
}

func same(r *Result, v *Violation) bool {
	return r != nil && r.Viol != nil && r.Viol.Prop == v.Prop && r.Viol.Class == v.Class
}

// report confirms a violation in a fresh process, minimises it and writes the replay file.
func report(o *outcome) (int, string) {
	if o.res != nil && o.res.Viol == nil {
		fmt.Fprintf(os.Stderr, "run %d (seed %d): %s\n", o.job.Index, o.job.Plan.Seed, o.res.Err)
		return 2, ""
	}
	if o.res == nil && !o.died {
		fmt.Fprintf(os.Stderr, "run %d (seed %d): %s\n", o.job.Index, o.job.Plan.Seed, o.err)
		return 2, ""
	}
	j := o.job
	j.KeepLog = true
	r, timeout := fresh(j)
	if timeout {
		fmt.Fprintln(os.Stderr, "watchdog while confirming")
		return 2, ""
	}
	want := (*Violation)(nil)
	if o.res != nil {
		want = o.res.Viol
	} else if r.Viol != nil {
		want = r.Viol
	}
	if want == nil || !same(r, want) {
		// does the code under test keep state between runs?
		j.Plan.Prelude = o.seeds
		r, timeout = fresh(j)
		if timeout || r == nil || r.Viol == nil || (want != nil && !same(r, want)) {
			msg := o.err
			if want != nil {
				msg = want.Class + ": " + want.Msg
			}
			fmt.Fprintf(os.Stderr, "run %d (seed %d) does not reproduce: %s\n", o.job.Index, o.job.Plan.Seed, msg)
			return 2, ""
		}
		want = r.Viol
	}
	rf := minimise(j, r, want)
	rf.Original = o.job.Plan
	dir := os.Getenv("POLSIM_REPLAYS")
	if dir == "" {
		dir = "."
	}
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", j.Plan.Prop, j.Plan.Seed))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("property %s, seed %d (%s group), class %s\n%s\n", j.Plan.Prop, j.Plan.Seed, j.Plan.Group, rf.Violation.Class, rf.Violation.Msg)
	fmt.Printf("minimised (%s): operations %v, faults %v, schedule %s\n", rf.Minimised, short(rf.Ops), short(rf.Fired), rf.Schedule)
	return 1, path
}

func short(l []string) []string {
	if len(l) > 20 {
		return append(append([]string{}, l[:20]...), fmt.Sprintf("... %d more", len(l)-20))
	}
	return l
}

func minimise(j job, r *Result, want *Violation) *ReplayFile {
	deadline := time.Now().Add(time.Duration(envInt("POLSIM_SHRINK", 60)) * time.Second)
	best, bestRes := j, r
	tries := 0
	try := func(p Plan) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		c := best
		c.Plan = p
		res, timeout := fresh(c)
		if timeout || !same(res, want) {
			return false
		}
		best, bestRes = c, res
		return true
	}
	if want.Class != "process-death" {
		// 1. no preemption at all, otherwise the explicit list of preemptions
		p := best.Plan
		p.Sched = &simrt.Strategy{Mode: "none"}
		if !try(p) {
			p.Sched = &simrt.Strategy{Mode: "explicit", Explicit: r.Trace}
			if len(r.Trace) < 20000 {
				try(p)
			}
		}
		// 2. operations and faults
		n := len(bestRes.Fired) + len(bestRes.Ops)
		for pass := 0; pass < 3 && n > 0; pass++ {
			items := append(append([]string{}, bestRes.Fired...), bestRes.Ops...)
			items = uniq(items)
			for size := (len(items) + 1) / 2; size >= 1; size /= 2 {
				for i := 0; i < len(items) && time.Now().Before(deadline); i += size {
					e := i + size
					if e > len(items) {
						e = len(items)
					}
					p := best.Plan
					p.Off = uniq(append(append([]string{}, best.Plan.Off...), items[i:e]...))
					if len(p.Off) == len(best.Plan.Off) {
						continue
					}
					try(p)
				}
			}
			m := len(bestRes.Fired) + len(bestRes.Ops)
			if m == n {
				break
			}
			n = m
		}
		// 3. preemptions
		if best.Plan.Sched == nil || best.Plan.Sched.Mode != "none" {
			p := best.Plan
			p.Sched = &simrt.Strategy{Mode: "none"}
			if !try(p) && len(bestRes.Trace) < 20000 {
				p.Sched = &simrt.Strategy{Mode: "explicit", Explicit: bestRes.Trace}
				if try(p) {
					sw := best.Plan.Sched.Explicit
					for size := (len(sw) + 1) / 2; size >= 1; size /= 2 {
						for i := 0; i < len(sw) && time.Now().Before(deadline); {
							e := i + size
							if e > len(sw) {
								e = len(sw)
							}
							rest := append(append([]simrt.Switch{}, sw[:i]...), sw[e:]...)
							p := best.Plan
							p.Sched = &simrt.Strategy{Mode: "explicit", Explicit: rest}
							if try(p) {
								sw = rest
							} else {
								i = e
							}
						}
					}
				}
			}
		}
	}
	// 4. earlier runs of the process
	for size := (len(best.Plan.Prelude) + 1) / 2; size >= 1; size /= 2 {
		for i := 0; i < len(best.Plan.Prelude) && time.Now().Before(deadline); {
			pre := best.Plan.Prelude
			e := i + size
			if e > len(pre) {
				e = len(pre)
			}
			p := best.Plan
			p.Prelude = append(append([]uint64{}, pre[:i]...), pre[e:]...)
			if !try(p) {
				i = e
			}
		}
	}
	rf := &ReplayFile{Plan: best.Plan, Violation: bestRes.Viol, Hash: bestRes.Hash, Steps: bestRes.Steps, Ops: bestRes.Ops, Fired: bestRes.Fired, Log: bestRes.Log}
	rf.Minimised = fmt.Sprintf("%d attempts", tries)
	switch {
	case best.Plan.Sched == nil:
		rf.Schedule = fmt.Sprintf("as drawn from the seed (%d preemptions)", len(bestRes.Trace))
	case best.Plan.Sched.Mode == "none":
		rf.Schedule = "no preemption"
	default:
		rf.Schedule = fmt.Sprintf("%d explicit preemptions", len(best.Plan.Sched.Explicit))
	}
	return rf
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fatal("%v", err)
	}
	r, timeout := fresh(job{Plan: rf.Plan, KeepLog: true})
	if timeout {
		fatal("watchdog")
	}
	for _, l := range r.Log {
		fmt.Println(l)
	}
	if r.Viol == nil {
		fmt.Println("no violation", r.Err)
		return 0
	}
	fmt.Printf("%s: %s\nhash %d, recorded %d, identical: %v\n", r.Viol.Class, r.Viol.Msg, r.Hash, rf.Hash, r.Hash == rf.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Plan.Prop, path)
	return 1
}

// selftest runs every seed twice, in other processes and with another number of workers, and compares.
func selftest(id string, n int) int {
	d := defs[id]
	os.Setenv("POLSIM_RUNS", strconv.Itoa(n))
	jobs := makeJobs(d, "quick", uint64(envInt("VERIF_SEED", 1)))
	a := execute(jobs, 8, time.Time{})
	rev := make([]job, len(jobs))
	for i := range jobs {
		rev[len(jobs)-1-i] = jobs[i]
	}
	b := execute(rev, 3, time.Time{})
	h := map[int]uint64{}
	for _, o := range a {
		if o.res != nil {
			h[o.job.Index] = o.res.Hash
		}
	}
	bad, cmp := 0, 0
	for _, o := range b {
		if o.res == nil {
			continue
		}
		if x, ok := h[o.job.Index]; ok {
			cmp++
			if x != o.res.Hash {
				bad++
				fmt.Printf("%s run %d seed %d: %d and %d\n", id, o.job.Index, o.job.Plan.Seed, x, o.res.Hash)
			}
		}
	}
	fmt.Printf("%s: %d runs executed twice, %d differ\n", id, cmp, bad)
	if bad > 0 || cmp == 0 {
		return 1
	}
	return 0
}

var knownFindings = map[string]string{}

// loadKnown reads lines "known: property=<id> key=<key> <text>".
func loadKnown(path string) {
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "known:" && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "key=") {
			knownFindings[strings.TrimPrefix(f[1], "property=")+"/"+strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
}

func writeEvidence(d *Def, tier string, base uint64, outs []outcome, planned int, start time.Time, nviol int, rep string, known []string) {
	wall := time.Since(start).Seconds()
	counts := map[string]int{}
	faults := map[string]int{}
	hashes := map[uint64]bool{}
	scheds := map[uint64]bool{}
	nontriv := map[uint64]bool{}
	modes := map[string]int{}
	var steps, sw, maxSteps uint64
	var maxUS int64
	longest := ""
	var virt, cpu int64
	runs := map[string]int{}
	var samples []interface{}
	skipped := 0
	for _, o := range outs {
		r := o.res
		if r == nil {
			continue
		}
		runs[o.job.Plan.Group]++
		modes[r.Mode]++
		hashes[r.Hash] = true
		scheds[simrt.Mix(r.SchedH, r.Hash)] = true
		if r.Nontriv {
			nontriv[r.Hash] = true
		}
		steps += r.Steps
		if r.Steps > maxSteps {
			maxSteps = r.Steps
		}
		if r.WallUS > maxUS {
			maxUS, longest = r.WallUS, fmt.Sprintf("%s %d (N %d)", o.job.Plan.Group, o.job.Plan.Seed, o.job.Plan.N)
		}
		sw += r.Switches
		virt += r.VirtNS
		cpu += r.WallUS
		for k, v := range r.Counts {
			if strings.HasPrefix(k, "fault:") {
				faults[k[6:]] += v
			} else {
				counts[k] += v
			}
			if strings.HasPrefix(k, "skipped:") {
				skipped += v
			}
		}
		if len(samples) < 4 && r.Sample != "" && o.job.Index%7 == 3 {
			samples = append(samples, map[string]interface{}{"seed": r.Seed, "group": o.job.Plan.Group, "strategy": r.Mode, "steps": r.Steps, "switches": r.Switches, "history": r.Sample})
		}
	}
	if len(samples) == 0 {
		for _, o := range outs {
			if o.res != nil && len(samples) < 2 {
				samples = append(samples, map[string]interface{}{"seed": o.res.Seed, "group": o.job.Plan.Group, "strategy": o.res.Mode, "history": o.res.Sample})
			}
		}
	}
	total := runs["ideal"] + runs["real"]
	rule := d.Rule + " A run is non-trivial if it was not skipped and executed at least two operations, a preemption or a fault; two runs are distinct if their complete event histories (events, their steps and tasks, all scheduling decisions) differ."
	cov := map[string]interface{}{
		"evaluations":                 total,
		"distinct_nontrivial":         len(nontriv),
		"rule":                        rule,
		"samples":                     samples,
		"runs_ideal_group":            runs["ideal"],
		"runs_real_group":             runs["real"],
		"runs_planned":                planned,
		"runs_skipped":                skipped,
		"seeds_per_hour":              int(float64(total) / wall * 3600),
		"steps":                       steps,
		"task_switches":               sw,
		"most_steps_in_a_run":         maxSteps,
		"step_budget_of_a_run":        d.Budget,
		"longest_run_s":               float64(maxUS) / 1e6,
		"longest_run":                 longest,
		"simulated_seconds":           float64(virt) / 1e9,
		"cpu_seconds_in_runs":         float64(cpu) / 1e6,
		"faults_injected":             faults,
		"scheduler_strategies":        modes,
		"distinct_histories":          len(hashes),
		"distinct_schedule_x_history": len(scheds),
		"operations_and_probes":       counts,
		"real_code":                   "every statement of /repo's packages bp, common, poe, pol, pp, sparse, sum, verkle (instrumented with scheduling points at build time), the Go standard library's encoding, hashing and big integers, gnark-crypto's BN254 field and curve in the real group",
		"stubs":                       "ideal group: mathlib's BN254 driver is replaced by an ideal bilinear group (elements are their discrete logarithms); both groups: goroutine scheduling, sync, channels, map iteration order, clock, entropy source, storage, network" + d.Stub,
		"known_findings_reproduced":   known,
	}
	if rep != "" {
		cov["replay"] = rep
	}
	ev := map[string]interface{}{
		"property": d.ID, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"goroutine interleavings are sampled at statement granularity under sequential consistency; data races whose only effect is a torn word or compiler reordering are out of reach",
			"runs of the ideal group decide protocol logic, not the curve arithmetic of gnark-crypto, which runs of the real group exercise",
			"a clean batch is evidence for the explored schedules, faults and histories, not a proof",
		},
		"wall_s": wall, "violations": nviol,
	}
	dir := os.Getenv("POLSIM_EVIDENCE")
	if dir == "" {
		return
	}
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, d.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

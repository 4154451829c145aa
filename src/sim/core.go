package main

import (
	"crypto/rand"
	"fmt"
	"pol/pol"
	"runtime"
	"sort"
	"strings"
	"time"

	"simrt"
)

// Plan determines one run completely.
type Plan struct {
	Prop  string          `json:"property"`
	Tier  string          `json:"tier"`
	Group string          `json:"group"` // ideal or real
	Seed  uint64          `json:"seed"`
	N     int             `json:"n"`                  // number of the run within its group
	Off   []string        `json:"off,omitempty"`      // disabled operations and faults (minimisation)
	Sched *simrt.Strategy `json:"schedule,omitempty"` // nil: drawn from the seed
	// Prelude: seeds of runs that are executed before, in the same process. Only needed when the code
	// under test keeps state in package variables.
	Prelude []uint64 `json:"prelude,omitempty"`
}

// Violation of a property.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Result of one run.
type Result struct {
	Seed     uint64         `json:"seed"`
	Index    int            `json:"index"`
	Viol     *Violation     `json:"violation,omitempty"`
	Err      string         `json:"err,omitempty"`
	Hash     uint64         `json:"hash"`
	SchedH   uint64         `json:"sched_hash"`
	Steps    uint64         `json:"steps"`
	Switches uint64         `json:"switches"`
	VirtNS   int64          `json:"virt_ns"`
	Counts   map[string]int `json:"counts"`
	Nontriv  bool           `json:"nontrivial"`
	Sample   string         `json:"sample,omitempty"`
	WallUS   int64          `json:"wall_us"`
	Trace    []simrt.Switch `json:"trace,omitempty"`
	Fired    []string       `json:"fired,omitempty"`
	Ops      []string       `json:"ops,omitempty"`
	Log      []string       `json:"log,omitempty"`
	Mode     string         `json:"mode"`
	Known    []string       `json:"known,omitempty"`
}

// Ctx is the context of one run.
type Ctx struct {
	Plan   *Plan
	S      *simrt.Sched
	off    map[string]bool
	viol   *Violation
	hash   uint64
	counts map[string]int
	fired  []string
	ops    []string
	log    []string
	sample []string
	ent    *Entropy
	// FaultsUntil: no random fault fires after this virtual time
	FaultsUntil int64
	skipped     bool
	known       []string
}

// Rng returns a generator that depends only on the seed and the label.
func (c *Ctx) Rng(label string) *simrt.Rng {
	return simrt.NewRng(simrt.HashString(c.Plan.Seed, label))
}

// On reports whether the operation with this id takes part in the run.
func (c *Ctx) On(id string) bool {
	if c.off[id] {
		return false
	}
	c.ops = append(c.ops, id)
	return true
}

// Fault decides whether the fault with this id fires, with probability p.
func (c *Ctx) Fault(kind, id string, p float64) bool {
	if p <= 0 {
		return false
	}
	full := kind + "@" + id
	if c.FaultsUntil > 0 && c.S.Now() > c.FaultsUntil {
		return false
	}
	if !c.Rng("fault:" + full).Chance(p) {
		return false
	}
	return c.Inject(kind, id)
}

// Inject counts a fault that the scenario has decided on, unless it is switched off.
func (c *Ctx) Inject(kind, id string) bool {
	full := kind + "@" + id
	if c.off[full] {
		return false
	}
	c.counts["fault:"+kind]++
	c.fired = append(c.fired, full)
	c.Event("fault %s", full)
	return true
}

func (c *Ctx) Count(k string) { c.counts[k]++ }

func (c *Ctx) CountN(k string, n int) { c.counts[k] += n }

// Event is part of the run's history (and of its hash).
func (c *Ctx) Event(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	var step uint64
	var task int
	if c.S != nil {
		step = c.S.Step()
		if t := c.S.Current(); t != nil {
			task = t.ID
		}
	}
	c.hash = simrt.Mix(simrt.HashString(c.hash, s), simrt.Mix(step, uint64(task)))
	if len(c.sample) < 40 {
		c.sample = append(c.sample, s)
	}
	if len(c.log) >= 400 {
		c.log = append(c.log[:0], c.log[100:]...)
	}
	c.log = append(c.log, fmt.Sprintf("%d t%d %s", step, task, s))
}

// Violate records the violation and ends the run.
func (c *Ctx) Violate(class, f string, a ...interface{}) {
	if c.viol == nil && !simrt.Inert() {
		c.viol = &Violation{Prop: c.Plan.Prop, Class: class, Msg: fmt.Sprintf(f, a...)}
		c.Event("VIOLATION %s: %s", class, c.viol.Msg)
	}
	c.S.Stop()
	simrt.Y()
	runtime.Goexit()
}

// Finding reports a violation that is listed in the known findings under the key, or else violates.
func (c *Ctx) Finding(key, class, f string, a ...interface{}) {
	k := c.Plan.Prop + "/" + key
	if _, ok := knownFindings[k]; ok {
		c.Event("known finding %s", k)
		c.known = append(c.known, k)
		return
	}
	c.Violate(class, f, a...)
}

// Skip ends the run without a verdict: the scenario could not be set up (counted in the evidence).
func (c *Ctx) Skip(why string) {
	c.Count("skipped:" + why)
	c.skipped = true
	c.S.Stop()
	simrt.Y()
	runtime.Goexit()
}

func (c *Ctx) drawStrategy() simrt.Strategy {
	r := c.Rng("strategy")
	gaps := []int{3, 20, 150, 1000, 8000, 60000}
	switch x := r.Intn(100); {
	case x < 12:
		return simrt.Strategy{Mode: "none"}
	case x < 50:
		return simrt.Strategy{Mode: "random", Gap: gaps[r.Intn(len(gaps))]}
	case x < 60:
		return simrt.Strategy{Mode: "sync", Gap: []int{1, 4, 20, 100}[r.Intn(4)], Len: gaps[2+r.Intn(4)]}
	case x < 80:
		return simrt.Strategy{Mode: "pct", Changes: 1 + r.Intn(6), Len: []int{2000, 20000, 200000, 1000000}[r.Intn(4)]}
	default:
		return simrt.Strategy{Mode: "starve", Gap: gaps[r.Intn(len(gaps))]}
	}
}

// Def describes the check of one property.
type Def struct {
	ID        string
	Run       func(c *Ctx)
	Quick     int // runs of the ideal group
	QuickReal int
	Thorough  int
	ThorReal  int
	Budget    uint64
	Rule      string
	// HangOK: a deadlock or exhausted budget is not a violation of this property by itself.
	Params map[string]string
	Stub   string
}

var defs = map[string]*Def{}

func register(d *Def) {
	if d.Budget == 0 {
		d.Budget = 400_000_000
	}
	defs[d.ID] = d
}

// Run executes a plan.
func Run(p *Plan, keepLog bool) *Result {
	d := defs[p.Prop]
	if d == nil {
		return &Result{Err: "unknown property " + p.Prop}
	}
	start := time.Now()
	c := &Ctx{Plan: p, off: map[string]bool{}, counts: map[string]int{}}
	for _, o := range p.Off {
		c.off[o] = true
	}
	strat := c.drawStrategy()
	if p.Sched != nil {
		strat = *p.Sched
	}
	c.S = simrt.New(simrt.HashString(p.Seed, "sched"), strat, d.Budget)
	c.ent = NewEntropy(c, simrt.HashString(p.Seed, "tape"))
	rand.Reader = c.ent
	pol.ParallelismEnabled = true
	currentRun = c
	abort := c.S.Run(func() { d.Run(c) })
	currentRun = nil
	rand.Reader = startupReader
	if c.S.Stalls > 0 {
		c.counts["fault:clock-stall"] += c.S.Stalls
	}
	res := &Result{
		Seed: p.Seed, Viol: c.viol, Hash: simrt.Mix(c.hash, c.S.Hash), SchedH: c.S.Hash, Steps: c.S.Step(), Switches: c.S.Sw,
		VirtNS: c.S.Now(), Counts: c.counts, WallUS: time.Since(start).Microseconds(), Mode: strat.Mode, Known: c.known,
	}
	if abort != nil && c.viol == nil {
		switch abort.Kind {
		case "deadlock":
			res.Viol = &Violation{p.Prop, "deadlock", "every task waits forever: " + abort.Msg}
		case "budget":
			res.Viol = &Violation{p.Prop, "hang", abort.Msg}
		default:
			res.Err = "harness: " + abort.Msg
		}
	}
	res.Nontriv = !c.skipped && (len(c.fired) > 0 || c.S.Hash != 0 || len(c.ops) > 1)
	res.Sample = strings.Join(c.sample, "; ")
	if len(res.Sample) > 1500 {
		res.Sample = res.Sample[:1500] + "..."
	}
	if res.Viol != nil || keepLog {
		res.Trace = c.S.Trace
		res.Fired = c.fired
		sort.Strings(c.ops)
		res.Ops = c.ops
		res.Log = c.log
	}
	return res
}

var currentRun *Ctx
var startupReader = simrt.NewRng(42)

func init() { rand.Reader = startupReader }

// Node creates a crash domain whose processes must not crash: a crash is a violation of the given class.
func (c *Ctx) Node(name string) *simrt.Node {
	n := &simrt.Node{Name: name}
	n.OnCrash = func(v interface{}, stack string) {
		if c.viol == nil {
			c.viol = &Violation{Prop: c.Plan.Prop, Class: "process-crash", Msg: fmt.Sprintf("%s: the process crashed: %v\n%s", name, v, stack)}
			c.Event("VIOLATION process-crash %s: %v", name, v)
		}
		c.S.Stop()
	}
	return n
}

// Wait blocks until all given tasks have finished.
func (c *Ctx) Wait(ts ...*simrt.Task) {
	simrt.Block("join", func() bool {
		for _, t := range ts {
			if !t.Finished() {
				return false
			}
		}
		return true
	})
}

// Do runs f as a task of the node and waits for it.
func (c *Ctx) Do(n *simrt.Node, name string, f func()) { c.Wait(c.S.Spawn(name, n, f)) }

// Entropy is the simulated entropy device: one stream per node.
type Entropy struct {
	c       *Ctx
	seed    uint64
	streams map[string]*simrt.Rng
	Bytes   map[string]int
	Reads   map[string]int
	// Hook decides on each read: how many bytes at most (-1: all) and whether it fails.
	Hook func(node string, read int, b []byte) (int, error)
}

func NewEntropy(c *Ctx, seed uint64) *Entropy {
	return &Entropy{c: c, seed: seed, streams: map[string]*simrt.Rng{}, Bytes: map[string]int{}, Reads: map[string]int{}}
}

// Reseed starts new tapes.
func (e *Entropy) Reseed(seed uint64) {
	e.seed = seed
	e.streams = map[string]*simrt.Rng{}
}

func (e *Entropy) Read(b []byte) (int, error) {
	if simrt.Inert() {
		return 0, fmt.Errorf("the process is gone")
	}
	simrt.Y()
	name := "none"
	if s := simrt.Cur(); s != nil && s.Current() != nil {
		name = s.Current().Node.Name
	}
	st := e.streams[name]
	if st == nil {
		st = simrt.NewRng(simrt.HashString(e.seed, name))
		e.streams[name] = st
	}
	n := len(b)
	e.Reads[name]++
	if e.Hook != nil {
		m, err := e.Hook(name, e.Reads[name]-1, b)
		if err != nil {
			return 0, err
		}
		if m >= 0 && m < n {
			n = m
		}
	}
	st.Read(b[:n])
	e.Bytes[name] += n
	simrt.Y()
	return n, nil
}

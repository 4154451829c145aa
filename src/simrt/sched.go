// Package simrt is the simulator's runtime: a cooperative scheduler that owns every interleaving of the
// instrumented code, a virtual clock, and crash domains (nodes). Exactly one task runs at any time; at every
// preemption point the seeded strategy (or an explicit schedule) decides who runs next, so a run is a pure
// function of its seed and plan.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// StepNS is the virtual duration of one step.
const StepNS = 50

type state uint8

const (
	runnable state = iota
	blocked        // waits for pred
	sleeping       // waits for the clock
	finished
)

// Node is a crash domain.
type Node struct {
	Name    string
	Dead    bool
	Skew    int64 // clock offset, ns
	OnCrash func(val interface{}, stack string)
	Value   interface{} // owned by the harness
}

// Task is a simulated goroutine.
type Task struct {
	ID       int
	Name     string
	Node     *Node
	Spawned  bool // by the code under test
	Parent   *Task
	Steps    uint64
	st       state
	pred     func() bool
	reason   string
	wakeAt   int64
	wake     chan struct{}
	killed   bool
	prio     uint64
	PanicVal interface{}
}

func (t *Task) Finished() bool { return t.st == finished }
func (t *Task) Killed() bool   { return t.killed }

// Gone reports whether the task ended with a crash of its node.
func (t *Task) Gone() bool { return t != nil && t.killed }

// Self is the running task, nil outside of a simulation.
func Self() *Task {
	if cur == nil {
		return nil
	}
	return cur.cur
}

// Switch is one scheduling decision that differs from the default.
type Switch struct {
	Step uint64 `json:"s"`
	From int    `json:"f"` // task that ran before: 2*id, +1 if it has finished
	Task int    `json:"t"`
}

type swKey struct {
	step uint64
	from int
}

func (s *Sched) from() int {
	if s.cur == nil {
		return -1
	}
	f := 2 * s.cur.ID
	if s.cur.st == finished {
		f++
	}
	return f
}

// Strategy selects how preemptions are chosen.
type Strategy struct {
	Mode     string   `json:"mode"` // none, random, pct, starve, sync, explicit
	Gap      int      `json:"gap,omitempty"`
	Changes  int      `json:"changes,omitempty"`
	Len      int      `json:"len,omitempty"`
	Explicit []Switch `json:"explicit,omitempty"`
}

// Abort is what Run returns when the run did not end normally.
type Abort struct {
	Kind string // deadlock, budget, crash
	Msg  string
}

type Sched struct {
	tasks   []*Task // not finished
	nextID  int
	cur     *Task
	step    uint64
	next    uint64 // step at which the slow path runs
	nextPre uint64
	extra   int64 // ns skipped by sleeping
	budget  uint64
	strat   Strategy
	rng     *Rng
	exp     map[swKey]int
	changes map[uint64]bool
	points  []uint64 // sorted steps of exp or changes
	pi      int
	lowPrio uint64
	Trace   []Switch
	Hash    uint64 // over all scheduling decisions
	Sw      uint64 // task switches
	runBuf  []*Task
	yieldC  chan struct{}
	abort   *Abort
	stop    bool
	mapSeed uint64
	maps    map[uintptr]*mapUse
	chans   map[uintptr]*chanState
	root    *Node
	OnStep  func()
	tick    uint64
	Spawns  int

	syncs     uint64 // synchronisation operations so far
	victim    *Task  // mode sync: only runs when nobody else can
	victimFor int
	stalls    []stall
	Stalls    int // clock stalls injected
}

// stall lets the clock jump to the expiry of a timer of the code under test although there is work to do
// (a machine that is suspended or too slow).
type stall struct {
	at uint64 // step
	to int64  // time
}

var cur *Sched

// Cur returns the running scheduler, nil outside of a simulation.
func Cur() *Sched { return cur }

// New creates a scheduler.
func New(seed uint64, strat Strategy, budget uint64) *Sched {
	s := &Sched{
		rng: NewRng(Mix(seed, 0x5ced)), strat: strat, budget: budget, yieldC: make(chan struct{}),
		mapSeed: Mix(seed, 0x3a9), maps: map[uintptr]*mapUse{}, chans: map[uintptr]*chanState{}, root: &Node{Name: "world"},
	}
	if strat.Mode == "explicit" {
		s.exp = map[swKey]int{}
		for _, sw := range strat.Explicit {
			s.exp[swKey{sw.Step, sw.From}] = sw.Task
		}
	}
	if strat.Mode == "pct" {
		s.lowPrio = 1 << 20
		s.changes = map[uint64]bool{}
		n := strat.Len
		if n < 10 {
			n = 1000
		}
		for i := 0; i < strat.Changes; i++ {
			s.changes[uint64(s.rng.Intn(n))] = true
		}
	}
	for p := range s.exp {
		s.points = append(s.points, p.step)
	}
	for p := range s.changes {
		s.points = append(s.points, p)
	}
	sort.Slice(s.points, func(i, j int) bool { return s.points[i] < s.points[j] })
	return s
}

func (s *Sched) Step() uint64 { return s.step }

// Now is the global virtual time in ns.
func (s *Sched) Now() int64 { return int64(s.step)*StepNS + s.extra }

// Run executes main as the first task and returns once it has finished (remaining tasks are killed), or
// the run was stopped, deadlocked or ran out of budget.
func (s *Sched) Run(main func()) *Abort {
	if cur != nil {
		panic("simrt: nested run")
	}
	cur = s
	m := s.spawn("main", s.root, nil, false, main)
	s.arm()
	for !s.stop && m.st != finished {
		t := s.pick()
		if t == nil {
			break
		}
		s.dispatch(t)
	}
	// unwind whatever is left
	for _, t := range append([]*Task(nil), s.tasks...) {
		t.killed = true
	}
	for len(s.tasks) > 0 {
		t := s.tasks[0]
		t.killed = true
		s.dispatch(t)
		if t.st != finished {
			panic("simrt: a killed task survived: " + t.Name + " in " + t.reason)
		}
	}
	cur = nil
	return s.abort
}

func (s *Sched) dispatch(t *Task) {
	if s.cur != t {
		s.Sw++
	}
	s.cur = t
	t.st = runnable
	from := s.step
	t.wake <- struct{}{}
	<-s.yieldC
	t.Steps += s.step - from
}

// Stop ends the run at the next scheduling point.
func (s *Sched) Stop() { s.stop = true; s.next = 0 }

func (s *Sched) spawn(name string, node *Node, parent *Task, lib bool, f func()) *Task {
	t := &Task{ID: s.nextID, Name: name, Node: node, Parent: parent, Spawned: lib, wake: make(chan struct{})}
	s.nextID++
	if s.strat.Mode == "pct" {
		t.prio = 1<<21 + s.rng.Uint64()%(1<<30)
	}
	s.tasks = append(s.tasks, t)
	go s.body(t, f)
	return t
}

func (s *Sched) body(t *Task, f func()) {
	ok := false
	defer func() {
		if !ok && !t.killed {
			if r := recover(); r != nil {
				t.PanicVal = r
				st := shortStack()
				t.Node.Dead = true
				if t.Node.OnCrash != nil {
					t.Node.OnCrash(r, st)
				} else {
					s.abort = &Abort{"crash", fmt.Sprintf("%s/%s: %v\n%s", t.Node.Name, t.Name, r, st)}
					s.stop = true
				}
				s.KillNode(t.Node)
			}
		} else if t.killed {
			recover()
		}
		t.st = finished
		for i, u := range s.tasks {
			if u == t {
				s.tasks = append(s.tasks[:i], s.tasks[i+1:]...)
				break
			}
		}
		s.yieldC <- struct{}{}
	}()
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
	f()
	ok = true
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/simrt/") && !strings.Contains(l, "runtime/") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.Index(l, "/pol/"); i > 0 {
				l = l[i+1:]
			}
			out = append(out, l)
		}
		if len(out) == 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// KillNode makes every task of the node end without executing anything further.
func (s *Sched) KillNode(n *Node) {
	n.Dead = true
	for _, t := range s.tasks {
		if t.Node == n {
			t.killed = true
			t.st = runnable
		}
	}
	s.next = 0
}

func (s *Sched) runnables() []*Task {
	r := s.runBuf[:0]
	now := s.Now()
	for _, t := range s.tasks {
		switch t.st {
		case runnable:
			r = append(r, t)
		case sleeping:
			if t.wakeAt <= now {
				r = append(r, t)
			}
		case blocked:
			if t.pred() {
				r = append(r, t)
			} else if t.wakeAt > 0 && t.wakeAt <= now {
				r = append(r, t)
			}
		}
	}
	s.runBuf = r
	return r
}

// pick chooses the next task; called on the controller.
func (s *Sched) pick() *Task {
	for {
		if s.stop {
			return nil
		}
		if s.step > s.budget {
			s.abort = &Abort{"budget", fmt.Sprintf("no end after %d steps; %s", s.step, s.describe())}
			s.stop = true
			return nil
		}
		for i := 0; i < len(s.stalls); i++ {
			if st := s.stalls[i]; st.at <= s.step {
				if now := s.Now(); st.to > now {
					s.extra += st.to - now
					s.Stalls++
				}
				s.stalls = append(s.stalls[:i], s.stalls[i+1:]...)
				i--
			}
		}
		r := s.runnables()
		if len(r) == 0 {
			var min int64 = -1
			for _, t := range s.tasks {
				if (t.st == sleeping || t.st == blocked) && t.wakeAt > 0 && (min < 0 || t.wakeAt < min) {
					min = t.wakeAt
				}
			}
			if min < 0 {
				s.abort = &Abort{"deadlock", s.describe()}
				s.stop = true
				return nil
			}
			s.extra += min - s.Now()
			continue
		}
		t := s.choose(r)
		s.arm()
		return t
	}
}

func (s *Sched) describe() string {
	var out []string
	for _, t := range s.tasks {
		w := t.reason
		if t.st == runnable {
			w = "runnable"
		}
		out = append(out, fmt.Sprintf("%s/%s#%d: %s", t.Node.Name, t.Name, t.ID, w))
	}
	if len(out) > 12 {
		out = append(out[:12], "...")
	}
	return strings.Join(out, ", ")
}

func has(r []*Task, t *Task) bool {
	for _, u := range r {
		if u == t {
			return true
		}
	}
	return false
}

func (s *Sched) choose(r []*Task) *Task {
	// Default: the current task goes on if it can, otherwise the oldest runnable one.
	def := r[0]
	for _, t := range r {
		if t.ID < def.ID {
			def = t
		}
	}
	if s.cur != nil && s.cur.st == runnable && has(r, s.cur) {
		def = s.cur
	}
	for _, t := range r {
		if t.killed {
			return t // unwinding has no effect on anybody else
		}
	}
	if len(r) == 1 {
		if r[0] == s.victim {
			s.victim = nil
		}
		return r[0]
	}
	t := def
	switch s.strat.Mode {
	case "random":
		t = r[s.rng.Intn(len(r))]
	case "starve":
		// the task chosen by the seed only runs when nobody else can
		victim := r[0]
		for _, u := range r {
			if Mix(s.mapSeed, uint64(u.ID)) < Mix(s.mapSeed, uint64(victim.ID)) {
				victim = u
			}
		}
		for {
			t = r[s.rng.Intn(len(r))]
			if t != victim {
				break
			}
		}
	case "sync":
		// the task interrupted at a synchronisation operation waits for a long time
		if s.rng.Intn(4) == 0 || t == s.victim {
			for t = r[s.rng.Intn(len(r))]; t == s.victim; t = r[s.rng.Intn(len(r))] {
			}
		}
		if s.victimFor--; s.victimFor == 0 {
			s.victim = nil
		}
	case "pct":
		if s.changes[s.step] && s.cur != nil {
			s.cur.prio = s.lowPrio
			s.lowPrio--
		}
		t = r[0]
		for _, u := range r {
			if u.prio > t.prio {
				t = u
			}
		}
	case "explicit":
		if id, ok := s.exp[swKey{s.step, s.from()}]; ok {
			for _, u := range r {
				if u.ID == id {
					t = u
				}
			}
		}
	}
	if t != def {
		s.Trace = append(s.Trace, Switch{s.step, s.from(), t.ID})
		s.Hash = Mix(s.Hash, Mix(s.step, uint64(t.ID)))
	}
	return t
}

// arm computes the step of the next preemption.
func (s *Sched) arm() {
	const never = ^uint64(0)
	s.nextPre = never
	switch s.strat.Mode {
	case "random", "starve", "sync":
		g := s.strat.Gap
		if s.strat.Mode == "sync" {
			g = s.strat.Len
		}
		if g < 1 {
			g = 1
		}
		// runs that are long anyway are not preempted at this rate to their end
		if k := s.Sw / 250_000; k > 0 {
			if k > 10 {
				k = 10
			}
			g <<= k
		}
		s.nextPre = s.step + 1 + s.rng.Uint64()%uint64(2*g)
	case "pct", "explicit":
		for s.pi < len(s.points) && s.points[s.pi] <= s.step {
			s.pi++
		}
		if s.pi < len(s.points) {
			s.nextPre = s.points[s.pi]
		}
	}
	s.next = s.nextPre
	if s.budget+1 < s.next {
		s.next = s.budget + 1
	}
	// timers
	now := s.Now()
	for _, t := range s.tasks {
		if t.wakeAt > now && (t.st == sleeping || t.st == blocked) {
			at := s.step + uint64((t.wakeAt-now)/StepNS) + 1
			if at < s.next {
				s.next = at
			}
		}
	}
	for _, st := range s.stalls {
		if st.at < s.next {
			s.next = st.at
		}
	}
	if s.stop {
		s.next = 0
	}
}

// SP is a preemption point next to a synchronisation operation: the strategy "sync" stalls tasks there.
func SP() {
	s := cur
	if s == nil {
		return
	}
	s.step++
	s.syncs++
	if s.strat.Mode == "sync" && s.victim == nil && len(s.tasks) > 1 && !s.cur.killed {
		if h := Mix(s.mapSeed^0x5c, s.syncs); h%uint64(s.strat.Gap) == 0 {
			s.victim = s.cur
			s.victimFor = []int{2, 6, 40, 1 << 30}[(h>>32)%4]
			s.slow()
			return
		}
	}
	if s.step >= s.next {
		s.slow()
	}
}

// YA is the preemption point after an atomic operation that returns a value.
func YA[T any](v T) T {
	SP()
	return v
}

// Y is a preemption point.
func Y() {
	s := cur
	if s == nil {
		return
	}
	s.step++
	if s.step >= s.next {
		s.slow()
	}
}

// YV is a preemption point between the evaluation of v and its use.
func YV[T any](v T) T {
	s := cur
	if s != nil {
		s.step++
		if s.step >= s.next {
			s.slow()
		}
	}
	return v
}

func (s *Sched) slow() {
	t := s.cur
	if t.killed {
		runtime.Goexit()
	}
	t.st = runnable
	s.park(t)
}

func (s *Sched) park(t *Task) {
	s.yieldC <- struct{}{}
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
	t.pred, t.wakeAt, t.reason = nil, 0, ""
}

// Inert reports whether the calling task has been killed and only unwinds.
func Inert() bool {
	s := cur
	return s != nil && s.cur != nil && s.cur.killed
}

// Block waits until pred holds.
func Block(reason string, pred func() bool) {
	s := cur
	if s == nil {
		if !pred() {
			panic("simrt: blocking outside of a simulation: " + reason)
		}
		return
	}
	SP()
	for !pred() {
		t := s.cur
		if t.killed {
			runtime.Goexit()
		}
		t.st, t.pred, t.reason = blocked, pred, reason
		s.park(t)
	}
}

// BlockUntil waits until pred holds or the clock reaches at; it reports whether pred holds.
func BlockUntil(reason string, at int64, pred func() bool) bool {
	s := cur
	Y()
	for !pred() {
		if s.Now() >= at {
			return false
		}
		t := s.cur
		if t.killed {
			runtime.Goexit()
		}
		t.st, t.pred, t.reason, t.wakeAt = blocked, pred, reason, at
		s.park(t)
	}
	return true
}

// SleepNS advances this task's virtual time.
func SleepNS(d int64) {
	s := cur
	if s == nil || d <= 0 {
		Y()
		return
	}
	t := s.cur
	if t.killed {
		runtime.Goexit()
	}
	s.step++
	t.st, t.reason, t.wakeAt = sleeping, "sleep", s.Now()+d
	s.park(t)
}

// timerSleep is the sleep of a timer of the code under test.
func timerSleep(d int64) {
	if s := cur; s != nil && d > 0 && d <= 300e9 && !s.cur.killed {
		s.tick++
		if r := NewRng(Mix(s.mapSeed, Mix(s.tick, 0x57a11))); r.Intn(2) == 0 {
			s.stalls = append(s.stalls, stall{s.step + 1 + uint64(r.Intn(1<<uint(4+r.Intn(18)))), s.Now() + d})
		}
	}
	SleepNS(d)
}

// Go starts a task of the code under test on the current node.
func Go(f func()) {
	s := cur
	if s == nil {
		go f()
		return
	}
	if s.cur.killed {
		runtime.Goexit()
	}
	s.Spawns++
	s.spawn("go", s.cur.Node, s.cur, true, f)
	s.arm()
	Y()
}

// Spawn starts a harness task on a node.
func (s *Sched) Spawn(name string, node *Node, f func()) *Task {
	t := s.spawn(name, node, s.cur, false, f)
	s.arm()
	return t
}

// Current returns the running task.
func (s *Sched) Current() *Task { return s.cur }

// Tasks returns the tasks that have not finished.
func (s *Sched) Tasks() []*Task { return s.tasks }

// Try runs f like a server runs a request handler: a panic is caught and returned.
func Try(f func()) (pan interface{}, stack string) {
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			if Inert() {
				return
			}
			if r := recover(); r != nil {
				pan = r
				stack = shortStack()
			}
		}()
		f()
		done = true
	}()
	return
}

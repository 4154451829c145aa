package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"

	"pol/pol"

	math "github.com/IBM/mathlib"

	"simrt"
)

// RW is the operator's readers-writer lock: settings are exclusive, queries run concurrently.
type RW struct {
	readers int
	writer  bool
}

func (l *RW) Lock() {
	simrt.Block("operator lock", func() bool { return !l.writer && l.readers == 0 })
	l.writer = true
}
func (l *RW) Unlock() { l.writer = false }
func (l *RW) RLock() {
	simrt.Block("operator read lock", func() bool { return !l.writer })
	l.readers++
}
func (l *RW) RUnlock() { l.readers-- }

// State is what the operator had recorded when it published a root.
type State struct {
	Version int
	Model   Model
	Root    Root
}

// Deploy is a deployment: one operator, several clients, a network between them.
type Deploy struct {
	c       *Ctx
	e       *Env
	op      *simrt.Node
	disk    *Disk
	ls      *pol.LiabilitySet
	lock    *RW
	model   Model
	version int
	ids     []string // identifiers the workload may set
	extra   []string // identifiers that are never set
	roots   map[string]State
	served  map[string]bool
	net     netFaults
	// dirty: identifier -> amounts that were requested but whose setting failed
	dirty map[string][]int64
}

type netFaults struct {
	drop, dup, delay float64
	maxDelay         int64
}

func NewDeploy(c *Ctx, cfg Cfg, nIDs int) *Deploy {
	d := &Deploy{c: c, lock: &RW{}, model: Model{}, roots: map[string]State{}, served: map[string]bool{}, dirty: map[string][]int64{}}
	d.op = c.Node("operator")
	r := c.Rng("deploy")
	pick := []float64{0, 0, 0.1, 0.3}
	d.net = netFaults{drop: pick[r.Intn(4)], dup: pick[r.Intn(4)], delay: pick[r.Intn(4)] + 0.1, maxDelay: int64(1_000_000 << uint(r.Intn(8)))}
	c.FaultsUntil = 60_000_000_000
	c.Do(c.Node("setup"), "setup", func() { d.e = NewEnv(c, cfg) })
	d.disk = NewDisk(c, "operator")
	d.disk.crash = func() { c.S.KillNode(d.op) }
	ids := d.e.IDs(c.Rng("ids"), nIDs+3)
	n := len(ids) - 3
	if n < 1 {
		n = len(ids)
	}
	d.ids, d.extra = ids[:n], ids[n:]
	c.Event("deployment: %s, ids %v, never set %v, alias=%v", d.e, shortIDs(d.ids), shortIDs(d.extra), d.disk.alias)
	return d
}

func shortIDs(ids []string) []string {
	var r []string
	for _, id := range ids {
		r = append(r, sid(id))
	}
	return r
}

func sid(id string) string {
	if len(id) > 24 {
		return id[:8] + ".." + id[len(id)-6:]
	}
	return id
}

// Boot creates the liability set on the operator's node.
func (d *Deploy) Boot() {
	d.c.Do(d.op, "boot", func() { d.ls = pol.NewLiabilitySet(d.e.PP, d.disk, d.e.ID2Path) })
}

// Load fills a set with many liabilities before the clients start: an operator that moves in with its data.
func (d *Deploy) Load(prob float64, most int) {
	c := d.c
	r := c.Rng("load")
	if c.Plan.Group == "real" || !r.Chance(prob) {
		return
	}
	n := 20 + r.Intn(60)
	if r.Chance(0.3) {
		n = 100 + r.Intn(200)
	}
	if d.e.Depth*d.e.Fanout > 1500 {
		n /= 4
	}
	if n > most {
		n = most
	}
	if most >= 200 && !d.e.Full && d.e.Depth*d.e.Fanout < 250 && r.Chance(0.15) {
		n = 1000 + r.Intn(1000) // beyond any small table
	}
	never := map[string]bool{}
	for _, id := range d.extra {
		never[id] = true
	}
	var ids []string
	pattern := r.Intn(4)
	if d.e.Kind == Short && pattern == 1 {
		pattern = 2
	}
	switch pattern {
	case 0:
		ids = d.e.IDs(r, n)
	case 1: // numbered, or digests of numbers
		from := r.Intn(1_000_000_000 - n)
		if r.Chance(0.3) {
			from = 0
		}
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("%09d", from+i)
			if d.e.Kind == Sparse {
				h := sha256.Sum256([]byte(id))
				id = hex.EncodeToString(h[:])
			}
			ids = append(ids, id)
		}
	default: // every position of some vertices is in use
		base := make([]int, d.e.Depth)
		for i := range base {
			base[i] = r.Intn(d.e.Fanout)
		}
		at := []int{d.e.Depth - 1}
		if pattern == 3 {
			at = []int{0, d.e.Depth - 1}
		}
		if d.e.Kind == Sparse {
			base[d.e.Depth-1] = 0
			at = []int{0, 1}
			base[d.e.Depth-1] = 1
		}
		seen := map[string]bool{}
		var fill func(k int)
		fill = func(k int) {
			if len(ids) >= n {
				return
			}
			if k == len(at) {
				if id := d.e.pathToID(base); !seen[id] {
					seen[id] = true
					ids = append(ids, id)
				}
				return
			}
			for x := 0; x < d.e.Fanout; x++ {
				base[at[k]] = x
				fill(k + 1)
			}
		}
		fill(0)
		if r.Chance(0.5) {
			p := r.Perm(len(ids))
			q := make([]string, len(ids))
			for i, j := range p {
				q[i] = ids[j]
			}
			ids = q
		}
	}
	c.Do(d.op, "load", func() {
		for i, id := range ids {
			amt := int64(r.Uint64() >> uint(16+r.Intn(48)))
			key := fmt.Sprintf("load.%03d", i)
			if never[id] || !c.On(key) {
				continue
			}
			d.Set(id, amt)
		}
	})
	if len(ids) > 0 {
		d.ids = append(d.ids, ids[r.Intn(len(ids))], ids[r.Intn(len(ids))])
	}
	c.Count("sets loaded with many liabilities")
}

func (d *Deploy) has(id string) bool { _, ok := d.model[id]; return ok }

// RPC delivers f to the operator (exactly once if it is delivered at all, as the operator recognises
// duplicates) and waits until it was served. The client repeats requests until it gets an answer.
func (d *Deploy) RPC(client *simrt.Node, id string, f func()) {
	c := d.c
	done := false
	serve := func() {
		if d.served[id] {
			c.Count("duplicate requests recognised")
			return
		}
		d.served[id] = true
		f()
		done = true
	}
	for try := 0; ; try++ {
		tag := fmt.Sprintf("%s/%d", id, try)
		if c.Fault("net-delay", tag, d.net.delay) {
			simrt.SleepNS(int64(c.Rng("delay:"+tag).Uint64()) & 0x7fffffff % d.net.maxDelay)
		}
		if c.Fault("net-drop-request", tag, d.net.drop) {
			simrt.SleepNS(d.net.maxDelay)
			continue
		}
		if c.Fault("net-dup", tag, d.net.dup) {
			c.S.Spawn("dup:"+tag, d.op, func() {
				simrt.SleepNS(int64(c.Rng("dupdelay:"+tag).Uint64()) & 0x7fffffff % d.net.maxDelay)
				serve()
			})
		}
		t := c.S.Spawn("rpc:"+tag, d.op, serve)
		c.Wait(t)
		if c.Fault("net-drop-answer", tag, d.net.drop) {
			simrt.SleepNS(d.net.maxDelay)
			continue
		}
		simrt.Block("answer", func() bool { return done || d.op.Dead })
		return
	}
}

// Set serves a setting; the operator's total stays below 2^63.
func (d *Deploy) Set(id string, amt int64) {
	d.lock.Lock()
	defer d.lock.Unlock()
	amt = d.model.fit(id, amt)
	pan, stack := simrt.Try(func() { d.ls.Set(id, amt) })
	if simrt.Inert() {
		return
	}
	if pan != nil {
		d.c.Violate("set-failed", "Set(%q, %d) failed without any storage failure: %v\n%s", id, amt, pan, stack)
	}
	d.c.Event("set %s=%d", sid(id), amt)
	d.c.Count("sets")
	if d.has(id) {
		d.c.Count("overwrites")
	}
	d.model[id] = amt
	d.version++
}

// Move shifts an amount between two recorded identifiers, preferably ones that share a part of their path: the
// sums of the vertices above both stay the same. It calls between, if any, with the amount on the way, too.
func (d *Deploy) Move(x uint64, between func()) {
	r := simrt.NewRng(x)
	d.lock.Lock()
	defer d.lock.Unlock()
	type pair struct {
		a, b   string
		common int
	}
	var ps []pair
	ids := sortedKeys(d.model)
	if len(ids) > 12 {
		for i := 0; i < 12; i++ {
			j := i + r.Intn(len(ids)-i)
			ids[i], ids[j] = ids[j], ids[i]
		}
		ids = ids[:12]
	}
	for _, a := range ids {
		for _, b := range ids {
			if a == b {
				continue
			}
			pa, pb := d.e.ID2Path(a), d.e.ID2Path(b)
			k := 0
			for k < len(pa) && k < len(pb) && pa[k] == pb[k] {
				k++
			}
			ps = append(ps, pair{a, b, k})
		}
	}
	if len(ps) == 0 {
		return
	}
	p := ps[r.Intn(len(ps))]
	for t := 0; t < 6; t++ {
		if q := ps[r.Intn(len(ps))]; q.common > p.common {
			p = q
		}
	}
	if between != nil {
		between()
	}
	va, vb := d.model[p.a], d.model[p.b]
	δ := va
	switch r.Intn(4) {
	case 0:
		δ = va - vb // swap
	case 1:
		if va > 0 {
			δ = int64(r.Uint64()%uint64(va)) + 1
		}
	}
	set := func(id string, amt int64) {
		pan, stack := simrt.Try(func() { d.ls.Set(id, amt) })
		if simrt.Inert() {
			return
		}
		if pan != nil {
			d.c.Violate("set-failed", "Set(%q, %d) failed without any storage failure: %v\n%s", id, amt, pan, stack)
		}
		d.model[id] = amt
		d.version++
		d.c.Count("sets")
	}
	first, second := p.a, p.b
	amtOf := map[string]int64{p.a: va - δ, p.b: vb + δ}
	if amtOf[first] > d.model[first] {
		first, second = second, first
	}
	set(first, amtOf[first])
	if between != nil {
		between()
	}
	set(second, amtOf[second])
	if between != nil {
		between()
	}
	d.c.Event("move %d from %s to %s", δ, sid(p.a), sid(p.b))
	d.c.Count(fmt.Sprintf("moves below a common vertex: %v", p.common > 0))
}

// CheckGet looks up an identifier and compares with the model.
func (d *Deploy) CheckGet(id string) {
	var got int64
	var ok bool
	pan, stack := simrt.Try(func() { got, ok = d.ls.Get(id) })
	want, has := d.model[id]
	d.c.Count("lookups")
	if pan != nil {
		d.c.Violate("lookup-failed", "Get(%q) failed: %v\n%s", id, pan, stack)
	}
	if ok != has || (ok && got != want) {
		d.c.Violate("lookup-wrong", "Get(%q) = %d, %v; recorded: %d, %v", id, got, ok, want, has)
	}
	d.c.Event("get %s -> %d %v", sid(id), got, ok)
}

// Root reads the root; the caller holds the lock.
func (d *Deploy) Root() (Root, interface{}) {
	var r Root
	pan, _ := simrt.Try(func() { r.V, r.W = d.ls.Root() })
	return r.Copy(), pan
}

// publish reads the root and records what it stands for.
func (d *Deploy) publish() (Root, bool) {
	r, pan := d.Root()
	if pan != nil {
		if len(d.model) > 0 {
			d.c.Violate("root-failed", "Root() failed: %v", pan)
		}
		return r, false
	}
	if r.V == nil {
		if len(d.model) > 0 {
			d.c.Violate("root-missing", "Root() is empty although liabilities are recorded")
		}
		return r, false
	}
	d.c.Count("roots read")
	return r, true
}

// answer to a proof request.
type answer struct {
	id    string
	amt   int64
	ok    bool
	proof pol.LiabilityProof
	root  Root
	model Model
}

// Prove serves a proof request and checks what the operator itself can see.
func (d *Deploy) Prove(id string, rootFirst bool) *answer {
	a := &answer{id: id, model: d.model.Clone()}
	var rootOK bool
	if rootFirst {
		a.root, rootOK = d.publish()
	}
	pan, stack := simrt.Try(func() { a.amt, a.proof, _, a.ok = d.ls.ProveLiability(id) })
	if simrt.Inert() {
		return nil
	}
	d.c.Count("proofs requested")
	if pan != nil {
		d.c.Violate("prove-failed", "ProveLiability(%q) failed: %v\n%s", id, pan, stack)
	}
	want, has := d.model[id]
	if a.ok != has {
		d.c.Violate("prove-presence", "ProveLiability(%q) reports %v but the identifier's presence is %v", id, a.ok, has)
	}
	if !has {
		return nil
	}
	if a.amt != want {
		d.c.Violate("prove-amount", "ProveLiability(%q) returns %d instead of %d", id, a.amt, want)
	}
	if !rootFirst {
		a.root, rootOK = d.publish()
	}
	if !rootOK {
		return nil
	}
	d.c.Event("prove %s=%d root %s", sid(id), a.amt, a.root.Key())
	return a
}

// netPauses lets time pass as on a network.
func (d *Deploy) netPause(tag string) {
	if d.c.Fault("net-delay", tag, d.net.delay) {
		simrt.SleepNS(int64(d.c.Rng("delay:"+tag).Uint64()) & 0x7fffffff % d.net.maxDelay)
	}
}

// opSpec is one operation of the workload.
type opSpec struct {
	key    string
	kind   string
	id     string
	amt    int64
	client int
	flag   bool
	x      uint64
}

// drawOps draws a workload: kinds with weights.
func (d *Deploy) drawOps(n, clients int, kinds []string, weights []int) []opSpec {
	r := d.c.Rng("ops")
	tot := 0
	for _, w := range weights {
		tot += w
	}
	var ops []opSpec
	var last string
	for i := 0; i < n; i++ {
		x := r.Intn(tot)
		k := 0
		for x >= weights[k] {
			x -= weights[k]
			k++
		}
		if i == 0 {
			k = 0
		}
		id := d.ids[r.Intn(len(d.ids))]
		if last != "" && r.Chance(0.3) {
			id = last
		}
		if kinds[k] != "set" && r.Chance(0.12) {
			id = d.extra[r.Intn(len(d.extra))]
		} else {
			last = id
		}
		ops = append(ops, opSpec{fmt.Sprintf("op%02d.%s", i, kinds[k]), kinds[k], id, drawAmount(r), r.Intn(clients), r.Chance(0.5), r.Uint64()})
	}
	return ops
}

// runClients runs the operations: every client executes its own in order, clients run concurrently.
func (d *Deploy) runClients(ops []opSpec, clients int, exec func(cl *simrt.Node, o opSpec)) {
	var ts []*simrt.Task
	for k := 0; k < clients; k++ {
		k := k
		node := d.c.Node(fmt.Sprintf("client%d", k))
		ts = append(ts, d.c.S.Spawn(node.Name, node, func() {
			for _, o := range ops {
				if o.client == k && d.c.On(o.key) {
					exec(node, o)
				}
			}
		}))
	}
	d.c.Wait(ts...)
}

// checkTot asks for the total and checks it; the caller holds the lock.
func (d *Deploy) checkTot(others bool, tag string) {
	c := d.c
	if len(d.model) == 0 {
		return
	}
	rootFirst := c.Rng("tot:" + tag).Chance(0.5)
	var root Root
	ok := true
	if rootFirst {
		root, ok = d.publish()
	}
	var tp pol.TotalProof
	pan, stack := simrt.Try(func() { tp = d.ls.ProveTot() })
	if simrt.Inert() {
		return
	}
	if pan != nil {
		c.Violate("total-failed", "ProveTot() failed: %v\n%s", pan, stack)
	}
	c.Count("totals requested")
	want := d.model.Sum()
	if big.NewInt(int64(tp.Sum)).Cmp(want) != 0 {
		c.Violate("total-wrong", "ProveTot() reports %d, the sum of the %d liabilities is %s", tp.Sum, len(d.model), want)
	}
	if !rootFirst {
		root, ok = d.publish()
	}
	if !ok {
		return
	}
	err, pv := d.e.verifyTot(tp, root)
	if err != nil || pv != nil {
		c.Violate("total-rejected", "the proof of the total %d is rejected against the current root: %v %v", tp.Sum, err, pv)
	}
	c.Event("total %d root %s", tp.Sum, root.Key())
	if !others {
		return
	}
	r := c.Rng("others:" + tag)
	var cand []int64
	t := int64(tp.Sum)
	cand = append(cand, t-1, t+1, -t, 0, -1, t^1<<62, int64(r.Uint64()>>1), t/2, t*2)
	vals := sortedVals(d.model)
	if len(vals) > 20 {
		vals = vals[:20]
	}
	for _, v := range vals {
		cand = append(cand, v, t-v, t+v)
	}
	for _, v := range cand {
		if v == t {
			continue
		}
		f := tp
		f.Sum = int(v)
		c.Count("other totals tried")
		if d.e.acceptedTot(f, root) {
			c.Violate("other-total-accepted", "the total %d is accepted for a root whose total is %d", v, t)
		}
	}
	// without an opening, or with one of nothing
	identity := tp.LiabilityProof.Copy()
	identity.Sub(tp.LiabilityProof)
	for _, v := range []int64{0, 1, t + 1, t - 1} {
		for _, π := range []*math.G1{nil, identity, curve.GenG1.Copy(), root.V.Copy()} {
			if v == t || v < 0 {
				continue
			}
			c.Count("other totals tried")
			if d.e.acceptedTot(pol.TotalProof{LiabilityProof: π, Sum: int(v)}, root) {
				c.Violate("other-total-accepted", "the total %d is accepted for a root whose total is %d, with the opening %v", v, t, π)
			}
		}
	}
}

func sortedKeys(m Model) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func sortedVals(m Model) []int64 {
	var r []int64
	for _, k := range sortedKeys(m) {
		r = append(r, m[k])
	}
	return r
}

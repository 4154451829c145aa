package main

import (
	"fmt"

	"pol/pol"

	"simrt"
)

func init() {
	register(&Def{ID: "C22", Run: runC22, Quick: 2800, QuickReal: 6, Thorough: 30000, ThorReal: 100,
		Rule: "Seeded histories on 2-5 liability sets that share public parameters, each with its own storage (some of which fail for a while) and its own client, all interleaved statement by statement; each set is compared with a map of its own, and proofs and totals of one set are offered against the roots of the others."})
}

func init() {
	register(&Def{ID: "C23", Run: runC23, Quick: 1100, QuickReal: 6, Thorough: 30000, ThorReal: 100,
		Rule: "2-4 deployments, each with public parameters of its own (some of equal fan-out), generated and used concurrently, interleaved statement by statement; each set is compared with a map of its own, and the proofs and totals of one deployment reach the clients of the others, who hold other parameters and other roots."})
}

func runC23(c *Ctx) {
	r := c.Rng("c23")
	full := r.Chance(0.35)
	k := 2 + r.Intn(3)
	if full || c.Plan.Group == "real" {
		k = 2
	}
	cfgs := make([]Cfg, k)
	for i := range cfgs {
		if i > 0 && r.Chance(0.6) {
			cfgs[i] = cfgs[0]
			if cfgs[i].Kind == Short && r.Chance(0.3) {
				cfgs[i].Depth = 2 + r.Intn(3)
			}
			continue
		}
		cfgs[i] = drawCfgFrom(c, c.Rng(fmt.Sprint("cfg", i)), full)
		if full && r.Chance(0.95) {
			cfgs[i].Kind, cfgs[i].Fanout, cfgs[i].Depth = Short, []int{3, 3, 3, 7}[r.Intn(4)], 2+r.Intn(3)
		}
	}
	es := make([]*Env, k)
	gen := func(i int) *simrt.Task {
		node := c.Node(fmt.Sprintf("board%d", i))
		return c.S.Spawn(node.Name, node, func() { es[i] = NewEnv(c, cfgs[i]) })
	}
	ms := make([]*member, k)
	together := r.Chance(0.6)
	par := r.Chance(0.7)
	run := func(i int) *simrt.Task {
		e := es[i]
		ids := e.IDs(c.Rng(fmt.Sprint("ids", i)), 2+r.Intn(5))
		c.Event("deployment %d: %s, ids %v", i, e, shortIDs(ids))
		m := &member{c: c, e: e, name: fmt.Sprintf("set%d", i), model: Model{}, dirty: map[string]int64{}, ids: ids}
		m.disk = NewDisk(c, m.name)
		ms[i] = m
		return c.S.Spawn(m.name, c.Node(fmt.Sprintf("operator%d", i)), func() { m.history(c.Rng(m.name), ids, full) })
	}
	var ts []*simrt.Task
	if together {
		for i := range es {
			ts = append(ts, gen(i))
		}
		c.Wait(ts...)
		pol.ParallelismEnabled = par
		ts = nil
		for i := range es {
			ts = append(ts, run(i))
		}
	} else { // parameters are generated while others are in use
		for i := range es {
			c.Wait(gen(i))
			pol.ParallelismEnabled = par
			ts = append(ts, run(i))
		}
	}
	c.Wait(ts...)
	c.Do(c.Node("repair"), "repair", func() {
		for _, m := range ms {
			m.finish(m.ids, full)
		}
	})
	c.Do(c.Node("verifier"), "crossed", func() {
		for i, m := range ms {
			for j, o := range ms {
				if m.root == nil || o.root == nil {
					continue
				}
				roots := []Root{*o.root}
				if i != j {
					roots = append(roots, *m.root)
				}
				for _, rt := range roots {
					if m.tot != nil {
						err, pan := o.e.verifyTot(*m.tot, rt)
						if pan != nil {
							c.Violate("verify-panic", "verification of a total of deployment %d panics under the parameters of %d: %v", i, j, pan)
						}
						if (err == nil) != (i == j) {
							c.Violate("crossed-total", "the total %d of deployment %d under the parameters of %d: %v", m.tot.Sum, i, j, err)
						}
						c.Count("totals offered")
					}
					if m.prf != nil {
						id := m.prf.id
						if o.e.Kind != m.e.Kind || o.e.Depth != m.e.Depth || o.e.Fanout != m.e.Fanout {
							id = o.ids[0]
						}
						err, pan := o.e.verify(deepCopy(m.prf.proof), id, rt)
						if pan != nil {
							c.Violate("verify-panic", "verification of a proof of deployment %d panics under the parameters of %d: %v", i, j, pan)
						}
						want := i == j && m.prf.root.Equal(rt)
						if (err == nil) != want {
							c.Violate("crossed-proof", "the proof of deployment %d for %q under the parameters of %d: %v", i, id, j, err)
						}
						c.Count("proofs offered")
					}
				}
			}
		}
	})
}

// finish repeats what failed and checks everything.
func (m *member) finish(ids []string, full bool) {
	for _, id := range ids {
		if amt, ok := m.dirty[id]; ok {
			m.set("", id, amt, nil)
		}
	}
	m.check(ids)
	if full && m.prf == nil && len(m.model) > 0 {
		m.prove(sortedKeys(m.model)[0])
	}
}

// member is one of several sets that share parameters.
type member struct {
	c     *Ctx
	e     *Env
	name  string
	ids   []string
	disk  *Disk
	ls    *pol.LiabilitySet
	model Model
	dirty map[string]int64 // amount of an outstanding setting that failed
	root  *Root            // the last root that was read, if nothing was set since
	tot   *pol.TotalProof
	prf   *answer
}

func runC22(c *Ctx) {
	r := c.Rng("c22")
	full := r.Chance(0.3)
	if c.Plan.Group == "real" {
		full = r.Chance(0.3)
	}
	cfg := drawCfg(c, full)
	if full && r.Chance(0.9) {
		cfg.Kind, cfg.Fanout, cfg.Depth = Short, 3, 2+r.Intn(3)
	}
	var e *Env
	c.Do(c.Node("setup"), "setup", func() { e = NewEnv(c, cfg) })
	k := 2 + r.Intn(4)
	if full && k > 3 {
		k = 3
	}
	ids := e.IDs(c.Rng("ids"), 3+r.Intn(6))
	op := c.Node("operator")
	c.Event("%d sets: %s, ids %v", k, e, shortIDs(ids))
	pol.ParallelismEnabled = cfg.Par
	ms := make([]*member, k)
	var ts []*simrt.Task
	overlap := r.Chance(0.7) // the same identifiers in all sets
	for i := range ms {
		m := &member{c: c, e: e, name: fmt.Sprintf("set%d", i), model: Model{}, dirty: map[string]int64{}}
		m.disk = NewDisk(c, m.name)
		ms[i] = m
		mine := ids
		if !overlap && len(ids) > 4 {
			n := len(ids) / 2
			mine = ids[(i%2)*n : (i%2)*n+n]
		}
		ts = append(ts, c.S.Spawn(m.name, op, func() { m.history(c.Rng(m.name), mine, full) }))
	}
	c.Wait(ts...)
	// what failed is repeated, one after the other
	c.Do(op, "repair", func() {
		for _, m := range ms {
			m.finish(ids, full)
		}
	})
	// nothing of one set counts against the root of another
	c.Do(c.Node("verifier"), "crossed", func() {
		for i, m := range ms {
			for j, o := range ms {
				if o.root == nil {
					continue
				}
				if m.tot != nil && m.root != nil {
					err, pan := e.verifyTot(*m.tot, *o.root)
					if pan != nil {
						c.Violate("verify-panic", "verification of a total panics: %v", pan)
					}
					if (err == nil) != (i == j) {
						c.Violate("crossed-total", "the total %d of set %d against the root of set %d: %v", m.tot.Sum, i, j, err)
					}
					c.Count("totals offered")
				}
				if m.prf != nil {
					err, pan := e.verify(deepCopy(m.prf.proof), m.prf.id, *o.root)
					if pan != nil {
						c.Violate("verify-panic", "verification panics: %v", pan)
					}
					want := i == j && m.prf.root.Equal(*o.root)
					if (err == nil) != want {
						c.Violate("crossed-proof", "the proof of set %d for %q against the root of set %d: %v", i, m.prf.id, j, err)
					}
					c.Count("proofs offered")
				}
				if i != j && m.root != nil && m.root.V.Equals(o.root.V) {
					c.Violate("equal-roots", "sets %d and %d have the same root", i, j)
				}
			}
		}
	})
}

func (m *member) history(r *simrt.Rng, ids []string, full bool) {
	c := m.c
	m.ls = pol.NewLiabilitySet(m.e.PP, m.disk, m.e.ID2Path)
	steps := 4 + r.Intn(14)
	failing := r.Chance(0.3)
	for s := 0; s < steps; s++ {
		key := fmt.Sprintf("%s.%d", m.name, s)
		if !c.On(key) {
			continue
		}
		sr := c.Rng(key)
		id := ids[sr.Intn(len(ids))]
		if sr.Chance(0.3) {
			for _, x := range ids {
				if _, ok := m.dirty[x]; ok {
					id = x
				}
			}
		}
		x := sr.Intn(10)
		switch {
		case x < 5 || len(m.model) == 0 && x < 8:
			amt := drawAmount(sr)
			if old, ok := m.dirty[id]; ok {
				amt = old
			}
			var fr *simrt.Rng
			if failing && sr.Chance(0.3) {
				fr = sr
			}
			m.set(key, id, amt, fr)
		case x < 8:
			m.get(id)
		case x < 9:
			m.readRoot()
		default:
			m.total()
		}
		if simrt.Inert() {
			return
		}
		if full && s == steps-1 && sr.Chance(0.7) && len(m.dirty) == 0 && len(m.model) > 0 {
			m.prove(sortedKeys(m.model)[sr.Intn(len(m.model))])
		}
	}
}

func (m *member) set(key, id string, amt int64, fr *simrt.Rng) {
	c := m.c
	worst := m.model.Clone()
	for k, v := range m.dirty {
		if v > worst[k] {
			worst[k] = v
		}
	}
	amt = worst.fit(id, amt)
	if amt < 0 {
		amt = 0
	}
	fired := false
	if fr != nil {
		n := fr.Intn(3*m.e.Depth + 2)
		kind := []DiskFault{DiskErrBefore, DiskErrAfter, DiskErrBefore, DiskErrAfter, DiskEmpty, DiskShort}[fr.Intn(6)]
		m.disk.Arm(func(op string, k []byte, i int) DiskFault {
			if i == n && c.Inject("disk-error", fmt.Sprintf("%s.%d.%s", key, i, op)) {
				fired = true
				return kind
			}
			return DiskOK
		})
	}
	pan, stack := simrt.Try(func() { m.ls.Set(id, amt) })
	m.disk.Arm(nil)
	if simrt.Inert() {
		return
	}
	m.root, m.tot, m.prf = nil, nil, nil
	c.Event("%s: set %s=%d failed=%v", m.name, sid(id), amt, pan != nil)
	if pan != nil {
		if !fired {
			c.Violate("set-failed", "%s: Set(%q, %d) fails although its storage works: %v\n%s", m.name, id, amt, pan, stack)
		}
		m.dirty[id] = amt
		return
	}
	c.Count("sets")
	delete(m.dirty, id)
	m.model[id] = amt
}

func (m *member) get(id string) {
	if _, ok := m.dirty[id]; ok {
		return
	}
	var n int64
	var ok bool
	pan, _ := simrt.Try(func() { n, ok = m.ls.Get(id) })
	if simrt.Inert() {
		return
	}
	want, has := m.model[id]
	if len(m.dirty) > 0 {
		// the failure of another setting may have left a vertex above both unreadable
		if pan == nil && ok && n != want {
			m.c.Violate("lookup-wrong", "%s: Get(%q) = %d, recorded %d %v", m.name, id, n, want, has)
		}
		return
	}
	if pan != nil || ok != has || ok && n != want {
		m.c.Violate("lookup-wrong", "%s: Get(%q) = %d %v (%v), recorded %d %v", m.name, id, n, ok, pan, want, has)
	}
	m.c.Count("lookups")
}

func (m *member) readRoot() bool {
	if len(m.dirty) > 0 || len(m.model) == 0 {
		return false
	}
	var rt Root
	pan, _ := simrt.Try(func() { rt.V, rt.W = m.ls.Root() })
	if simrt.Inert() {
		return false
	}
	if pan != nil || rt.V == nil || rt.W == nil && m.e.Depth > 1 {
		m.c.Violate("root-failed", "%s: Root() fails: %v", m.name, pan)
	}
	rt = rt.Copy()
	if m.root != nil && !m.root.Equal(rt) {
		m.c.Violate("root-changed", "%s: the root changed although nothing was set", m.name)
	}
	m.root = &rt
	m.c.Count("roots")
	return true
}

func (m *member) total() {
	if !m.readRoot() {
		return
	}
	var tp pol.TotalProof
	pan, stack := simrt.Try(func() { tp = m.ls.ProveTot() })
	if simrt.Inert() {
		return
	}
	if pan != nil {
		m.c.Violate("total-failed", "%s: ProveTot fails: %v\n%s", m.name, pan, stack)
	}
	if m.model.Sum().Int64() != int64(tp.Sum) {
		m.c.Violate("total-wrong", "%s: the total is %d, the sum of its liabilities is %v", m.name, tp.Sum, m.model.Sum())
	}
	if err, pan := m.e.verifyTot(tp, *m.root); err != nil || pan != nil {
		m.c.Violate("total-rejected", "%s: the total is rejected against the root of the set: %v %v", m.name, err, pan)
	}
	m.tot = &tp
	m.c.Count("totals")
}

func (m *member) prove(id string) {
	if !m.readRoot() {
		return
	}
	a := &answer{id: id, root: *m.root}
	pan, stack := simrt.Try(func() { a.amt, a.proof, _, a.ok = m.ls.ProveLiability(id) })
	if simrt.Inert() {
		return
	}
	if pan != nil || !a.ok || a.amt != m.model[id] {
		m.c.Violate("prove-failed", "%s: ProveLiability(%q) = %d %v, recorded %d: %v\n%s", m.name, id, a.amt, a.ok, m.model[id], pan, stack)
	}
	if err, pan := m.e.verify(a.proof, id, a.root); err != nil || pan != nil {
		m.c.Violate("honest-proof-rejected", "%s: the proof of %q is rejected: %v %v", m.name, id, err, pan)
	}
	m.prf = a
	m.c.Count("proofs")
}

func (m *member) check(ids []string) {
	for _, id := range ids {
		m.get(id)
	}
	m.total()
}

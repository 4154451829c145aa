package main

import (
	"fmt"
	"io"

	"pol/pol"
	"pol/verkle"

	math "github.com/IBM/mathlib"

	"simrt"
)

func init() {
	register(&Def{ID: "C13", Run: runC13, Quick: 2400, QuickReal: 8, Thorough: 30000, ThorReal: 120,
		Rule: "The same seeded history is run twice with different entropy tapes (and the same simulated times); the entropy source fails at arbitrary reads, once or from then on, delivers a part before it fails, delivers single bytes, nothing for a while, or stalls. Published commitments, blinding factors and the parts of repeated proofs are compared, and the entropy that was delivered is accounted for."})
}

// twin is one of the two runs of a history.
type twin struct {
	d *Deploy
	// everything published: value -> where
	vs     map[string]string
	blinds map[string]string
	leaves map[string]string
}

// entropy faults of one operation
type entFault struct {
	kind  string
	at    int
	fired int
	short int // bytes that were asked for and never came
}

var entKinds = []string{"fail-once", "fail-on", "part-then-fail", "eof", "part-then-eof"}

// arm installs the fault for the coming reads of the node; key identifies it.
func (c *Ctx) armEntropy(node, key string, f *entFault, small int, r *simrt.Rng) {
	n := 0
	zeros := 0
	c.ent.Hook = func(nd string, read int, b []byte) (int, error) {
		if nd != node {
			return -1, nil
		}
		i := n
		n++
		if f != nil && (i == f.at || (f.kind == "fail-on" && f.fired > 0)) {
			if f.fired > 0 || c.Inject("entropy-"+f.kind, fmt.Sprintf("%s.%d", key, i)) {
				f.fired++
				f.short += len(b)
				switch f.kind {
				case "part-then-fail", "part-then-eof":
					// the part is delivered by this read, the failure by the next
					if f.fired == 1 {
						f.at = i + 1
						f.short -= len(b)
						return len(b) / 2, nil
					}
					if f.kind == "part-then-eof" {
						return 0, io.EOF
					}
				case "eof":
					return 0, io.EOF
				}
				return 0, errEntropy
			}
		}
		switch small {
		case 1: // single bytes
			c.counts["entropy single bytes"]++
			return 1, nil
		case 2: // small pieces
			return 1 + r.Intn(40), nil
		case 3: // nothing for a while
			if zeros < 200 && r.Chance(0.3) {
				zeros++
				c.counts["entropy empty reads"]++
				return 0, nil
			}
		case 4: // stalls
			if r.Chance(0.02) {
				c.counts["entropy stalls"]++
				simrt.SleepNS(int64(r.Intn(2_000_000_000)))
			}
		}
		return -1, nil
	}
}

var errEntropy = fmt.Errorf("simulated: no entropy")

// scalars a party draws at the least, by the protocol: 32 bytes each.
func rangeScalars(n int) int { return n + 1 + 2 + (n*63 + n) + n*63 + 2 }

func proofScalars(e *Env) int {
	n := e.Fanout + 1
	m := 2
	for m < e.Depth-1 {
		m *= 2
	}
	return e.Depth*rangeScalars(n) + (n + 1) + (3*m + 2)
}

func runC13(c *Ctx) {
	r := c.Rng("c13")
	full := r.Chance(0.45)
	cfg := drawCfg(c, full)
	if full && cfg.Kind != Short && r.Chance(0.8) {
		cfg = Cfg{Kind: Short, Fanout: 3, Depth: 2 + r.Intn(3), Full: true, Par: cfg.Par}
	}
	if !full && cfg.Fanout > 127 {
		cfg.Fanout = 31
		if cfg.Kind == Dense {
			cfg.Depth = digitLen(31)
		} else if cfg.Kind == Sparse {
			cfg.Depth = hexLen[31]
		}
	}
	if c.On("params") && r.Chance(0.3) {
		c.parameters(r)
	}
	d := NewDeploy(c, cfg, 1+r.Intn(5))
	if r.Chance(0.5) {
		// equal contents at several places
		d.ids = equalShapes(d, r)
	}
	n := 1 + r.Intn(6)
	if c.Plan.Group == "real" {
		n = 2
	}
	type op struct {
		id    string
		amt   int64
		fault *entFault
		small int
	}
	var ops []op
	one := drawAmount(r)
	for i := 0; i < n; i++ {
		o := op{id: d.ids[i%len(d.ids)], amt: drawAmount(r), small: r.Intn(8)}
		if r.Chance(0.6) {
			o.amt = one
		}
		if r.Chance(0.25) {
			o.fault = &entFault{kind: entKinds[r.Intn(len(entKinds))], at: r.Intn(d.e.Depth)}
			if r.Chance(0.5) {
				o.fault.at = 0
			}
		}
		ops = append(ops, o)
	}
	pr := c.Rng("prove")
	var proofOps []op
	if full {
		k := 2
		if r.Chance(0.3) {
			k = 3
		}
		for i := 0; i < k; i++ {
			o := op{small: pr.Intn(10)}
			if pr.Chance(0.35) {
				tot := proofScalars(d.e)
				o.fault = &entFault{kind: entKinds[pr.Intn(len(entKinds))], at: pr.Intn(tot)}
				if pr.Chance(0.4) {
					o.fault.at = tot - 1 - pr.Intn(4*d.e.Depth)
					if o.fault.at < 0 {
						o.fault.at = 0
					}
				}
			}
			proofOps = append(proofOps, o)
		}
	}
	var tw [2]*twin
	for t := 0; t < 2; t++ {
		t := t
		c.ent.Reseed(simrt.HashString(c.Plan.Seed, fmt.Sprint("tape", t)))
		x := &twin{d: d, vs: map[string]string{}, blinds: map[string]string{}, leaves: map[string]string{}}
		tw[t] = x
		d.op = c.Node("operator")
		d.model = Model{}
		d.disk = NewDisk(c, "operator")
		outstanding := map[string]bool{}
		c.Do(d.op, "history", func() {
			d.ls = pol.NewLiabilitySet(d.e.PP, d.disk, d.e.ID2Path)
			for i, o := range ops {
				key := fmt.Sprintf("op%02d", i)
				if !c.On(key) {
					continue
				}
				amt := d.model.fit(o.id, o.amt)
				if amt < 0 {
					amt = 0
				}
				f := copyFault(o.fault)
				before := c.ent.Bytes["operator"]
				keys := len(d.disk.recs)
				c.armEntropy("operator", fmt.Sprintf("t%d.%s", t, key), f, o.small, c.Rng("small:"+key))
				pan, stack := simrt.Try(func() { d.ls.Set(o.id, amt) })
				c.ent.Hook = nil
				if simrt.Inert() {
					return
				}
				c.Event("t%d set %s=%d failed=%v", t, sid(o.id), amt, pan != nil)
				d.model[o.id] = amt
				if pan != nil {
					if f == nil || f.fired == 0 {
						c.Violate("set-failed", "Set fails although the entropy source does not: %v\n%s", pan, stack)
					}
					c.Count("settings that failed for want of entropy")
					outstanding[o.id] = true
				} else {
					delete(outstanding, o.id)
					got := c.ent.Bytes["operator"] - before
					if need := 32 * (len(d.disk.recs) - keys); got < need {
						c.Violate("entropy-missing", "%d vertices were created from %d bytes of entropy", len(d.disk.recs)-keys, got)
					}
				}
			}
			for _, id := range sortedKeys(Model(mapOf(outstanding))) {
				pan, _ := simrt.Try(func() { d.ls.Set(id, d.model[id]) })
				if pan != nil && !simrt.Inert() {
					c.Violate("set-failed", "Set fails although the entropy source works again: %v", pan)
				}
			}
			x.collect(c, t)
			if !full || len(d.model) == 0 {
				return
			}
			ids := sortedKeys(d.model)
			id := ids[c.Rng("which").Intn(len(ids))]
			if c.Rng("which2").Chance(0.5) && t == 1 {
				id = ids[0]
			}
			for i, o := range proofOps {
				key := fmt.Sprintf("proof%d", i)
				if !c.On(key) {
					continue
				}
				f := copyFault(o.fault)
				before := c.ent.Bytes["operator"]
				c.armEntropy("operator", fmt.Sprintf("t%d.%s", t, key), f, o.small, c.Rng("small:"+key))
				var p pol.LiabilityProof
				var ok bool
				pan, stack := simrt.Try(func() { _, p, _, ok = d.ls.ProveLiability(id) })
				c.ent.Hook = nil
				if simrt.Inert() {
					return
				}
				c.Event("t%d prove %s failed=%v", t, sid(id), pan != nil)
				if pan != nil {
					if f == nil || f.fired == 0 {
						c.Violate("prove-failed", "ProveLiability fails although the entropy source does not: %v\n%s", pan, stack)
					}
					c.Count("proofs that failed for want of entropy")
					continue
				}
				if !ok {
					c.Violate("prove-presence", "ProveLiability does not find %q", id)
				}
				got := c.ent.Bytes["operator"] - before
				if need := 32 * proofScalars(d.e); got < need {
					c.Violate("entropy-missing", "a proof was produced from %d bytes of entropy, it takes %d", got, need)
				}
				c.Count("proofs compared")
				x.proof(c, p, fmt.Sprintf("tape %d, proof %d", t, i), tw)
			}
		})
		d.op = nil
	}
	// no commitment in common
	for _, v := range sortedStrs(tw[0].vs) {
		if w, ok := tw[1].vs[v]; ok {
			c.Violate("equal-commitments", "with different entropy %s and %s are the same commitment", tw[0].vs[v], w)
		}
	}
	for _, v := range sortedStrs(tw[0].blinds) {
		if w, ok := tw[1].blinds[v]; ok {
			c.Violate("equal-blinding", "with different entropy %s and %s have the same blinding factor", tw[0].blinds[v], w)
		}
	}
}

func mapOf(m map[string]bool) map[string]int64 {
	r := map[string]int64{}
	for k := range m {
		r[k] = 0
	}
	return r
}

func sortedStrs(m map[string]string) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}

func copyFault(f *entFault) *entFault {
	if f == nil {
		return nil
	}
	g := *f
	return &g
}

// equalShapes returns identifiers that lead to vertices with equal contents.
func equalShapes(d *Deploy, r *simrt.Rng) []string {
	if d.e.Kind != Short {
		return d.ids
	}
	var ids []string
	f, dep := d.e.Fanout, d.e.Depth
	tail := make([]int, dep)
	for i := range tail {
		tail[i] = r.Intn(f)
	}
	k := r.Intn(dep - 1) // they differ at this level, and agree below
	for i := 0; i < f && i < 4; i++ {
		p := append([]int{}, tail...)
		p[k] = (tail[k] + i) % f
		ids = append(ids, d.e.pathToID(p))
	}
	return ids
}

// collect gathers the commitments and blinding factors of all vertices.
func (x *twin) collect(c *Ctx, t int) {
	for _, k := range x.d.disk.Keys {
		v := &verkle.Vertex{}
		if pan, _ := simrt.Try(func() { v.FromBytes(x.d.disk.recs[k]) }); pan != nil {
			c.Violate("record", "the record of vertex %q does not decode: %v", k, pan)
		}
		where := fmt.Sprintf("vertex %q with tape %d", k, t)
		c.Count("vertices compared")
		for _, g := range []*math.G1{v.V, v.W} {
			if g == nil {
				continue
			}
			key := string(g.Bytes())
			if w, ok := x.vs[key]; ok {
				c.Violate("equal-commitments", "%s and %s are the same commitment", w, where)
			}
			x.vs[key] = where
		}
		b := v.BlindingFactor.Copy()
		b.Mod(curve.GroupOrder)
		if w, ok := x.blinds[string(b.Bytes())]; ok {
			c.Violate("equal-blinding", "%s and %s have the same blinding factor", w, where)
		}
		x.blinds[string(b.Bytes())] = where
		if n := zbigOf(b).BitLen(); n < 128 {
			c.Violate("weak-blinding", "%s has a blinding factor of %d bits", where, n)
		}
	}
}

// proof compares the randomised parts of a proof with each other and with those of earlier proofs.
func (x *twin) proof(c *Ctx, p pol.LiabilityProof, name string, tw [2]*twin) {
	var all []Leaf
	all = append(all, leaves(&p.RangeProofs)...)
	all = append(all, leaves(&p.SumArgumentProof)...)
	all = append(all, leaves(&p.EqualityProof)...)
	n := len(leaves(&p.RangeProofs))
	m := len(leaves(&p.SumArgumentProof))
	own, twice := map[string]string{}, map[string]string{}
	for i, l := range all {
		var key string
		switch l.Kind {
		case "g1":
			key = "g" + string(l.V.Interface().(*math.G1).Bytes())
		case "zr":
			z := l.V.Interface().(*math.Zr).Copy()
			z.Mod(curve.GroupOrder)
			key = "z" + string(z.Bytes())
		default:
			continue
		}
		part := "EqualityProof"
		if i < n {
			part = "RangeProofs"
		} else if i < n+m {
			part = "SumArgumentProof"
		}
		where := fmt.Sprintf("%s%s (%s)", part, l.Path, name)
		for _, o := range tw {
			if o == nil {
				continue
			}
			if w, ok := o.leaves[key]; ok {
				c.Violate("shared-randomness", "%s and %s are equal", w, where)
			}
		}
		if l.Redundant {
			// a larger proof carries the value a second time
			if _, ok := own[key]; !ok {
				twice[key] = where
			}
			continue
		}
		if w, ok := own[key]; ok {
			c.Violate("shared-randomness", "%s and %s are equal", w, where)
		}
		own[key] = where
	}
	c.CountN("randomised parts compared", len(own))
	for k, w := range own {
		x.leaves[k] = w
	}
	for k, w := range twice {
		x.leaves[k] = w
	}
}

// parameters: generated from different entropy they differ, and generation fails if entropy is missing.
func (c *Ctx) parameters(r *simrt.Rng) {
	var digests []string
	fan := uint16([]int{3, 7}[r.Intn(2)])
	fault := &entFault{kind: entKinds[r.Intn(len(entKinds))], at: 0}
	if r.Chance(0.4) {
		fault = nil
	}
	small := r.Intn(8)
	for t := 0; t < 2; t++ {
		c.ent.Reseed(simrt.HashString(c.Plan.Seed, fmt.Sprint("params", t)))
		node := c.Node("generator")
		f := copyFault(fault)
		c.Do(node, "generate", func() {
			c.armEntropy("generator", fmt.Sprintf("params%d", t), f, small, c.Rng("small:params"))
			var p *pol.PublicParams
			before := c.ent.Bytes["generator"]
			pan, _ := simrt.Try(func() { _, p = pol.GeneratePublicParams(fan, pol.Dense) })
			c.ent.Hook = nil
			if simrt.Inert() {
				return
			}
			if pan != nil {
				if f == nil || f.fired == 0 {
					c.Violate("params-failed", "GeneratePublicParams fails although the entropy source does not: %v", pan)
				}
				c.Count("parameter generations that failed for want of entropy")
				return
			}
			if c.ent.Bytes["generator"]-before < 32 {
				c.Violate("entropy-missing", "parameters were generated from %d bytes of entropy", c.ent.Bytes["generator"]-before)
			}
			digests = append(digests, string(p.PPPP.G1s[0].Bytes()))
			c.Count("parameters compared")
		})
	}
	if len(digests) == 2 && digests[0] == digests[1] {
		c.Violate("equal-parameters", "with different entropy the same parameters are generated")
	}
}

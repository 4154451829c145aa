package main

import (
	"fmt"
	"reflect"
	"strings"

	"pol/bp"
	"pol/common"
	"pol/pol"

	math "github.com/IBM/mathlib"

	"simrt"
)

func init() {
	register(&Def{ID: "C05", Run: runC05, Quick: 550, QuickReal: 10, Thorough: 12000, ThorReal: 200,
		Rule: "Genuine proofs cross a channel that alters values (every position of a proof, reached by reflection), shortens, lengthens and reorders lists, splices in parts of other proofs and misdirects proofs to other identifiers and roots; every altered delivery must be answered with an error."})
	register(&Def{ID: "C07", Run: runC07, Quick: 1400, QuickReal: 10, Thorough: 12000, ThorReal: 200,
		Rule: "Single proof generations and verifications whose goroutines are interleaved by the seed at statement granularity, with no, one or several levels of invalid range evidence; compared with the sequential mode."})
	register(&Def{ID: "C08", Run: runC08, Quick: 1300, QuickReal: 8, Thorough: 10000, ThorReal: 150,
		Rule: "Concurrent queries on one set and concurrent and repeated verifications of shared proofs with shared parameters, against right and wrong roots and identifiers; every answer is compared with the one given alone."})
}

// population sets up a deployment with some liabilities; returns the recorded identifiers.
func populate(c *Ctx, cfg Cfg, max int) *Deploy {
	r := c.Rng("populate")
	d := NewDeploy(c, cfg, 2+r.Intn(max))
	d.Boot()
	c.Do(d.op, "populate", func() {
		d.Set(d.ids[0], drawAmount(r))
		for i, id := range d.ids[1:] {
			if c.On(fmt.Sprintf("set%d", i+1)) {
				d.Set(id, drawAmount(r))
			}
		}
		if r.Chance(0.5) {
			d.Set(d.ids[0], drawAmount(r))
		}
	})
	return d
}

// genuine asks the operator for a proof; the run is skipped if the honest proof does not verify (that is
// the business of C02).
func (d *Deploy) genuine(id string) *answer {
	a := &answer{id: id, model: d.model.Clone()}
	c := d.c
	par := pol.ParallelismEnabled
	pol.ParallelismEnabled = false
	defer func() { pol.ParallelismEnabled = par }()
	c.Do(d.op, "prove", func() {
		pan, _ := simrt.Try(func() { a.amt, a.proof, _, a.ok = d.ls.ProveLiability(id) })
		if pan != nil || !a.ok {
			a.ok = false
			return
		}
		var rp interface{}
		a.root, rp = d.Root()
		a.ok = rp == nil && a.root.V != nil
	})
	if !a.ok {
		c.Skip("no genuine proof")
	}
	var good bool
	c.Do(c.Node("baseline"), "verify", func() { good = d.e.accepted(deepCopy(a.proof), id, a.root) })
	if !good {
		c.Skip("genuine proof rejected")
	}
	return a
}

// must verifies something that has to be rejected with an error.
func (d *Deploy) mustReject(p pol.LiabilityProof, id string, r Root, what string) {
	err, pan := d.e.verify(p, id, r)
	if simrt.Inert() {
		return
	}
	d.c.Count("altered proofs offered")
	if pan != nil {
		d.c.Violate("verifier-panic", "the verifier panics instead of returning an error: %v; proof of %q, %s", pan, id, what)
	}
	if err == nil {
		d.c.Violate("altered-proof-accepted", "accepted: proof of %q, %s", id, what)
	}
}

func (d *Deploy) mustRejectTot(p pol.TotalProof, r Root, what string) {
	err, pan := d.e.verifyTot(p, r)
	d.c.Count("altered totals offered")
	if pan != nil {
		d.c.Violate("verifier-panic", "the verifier of totals panics instead of returning an error: %v; %s", pan, what)
	}
	if err == nil {
		d.c.Violate("altered-total-accepted", "accepted: total, %s", what)
	}
}

// relied drops the values that a verifier of a whole liability proof computes itself.
func relied(ls []Leaf, p *pol.LiabilityProof) []Leaf {
	var out []Leaf
	last := fmt.Sprintf(".Digests[%d]", len(p.Digests)-1)
	for _, l := range ls {
		if l.Redundant || l.Path == last {
			continue
		}
		out = append(out, l)
	}
	return out
}

func runC05(c *Ctx) {
	r := c.Rng("c05")
	d := populate(c, drawCfg(c, true), 4)
	keys := sortedKeys(d.model)
	pick := func() string { return keys[r.Intn(len(keys))] }
	a := d.genuine(pick())
	b := d.genuine(pick())
	// an earlier or later state
	var older *answer
	if c.On("change") {
		c.Do(d.op, "change", func() { d.Set(pick(), drawAmount(r)) })
		older = a
		if r.Chance(0.5) {
			a, b = d.genuine(a.id), d.genuine(b.id)
		} else {
			b = d.genuine(b.id)
		}
	}
	attacks := 10
	if c.Plan.Group == "real" {
		attacks = 4
	}
	client := c.Node("client")
	c.Do(client, "client", func() {
		for k := 0; k < attacks; k++ {
			key := fmt.Sprintf("attack%02d", k)
			ar := c.Rng(key)
			kind := []string{"alter", "alter", "alter", "alter", "alter2", "splice", "splice", "id", "root", "total"}[ar.Intn(10)]
			if !c.On(key) {
				continue
			}
			switch kind {
			case "alter", "alter2":
				p := deepCopy(a.proof)
				ls := relied(leaves(&p), &p)
				n := 1
				if kind == "alter2" {
					n = 2 + ar.Intn(2)
				}
				var what []string
				for i := 0; i < n; i++ {
					// positions reached before the previous alteration stay valid unless a list changed
					l := pickLeaf(ls, ar)
					if w := l.alter(ar, ls); w != "" {
						what = append(what, w)
						c.Count("altered " + l.Kind)
						if l.Kind == "list" {
							break
						}
					}
				}
				q, o := p, a.proof
				if len(what) == 0 || reliedPrint(&q) == reliedPrint(&o) {
					continue
				}
				if c.Inject("channel-"+kind, key) {
					c.Event("altered: %v", what)
					d.mustReject(p, a.id, a.root, strings.Join(what, ", "))
				}
			case "splice":
				o := b
				if older != nil && ar.Chance(0.4) {
					o = older
				}
				p, what := d.splice(a, o, ar)
				if what != "" && c.Inject("channel-splice", key) {
					c.Event("spliced: %s", what)
					d.mustReject(p, a.id, a.root, what+" taken from another proof")
				}
			case "id":
				ids := append(append([]string{}, d.ids...), d.extra...)
				id := ids[ar.Intn(len(ids))]
				if id == a.id || !c.Inject("channel-other-id", key) {
					continue
				}
				d.mustReject(deepCopy(a.proof), id, a.root, "which is one of "+a.id)
			case "root":
				root := a.root.Copy()
				what := ""
				switch ar.Intn(6) {
				case 0:
					root.V.Add(curve.GenG1)
					what = "V altered"
				case 1:
					root.W.Add(curve.GenG1)
					what = "W altered"
				case 2:
					root.V, root.W = root.W, root.V
					what = "V and W exchanged"
				case 3:
					if older != nil {
						root = older.root.Copy()
						what = "older root"
					}
				case 4:
					root.V = a.proof.V[len(a.proof.V)-1].Copy()
					what = "V of another vertex"
				case 5:
					root.W = curve.GenG1.Mul(curve.NewRandomZr(ar))
					what = "random W"
				}
				if what == "" || root.Equal(a.root) || !c.Inject("channel-other-root", key) {
					continue
				}
				d.mustReject(deepCopy(a.proof), a.id, root, what)
			case "total":
				d.alterTotal(a, older, ar, key)
			}
		}
		// the untouched proof is still accepted
		if !d.e.accepted(deepCopy(a.proof), a.id, a.root) {
			c.Violate("genuine-proof-rejected", "the untouched proof of %q is rejected after others were rejected", a.id)
		}
	})
}

func reliedPrint(p *pol.LiabilityProof) uint64 {
	var h uint64
	for _, l := range relied(leaves(p), p) {
		v := reflect.New(l.V.Type())
		v.Elem().Set(l.V)
		if l.Kind == "list" {
			h = simrt.Mix(h, uint64(l.V.Len()))
			continue
		}
		h = simrt.Mix(h, fingerprint(l.V.Interface()))
	}
	return h
}

func (d *Deploy) alterTotal(a, older *answer, r *simrt.Rng, key string) {
	c := d.c
	var tp pol.TotalProof
	// the total of the present state
	var root Root
	c.Do(d.op, "total", func() {
		simrt.Try(func() { tp = d.ls.ProveTot() })
		root, _ = d.Root()
	})
	if tp.LiabilityProof == nil || root.V == nil || !d.e.acceptedTot(deepCopy(tp), root) {
		c.Count("no genuine total")
		return
	}
	p := deepCopy(tp)
	rt := root.Copy()
	what := ""
	switch r.Intn(6) {
	case 0, 1:
		ls := leaves(&p)
		what = ls[r.Intn(len(ls))].alter(r, ls)
	case 2:
		if p.Sum != 0 {
			p.Sum = -p.Sum
			what = "negated"
		}
	case 3:
		rt.V.Add(curve.GenG1)
		what = "root altered"
	case 4:
		if older != nil && !older.root.V.Equals(root.V) {
			rt = older.root.Copy()
			what = "older root"
		}
	case 5:
		if int64(p.Sum) != a.amt && !p.LiabilityProof.Equals(a.proof.LiabilityProof.LiabilityProof) {
			p.LiabilityProof = a.proof.LiabilityProof.LiabilityProof
			what = "opening of a liability"
		}
	}
	if what != "" && c.Inject("channel-total", key) {
		d.mustRejectTot(p, rt, what)
	}
}

// splice puts a part of the proof b into a copy of a, where the part concerns a different statement.
func (d *Deploy) splice(a, b *answer, r *simrt.Rng) (pol.LiabilityProof, string) {
	p, q := deepCopy(a.proof), deepCopy(b.proof)
	pa, pb := d.e.ID2Path(a.id), d.e.ID2Path(b.id)
	n := len(p.V)
	if len(q.V) != n || len(q.W) != n-1 || len(q.RangeProofs) != n || len(q.Digests) != n {
		return p, ""
	}
	sameV, sameW, sameP := fingerprint(p.V) == fingerprint(q.V), fingerprint(p.W) == fingerprint(q.W), true
	for i := 0; i < n-1; i++ {
		sameP = sameP && pa[i] == pb[i]
	}
	i, j := r.Intn(n), r.Intn(n)
	if r.Chance(0.6) {
		j = i
	}
	switch r.Intn(9) {
	case 0:
		if !p.V[i].Equals(q.V[j]) {
			p.RangeProofs[i] = q.RangeProofs[j]
			return p, fmt.Sprintf("range proof %d (from %d)", i, j)
		}
	case 1:
		if !sameV {
			p.SumArgumentProof = q.SumArgumentProof
			return p, "sum argument"
		}
	case 2:
		if !sameV || !sameP {
			p.EqualityProof = q.EqualityProof
			return p, "equality argument"
		}
	case 3:
		if !sameW || !sameP {
			p.PointProofπ, p.PointProofΣ = q.PointProofπ, q.PointProofΣ
			return p, "digest openings"
		}
	case 4:
		if !p.V[n-1].Equals(q.V[n-1]) || pa[n-1] != pb[n-1] {
			if !p.LiabilityProof.LiabilityProof.Equals(q.LiabilityProof.LiabilityProof) {
				p.LiabilityProof = q.LiabilityProof
				return p, "amount and its opening"
			}
		}
	case 5:
		if p.LiabilityProof.Sum != q.LiabilityProof.Sum {
			p.LiabilityProof.Sum = q.LiabilityProof.Sum
			return p, "amount"
		}
	case 6:
		if !p.V[i].Equals(q.V[j]) {
			p.V[i] = q.V[j]
			return p, fmt.Sprintf("V[%d] (from %d)", i, j)
		}
	case 7:
		if i < n-1 && j < n-1 && !p.W[i].Equals(q.W[j]) {
			p.W[i] = q.W[j]
			return p, fmt.Sprintf("W[%d] (from %d)", i, j)
		}
	case 8:
		// a whole lower part of the other path, with everything that belongs to it
		k := 1 + r.Intn(n-1)
		if p.V[n-1].Equals(q.V[n-1]) {
			return p, ""
		}
		for x := k; x < n; x++ {
			p.V[x], p.RangeProofs[x], p.Digests[x] = q.V[x], q.RangeProofs[x], q.Digests[x]
			if x < n-1 {
				p.W[x] = q.W[x]
			}
		}
		p.Digests[k-1] = q.Digests[k-1]
		p.LiabilityProof = q.LiabilityProof
		switch r.Intn(3) {
		case 0:
			p.SumArgumentProof = q.SumArgumentProof
		case 1:
			p.SumArgumentProof, p.EqualityProof = q.SumArgumentProof, q.EqualityProof
		case 2:
			p.SumArgumentProof, p.EqualityProof = q.SumArgumentProof, q.EqualityProof
			p.PointProofπ, p.PointProofΣ = q.PointProofπ, q.PointProofΣ
		}
		// only if the claim is false or the path another one
		if pathEq(pa, pb) && d.e.accepted(deepCopy(b.proof), a.id, a.root) {
			return p, ""
		}
		return p, fmt.Sprintf("everything from level %d on", k)
	}
	return p, ""
}

func pathEq(a, b []uint16) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// descendants of a task that have not finished
func unfinished(c *Ctx, t *simrt.Task) []*simrt.Task {
	var r []*simrt.Task
	for _, u := range c.S.Tasks() {
		if !u.Spawned || u.Finished() {
			continue
		}
		for p := u.Parent; p != nil; p = p.Parent {
			if p == t {
				r = append(r, u)
				break
			}
		}
	}
	return r
}

// noLeftover: after a successful return, goroutines that the call started have only to end.
func (d *Deploy) noLeftover(what string) {
	c := d.c
	left := unfinished(c, c.S.Current())
	if len(left) == 0 {
		return
	}
	c.Count("returns with goroutines about to end")
	type mark struct {
		t *simrt.Task
		n uint64
	}
	var ms []mark
	for _, t := range left {
		ms = append(ms, mark{t, t.Steps})
	}
	c.Wait(left...)
	for _, m := range ms {
		if m.t.Steps-m.n > 200 {
			c.Violate("unfinished-work", "%s returned success while a goroutine it had started still had %d steps to do", what, m.t.Steps-m.n)
		}
	}
}

func runC07(c *Ctx) {
	r := c.Rng("c07")
	d := populate(c, drawCfg(c, true), 3)
	keys := sortedKeys(d.model)
	id := keys[r.Intn(len(keys))]
	pol.ParallelismEnabled = true
	if r.Chance(0.1) {
		pol.ParallelismEnabled = false
	}
	mode := r.Intn(3)
	var a *answer
	if mode == 0 {
		// parallel proof generation
		a = &answer{id: id}
		if fr := c.Rng("entropy-fault"); fr.Chance(0.35) && c.On("starved") {
			c.Do(d.op, "prove while the entropy source fails", func() { d.starved(id, fr) })
		}
		c.Do(d.op, "prove", func() {
			pan, stack := simrt.Try(func() { a.amt, a.proof, _, a.ok = d.ls.ProveLiability(id) })
			if pan != nil {
				c.Violate("prove-panic", "parallel proof generation fails: %v\n%s", pan, stack)
			}
			if !a.ok {
				c.Skip("not found")
			}
			for i, rp := range a.proof.RangeProofs {
				if rp == nil {
					c.Violate("incomplete-proof", "the returned proof lacks range proof %d", i)
				}
			}
			before := fingerprint(a.proof)
			d.noLeftover("ProveLiability")
			if fingerprint(a.proof) != before {
				c.Violate("late-write", "the proof changed after it was returned")
			}
			a.root, _ = d.Root()
			c.Count("parallel proofs")
		})
		// judged by the sequential verifier
		par := pol.ParallelismEnabled
		pol.ParallelismEnabled = false
		seq := d.genuineOrNil(id)
		c.Do(c.Node("judge"), "judge", func() {
			okPar := d.e.accepted(deepCopy(a.proof), id, a.root)
			okSeq := seq != nil && d.e.accepted(deepCopy(seq.proof), id, seq.root)
			if okSeq && (!okPar || seq.amt != a.amt) {
				c.Violate("parallel-differs", "the proof of %q made in parallel is not accepted (or states %d, not %d), the one made sequentially is", id, a.amt, seq.amt)
			}
			if !okSeq && !okPar {
				c.Count("neither mode yields an accepted proof")
			}
		})
		pol.ParallelismEnabled = par
		return
	}
	a = d.genuine(id)
	pol.ParallelismEnabled = true
	tries := 3
	if c.Plan.Group == "real" {
		tries = 2
	}
	n := len(a.proof.V)
	for k := 0; k < tries; k++ {
		key := fmt.Sprintf("verification%d", k)
		vr := c.Rng(key)
		if !c.On(key) {
			continue
		}
		p := deepCopy(a.proof)
		var bad []string
		if mode == 1 || vr.Chance(0.5) {
			share := 1.5 / float64(n)
			if vr.Chance(0.25) {
				share = []float64{0.3, 0.7, 1, 1}[vr.Intn(4)]
			}
			for i := 0; i < n; i++ {
				if vr.Chance(share) && c.Inject("invalid-range-evidence", fmt.Sprintf("%s.%d", key, i)) {
					bad = append(bad, d.breakRange(&p, i, vr))
				}
			}
		}
		client := c.Node(fmt.Sprintf("client%d", k))
		// the sequential mode is what the parallel one is compared with
		pol.ParallelismEnabled = !vr.Chance(0.2)
		c.Do(client, "verify", func() {
			err, pan := d.e.verify(p, id, a.root)
			if simrt.Inert() {
				return
			}
			c.Event("verification: bad %v -> %v", bad, err != nil)
			switch {
			case pan != nil:
				c.Violate("verify-panic", "verification panics: %v (invalid: %v)", pan, bad)
			case err == nil && len(bad) > 0:
				c.Violate("invalid-range-accepted", "accepted with invalid range evidence: %v", bad)
			case err != nil && len(bad) == 0:
				c.Violate("valid-proof-rejected", "a valid proof is rejected in this schedule: %v", err)
			}
			c.Count("parallel verifications")
			if err == nil {
				d.noLeftover("Verify")
			}
		})
	}
}

// starved asks for a proof while the entropy source fails: there may be none, but an end.
func (d *Deploy) starved(id string, r *simrt.Rng) {
	c := d.c
	f := &entFault{kind: entKinds[r.Intn(len(entKinds))], at: r.Intn(1 + r.Intn(2*proofScalars(d.e)))}
	c.armEntropy(d.op.Name, "starved", f, r.Intn(5), r)
	var p pol.LiabilityProof
	var ok bool
	pan, stack := simrt.Try(func() { _, p, _, ok = d.ls.ProveLiability(id) })
	c.ent.Hook = nil
	if simrt.Inert() {
		return
	}
	if pan != nil {
		if f.fired == 0 {
			c.Violate("prove-panic", "parallel proof generation fails: %v\n%s", pan, stack)
		}
		c.Count("proofs that failed for want of entropy")
		return
	}
	if !ok {
		c.Violate("incomplete-proof", "ProveLiability does not find %q when the entropy source fails", id)
	}
	for i, rp := range p.RangeProofs {
		if rp == nil {
			c.Violate("incomplete-proof", "the proof returned while the entropy source fails lacks range proof %d", i)
		}
	}
	root, _ := d.Root()
	if !d.e.accepted(deepCopy(p), id, root) {
		c.Violate("incomplete-proof", "the proof of %q returned while the entropy source fails is not accepted", id)
	}
}

func (d *Deploy) genuineOrNil(id string) *answer {
	a := &answer{id: id}
	d.c.Do(d.op, "prove", func() {
		pan, _ := simrt.Try(func() { a.amt, a.proof, _, a.ok = d.ls.ProveLiability(id) })
		a.ok = a.ok && pan == nil
		a.root, _ = d.Root()
	})
	if !a.ok {
		return nil
	}
	return a
}

// breakRange makes the range evidence of level i invalid.
func (d *Deploy) breakRange(p *pol.LiabilityProof, i int, r *simrt.Rng) string {
	n := len(p.V)
	if r.Chance(0.3) && n > 1 {
		j := r.Intn(n - 1)
		if j >= i {
			j++
		}
		if !p.V[i].Equals(p.V[j]) {
			p.RangeProofs[i] = deepCopy(p.RangeProofs[j])
			return fmt.Sprintf("level %d: evidence of level %d", i, j)
		}
	}
	cp := deepCopy(p.RangeProofs[i])
	p.RangeProofs[i] = cp
	type wrap struct{ R *bp.RangeProof }
	w := &wrap{cp}
	var ls []Leaf
	for _, l := range leaves(w) {
		if !l.Redundant {
			ls = append(ls, l)
		}
	}
	for {
		if s := pickLeaf(ls, r).alter(r, ls); s != "" {
			return fmt.Sprintf("level %d: %s", i, s)
		}
	}
}

// crowd runs many cheap queries of many clients at once.
func crowd(c *Ctx, r *simrt.Rng) {
	d := populate(c, drawCfg(c, false), 8)
	var root Root
	var tot pol.TotalProof
	okTot := false
	c.Do(d.op, "alone", func() {
		root, _ = d.Root()
		pan, _ := simrt.Try(func() { tot = d.ls.ProveTot() })
		okTot = pan == nil
	})
	ids := append(append([]string{}, d.ids...), d.extra[:1]...)
	if r.Chance(0.5) && len(ids) > 3 {
		ids = ids[:3]
	}
	weights := r.Intn(3)
	clients, steps := 2+r.Intn(5), 2+r.Intn(10)
	var ts []*simrt.Task
	for q := 0; q < clients; q++ {
		q := q
		ts = append(ts, c.S.Spawn(fmt.Sprintf("client%d", q), d.op, func() {
			for s := 0; s < steps; s++ {
				key := fmt.Sprintf("q%d.%d", q, s)
				if !c.On(key) {
					continue
				}
				wr := c.Rng(key)
				x := wr.Intn(10)
				if weights == 0 {
					x = 0
				}
				switch {
				case x < 6:
					d.CheckGet(ids[wr.Intn(len(ids))])
				case x < 7:
					id := d.extra[wr.Intn(len(d.extra))]
					var ok bool
					pan, _ := simrt.Try(func() { _, _, _, ok = d.ls.ProveLiability(id) })
					if simrt.Inert() {
						return
					}
					if pan != nil || ok {
						c.Violate("query-influenced", "ProveLiability(%q), never set, concurrently with others: %v, %v", id, ok, pan)
					}
				case x < 8:
					rt, pan := d.Root()
					if simrt.Inert() {
						return
					}
					if pan != nil || !rt.Equal(root) {
						c.Violate("query-influenced", "Root() concurrently with others differs: %v", pan)
					}
				case x < 9:
					var tp pol.TotalProof
					pan, _ := simrt.Try(func() { tp = d.ls.ProveTot() })
					if simrt.Inert() {
						return
					}
					if okTot != (pan == nil) || (okTot && (tp.Sum != tot.Sum || !tp.LiabilityProof.Equals(tot.LiabilityProof))) {
						c.Violate("query-influenced", "ProveTot concurrently with others: %v, %v", tp.Sum, pan)
					}
				case okTot:
					rt, tot, want := tamperTot(root, tot, wr)
					err, pan := d.e.verifyTot(tot, rt)
					if simrt.Inert() {
						return
					}
					if pan != nil || (err == nil) != want {
						c.Violate("verification-influenced", "verification of the total returns %v, %v; alone accepted: %v", err, pan, want)
					}
				}
				c.Count("queries in a crowd")
			}
		}))
	}
	c.Wait(ts...)
}

func runC08(c *Ctx) {
	r := c.Rng("c08")
	if c.Plan.Group == "ideal" && r.Chance(0.5) {
		crowd(c, r)
		return
	}
	d := populate(c, drawCfg(c, true), 4)
	keys := sortedKeys(d.model)
	pol.ParallelismEnabled = r.Chance(0.5)
	par := pol.ParallelismEnabled
	// the answers given alone
	alone := map[string]*answer{}
	var proofs []*answer
	k := 1 + r.Intn(2)
	for i := 0; i < k && i < len(keys); i++ {
		id := keys[(i+r.Intn(len(keys)))%len(keys)]
		if alone[id] == nil {
			alone[id] = d.genuine(id)
			proofs = append(proofs, alone[id])
		}
	}
	pol.ParallelismEnabled = par
	var root Root
	var tot pol.TotalProof
	okTot := false
	c.Do(d.op, "alone", func() {
		root, _ = d.Root()
		pan, _ := simrt.Try(func() { tot = d.ls.ProveTot() })
		okTot = pan == nil
	})
	root = root.Copy()
	// shared objects: proofs, a broken proof, roots
	shared := make([]pol.LiabilityProof, 0, 3)
	valid := []bool{}
	owner := []*answer{}
	for _, a := range proofs {
		shared, valid, owner = append(shared, a.proof), append(valid, true), append(owner, a)
	}
	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		broken := deepCopy(proofs[0].proof)
		d.breakAny(&broken, r)
		shared, valid, owner = append(shared, broken), append(valid, false), append(owner, proofs[0])
	}
	prints := make([]uint64, len(shared))
	for i := range shared {
		prints[i] = sharedPrint(&shared[i])
	}
	paramPrint := d.paramPrint()

	clients := 2 + r.Intn(3)
	steps := 1 + r.Intn(3)
	if c.Plan.Group == "real" {
		clients, steps = 2, 1
	}
	var ts []*simrt.Task
	server := d.op
	node := c.Node("verifiers")
	for q := 0; q < clients; q++ {
		q := q
		n := node
		if q%2 == 0 {
			n = server
		}
		ts = append(ts, c.S.Spawn(fmt.Sprintf("worker%d", q), n, func() {
			for s := 0; s < steps; s++ {
				key := fmt.Sprintf("w%d.%d", q, s)
				if !c.On(key) {
					continue
				}
				wr := c.Rng(key)
				kind := []string{"verify", "verify", "verify", "verify", "prove", "prove", "tot", "get", "root", "vtot"}[wr.Intn(10)]
				c.Count("concurrent " + kind)
				switch kind {
				case "verify":
					i := wr.Intn(len(shared))
					id, rt, want := owner[i].id, root, valid[i]
					switch wr.Intn(6) {
					case 0:
						rt = root.Copy()
						rt.V.Add(curve.GenG1)
						want = false
					case 1:
						rt = root.Copy()
						rt.W.Sub(curve.GenG1)
						want = false
					case 2:
						id = d.extra[0]
						want = false
					}
					for rep := 0; rep < 1+wr.Intn(2); rep++ {
						err, pan := d.e.verify(shared[i], id, rt)
						if simrt.Inert() {
							return
						}
						if pan != nil {
							c.Violate("verify-panic", "concurrent verification panics: %v", pan)
						}
						c.Event("%s proof %d -> %v", key, i, err == nil)
						if (err == nil) != want {
							c.Violate("verification-influenced", "verification of proof %d (valid %v) for %q concurrently with others or again (%d) returns %v, alone it is accepted: %v", i, valid[i], id, rep, err, want)
						}
					}
				case "prove":
					id := keys[wr.Intn(len(keys))]
					var p pol.LiabilityProof
					var amt int64
					var ok bool
					pan, stack := simrt.Try(func() { amt, p, _, ok = d.ls.ProveLiability(id) })
					if simrt.Inert() {
						return
					}
					if pan != nil || !ok || amt != d.model[id] {
						c.Violate("query-influenced", "ProveLiability(%q) concurrently with others: %d, %v, %v\n%s", id, amt, ok, pan, stack)
					}
					if err, pan := d.e.verify(p, id, root); err != nil || pan != nil {
						c.Violate("query-influenced", "the proof of %q made concurrently with others is rejected: %v %v", id, err, pan)
					}
				case "tot":
					var tp pol.TotalProof
					pan, _ := simrt.Try(func() { tp = d.ls.ProveTot() })
					if simrt.Inert() {
						return
					}
					if okTot != (pan == nil) || (okTot && (tp.Sum != tot.Sum || !tp.LiabilityProof.Equals(tot.LiabilityProof))) {
						c.Violate("query-influenced", "ProveTot concurrently with others: %v, %v", tp.Sum, pan)
					}
				case "vtot":
					if !okTot {
						break
					}
					rt, tot, want := tamperTot(root, tot, wr)
					err, pan := d.e.verifyTot(tot, rt)
					if pan != nil || (err == nil) != want {
						c.Violate("verification-influenced", "verification of the total returns %v, %v; alone accepted: %v", err, pan, want)
					}
				case "get":
					ids := append(append([]string{}, d.ids...), d.extra...)
					d.CheckGet(ids[wr.Intn(len(ids))])
				case "root":
					rt, pan := d.Root()
					if pan != nil || !rt.Equal(root) {
						c.Violate("query-influenced", "Root() concurrently with others differs: %v", pan)
					}
				}
			}
		}))
	}
	c.Wait(ts...)
	for i := range shared {
		if sharedPrint(&shared[i]) != prints[i] {
			c.Violate("proof-changed", "verifying changed proof %d", i)
		}
	}
	if d.paramPrint() != paramPrint {
		c.Violate("parameters-changed", "the shared public parameters changed")
	}
	// and again, alone
	c.Do(c.Node("later"), "later", func() {
		for i := range shared {
			if d.e.accepted(shared[i], owner[i].id, root) != valid[i] {
				c.Violate("verification-influenced", "later, alone: proof %d (valid %v) is judged otherwise", i, valid[i])
			}
		}
	})
}

// tamperTot returns the total as it is or altered, or another root.
func tamperTot(root Root, tot pol.TotalProof, r *simrt.Rng) (Root, pol.TotalProof, bool) {
	switch r.Intn(6) {
	case 0, 1:
		root = root.Copy()
		root.V.Add(curve.GenG1)
		return root, tot, false
	case 2:
		if tot.Sum++; tot.Sum < 0 {
			tot.Sum = 0
		}
		return root, tot, false
	case 3:
		tot.LiabilityProof = tot.LiabilityProof.Copy()
		tot.LiabilityProof.Add(curve.GenG1)
		return root, tot, false
	}
	return root, tot, true
}

// breakAny makes one part of the proof wrong.
func (d *Deploy) breakAny(p *pol.LiabilityProof, r *simrt.Rng) {
	off := func(g **math.G1) {
		*g = (*g).Copy()
		(*g).Add(curve.GenG1)
	}
	offZ := func(z **math.Zr) { *z = curve.ModAdd(*z, curve.NewZrFromInt(1), curve.GroupOrder) }
	last := len(p.V) - 1
	switch x := r.Intn(9); x {
	case 0:
		off(&p.LiabilityProof.LiabilityProof)
	case 1:
		if p.LiabilityProof.Sum++; p.LiabilityProof.Sum < 0 {
			p.LiabilityProof.Sum = 0
		}
	case 2:
		off(&p.PointProofπ)
	case 3:
		offZ(&p.PointProofΣ)
	case 4:
		off(&p.V[r.Intn(last+1)])
	case 5:
		off(&p.W[r.Intn(last)])
	case 6:
		offZ(&p.Digests[r.Intn(last)])
	default:
		d.breakRange(p, r.Intn(last+1), r)
	}
}

// sharedPrint covers all values of a proof.
func sharedPrint(p *pol.LiabilityProof) uint64 { return fingerprint(*p) }

// paramPrint covers the public parameters.
func (d *Deploy) paramPrint() uint64 {
	p := d.e.PP
	h := func(v common.G1v) uint64 { return simrt.HashString(1, string(v.Bytes())) }
	x := simrt.Mix(h(p.PPPP.G1s), h(p.SAPP.Gs))
	x = simrt.Mix(x, h(p.RPPP.Gs))
	x = simrt.Mix(x, h(p.RPPP.Hs))
	x = simrt.Mix(x, h(p.RPPP.Fs))
	x = simrt.Mix(x, h(p.POEPP.G))
	x = simrt.Mix(x, h(p.POEPP.H))
	x = simrt.Mix(x, h(p.POEPP.PP.G1s))
	return simrt.Mix(x, simrt.HashString(2, string(p.PPPP.G2s.Bytes())))
}

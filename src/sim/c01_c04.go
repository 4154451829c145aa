package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"pol/common"
	"pol/pol"
	"pol/pp"
	"pol/verkle"

	"simrt"
)

func sortStrings(s []string) { sort.Strings(s) }

func init() {
	register(&Def{ID: "C01", Run: runC01, Quick: 10000, QuickReal: 6, Thorough: 120000, ThorReal: 200,
		Rule: "Seeded histories of settings, lookups and refused requests (negative amounts, malformed identifiers) from 1-4 clients over a network that delays, drops, duplicates and reorders, on dense, sparse and short trees of fan-out 3 to 1023 with identifiers sharing prefixes; every lookup is compared with a map."})
	register(&Def{ID: "C02", Run: runC02, Quick: 700, QuickReal: 10, Thorough: 9000, ThorReal: 200,
		Rule: "Seeded histories of settings, proof requests, root reads and totals from 1-3 clients over a lossy network; every proof is verified on the client's node against the root the set reported at that moment, with all goroutines of the prover and the verifier scheduled by the seed."})
	register(&Def{ID: "C03", Run: runC03, Quick: 10000, QuickReal: 8, Thorough: 60000, ThorReal: 150,
		Rule: "Seeded histories of settings and totals; every total is compared with the sum of the model and verified against the current root, and other totals and other openings are offered to the verifier."})
	register(&Def{ID: "C04", Run: runC04, Quick: 4500, QuickReal: 8, Thorough: 20000, ThorReal: 150,
		Rule: "Seeded histories in which roots, liability proofs and totals reach clients late, twice, out of order or not at all; whatever a client accepts under the root it holds is compared with the state of that root."})
}

var badAmounts = []int64{-1, -2, -1 << 31, -1 << 63, -1<<63 + 1, -1000}

func malformed(e *Env, r *simrt.Rng, good string) string {
	if e.Kind == Short {
		return ""
	}
	switch r.Intn(14) {
	case 0:
		return ""
	case 1:
		return good[1:]
	case 2:
		return good + "0"
	case 3:
		return "0" + good
	case 4:
		return "-" + good[1:]
	case 5:
		return "+" + good[1:]
	case 6:
		return " " + good[1:]
	case 7:
		return good[:len(good)-1] + " "
	case 8:
		return good[:4] + "_" + good[5:]
	case 9:
		return "0x" + good[2:]
	case 10:
		return good[:len(good)-1] + "g"
	case 11:
		return good[:3] + "." + good[4:]
	case 12:
		return "-" + good
	}
	if e.Kind == Dense {
		return good[:5] + "e3" + good[7:]
	}
	return good[:9]
}

func runC01(c *Ctx) {
	r := c.Rng("c01")
	if c.Plan.N == 0 && c.Plan.Group == "ideal" {
		knownAlias(c)
	}
	cfg := drawCfg(c, false)
	d := NewDeploy(c, cfg, 2+r.Intn(10))
	d.Boot()
	d.Load(0.02, 300)
	clients := 1 + r.Intn(4)
	ops := d.drawOps(4+r.Intn(24), clients, []string{"set", "get", "neg", "bad", "root"}, []int{10, 6, 1, 2, 1})
	d.runClients(ops, clients, func(cl *simrt.Node, o opSpec) {
		d.RPC(cl, o.key, func() {
			switch o.kind {
			case "set":
				d.Set(o.id, o.amt)
			case "get":
				d.lock.RLock()
				defer d.lock.RUnlock()
				d.CheckGet(o.id)
			case "root":
				d.lock.RLock()
				defer d.lock.RUnlock()
				d.publish()
			case "neg", "bad":
				d.lock.Lock()
				defer d.lock.Unlock()
				before, pan := d.Root()
				id, amt := o.id, badAmounts[o.x%uint64(len(badAmounts))]
				if o.kind == "bad" {
					id, amt = malformed(d.e, c.Rng("bad:"+o.key), o.id), o.amt
					if d.e.Kind == Short {
						return
					}
				}
				c.Count("refusals expected")
				pv, _ := simrt.Try(func() { d.ls.Set(id, amt) })
				if pv == nil {
					c.Violate("not-refused", "Set(%q, %d) is not refused", id, amt)
				}
				if o.kind == "bad" {
					var ok bool
					simrt.Try(func() { _, ok = d.ls.Get(id) })
					if ok {
						c.Violate("malformed-found", "Get(%q) finds a liability", id)
					}
				}
				after, pan2 := d.Root()
				if (pan == nil) != (pan2 == nil) || (pan == nil && !before.Equal(after)) {
					c.Violate("refusal-changed-root", "the refused Set(%q, %d) changed the root", id, amt)
				}
				d.CheckGet(o.id)
				c.Event("refused %q %d", id, amt)
			}
		})
	})
	c.Do(d.op, "final", func() {
		for _, id := range append(append(sortedKeys(d.model), d.ids...), d.extra...) {
			d.CheckGet(id)
		}
	})
}

// knownAlias runs the history of the known finding: two identifiers that share a slot.
func knownAlias(c *Ctx) {
	c.Do(c.Node("known"), "known", func() {
		e := NewEnv(c, Cfg{Kind: Sparse, Fanout: 7, Depth: hexLen[7]})
		x, y := aliasPair()
		ls := pol.NewLiabilitySet(e.PP, NewDisk(c, "known"), e.ID2Path)
		ls.Set(y, 5)
		if v, ok := ls.Get(x); ok {
			c.Finding("sparse-alias", "lookup-wrong", "Get(%q) = %d although only %q was set", x, v, y)
		}
	})
}

func runC02(c *Ctx) {
	r := c.Rng("c02")
	cfg := drawCfg(c, true)
	n := 4 + r.Intn(7)
	if c.Plan.Group == "ideal" && r.Chance(0.02) {
		// wide vertices
		cfg.Kind, cfg.Fanout, cfg.Depth = Short, []int{63, 127, 255, 511, 511, 511}[r.Intn(6)], 2+r.Intn(2)
		n = 3 + r.Intn(4)
	}
	d := NewDeploy(c, cfg, 2+r.Intn(5))
	if cfg.Fanout > 256 && r.Chance(0.7) {
		// positions that differ beyond their low byte
		a, b := r.Intn(cfg.Fanout-256), r.Intn(cfg.Fanout)
		rest := strings.Repeat(fmt.Sprintf(".%d", b), d.e.Depth-1)
		d.ids = []string{fmt.Sprintf("%d%s", a, rest), fmt.Sprintf("%d%s", a+256, rest)}
		d.extra = []string{fmt.Sprintf("%d%s", (a+1)%cfg.Fanout, rest), fmt.Sprintf("%d.%d", a, (b+1)%cfg.Fanout) + rest[:len(rest)-len(fmt.Sprintf(".%d", b))]}
		n = 4
	}
	d.Boot()
	d.Load(0.06, 80)
	clients := 1 + r.Intn(3)
	if c.Plan.Group == "real" {
		n = 3 + r.Intn(3)
	}
	ops := d.drawOps(n, clients, []string{"set", "prove", "root", "tot", "get", "neg", "move"}, []int{9, 6, 2, 1, 1, 1, 2})
	verify := func(node *simrt.Node, a *answer) {
		if a == nil {
			return
		}
		if int64(a.proof.LiabilityProof.Sum) != a.amt {
			c.Violate("proof-amount", "the proof for %q states %d, the operator answered %d", a.id, a.proof.LiabilityProof.Sum, a.amt)
		}
		err, pan := d.e.verify(a.proof, a.id, a.root)
		c.Count("proofs verified")
		if err != nil || pan != nil {
			c.Violate("honest-proof-rejected", "the proof of %q=%d is rejected against the current root: %v %v", a.id, a.amt, err, pan)
		}
		c.Event("verified %s", sid(a.id))
	}
	d.runClients(ops, clients, func(cl *simrt.Node, o opSpec) {
		var a *answer
		d.RPC(cl, o.key, func() {
			if o.kind == "set" {
				d.Set(o.id, o.amt)
				return
			}
			if o.kind == "move" {
				d.Move(o.x, nil)
				return
			}
			if o.kind == "neg" {
				d.lock.Lock()
				defer d.lock.Unlock()
				simrt.Try(func() { d.ls.Set(o.id, badAmounts[o.x%uint64(len(badAmounts))]) })
				return
			}
			d.lock.RLock()
			defer d.lock.RUnlock()
			switch o.kind {
			case "get":
				d.CheckGet(o.id)
			case "root":
				d.publish()
			case "tot":
				simrt.Try(func() { d.ls.ProveTot() })
			case "prove":
				a = d.Prove(o.id, o.flag)
			}
		})
		d.netPause("answer:" + o.key)
		verify(cl, a)
	})
	var as []*answer
	ids := sortedKeys(d.model)
	perm := c.Rng("final").Perm(len(ids))
	if len(perm) > 2 {
		perm = perm[:2]
	}
	c.Do(d.op, "final", func() {
		for _, i := range perm {
			as = append(as, d.Prove(ids[i], true))
		}
		for _, id := range d.extra[:1] {
			d.Prove(id, true)
		}
	})
	c.Do(c.Node("verifier"), "final", func() {
		for _, a := range as {
			verify(nil, a)
		}
	})
}

func runC03(c *Ctx) {
	r := c.Rng("c03")
	d := NewDeploy(c, drawCfg(c, false), 1+r.Intn(10))
	d.Boot()
	d.Load(0.02, 200)
	clients := 1 + r.Intn(3)
	n := 4 + r.Intn(16)
	if c.Plan.Group == "real" {
		n = 4 + r.Intn(4)
	}
	ops := d.drawOps(n, clients, []string{"set", "tot", "root", "max", "get", "move"}, []int{10, 6, 2, 1, 1, 2})
	d.runClients(ops, clients, func(cl *simrt.Node, o opSpec) {
		d.RPC(cl, o.key, func() {
			switch o.kind {
			case "set":
				d.Set(o.id, o.amt)
				return
			case "move":
				d.Move(o.x, nil)
				return
			case "max": // bring the total to 2^63-1
				d.Set(d.ids[0], 1<<63-1)
				c.Count("totals at the maximum")
				return
			}
			d.lock.RLock()
			defer d.lock.RUnlock()
			switch o.kind {
			case "get":
				simrt.Try(func() { d.ls.Get(o.id) })
			case "root":
				d.publish()
			case "tot":
				d.checkTot(true, o.key)
			}
		})
	})
	c.Do(d.op, "final", func() {
		d.checkTot(true, "final")
		d.otherOpenings()
	})
}

func runC04(c *Ctx) {
	r := c.Rng("c04")
	full := r.Chance(0.65)
	d := NewDeploy(c, drawCfg(c, full), 2+r.Intn(4))
	d.Boot()
	d.Load(0.01, 60)
	clients := 2 + r.Intn(2)
	n := 6 + r.Intn(10)
	if c.Plan.Group == "real" {
		n = 5 + r.Intn(4)
	}
	kinds, weights := []string{"set", "root", "prove", "tot", "move"}, []int{8, 5, 4, 3, 4}
	if !full {
		weights[2] = 0
	}
	ops := d.drawOps(n, clients, kinds, weights)
	// what is on the wire or kept: proofs and totals for clients
	type msg struct {
		id  string
		p   pol.LiabilityProof
		t   *pol.TotalProof
		amt int64
	}
	mail := make([][]msg, clients)
	held := make([]Root, clients)
	record := func() (Root, bool) {
		root, ok := d.publish()
		if !ok {
			return root, false
		}
		k := root.fullKey()
		if st, seen := d.roots[k]; seen {
			if !sameModel(st.Model, d.model) {
				c.Violate("root-unchanged", "the states %s and %s have the same root", st.Model, d.model)
			}
			c.Count("same root again")
		} else {
			for _, st := range d.roots {
				if sameModel(st.Model, d.model) {
					c.Count("another root for an equal state")
					break
				}
			}
			d.roots[k] = State{d.version, d.model.Clone(), root}
		}
		return root, true
	}
	maxChecks := 14
	if c.Plan.Group == "real" {
		maxChecks = 6
	}
	checks := 0
	check := func(k int, m msg, root Root) {
		if root.V == nil {
			return
		}
		st, seen := d.roots[root.fullKey()]
		if !seen {
			return
		}
		if m.t != nil {
			c.Count("totals checked under a held root")
			if d.e.acceptedTot(*m.t, root) && st.Model.Sum().Cmp(bigInt(int64(m.t.Sum))) != 0 {
				c.Violate("stale-total-accepted", "under the root of %s a total of %d is accepted", st.Model, m.t.Sum)
			}
			return
		}
		if checks >= maxChecks {
			return
		}
		checks++
		c.Count("proofs checked under a held root")
		if d.e.accepted(m.p, m.id, root) {
			// An identifier that is not recorded and one that is recorded with nothing have equal commitments.
			if st.Model[m.id] != int64(m.p.LiabilityProof.Sum) {
				c.Violate("stale-proof-accepted", "under the root of %s the claim %q=%d is accepted", st.Model, m.id, m.p.LiabilityProof.Sum)
			}
			c.Count("accepted under a held root")
		}
	}
	d.runClients(ops, clients, func(cl *simrt.Node, o opSpec) {
		var got *msg
		d.RPC(cl, o.key, func() {
			if o.kind == "set" {
				d.Set(o.id, o.amt)
				if o.flag {
					d.lock.RLock()
					defer d.lock.RUnlock()
					record()
				}
				return
			}
			if o.kind == "move" {
				d.Move(o.x, func() { record() })
				return
			}
			d.lock.RLock()
			defer d.lock.RUnlock()
			if len(d.model) == 0 {
				return
			}
			switch o.kind {
			case "root":
				if root, ok := record(); ok {
					held[o.client] = root
				}
			case "prove":
				if o.flag {
					record()
				}
				var m msg
				var ok bool
				pan, _ := simrt.Try(func() { _, m.p, _, ok = d.ls.ProveLiability(o.id) })
				if pan == nil && ok {
					m.id = o.id
					got = &m
				}
			case "tot":
				var tp pol.TotalProof
				if pan, _ := simrt.Try(func() { tp = d.ls.ProveTot() }); pan == nil {
					got = &msg{t: &tp}
				}
			}
		})
		if got != nil {
			if c.Fault("misdelivery", o.key, 0.2) {
				k := (o.client + 1) % clients
				mail[k] = append(mail[k], *got)
			} else {
				mail[o.client] = append(mail[o.client], *got)
			}
		}
		// deliver what has arrived so far, possibly again later
		rest := mail[o.client]
		mail[o.client] = nil
		for i, m := range rest {
			tag := fmt.Sprintf("%s/%d", o.key, i)
			if c.Fault("late-delivery", tag, 0.4) {
				mail[o.client] = append(mail[o.client], m)
				continue
			}
			if c.Fault("second-delivery", tag, 0.3) {
				mail[o.client] = append(mail[o.client], m)
			}
			check(o.client, m, held[o.client])
		}
	})
	// everything still on the wire arrives; each is checked under several published roots
	c.Do(c.Node("verifier"), "final", func() {
		var keys []string
		for k := range d.roots {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return d.roots[keys[i]].Version < d.roots[keys[j]].Version })
		for k := range mail {
			for _, m := range mail[k] {
				for _, i := range c.Rng("final").Perm(len(keys)) {
					check(k, m, d.roots[keys[i]].Root)
				}
			}
		}
	})
}

// sameModel: recording nothing for an identifier need not change the root.
func sameModel(a, b Model) bool {
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	for k, v := range b {
		if a[k] != v {
			return false
		}
	}
	return true
}

func bigInt(n int64) *big.Int { return big.NewInt(n) }

// aliasPair returns an identifier whose expansion is not of canonical length for fan-out 7, and the
// identifier that takes its place in the tree.
func aliasPair() (string, string) {
	x := strings.Repeat("0", 63) + "1"
	s := x
	for {
		h := sha256.Sum256([]byte(s))
		s = hex.EncodeToString(h[:])
		n, _ := new(big.Int).SetString(s, 16)
		l := 0
		for ; n.Sign() > 0; l++ {
			n.Div(n, big.NewInt(7))
		}
		if l == hexLen[7] {
			return x, s
		}
	}
}

// otherOpenings offers the openings of the root's other entries as totals.
func (d *Deploy) otherOpenings() {
	c := d.c
	if len(d.model) == 0 {
		return
	}
	root, ok := d.publish()
	if !ok {
		return
	}
	v := &verkle.Vertex{}
	key := ""
	if pan, _ := simrt.Try(func() { v.FromBytes(d.disk.recs[key]) }); pan != nil || v.V == nil || !v.V.Equals(root.V) {
		c.Count("root record not readable")
		return
	}
	N := d.e.PP.PPPP.N
	vals := v.Values(N - 1)
	m := append(append(common.Vec{}, vals...), v.BlindingFactor)
	r := c.Rng("openings")
	total := d.model.Sum()
	for k := 0; k < 6; k++ {
		i := r.Intn(N - 1)
		if k < 2 {
			// an entry that is not zero, if there is one
			for t := 0; t < 50 && i < N-2 && vals[i].Equals(common.IntToZr(0)); t++ {
				i = r.Intn(N - 2)
			}
		}
		mi, π := pp.Open(d.e.PP.PPPP, i, m)
		amt, err := mi.Int()
		if err != nil || amt < 0 || big.NewInt(amt).Cmp(total) == 0 {
			continue
		}
		c.Count("openings of other entries offered as total")
		if d.e.acceptedTot(pol.TotalProof{LiabilityProof: π, Sum: int(amt)}, root) {
			c.Violate("other-total-accepted", "the opening of entry %d proves the total %d for a root whose total is %s", i, amt, total)
		}
	}
}

func (m Model) String() string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s:%d", sid(k), m[k]))
	}
	return "{" + strings.Join(s, " ") + "}"
}

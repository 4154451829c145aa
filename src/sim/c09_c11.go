package main

import (
	"fmt"
	"math/big"

	"pol/pol"

	"simrt"
)

func init() {
	register(&Def{ID: "C09", Run: runC09, Quick: 1300, QuickReal: 8, Thorough: 20000, ThorReal: 150,
		Rule: "Seeded histories in which storage operations of settings fail, before or after taking effect, once or several times in a row; while a setting is outstanding nothing a client accepts may state an amount other than the old or a requested one, and after the retry everything is exact."})
	register(&Def{ID: "C10", Run: runC10, Quick: 1200, QuickReal: 8, Thorough: 20000, ThorReal: 150,
		Rule: "Seeded histories in which records read by a query are damaged (bits, truncation, extension, other record, older version, missing, re-encoded with one field altered); what is accepted against the published root must be true, and queries succeed again afterwards."})
	register(&Def{ID: "C11", Run: runC11, Quick: 2800, QuickReal: 8, Thorough: 30000, ThorReal: 150,
		Rule: "Seeded histories in which the process dies at an arbitrary scheduling point or storage operation, an arbitrary part of the storage survives, possibly damaged, and a new set is created over it, up to three times; the new set is compared with a fresh map."})
}

// allowed amounts of an identifier: the current one and those requested by failed settings.
func (d *Deploy) allowed(id string) []int64 {
	return append([]int64{d.model[id]}, d.dirty[id]...)
}

func in(x int64, l []int64) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (d *Deploy) dirtyIDs() []string {
	var ks []string
	for k := range d.dirty {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// allowedTotal reports whether the total is the sum of one allowed amount per identifier.
func (d *Deploy) allowedTotal(t int64) bool {
	base := new(big.Int)
	for id, v := range d.model {
		if len(d.dirty[id]) == 0 {
			base.Add(base, big.NewInt(v))
		}
	}
	sums := []*big.Int{base}
	for _, id := range d.dirtyIDs() {
		var next []*big.Int
		for _, s := range sums {
			for _, a := range d.allowed(id) {
				next = append(next, new(big.Int).Add(s, big.NewInt(a)))
			}
		}
		sums = next
	}
	for _, s := range sums {
		if s.Cmp(big.NewInt(t)) == 0 {
			return true
		}
	}
	return false
}

// trySet serves a setting that the storage may fail.
func (d *Deploy) trySet(key, id string, amt int64) bool {
	c := d.c
	// whichever of the amounts end up being counted, the total stays below 2^63
	worst := d.model.Clone()
	for _, k := range d.dirtyIDs() {
		for _, v := range d.dirty[k] {
			if v > worst[k] {
				worst[k] = v
			}
		}
	}
	if amt > worst[id] {
		amt = worst.fit(id, amt)
	}
	if amt < 0 {
		amt = 0
	}
	fired := false
	r := c.Rng("diskfault:" + key)
	if c.On(key+".fault") && r.Chance(0.6) {
		n := r.Intn(3*d.e.Depth + 2)
		if r.Chance(0.3) {
			n = r.Intn(4)
		}
		kind, f := "disk-error-before", DiskErrBefore
		if r.Chance(0.5) {
			kind, f = "disk-error-after", DiskErrAfter
		}
		switch r.Intn(8) {
		case 0:
			kind, f = "disk-read-empty", DiskEmpty
		case 1:
			kind, f = "disk-read-short", DiskShort
		}
		d.disk.Arm(func(op string, k []byte, i int) DiskFault {
			if i == n && c.Inject(kind, fmt.Sprintf("%s.%d.%s", key, i, op)) {
				fired = true
				return f
			}
			return DiskOK
		})
	}
	pan, stack := simrt.Try(func() { d.ls.Set(id, amt) })
	d.disk.Arm(nil)
	if simrt.Inert() {
		return false
	}
	if pan == nil {
		// An implementation may cope with the failure by itself; then the setting counts.
		d.model[id] = amt
		delete(d.dirty, id)
		d.version++
		c.Count("sets")
		c.Event("set %s=%d", sid(id), amt)
		return true
	}
	if !fired {
		c.Violate("set-failed", "Set(%q, %d) failed although no storage operation did: %v\n%s", id, amt, pan, stack)
	}
	c.Count("failed sets")
	if len(d.dirty[id]) == 0 || !in(amt, d.dirty[id]) {
		d.dirty[id] = append(d.dirty[id], amt)
	}
	c.Event("set %s=%d failed: %v", sid(id), amt, pan)
	return false
}

// looseCheck examines what a client can be told while settings are outstanding.
func (d *Deploy) looseCheck(id string, full bool) {
	c := d.c
	clean := len(d.dirty) == 0
	if clean {
		d.exactCheck([]string{id}, full)
		return
	}
	c.Count("checks while a failed setting is outstanding")
	var got int64
	var ok bool
	pan, _ := simrt.Try(func() { got, ok = d.ls.Get(id) })
	if pan == nil {
		_, has := d.model[id]
		if ok && !in(got, d.allowed(id)) {
			c.Violate("lookup-wrong", "Get(%q) = %d, allowed %v", id, got, d.allowed(id))
		}
		if !ok && has {
			c.Violate("lookup-lost", "Get(%q) finds nothing although the identifier is recorded", id)
		}
		if ok && !has && len(d.dirty[id]) == 0 {
			c.Violate("lookup-invented", "Get(%q) finds %d although the identifier was never set", id, got)
		}
	}
	root, pan := d.Root()
	if pan != nil || root.V == nil {
		c.Count("root not readable while outstanding")
		return
	}
	var tp pol.TotalProof
	if pan, _ := simrt.Try(func() { tp = d.ls.ProveTot() }); pan == nil {
		if d.e.acceptedTot(tp, root) {
			c.Count("totals accepted while outstanding")
			if !d.allowedTotal(int64(tp.Sum)) {
				c.Violate("false-total-accepted", "the total %d is accepted; recorded %s, outstanding %v", tp.Sum, d.model, d.dirty)
			}
		}
	}
	if !full {
		return
	}
	var p pol.LiabilityProof
	pan, _ = simrt.Try(func() { _, p, _, ok = d.ls.ProveLiability(id) })
	if pan == nil && ok && d.e.accepted(p, id, root) {
		c.Count("proofs accepted while outstanding")
		if !in(int64(p.LiabilityProof.Sum), d.allowed(id)) {
			c.Violate("false-claim-accepted", "%q=%d is accepted, allowed %v", id, p.LiabilityProof.Sum, d.allowed(id))
		}
	}
}

// exactCheck: no fault is active and nothing is outstanding, so everything must be exact.
func (d *Deploy) exactCheck(prove []string, full bool) {
	c := d.c
	for _, id := range append(append([]string{}, d.ids...), d.extra...) {
		d.CheckGet(id)
	}
	d.checkTot(false, fmt.Sprint(c.S.Step()))
	if !full {
		return
	}
	for _, id := range prove {
		a := d.Prove(id, c.Rng(fmt.Sprint("exact", c.S.Step())).Chance(0.5))
		if a == nil {
			continue
		}
		err, pan := d.e.verify(a.proof, a.id, a.root)
		c.Count("proofs verified")
		if err != nil || pan != nil {
			c.Violate("honest-proof-rejected", "the proof of %q=%d is rejected against the current root: %v %v", a.id, a.amt, err, pan)
		}
		if int64(a.proof.LiabilityProof.Sum) != d.model[id] {
			c.Violate("proof-amount", "the proof for %q states %d instead of %d", a.id, a.proof.LiabilityProof.Sum, d.model[id])
		}
	}
}

func runC09(c *Ctx) {
	r := c.Rng("c09")
	full := r.Chance(0.4)
	d := NewDeploy(c, drawCfg(c, full), 2+r.Intn(5))
	d.Boot()
	d.Load(0.01, 100)
	n := 5 + r.Intn(10)
	if c.Plan.Group == "real" {
		n = 4 + r.Intn(3)
	}
	ops := d.drawOps(n, 1, []string{"set", "check", "retry"}, []int{9, 3, 3})
	c.Do(d.op, "history", func() {
		for _, o := range ops {
			if !c.On(o.key) {
				continue
			}
			switch o.kind {
			case "set":
				ok := d.trySet(o.key, o.id, o.amt)
				if !ok {
					if o.x%3 == 0 {
						d.looseCheck(o.id, full)
					}
					if o.x%5 < 3 {
						// the client repeats the setting, perhaps with another amount
						amt := o.amt
						if o.x%2 == 0 {
							amt = int64(o.x >> 40)
						}
						d.trySet(o.key+".again", o.id, amt)
					}
				}
			case "check":
				d.looseCheck(o.id, full)
			case "retry":
				if ids := d.dirtyIDs(); len(ids) > 0 {
					id := ids[o.x%uint64(len(ids))]
					d.trySet(o.key, id, d.dirty[id][len(d.dirty[id])-1])
				}
			}
		}
		// storage works again: outstanding settings are repeated, some after other settings
		d.disk.Arm(nil)
		ids := d.dirtyIDs()
		for _, i := range c.Rng("repair").Perm(len(ids)) {
			id := ids[i]
			if len(d.dirty[id]) == 0 {
				continue
			}
			amt := d.dirty[id][len(d.dirty[id])-1]
			if c.Rng("repair:" + id).Chance(0.3) {
				amt = d.model[id]
			}
			pan, stack := simrt.Try(func() { d.ls.Set(id, amt) })
			if pan != nil {
				c.Violate("retry-failed", "Set(%q, %d) fails although the storage works again: %v\n%s", id, amt, pan, stack)
			}
			d.model[id] = amt
			delete(d.dirty, id)
			c.Count("repairs")
			c.Event("retried %s=%d", sid(id), amt)
		}
		prove := sortedKeys(d.model)
		if len(ids) > 0 && d.has(ids[0]) && len(prove) > 0 {
			prove[0] = ids[0]
		}
		if len(prove) > 2 {
			prove = prove[:2]
		}
		d.exactCheck(prove, full)
		if len(d.model) > 0 {
			// and further settings work as ever
			d.Set(d.ids[0], 12345)
			d.exactCheck([]string{d.ids[0]}, full)
		}
	})
}

func runC10(c *Ctx) {
	r := c.Rng("c10")
	full := r.Chance(0.6)
	d := NewDeploy(c, drawCfg(c, full), 2+r.Intn(5))
	d.Boot()
	n := 6 + r.Intn(8)
	if c.Plan.Group == "real" {
		n = 5 + r.Intn(2)
	}
	ops := d.drawOps(n, 1, []string{"set", "query"}, []int{6, 6})
	c.Do(d.op, "history", func() {
		for _, o := range ops {
			if !c.On(o.key) {
				continue
			}
			if o.kind == "set" {
				d.Set(o.id, o.amt)
				continue
			}
			if len(d.model) == 0 {
				continue
			}
			d.damagedQuery(o, full)
		}
		if len(d.model) > 0 {
			d.exactCheck(sortedKeys(d.model)[:1], full)
		}
	})
}

// damagedQuery serves a query while the storage returns something else than what was stored.
func (d *Deploy) damagedQuery(o opSpec, full bool) {
	c := d.c
	root, ok := d.publish()
	if !ok {
		return
	}
	r := c.Rng("damage:" + o.key)
	at := r.Intn(d.e.Depth + 1)
	if r.Chance(0.3) {
		at = r.Intn(3)
	}
	persistent := r.Chance(0.3)
	seen := 0
	keys := append([]string{}, d.disk.Keys...)
	hit := ""
	d.disk.Damage = func(key string, val []byte) []byte {
		i := seen
		seen++
		if i != at && !(persistent && key == hit && hit != "") {
			return val
		}
		kind := damageKinds[r.Intn(len(damageKinds))]
		if !c.Inject("damage-"+kind, fmt.Sprintf("%s.%d", o.key, i)) {
			return val
		}
		hit = key
		return d.damage(kind, key, val, keys, r)
	}
	kind := []string{"prove", "tot", "get", "root"}[r.Intn(4)]
	if full && r.Chance(0.7) {
		kind = "prove"
	}
	c.Event("%s %s while the storage returns damaged records", kind, sid(o.id))
	switch kind {
	case "prove":
		if !full {
			break
		}
		var p pol.LiabilityProof
		var amt int64
		var found bool
		pan, _ := simrt.Try(func() { amt, p, _, found = d.ls.ProveLiability(o.id) })
		if simrt.Inert() {
			return
		}
		d.disk.Damage = nil
		if pan != nil {
			c.Count("damaged queries that failed")
			break
		}
		if !found {
			if d.has(o.id) {
				c.Violate("lookup-lost", "ProveLiability(%q) does not find a recorded identifier", o.id)
			}
			break
		}
		c.Count("damaged queries that answered")
		if d.e.accepted(p, o.id, root) {
			c.Count("damaged answers that were accepted")
			if int64(p.LiabilityProof.Sum) != d.model[o.id] || (amt != d.model[o.id]) {
				c.Violate("false-claim-accepted", "%q=%d (answer %d) is accepted, recorded is %d", o.id, p.LiabilityProof.Sum, amt, d.model[o.id])
			}
		}
	case "tot":
		var tp pol.TotalProof
		pan, _ := simrt.Try(func() { tp = d.ls.ProveTot() })
		if pan != nil {
			c.Count("damaged queries that failed")
			break
		}
		c.Count("damaged queries that answered")
		if d.e.acceptedTot(tp, root) && big.NewInt(int64(tp.Sum)).Cmp(d.model.Sum()) != 0 {
			c.Violate("false-total-accepted", "the total %d is accepted, the sum is %s", tp.Sum, d.model.Sum())
		}
	case "get":
		var got int64
		var found bool
		pan, _ := simrt.Try(func() { got, found = d.ls.Get(o.id) })
		if pan != nil {
			c.Count("damaged queries that failed")
			break
		}
		want, has := d.model[o.id]
		if found != has || got != want {
			c.Violate("lookup-wrong", "Get(%q) = %d, %v while the storage returns a damaged record; recorded %d, %v", o.id, got, found, want, has)
		}
	case "root":
		simrt.Try(func() { d.ls.Root() })
	}
	d.disk.Damage = nil
	// correct records again
	d.CheckGet(o.id)
	d.checkTot(false, o.key)
	after, _ := d.publish()
	if !after.Equal(root) {
		c.Violate("root-changed", "a query changed the root")
	}
	if full && d.has(o.id) && r.Chance(0.4) {
		d.exactCheck([]string{o.id}, true)
	}
}

var damageKinds = []string{"bits", "bits", "bits", "byte", "truncate", "extend", "other", "stale", "missing", "empty", "garbage", "field", "field", "field"}

func (d *Deploy) damage(kind, key string, val []byte, keys []string, r *simrt.Rng) []byte {
	v := append([]byte(nil), val...)
	switch kind {
	case "bits":
		for k := 1 + r.Intn(3); k > 0 && len(v) > 0; k-- {
			v[r.Intn(len(v))] ^= 1 << uint(r.Intn(8))
		}
	case "byte":
		if len(v) > 0 {
			v[r.Intn(len(v))] = byte(r.Intn(256))
		}
	case "truncate":
		v = v[:r.Intn(len(v)+1)]
	case "extend":
		v = append(v, byte(r.Intn(256)), 0, 1)
	case "other":
		v = append([]byte(nil), d.disk.recs[keys[r.Intn(len(keys))]]...)
	case "stale":
		if old := d.disk.old[key]; len(old) > 0 {
			v = append([]byte(nil), old[r.Intn(len(old))]...)
		}
	case "missing":
		return nil
	case "empty":
		return []byte{}
	case "garbage":
		v = make([]byte, r.Intn(300))
		r.Read(v)
	case "field":
		return alterRecord(v, r, d.disk, keys)
	}
	return v
}

func runC11(c *Ctx) {
	r := c.Rng("c11")
	full := r.Chance(0.4)
	d := NewDeploy(c, drawCfg(c, full), 2+r.Intn(5))
	if r.Chance(0.02) {
		d.Boot()
		d.Load(1, 60)
		d.model = Model{} // of a former life
	}
	epochs := 2 + r.Intn(2)
	nops := 3 + r.Intn(6)
	if c.Plan.Group == "real" {
		epochs, nops = 2, 3
	}
	var lastSteps uint64 = 20000
	for ep := 0; ep < epochs; ep++ {
		er := c.Rng(fmt.Sprint("epoch", ep))
		last := ep == epochs-1
		if ep > 0 {
			d.op = c.Node(fmt.Sprintf("operator%d", ep))
			d.leftover(er, ep)
			d.model = Model{}
			d.dirty = map[string][]int64{}
			c.Count("restarts")
		}
		op := d.op
		d.disk.crash = func() { c.S.KillNode(op) }
		mode := er.Intn(3)
		if !last && c.On(fmt.Sprintf("crash%d", ep)) {
			switch mode {
			case 0, 1:
				n := er.Intn(nops * (3*d.e.Depth + 2))
				f, name := DiskCrashBefore, "crash-before-storage-op"
				if mode == 1 {
					f, name = DiskCrashAfter, "crash-after-storage-op"
				}
				d.disk.Arm(func(o string, k []byte, i int) DiskFault {
					if i == n && c.Inject(name, fmt.Sprintf("e%d.%d.%s", ep, i, o)) {
						return f
					}
					return DiskOK
				})
			case 2:
				at := int64(er.Uint64()%(lastSteps*2+1000)) * simrt.StepNS
				c.S.Spawn("crash", c.Node("fate"), func() {
					simrt.SleepNS(at)
					if d.op == op && !op.Dead && c.Inject("crash-any-point", fmt.Sprintf("e%d", ep)) {
						c.S.KillNode(op)
					}
				})
			}
		}
		start := c.S.Step()
		t := c.S.Spawn("operator", op, func() {
			if ep > 0 {
				// before anything is set
				d.lsNew()
				for _, id := range append(append([]string{}, d.ids...), d.extra...) {
					d.CheckGet(id)
				}
				var tp pol.TotalProof
				if pan, _ := simrt.Try(func() { tp = d.ls.ProveTot() }); pan == nil && tp.Sum != 0 {
					c.Violate("leftover-total", "the new, empty set reports a total of %d", tp.Sum)
				}
				if root, pan := d.Root(); pan == nil && root.V != nil {
					c.Violate("leftover-root", "the new, empty set reports a root")
				}
			} else {
				d.lsNew()
			}
			for i := 0; i < nops; i++ {
				key := fmt.Sprintf("e%d.op%d", ep, i)
				if !c.On(key) {
					continue
				}
				id := d.ids[er.Intn(len(d.ids))]
				amt := drawAmount(er)
				if er.Chance(0.75) || i == 0 {
					d.Set(id, amt)
					continue
				}
				if full && er.Chance(0.5) {
					d.exactCheck([]string{id}, true)
				} else {
					d.exactCheck(nil, false)
				}
			}
			prove := sortedKeys(d.model)
			if len(prove) > 1 {
				i := er.Intn(len(prove))
				prove = prove[i : i+1]
			}
			d.exactCheck(prove, full)
		})
		c.Wait(t)
		lastSteps = c.S.Step() - start
		if op.Dead {
			c.Count("crashes")
			c.Event("the operator died in epoch %d", ep)
		} else if !last {
			c.S.KillNode(op)
			c.Count("restarts at rest")
		}
		d.lock = &RW{}
		d.disk.Arm(nil)
	}
}

func (d *Deploy) lsNew() { d.ls = pol.NewLiabilitySet(d.e.PP, d.disk, d.e.ID2Path) }

// leftover decides what the storage contains after the process died.
func (d *Deploy) leftover(r *simrt.Rng, ep int) {
	c := d.c
	d.disk.Arm(nil)
	recs := map[string][]byte{}
	mode := r.Intn(5)
	for _, k := range d.disk.Keys {
		v, ok := d.disk.recs[k]
		if !ok {
			continue
		}
		v = append([]byte(nil), v...)
		switch {
		case mode == 1 && r.Chance(0.4) && c.Inject("lost-write", fmt.Sprintf("e%d.%q", ep, k)):
			continue
		case mode == 2 && r.Chance(0.4) && len(d.disk.old[k]) > 0 && c.Inject("outdated-record", fmt.Sprintf("e%d.%q", ep, k)):
			v = d.disk.old[k][r.Intn(len(d.disk.old[k]))]
		case mode == 3 && r.Chance(0.3) && c.Inject("torn-record", fmt.Sprintf("e%d.%q", ep, k)):
			v = v[:r.Intn(len(v)+1)]
		}
		recs[k] = v
	}
	if mode == 4 && c.Inject("foreign-records", fmt.Sprintf("e%d", ep)) {
		keys := d.disk.Keys
		for i := 0; i < 5 && len(keys) > 0; i++ {
			k := keys[r.Intn(len(keys))] + fmt.Sprintf(".%d", r.Intn(d.e.Fanout))
			if v := recs[keys[r.Intn(len(keys))]]; v != nil {
				recs[k] = append([]byte(nil), v...)
			}
		}
	}
	d.disk.recs = recs
}

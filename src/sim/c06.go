package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"

	"simrt"
)

func init() {
	register(&Def{ID: "C06", Run: runC06, Quick: 450, QuickReal: 10, Thorough: 20000, ThorReal: 250,
		Rule: "A Byzantine operator publishes a root and answers clients and auditors with proofs for a path that violates one or more relations at chosen levels, everything else honestly computed or computed by dishonest provers; the operator's honest mode must be accepted, every other proof rejected."})
}

// byzVertex is a vertex of the Byzantine operator's path: what it commits to.
type byzVertex struct {
	vals   common.Vec // entries, sum, blinding factor
	digs   common.Vec
	V, W   *math.G1
	proofV *math.G1 // what the proof shows
	proofW *math.G1
}

// byz is a Byzantine operator.
type byz struct {
	c    *Ctx
	e    *Env
	r    *simrt.Rng
	n    int // fan-out
	path []uint16
	vs   []*byzVertex
}

func (z *byz) commit(v common.Vec) *math.G1 { return pp.Commit(z.e.PP.PPPP, v) }

func digestOf(V, W *math.G1) *math.Zr {
	h := sha256.New()
	h.Write(V.Bytes())
	if W != nil {
		h.Write(W.Bytes())
	}
	return common.FieldElementFromBytes(h.Sum(nil))
}

func sumOf(v common.Vec) *math.Zr {
	s := zi(0)
	for _, x := range v {
		s = zadd(s, x)
	}
	return s
}

// values draws the entries of all levels, bottom-up, with the deviations applied. dev maps "sum3" or "entry2" or
// "range1" to the amount of the deviation.
func (z *byz) values(dev map[string]*math.Zr) {
	D := len(z.path)
	z.vs = make([]*byzVertex, D)
	r := z.r
	budget := new(big.Int).Lsh(big.NewInt(1), 63)
	budget.Div(budget, big.NewInt(int64(z.n*D+1)))
	small := r.Chance(0.6)
	alone := r.Chance(0.12) // the only liability
	amount := func() *math.Zr {
		if alone || r.Chance(0.4) {
			return zi(0)
		}
		if small {
			return zi(int64(r.Intn(1000)))
		}
		x := new(big.Int).Rsh(new(big.Int).SetUint64(r.Uint64()), uint(r.Intn(64)))
		return zbig(x.Mod(x, budget))
	}
	for i := D - 1; i >= 0; i-- {
		v := &byzVertex{vals: make(common.Vec, z.n+2), digs: make(common.Vec, z.n+2)}
		for j := 0; j < z.n; j++ {
			v.vals[j] = amount()
			v.digs[j] = zi(0)
			if i < D-1 && r.Chance(0.5) {
				v.digs[j] = zrnd(r)
			}
		}
		v.digs[z.n], v.digs[z.n+1] = zi(0), zi(0)
		p := int(z.path[i])
		if i == D-1 {
			switch r.Intn(10) {
			case 0, 1:
				v.vals[p] = zi(0)
			case 2:
				v.vals[p] = zi(int64([]int{1, 255, 256, 65536}[r.Intn(4)]))
			case 3:
				v.vals[p] = zbig(new(big.Int).Mod(new(big.Int).SetUint64(r.Uint64()), budget))
			default:
				v.vals[p] = zi(int64(1 + r.Intn(1000)))
			}
		} else {
			v.vals[p] = z.vs[i+1].vals[z.n]
			if d := dev[fmt.Sprintf("entry%d", i)]; d != nil {
				v.vals[p] = zadd(v.vals[p], d)
			}
		}
		if d := dev[fmt.Sprintf("range%d", i)]; d != nil {
			// an entry of somebody else
			v.vals[(p+1+r.Intn(z.n-1))%z.n] = d
		}
		v.vals[z.n] = sumOf(v.vals[:z.n])
		if d := dev[fmt.Sprintf("sum%d", i)]; d != nil {
			v.vals[z.n] = zadd(v.vals[z.n], d)
		}
		v.vals[z.n+1] = zrnd(r)
		z.vs[i] = v
	}
}

// chain commits to the vertices, bottom-up. committed[i], if any, is what the parent commits to instead of the
// digest of vertex i.
func (z *byz) chain(committed map[int]*math.Zr) {
	D := len(z.path)
	for i := D - 1; i >= 0; i-- {
		v := z.vs[i]
		v.V = z.commit(v.vals)
		if i < D-1 {
			d := committed[i+1]
			if d == nil {
				d = digestOf(z.vs[i+1].V, z.vs[i+1].W)
			}
			v.digs[z.path[i]] = d
			v.W = z.commit(v.digs)
		}
		v.proofV, v.proofW = v.V, v.W
	}
}

// inRange reports for each level whether all entries and the sum are in range.
func (z *byz) inRange(i int) bool {
	for _, x := range z.vs[i].vals[:z.n+1] {
		if !inRange(x) {
			return false
		}
	}
	return true
}

// proof puts the proof together; ok is false if a part could not be made.
func (z *byz) proof(leafIndex int, rangeOpt opt, sigma string) (p pol.LiabilityProof, ok bool) {
	pan, _ := simrt.Try(func() { p, ok = z.proof2(leafIndex, rangeOpt, sigma) })
	if simrt.Inert() {
		return p, false
	}
	if pan != nil {
		z.c.Count("dishonest prover failed")
		return p, false
	}
	return p, ok
}

func (z *byz) proof2(leafIndex int, rangeOpt opt, sigma string) (p pol.LiabilityProof, ok bool) {
	P := z.e.PP
	D := len(z.path)
	var digProofs common.G1v
	var trueDigs, ts common.Vec
	sumVs := make([]common.Vec, D)
	sumRs := make(common.Vec, D)
	eq := &poe.Equalities{PP: P.POEPP, RO: poe.RO}
	var vEQ, wEQ []common.Vec
	for i, v := range z.vs {
		p.V = append(p.V, v.proofV)
		sumVs[i], sumRs[i] = v.vals[:z.n+1], v.vals[z.n+1]
		if i < D-1 {
			p.W = append(p.W, v.proofW)
			d, π := pp.Open(P.PPPP, int(z.path[i]), v.digs)
			trueDigs = append(trueDigs, d)
			digProofs = append(digProofs, π)
			// what the verifier expects
			p.Digests = append(p.Digests, digestOf(z.vs[i+1].proofV, z.vs[i+1].proofW))
			eq.I, eq.J = append(eq.I, int(z.path[i])), append(eq.J, z.n)
			eq.V, eq.W = append(eq.V, v.proofV), append(eq.W, z.vs[i+1].proofV)
			vEQ, wEQ = append(vEQ, v.vals), append(wEQ, z.vs[i+1].vals)
		}
		var rp *bp.RangeProof
		if z.inRange(i) {
			rp = bp.ProveRange(P.RPPP, v.proofV, v.vals[:z.n+1], v.vals[z.n+1])
		} else {
			rp = z.badRange(i, rangeOpt)
		}
		if rp == nil {
			return p, false
		}
		p.RangeProofs = append(p.RangeProofs, rp)
	}
	p.Digests = append(p.Digests, zi(0))
	for i := range p.W {
		ts = append(ts, pp.RO(P.PPPP, p.W, i))
	}
	switch sigma {
	case "committed", "shown":
		p.PointProofΣ = dot(trueDigs, ts)
	default:
		p.PointProofΣ = dot(p.Digests[:D-1], ts)
	}
	if sigma == "shown" {
		// the digests shown are the committed ones
		copy(p.Digests, trueDigs)
	}
	p.PointProofπ = pp.Aggregate(P.PPPP, p.W, digProofs, pp.RO)
	p.SumArgumentProof = sum.NewAggregatedArgument(P.SAPP, p.V, sumVs, sumRs)
	zero := make(common.Vec, z.n+2)
	zero.Zero()
	zc := pp.Commit(P.PPPP, zero)
	for !common.IsPowerOfTwo(uint16(len(vEQ))) {
		vEQ, wEQ = append(vEQ, zero), append(wEQ, zero)
		eq.I, eq.J = append(eq.I, 0), append(eq.J, 0)
		eq.V, eq.W = append(eq.V, zc), append(eq.W, zc)
	}
	p.EqualityProof = eq.Prove(vEQ, wEQ)
	amt, π := pp.Open(P.PPPP, leafIndex, z.vs[D-1].vals)
	a := zbigOf(amt)
	p.LiabilityProof = pol.TotalProof{LiabilityProof: π}
	if a.BitLen() <= 63 {
		p.LiabilityProof.Sum = int(a.Int64())
	}
	return p, true
}

// badRange makes range evidence for a vertex with entries out of range.
func (z *byz) badRange(i int, o opt) *bp.RangeProof {
	P := z.e.PP
	v := z.vs[i]
	if o["library"] {
		return bp.ProveRange(P.RPPP, v.proofV, v.vals[:z.n+1], v.vals[z.n+1])
	}
	good := append(common.Vec{}, v.vals...)
	for j := range good[:z.n+1] {
		if !inRange(good[j]) {
			good[j] = zi(int64(j))
		}
	}
	if o["other commitment"] {
		return bp.ProveRange(P.RPPP, z.commit(good), good[:z.n+1], good[z.n+1])
	}
	if o["other values"] {
		return bp.ProveRange(P.RPPP, v.proofV, good[:z.n+1], good[z.n+1])
	}
	f := &rangeForger{P.RPPP, v.proofV, v.vals[:z.n+1], v.vals[z.n+1], z.r, o}
	rp, ok := f.prove()
	if !ok {
		return nil
	}
	return rp
}

// accept asks a client; only acceptance counts.
func (z *byz) accept(p pol.LiabilityProof, id string, root Root) bool {
	return z.e.accepted(p, id, root)
}

var rangeModes = append([]opt{{"library": true}, {"other commitment": true}, {"other values": true}}, rangeTricks...)

func (z *byz) delta() *math.Zr {
	r := z.r
	switch r.Intn(5) {
	case 0:
		return zi(1)
	case 1:
		return zneg(zi(1))
	case 2:
		return zi(int64(1 + r.Intn(1000)))
	case 3:
		return zneg(zi(int64(1 + r.Intn(1000))))
	}
	return zbig(new(big.Int).SetUint64(r.Uint64() >> 2))
}

func (z *byz) outOfRange() *math.Zr {
	r := z.r
	switch r.Intn(6) {
	case 0:
		return zneg(zi(int64(1 + r.Intn(1000))))
	case 1:
		return zbig(new(big.Int).Lsh(big.NewInt(1), 63))
	case 2:
		return zadd(zbig(new(big.Int).Lsh(big.NewInt(1), 63)), zi(int64(r.Intn(1000))))
	case 3:
		return zbig(new(big.Int).Lsh(big.NewInt(1), uint(64+r.Intn(180))))
	case 4:
		return zneg(zi(1))
	}
	x := zrnd(r)
	if inRange(x) {
		return zneg(zi(1))
	}
	return x
}

func runC06(c *Ctx) {
	cfg := drawCfg(c, true)
	if lr := c.Rng("long"); c.Plan.Group != "real" && lr.Chance(0.08) {
		cfg.Kind, cfg.Fanout, cfg.Depth = Short, 3, 9+lr.Intn(28)
	}
	var e *Env
	c.Do(c.Node("setup"), "setup", func() { e = NewEnv(c, cfg) })
	if cfg.Depth > 8 {
		c.Count("long paths")
	}
	op := c.Node("byzantine operator")
	client := c.Node("client")
	ids := e.IDs(c.Rng("ids"), 1)
	id := ids[0]
	var path []uint16
	c.Do(client, "path", func() { simrt.Try(func() { path = e.ID2Path(id) }) })
	if path == nil {
		c.Skip("no path")
	}
	fresh := func(label string) *byz {
		return &byz{c: c, e: e, r: c.Rng(label), n: cfg.Fanout, path: path}
	}
	c.Event("byzantine operator: %s, id %s", e, sid(id))
	treeAttacks(c, e, op, client)
	// the honest mode
	base := fresh("honest")
	okBase := false
	c.Do(op, "honest", func() {
		base.values(nil)
		base.chain(nil)
	})
	var bp0 pol.LiabilityProof
	c.Do(op, "honest proof", func() { bp0, okBase = base.proof(int(path[len(path)-1]), nil, "") })
	root0 := Root{base.vs[0].V, base.vs[0].W}
	if okBase {
		c.Do(client, "honest verification", func() { okBase = base.accept(deepCopy(bp0), id, root0) })
	}
	if !okBase {
		c.Skip("honest mode not accepted")
	}
	c.Count("honest operators accepted")
	attacks := 6
	if c.Plan.Group == "real" {
		attacks = 3
	}
	if cfg.Depth > 12 {
		attacks = 4
	}
	if cfg.Depth > 40 {
		attacks = 2
	}
	D := len(path)
	for k := 0; k < attacks; k++ {
		key := fmt.Sprintf("attack%02d", k)
		if !c.On(key) {
			continue
		}
		z := fresh(key)
		ar := c.Rng("kind:" + key)
		kind := []string{"sum", "sum2", "entry", "entry2", "sum+entry", "range", "range", "range", "vertex", "vertex", "slot", "amount", "amount", "digest2", "rootW", "rootV", "total", "total"}[ar.Intn(18)]
		lvl := ar.Intn(D)
		oth := ar.Intn(D)
		dev := map[string]*math.Zr{}
		what := kind
		δ := z.delta()
		var ro opt
		switch kind {
		case "sum":
			dev[fmt.Sprintf("sum%d", lvl)] = δ
			what = fmt.Sprintf("sum of level %d is wrong", lvl)
		case "sum2":
			if lvl == oth {
				continue
			}
			dev[fmt.Sprintf("sum%d", lvl)] = δ
			dev[fmt.Sprintf("sum%d", oth)] = zneg(δ)
			what = fmt.Sprintf("sums of levels %d and %d are wrong by opposite amounts", lvl, oth)
		case "entry":
			lvl = ar.Intn(D - 1)
			dev[fmt.Sprintf("entry%d", lvl)] = δ
			what = fmt.Sprintf("entry of level %d is not the sum of the child", lvl)
		case "entry2":
			lvl = ar.Intn(D - 1)
			oth = ar.Intn(D - 1)
			if lvl == oth {
				continue
			}
			dev[fmt.Sprintf("entry%d", lvl)] = δ
			dev[fmt.Sprintf("entry%d", oth)] = zneg(δ)
			what = fmt.Sprintf("entries of levels %d and %d differ from the sums of the children by opposite amounts", lvl, oth)
		case "sum+entry":
			oth = ar.Intn(D - 1)
			dev[fmt.Sprintf("sum%d", lvl)] = δ
			dev[fmt.Sprintf("entry%d", oth)] = zneg(δ)
			what = fmt.Sprintf("sum of level %d and entry of level %d are wrong", lvl, oth)
		case "range":
			ro = rangeModes[ar.Intn(len(rangeModes))]
			dev[fmt.Sprintf("range%d", lvl)] = z.outOfRange()
			if ar.Chance(0.2) {
				dev[fmt.Sprintf("range%d", oth)] = z.outOfRange()
			}
			what = fmt.Sprintf("entries of level %d out of range, evidence: %s", lvl, ro)
		}
		if !c.Inject("byzantine-"+kind, key) {
			continue
		}
		c.Event("%s: %s", key, what)
		var p pol.LiabilityProof
		var root Root
		ok := false
		c.Do(op, key, func() {
			z.values(dev)
			leaf := int(path[D-1])
			sigma := []string{"", "committed", "shown"}[ar.Intn(3)]
			switch kind {
			case "vertex":
				// the parent of level l commits to another vertex than the proof shows
				l := 1 + ar.Intn(D-1)
				z.chain(map[int]*math.Zr{l: zrnd(z.r)})
				root = Root{z.vs[0].V, z.vs[0].W}
				what = fmt.Sprintf("vertex of level %d is not the committed one (aggregate: %s)", l, sigma)
			case "slot":
				// the parent commits to the shown vertex, but elsewhere
				l := ar.Intn(D - 1)
				other := (int(path[l]) + 1 + ar.Intn(z.n-1)) % z.n
				for i := D - 1; i >= 0; i-- {
					v := z.vs[i]
					v.V = z.commit(v.vals)
					if i < D-1 {
						d := digestOf(z.vs[i+1].V, z.vs[i+1].W)
						v.digs[path[i]] = d
						if i == l {
							v.digs[path[i]] = zrnd(z.r)
							v.digs[other] = d
						}
						v.W = z.commit(v.digs)
					}
					v.proofV, v.proofW = v.V, v.W
				}
				root = Root{z.vs[0].V, z.vs[0].W}
				real := z.path
				z.path = append([]uint16{}, path...)
				if ar.Chance(0.5) {
					z.path[l] = uint16(other)
				}
				p, ok = z.proof(leaf, nil, sigma)
				z.path = real
				what = fmt.Sprintf("vertex of level %d is committed at another position", l+1)
				return
			case "digest2":
				// digests of two levels wrong by opposite amounts
				a, b := 1+ar.Intn(D-1), 1+ar.Intn(D-1)
				if a == b {
					return
				}
				if a > b {
					a, b = b, a
				}
				// bottom-up: first the deeper one
				for i := D - 1; i >= 0; i-- {
					v := z.vs[i]
					v.V = z.commit(v.vals)
					if i < D-1 {
						d := digestOf(z.vs[i+1].V, z.vs[i+1].W)
						if i+1 == b {
							d = zadd(d, δ)
						}
						if i+1 == a {
							d = zsub(d, δ)
						}
						v.digs[path[i]] = d
						v.W = z.commit(v.digs)
					}
					v.proofV, v.proofW = v.V, v.W
				}
				root = Root{z.vs[0].V, z.vs[0].W}
				what = fmt.Sprintf("digests of levels %d and %d are wrong by opposite amounts (aggregate: %s)", a, b, sigma)
			case "rootW":
				z.chain(nil)
				root = Root{z.vs[0].V, z.commit(rndVec(z.r, z.n+2))}
				what = "the tree below the root is not the published one"
			case "rootV":
				z.chain(nil)
				root = Root{base.vs[0].V, z.vs[0].W}
				what = "the root's values are not the published ones"
			case "amount":
				z.chain(nil)
				root = Root{z.vs[0].V, z.vs[0].W}
				vals := z.vs[D-1].vals
				p, ok = z.proof(leaf, nil, "")
				if !ok {
					return
				}
				truth := int64(p.LiabilityProof.Sum)
				switch ar.Intn(6) {
				case 0:
					j := ar.Intn(z.n + 1)
					if j == leaf || !inRange(vals[j]) || zeq(vals[j], vals[leaf]) {
						ok = false
						return
					}
					amt, π := pp.Open(z.e.PP.PPPP, j, vals)
					p.LiabilityProof = pol.TotalProof{LiabilityProof: π, Sum: int(zbigOf(amt).Int64())}
					what = fmt.Sprintf("amount of position %d instead of %d", j, leaf)
				case 1:
					p.LiabilityProof.Sum += 1 + ar.Intn(5)
					what = "larger amount"
				case 2:
					p.LiabilityProof.Sum -= 1 + ar.Intn(5)
					what = "smaller amount"
				case 3:
					p.LiabilityProof.Sum = -p.LiabilityProof.Sum
					what = "negative amount"
				case 4:
					p.LiabilityProof.Sum = 0
					what = "zero"
				case 5:
					// move the difference into the opening
					claim := int64(z.r.Intn(1000))
					dz := zsub(zi(truth), zi(claim))
					g := z.e.PP.PPPP.G1s[ar.Intn(len(z.e.PP.PPPP.G1s))]
					p.LiabilityProof.LiabilityProof = gcopyAdd(p.LiabilityProof.LiabilityProof, g.Mul(dz))
					p.LiabilityProof.Sum = int(claim)
					what = "amount with a shifted opening"
				}
				ok = int64(p.LiabilityProof.Sum) != truth
				return
			case "total":
				z.chain(nil)
				root = Root{z.vs[0].V, z.vs[0].W}
				z.attackTotal(ar, root)
				return
			default:
				z.chain(nil)
				root = Root{z.vs[0].V, z.vs[0].W}
			}
			p, ok = z.proof(leaf, ro, sigma)
		})
		if !ok {
			continue
		}
		c.Do(client, "verify "+key, func() {
			acc := z.accept(p, id, root)
			c.Count("inconsistent paths offered")
			if kind == "range" {
				c.Count("range evidence: " + ro.String())
			}
			if acc {
				c.Violate("inconsistent-path-accepted", "a client accepts a path whose %s (id %s, %d levels, fan-out %d)", what, id, D, z.n)
			}
		})
	}
}

// attackTotal shows an auditor other totals.
func (z *byz) attackTotal(r *simrt.Rng, root Root) {
	c := z.c
	vals := z.vs[0].vals
	truth := zbigOf(vals[z.n])
	if truth.BitLen() > 63 {
		return
	}
	t := truth.Int64()
	_, πt := pp.Open(z.e.PP.PPPP, z.n, vals)
	offer := func(sum int64, π *math.G1, what string) {
		if sum == t {
			return
		}
		c.Count("false totals offered")
		if z.e.acceptedTot(pol.TotalProof{LiabilityProof: π, Sum: int(sum)}, root) {
			c.Violate("false-total-accepted", "an auditor accepts the total %d (%s) for a root whose sum is %d", sum, what, t)
		}
	}
	for k := 0; k < 4; k++ {
		switch r.Intn(5) {
		case 0:
			j := r.Intn(z.n)
			v, π := pp.Open(z.e.PP.PPPP, j, vals)
			if inRange(v) {
				offer(zbigOf(v).Int64(), π, fmt.Sprintf("entry %d", j))
			}
		case 1:
			offer(t+int64(r.Intn(9)-4), πt, "genuine opening")
		case 2:
			offer(-t, πt, "negated")
		case 3:
			s := int64(r.Intn(1000))
			g := z.e.PP.PPPP.G1s[r.Intn(len(z.e.PP.PPPP.G1s))]
			offer(s, gcopyAdd(πt, g.Mul(zsub(zi(t), zi(s)))), "shifted opening")
		case 4:
			// an opening of a vertex that differs in the sum
			other := append(common.Vec{}, vals...)
			other[z.n] = zi(int64(r.Intn(1000)))
			v, π := pp.Open(z.e.PP.PPPP, z.n, other)
			offer(zbigOf(v).Int64(), π, "opening of another vertex")
		}
	}
}

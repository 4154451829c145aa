package main

import (
	"fmt"
	"math/big"
	"strings"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"

	"simrt"
)

func init() {
	register(&Def{ID: "C14", Run: runC14, Quick: 90000, QuickReal: 150, Thorough: 1500000, ThorReal: 1000,
		Rule: "Interleaved prover-verifier sessions of single and aggregated sum arguments sharing public parameters, over a channel that alters, exchanges and misdirects, with honest provers and with dishonest ones for false statements."})
	register(&Def{ID: "C15", Run: runC15, Quick: 70000, QuickReal: 100, Thorough: 1500000, ThorReal: 1000,
		Rule: "Interleaved prover-verifier sessions of single and aggregated equality arguments sharing public parameters, over a channel that alters, exchanges and misdirects, with honest provers and with dishonest ones for false statements."})
	register(&Def{ID: "C16", Run: runC16, Quick: 11000, QuickReal: 24, Thorough: 200000, ThorReal: 400,
		Rule: "Interleaved prover-verifier sessions of range, reduction and inner-product arguments sharing public parameters, over a channel that alters, truncates and misdirects, with honest provers and with dishonest ones for false statements, among them provers that choose values after the challenges."})
}

// verdict of a verification: error, panic.
type verdict struct {
	err error
	pan interface{}
}

func (v verdict) accepted() bool { return v.err == nil && v.pan == nil }

func (v verdict) String() string {
	switch {
	case v.pan != nil:
		return fmt.Sprintf("panic: %v", v.pan)
	case v.err != nil:
		return "rejected: " + v.err.Error()
	}
	return "accepted"
}

func judge(f func() error) verdict {
	var v verdict
	v.pan, _ = simrt.Try(func() { v.err = f() })
	return v
}

// sessions runs k concurrent sessions.
func (c *Ctx) sessions(k int, f func(key string, r *simrt.Rng)) {
	var ts []*simrt.Task
	for i := 0; i < k; i++ {
		key := fmt.Sprintf("session%02d", i)
		if !c.On(key) {
			continue
		}
		ts = append(ts, c.S.Spawn(key, c.Node("node "+key), func() { f(key, c.Rng(key)) }))
	}
	c.Wait(ts...)
}

// honest must be accepted.
func (c *Ctx) mustAccept(v verdict, what string) {
	if simrt.Inert() {
		return
	}
	c.Count("true statements")
	if !v.accepted() {
		c.Violate("true-statement-rejected", "%s: %v", what, v)
	}
}

// refuse must be rejected; strict: with an error.
func (c *Ctx) mustRefuse(v verdict, strict bool, what string) {
	if simrt.Inert() {
		return
	}
	c.Count("false statements")
	if v.accepted() {
		c.Violate("false-statement-accepted", "accepted: %s", what)
	}
	if strict && v.pan != nil {
		c.Violate("verifier-panic", "the verifier panics instead of returning an error (%v): %s", v.pan, what)
	}
}

// knows counts whether the honest mode of a dishonest prover is accepted.
// Otherwise it does not speak the protocol of this code: only the acceptance of what it forges tells something.
func (c *Ctx) knows(ok bool) bool {
	if ok {
		c.Count("dishonest prover accepted in its honest mode")
	} else {
		c.Count("dishonest prover not accepted in its honest mode")
	}
	return ok
}

// drawVec draws a vector of field elements.
func drawVec(r *simrt.Rng, n int) common.Vec {
	v := make(common.Vec, n)
	kind := r.Intn(4)
	for i := range v {
		switch {
		case kind == 0 || r.Chance(0.2):
			v[i] = zrnd(r)
		case kind == 1 && r.Chance(0.7):
			v[i] = zi(0)
		case r.Chance(0.1):
			v[i] = zneg(zi(int64(1 + r.Intn(3))))
		default:
			v[i] = zi(int64(r.Intn(100)))
		}
	}
	return v
}

// partner draws another index below m, often one at a distance that is a power of two.
func partner(r *simrt.Rng, i, m int) int {
	if r.Chance(0.6) {
		d := 1 << uint(r.Intn(10))
		if m > 60 {
			d = 1 << uint(5+r.Intn(5))
		}
		if i+d < m && r.Chance(0.5) {
			return i + d
		}
		if i-d >= 0 {
			return i - d
		}
		if i+d < m {
			return i + d
		}
	}
	j := r.Intn(m - 1)
	if j >= i {
		j++
	}
	return j
}

func (c *Ctx) pick(xs []int, real int, r *simrt.Rng) int {
	if c.Plan.Group == "real" {
		return real
	}
	return xs[r.Intn(len(xs))]
}

func runC14(c *Ctx) {
	r := c.Rng("c14")
	n := c.pick([]int{1, 2, 2, 4, 4, 8, 8, 16, 32}, 4, r)
	var p *sum.PP
	c.Do(c.Node("setup"), "setup", func() {
		p = sum.NewPublicParams(n)
		if r.Chance(0.4) {
			// the parameters as a deployment has them
			q := pp.NewPublicParams(n + 1)
			p.F = q.G1s[n]
			p.Gs = append(common.G1v{}, q.G1s[:n]...)
		}
	})
	c.Event("sum arguments of length %d", n)
	c.sessions(1+r.Intn(3), func(key string, r *simrt.Rng) { c.sumSession(p, n, key, r) })
}

func (c *Ctx) sumSession(p *sum.PP, n int, key string, r *simrt.Rng) {
	m := 1 + r.Intn(6)
	if n <= 4 && c.Plan.Group == "ideal" && r.Chance(0.03) {
		m = []int{17, 64, 256, 257, 300, 520}[r.Intn(6)]
		c.Count("aggregations of many vectors")
	}
	aggregated := m > 1 || r.Chance(0.5)
	commit := func(v common.Vec, rv *math.Zr) *math.G1 {
		V := p.F.Mul(rv)
		V.Add(msm(p.Gs, v))
		return V
	}
	true_ := func() common.Vec {
		v := drawVec(r, n)
		v[n-1] = zi(0)
		v[n-1] = sumOf(v)
		return v
	}
	vs := make([]common.Vec, m)
	rs := rndVec(r, m)
	if r.Chance(0.1) {
		rs[r.Intn(m)] = zi(0)
	}
	V := make(common.G1v, m)
	remake := func(k int) { V[k] = commit(vs[k], rs[k]) }
	for k := range vs {
		vs[k] = true_()
		remake(k)
	}
	prove := func() (*sum.Proof, interface{}) {
		var pr *sum.Proof
		pan, _ := simrt.Try(func() {
			if aggregated {
				pr = sum.NewAggregatedArgument(p, V, vs, rs)
			} else {
				_, pr = sum.NewArgument(p, V[0], vs[0], rs[0])
			}
		})
		return pr, pan
	}
	verify := func(pr *sum.Proof, V common.G1v) verdict {
		return judge(func() error {
			if aggregated {
				return pr.VerifyAggregated(p, V)
			}
			return pr.Verify(p, &sum.Argument{V: V[0]})
		})
	}
	desc := fmt.Sprintf("%d vectors of length %d, aggregated %v", m, n, aggregated)
	kind := r.Intn(10)
	if kind < 5 {
		pr, pan := prove()
		if pan != nil {
			c.Violate("prover-panic", "the prover fails for a true statement (%s): %v", desc, pan)
		}
		if simrt.Inert() {
			return
		}
		if !aggregated && r.Chance(0.3) {
			if pan, _ := simrt.Try(func() { V[0] = sum.NewCommitment(p, vs[0], rs[0]).V }); pan != nil {
				c.Violate("prover-panic", "NewCommitment fails for a true statement: %v", pan)
			}
		}
		c.Event("%s: true, %s", key, desc)
		c.mustAccept(verify(pr, V), "sum argument, "+desc)
		for k := 0; k < 4; k++ {
			ck := fmt.Sprintf("%s.channel%d", key, k)
			q := deepCopy(pr)
			W := append(common.G1v{}, V...)
			what := ""
			switch r.Intn(6) {
			case 0, 1, 2:
				var ls []Leaf
				for _, l := range leaves(q) {
					if !l.Redundant {
						ls = append(ls, l)
					}
				}
				what = pickLeaf(ls, r).alter(r, ls)
			case 3:
				k := r.Intn(m)
				switch r.Intn(3) {
				case 0:
					W[k] = gcopyAdd(W[k], curve.GenG1)
				case 1:
					W[k] = gcopyAdd(W[k], p.Gs[r.Intn(n)])
				case 2:
					W[k] = commit(true_(), zrnd(r))
				}
				what = fmt.Sprintf("commitment %d altered", k)
			case 4:
				if m > 1 {
					i, j := r.Intn(m), r.Intn(m)
					if !W[i].Equals(W[j]) {
						W[i], W[j] = W[j], W[i]
						what = fmt.Sprintf("commitments %d and %d exchanged", i, j)
					}
				}
			case 5:
				if aggregated {
					switch r.Intn(3) {
					case 0:
						W = append(W, commit(true_(), zrnd(r)))
						what = "one more commitment"
					case 1:
						// (leaving out a commitment to nothing does not change what is aggregated)
						if m > 1 && !W[m-1].IsInfinity() {
							W = W[:m-1]
							what = "one commitment less"
						}
					case 2:
						if m > 1 {
							W = W[1:]
							what = "without the first commitment"
						}
					}
				}
			}
			if what != "" && c.Inject("channel-alters", ck) {
				c.mustRefuse(verify(q, W), false, "sum argument with "+what+", "+desc)
			}
		}
		c.mustAccept(verify(pr, V), "sum argument once more, "+desc)
		return
	}
	// false statements
	δ := zrnd(r)
	if r.Chance(0.7) {
		δ = zi(int64(1 + r.Intn(3)))
	}
	bad := func(k int, d *math.Zr) {
		vs[k] = append(common.Vec{}, vs[k]...)
		j := r.Intn(n)
		if j == n-1 {
			d = zneg(d)
		}
		vs[k][j] = zadd(vs[k][j], d)
		remake(k)
	}
	trick := []string{"plain", "plain", "cancel", "cancel", "x:c", "x:W", "x:V", "c:foreign", "c:claim", "t", "t", "t"}[r.Intn(12)]
	if m > 60 && r.Chance(0.6) {
		trick = "cancel"
	}
	if !c.Inject("dishonest-prover", key+":"+trick) {
		return
	}
	var pr *sum.Proof
	what := trick
	switch trick {
	case "plain", "cancel":
		i := r.Intn(m)
		bad(i, δ)
		what = fmt.Sprintf("vector %d is wrong", i)
		if trick == "cancel" && m > 1 {
			j := partner(r, i, m)
			bad(j, zneg(δ))
			what = fmt.Sprintf("vectors %d and %d are wrong by opposite amounts", i, j)
		}
		var pan interface{}
		pr, pan = prove()
		if pan != nil {
			c.Count("dishonest prover refused")
			return
		}
	case "t":
		// the challenge leaves out some commitments, which are adapted to it
		if m < 2 {
			return
		}
		aggregated = true
		i := r.Intn(m)
		j := r.Intn(m - 1)
		if j >= i {
			j++
		}
		bad(i, δ)
		var list []byte
		mode := r.Intn(5)
		for k := range V {
			in := k != j
			switch mode {
			case 1:
				in = k == 0 && k != j
			case 2:
				in = k == m-1 && k != j
			case 3:
				in = k < j
			case 4:
				in = k > j
			}
			if in {
				list = append(list, V[k].Bytes()...)
			}
		}
		τ := hashZr(list)
		t := make(common.Vec, m)
		t[0] = zi(1)
		for k := 1; k < m; k++ {
			t[k] = zmul(t[k-1], τ)
		}
		bad(j, zneg(zdiv(zmul(t[i], δ), t[j])))
		what = fmt.Sprintf("vector %d is wrong, vector %d chosen after the challenge, mode %d", i, j, mode)
		// aggregate by ourselves
		v := make(common.Vec, n)
		for x := range v {
			v[x] = zi(0)
			for k := range vs {
				v[x] = zadd(v[x], zmul(t[k], vs[k][x]))
			}
		}
		A := msm(V, t)
		f := &sumForger{p, r, nil}
		var ok bool
		if pr, _, _, ok = f.prove(A, v, dot(rs, t)); !ok {
			return
		}
	default:
		// the forger works on one commitment
		m, vs, rs, V = 1, vs[:1], rs[:1], V[:1]
		aggregated = false
		// its honest mode
		f := &sumForger{p, r, nil}
		h, _, _, ok := f.prove(V[0], vs[0], rs[0])
		if simrt.Inert() {
			return
		}
		c.knows(ok && verify(h, V).accepted())
		bad(0, δ)
		f.o = opt{trick: true}
		var V2 *math.G1
		pr, V2, _, _ = f.prove(V[0], vs[0], rs[0])
		V[0] = V2
		what = "dishonest prover, trick " + trick
	}
	c.Count("trick " + trick)
	if simrt.Inert() {
		return
	}
	c.Event("%s: false, %s, %s", key, desc, what)
	c.mustRefuse(verify(pr, V), false, fmt.Sprintf("false sum argument (%s): %s", what, desc))
}

func runC15(c *Ctx) {
	r := c.Rng("c15")
	n := c.pick([]int{3, 4, 5, 5, 9, 9, 17, 33}, 5, r)
	m := c.pick([]int{1, 2, 2, 4, 4, 8, 16}, 2, r)
	if n <= 5 && c.Plan.Group == "ideal" && r.Chance(0.03) {
		m = []int{64, 128, 256, 512}[r.Intn(4)]
		c.Count("aggregations of many pairs")
	}
	huge := c.Plan.Group == "ideal" && c.Plan.N%20000 == 777
	if huge {
		n, m = 3, 65536
		c.Count("aggregations of 65536 pairs")
	}
	var p *poe.PP
	c.Do(c.Node("setup"), "setup", func() { p = poe.NewPublicParams(n, m) })
	c.Event("equality arguments of %d pairs of vectors of length %d", m, n)
	sessions := 1 + r.Intn(3)
	if huge {
		sessions = 1
	}
	c.sessions(sessions, func(key string, r *simrt.Rng) {
		if !huge && r.Chance(0.3) {
			c.eqSingle(p, n, key, r)
		} else {
			c.eqSession(p, n, m, key, r)
		}
	})
}

func (c *Ctx) eqPair(p *poe.PP, n int, r *simrt.Rng) (v, w common.Vec, i, j int) {
	v, w = drawVec(r, n), drawVec(r, n)
	i, j = r.Intn(n-1), r.Intn(n-1)
	if r.Chance(0.3) {
		j = n - 2
	}
	v[n-1], w[n-1] = zrnd(r), zrnd(r)
	w[j] = v[i]
	if r.Chance(0.1) {
		// the same commitment on both sides
		w, j = v, i
	}
	return
}

func (c *Ctx) eqSession(p *poe.PP, n, m int, key string, r *simrt.Rng) {
	e := &poe.Equalities{PP: p, RO: poe.RO}
	var vs, ws []common.Vec
	for k := 0; k < m; k++ {
		v, w, i, j := c.eqPair(p, n, r)
		vs, ws = append(vs, v), append(ws, w)
		e.I, e.J = append(e.I, i), append(e.J, j)
		e.V, e.W = append(e.V, pp.Commit(p.PP, v)), append(e.W, pp.Commit(p.PP, w))
	}
	desc := fmt.Sprintf("%d pairs of length %d, indices %v %v", m, n, e.I, e.J)
	if m > 1000 {
		desc = fmt.Sprintf("%d pairs of length %d", m, n)
	}
	verify := func(e *poe.Equalities, pr *poe.AggregatedProof) verdict {
		return judge(func() error { return e.Verify(pr) })
	}
	clone := func() *poe.Equalities {
		q := *e
		q.V, q.W = append(common.G1v{}, e.V...), append(common.G1v{}, e.W...)
		q.I, q.J = append([]int{}, e.I...), append([]int{}, e.J...)
		return &q
	}
	if m <= 1000 && r.Intn(10) < 5 {
		var pr *poe.AggregatedProof
		pan, st := simrt.Try(func() { pr = e.Prove(vs, ws) })
		if simrt.Inert() {
			return
		}
		if pan != nil {
			c.Violate("prover-panic", "the prover fails for a true statement (%s): %v\n%s", desc, pan, st)
		}
		c.Event("%s: true, %s", key, desc)
		c.mustAccept(verify(clone(), pr), "equality argument, "+desc)
		for k := 0; k < 4; k++ {
			ck := fmt.Sprintf("%s.channel%d", key, k)
			q, a := deepCopy(pr), clone()
			what := ""
			x := r.Intn(m)
			switch r.Intn(7) {
			case 0, 1, 2:
				var ls []Leaf
				for _, l := range leaves(q) {
					if !l.Redundant {
						ls = append(ls, l)
					}
				}
				what = pickLeaf(ls, r).alter(r, ls)
			case 3:
				g := curve.GenG1
				if r.Chance(0.5) {
					g = p.PP.G1s[r.Intn(n)]
				}
				if r.Chance(0.5) {
					a.V[x] = gcopyAdd(a.V[x], g)
				} else {
					a.W[x] = gcopyAdd(a.W[x], g)
				}
				what = fmt.Sprintf("commitment %d altered", x)
			case 4:
				// another index holds another value
				if r.Chance(0.5) {
					i := r.Intn(n - 1)
					if i != a.I[x] && !zeq(vs[x][i], vs[x][a.I[x]]) {
						a.I[x] = i
						what = fmt.Sprintf("first index of pair %d altered", x)
					}
				} else {
					j := r.Intn(n - 1)
					if j != a.J[x] && !zeq(ws[x][j], ws[x][a.J[x]]) {
						a.J[x] = j
						what = fmt.Sprintf("second index of pair %d altered", x)
					}
				}
			case 5:
				if !a.V[x].Equals(a.W[x]) && !(a.I[x] == a.J[x] && zeq(vs[x][a.I[x]], ws[x][a.J[x]]) && false) {
					a.V[x], a.W[x] = a.W[x], a.V[x]
					what = fmt.Sprintf("commitments of pair %d exchanged", x)
				}
			case 6:
				y := r.Intn(m)
				if !a.V[x].Equals(a.V[y]) && !zeq(vs[x][a.I[x]], vs[y][a.I[y]]) {
					a.V[x], a.V[y] = a.V[y], a.V[x]
					what = fmt.Sprintf("first commitments of pairs %d and %d exchanged", x, y)
				}
			}
			if what != "" && c.Inject("channel-alters", ck) {
				c.mustRefuse(verify(a, q), false, "equality argument with "+what+", "+desc)
			}
		}
		c.mustAccept(verify(clone(), pr), "equality argument once more, "+desc)
		return
	}
	δ := zrnd(r)
	if r.Chance(0.7) {
		δ = zi(int64(1 + r.Intn(3)))
	}
	side, sides := r.Chance(0.5), r.Chance(0.6)
	bad := func(k int, d *math.Zr) {
		if sides && side || !sides && r.Chance(0.5) {
			vs[k] = append(common.Vec{}, vs[k]...)
			vs[k][e.I[k]] = zadd(vs[k][e.I[k]], d)
			e.V[k] = pp.Commit(p.PP, vs[k])
		} else {
			ws[k] = append(common.Vec{}, ws[k]...)
			ws[k][e.J[k]] = zsub(ws[k][e.J[k]], d)
			e.W[k] = pp.Commit(p.PP, ws[k])
		}
	}
	trick := []string{"plain", "plain", "cancel", "cancel", "x:Va", "x:Wa", "t:V", "t:U", "x:eV", "x:eW", "t:eV", "t:eW", "c:foreign", "c:claim", "c:eq"}[r.Intn(15)]
	if m > 60 && (m > 1000 || r.Chance(0.6)) {
		trick = "cancel"
	}
	if !c.Inject("dishonest-prover", key+":"+trick) {
		return
	}
	var pr *poe.AggregatedProof
	what := trick
	i := r.Intn(m)
	switch trick {
	case "plain", "cancel":
		bad(i, δ)
		what = fmt.Sprintf("pair %d differs", i)
		if trick == "cancel" && m > 1 {
			j := partner(r, i, m)
			if m > 1000 {
				j = (i + 1<<uint(8+r.Intn(8))) % m
				if c.Plan.N < 20000 || r.Chance(0.5) {
					j = (i + m/2) % m
				}
			}
			bad(j, zneg(δ))
			what = fmt.Sprintf("pairs %d and %d differ by opposite amounts", i, j)
		}
		if pan, _ := simrt.Try(func() { pr = e.Prove(vs, ws) }); pan != nil {
			c.Count("dishonest prover refused")
			return
		}
	default:
		f := &eqForger{r, nil}
		h, ok := f.prove(e, vs, ws)
		if simrt.Inert() {
			return
		}
		c.knows(ok && verify(clone(), h).accepted())
		f.o = opt{trick: true}.omitting(r, "x:Va", "x:Wa", "x:eV", "x:eW", "t:Va", "t:Wa", "t:eV", "t:eW", "t:V", "t:U")
		if !strings.Contains(trick, ":e") || trick == "c:eq" {
			bad(i, δ)
		}
		pr, _ = f.prove(e, vs, ws)
		what = fmt.Sprintf("pair %d differs, dishonest prover, trick %s", i, trick)
	}
	if simrt.Inert() {
		return
	}
	c.Count("trick " + trick)
	c.Event("%s: false, %s, %s", key, desc, what)
	c.mustRefuse(verify(clone(), pr), false, fmt.Sprintf("false equality argument (%s): %s", what, desc))
}

func (c *Ctx) eqSingle(p *poe.PP, n int, key string, r *simrt.Rng) {
	v, w, i, j := c.eqPair(p, n, r)
	e := &poe.Equality{PP: p, RO: poe.RO, I: i, J: j, V: pp.Commit(p.PP, v), W: pp.Commit(p.PP, w)}
	desc := fmt.Sprintf("vectors of length %d, indices %d %d", n, i, j)
	verify := func(e poe.Equality, pr *poe.Proof) verdict { return judge(func() error { return e.Verify(pr) }) }
	if r.Intn(10) < 5 {
		var pr *poe.Proof
		pan, st := simrt.Try(func() { pr = e.Prove(v, w) })
		if simrt.Inert() {
			return
		}
		if pan != nil {
			c.Violate("prover-panic", "the prover fails for a true statement (%s): %v\n%s", desc, pan, st)
		}
		c.Event("%s: true single, %s", key, desc)
		c.mustAccept(verify(*e, pr), "single equality argument, "+desc)
		for k := 0; k < 4; k++ {
			q, a := deepCopy(pr), *e
			what := ""
			switch r.Intn(5) {
			case 0, 1:
				ls := leaves(q)
				what = pickLeaf(ls, r).alter(r, ls)
			case 2:
				if r.Chance(0.5) {
					a.V = gcopyAdd(a.V, p.PP.G1s[r.Intn(n)])
				} else {
					a.W = gcopyAdd(a.W, p.PP.G1s[r.Intn(n)])
				}
				what = "a commitment altered"
			case 3:
				i := r.Intn(n - 1)
				if i != a.I && !zeq(v[i], v[a.I]) {
					a.I = i
					what = "the first index altered"
				}
			case 4:
				j := r.Intn(n - 1)
				if j != a.J && !zeq(w[j], w[a.J]) {
					a.J = j
					what = "the second index altered"
				}
			}
			if what != "" && c.Inject("channel-alters", fmt.Sprintf("%s.channel%d", key, k)) {
				c.mustRefuse(verify(a, q), false, "single equality argument with "+what+", "+desc)
			}
		}
		return
	}
	f := &eqForger{r, nil}
	h := f.proveSingle(e, v, w)
	if simrt.Inert() {
		return
	}
	c.knows(verify(*e, h).accepted())
	trick := []string{"plain", "x:Va", "x:Wa", "t:C", "c:mean", "x:eV", "x:eW", "t:eV", "t:eW"}[r.Intn(9)]
	if !c.Inject("dishonest-prover", key+":"+trick) {
		return
	}
	if !strings.Contains(trick, ":e") {
		w = append(common.Vec{}, w...)
		w[j] = zadd(w[j], zi(int64(1+r.Intn(3))))
		e.W = pp.Commit(p.PP, w)
	}
	f.o = opt{trick: true}.omitting(r, "x:Va", "x:Wa", "x:eV", "x:eW", "t:Va", "t:Wa", "t:eV", "t:eW", "t:C", "t:IJ")
	pr := f.proveSingle(e, v, w)
	if simrt.Inert() {
		return
	}
	c.Count("trick single " + trick)
	c.Event("%s: false single, %s, %s", key, desc, trick)
	c.mustRefuse(verify(*e, pr), false, fmt.Sprintf("false single equality argument (trick %s): %s", trick, desc))
}

func runC16(c *Ctx) {
	r := c.Rng("c16")
	var rp *bp.RangeProofPublicParams
	var ip, rd *bp.PP
	n := c.pick([]int{2, 2, 4, 4, 8}, 2, r)
	k := c.pick([]int{1, 2, 2, 4, 8, 16, 32}, 4, r)
	if k == 1 && r.Chance(0.7) {
		k = 2
	}
	c.Do(c.Node("setup"), "setup", func() {
		rp = bp.NewRangeProofPublicParams(n)
		ip = bp.NewPublicParams(k)
		kk := k
		if kk < 2 {
			kk = 2
		}
		rd = bp.NewPublicParams(kk)
		rd.H = nil
		rd.RecomputeDigest()
	})
	c.Event("range proofs of length %d, inner products of length %d", n, k)
	c.sessions(1+r.Intn(3), func(key string, r *simrt.Rng) {
		switch x := r.Intn(10); {
		case x < 5:
			c.rangeSession(rp, n, key, r)
		case x < 8:
			c.ipaSession(ip, k, key, r)
		default:
			c.reduceSession(rd, len(rd.G), key, r)
		}
	})
}

func (c *Ctx) rangeSession(p *bp.RangeProofPublicParams, n int, key string, r *simrt.Rng) {
	max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
	good := func() common.Vec {
		v := make(common.Vec, n)
		for i := range v {
			switch r.Intn(5) {
			case 0:
				v[i] = zi(0)
			case 1:
				v[i] = zbig(max)
			case 2:
				v[i] = zbig(new(big.Int).Rsh(max, uint(r.Intn(63))))
			case 3:
				v[i] = zi(int64(r.Intn(1000)))
			case 4:
				v[i] = zbig(new(big.Int).SetUint64(r.Uint64() >> 1))
			}
		}
		return v
	}
	commit := func(v common.Vec, rv *math.Zr) *math.G1 {
		V := p.F.Mul(rv)
		V.Add(msm(p.Gs, v))
		return V
	}
	verify := func(rp *bp.RangeProof, V *math.G1) verdict {
		return judge(func() error { return bp.VerifyRange(p, rp, V) })
	}
	v, rv := good(), zrnd(r)
	V := commit(v, rv)
	desc := fmt.Sprintf("%d entries", n)
	if r.Intn(10) < 5 {
		var rp *bp.RangeProof
		pan, st := simrt.Try(func() { rp = bp.ProveRange(p, V, v, rv) })
		if simrt.Inert() {
			return
		}
		if pan != nil {
			c.Violate("prover-panic", "the prover fails for entries in range (%v): %v\n%s", v, pan, st)
		}
		c.Event("%s: in range, %s", key, desc)
		c.mustAccept(verify(rp, V), "range proof, "+desc)
		for k := 0; k < 3; k++ {
			q, W := deepCopy(rp), V
			what := ""
			switch r.Intn(5) {
			case 0, 1, 2:
				var ls []Leaf
				for _, l := range leaves(q) {
					if !l.Redundant {
						ls = append(ls, l)
					}
				}
				what = pickLeaf(ls, r).alter(r, ls)
			case 3:
				W = gcopyAdd(V, p.Gs[r.Intn(n)])
				what = "another commitment"
			case 4:
				W = commit(good(), zrnd(r))
				what = "the commitment to another vector"
			}
			if what != "" && c.Inject("channel-alters", fmt.Sprintf("%s.channel%d", key, k)) {
				c.mustRefuse(verify(q, W), true, "range proof with "+what+", "+desc)
			}
		}
		c.mustAccept(verify(rp, V), "range proof once more, "+desc)
		return
	}
	z := &byz{r: r}
	o := rangeModes[r.Intn(len(rangeModes))]
	if r.Chance(0.1) {
		o = []opt{{"x:V": true}, {"y:x": true}}[r.Intn(2)]
	}
	trick := o.String()
	if trick != "library" && trick != "other commitment" && trick != "other values" {
		o = o.omitting(r, "x:V", "x:W", "x:Q", "y:Q", "y:R", "y:x", "z:C1", "z:C2", "z:Q", "z:R")
	}
	if !c.Inject("dishonest-prover", key+":"+trick) {
		return
	}
	known := true
	if !o["library"] && !o["other commitment"] && !o["other values"] {
		f := &rangeForger{p, V, v, rv, r, nil}
		h, ok := f.prove()
		if simrt.Inert() {
			return
		}
		known = c.knows(ok && verify(h, V).accepted())
	}
	bad := append(common.Vec{}, v...)
	bad[r.Intn(n)] = z.outOfRange()
	if r.Chance(0.2) {
		bad[r.Intn(n)] = z.outOfRange()
	}
	V = commit(bad, rv)
	var rp *bp.RangeProof
	pan, _ := simrt.Try(func() {
		switch {
		case o["library"]:
			rp = bp.ProveRange(p, V, bad, rv)
		case o["other commitment"]:
			rp = bp.ProveRange(p, commit(v, rv), v, rv)
		case o["other values"]:
			rp = bp.ProveRange(p, V, v, rv)
		default:
			f := &rangeForger{p, V, bad, rv, r, o}
			if o["x:V"] || o["y:x"] {
				f.V, f.v = commit(v, rv), v
			}
			if h, ok := f.prove(); ok {
				rp, V, bad = h, f.V, f.v
			}
		}
	})
	if simrt.Inert() {
		return
	}
	if pan != nil || rp == nil {
		c.Count("dishonest prover failed")
		return
	}
	c.Count("trick " + trick)
	c.Event("%s: out of range, %s, %s", key, desc, o)
	c.mustRefuse(verify(rp, V), known, fmt.Sprintf("range proof for entries out of range (%s): %v", o, bad))
}

func (c *Ctx) ipaSession(p *bp.PP, n int, key string, r *simrt.Rng) {
	a, b := drawVec(r, n), drawVec(r, n)
	P := gcopyAdd(msm(p.G, a), msm(p.H, b))
	verify := func(π *bp.InnerProductProof) verdict { return judge(func() error { return π.Verify(p) }) }
	desc := fmt.Sprintf("length %d", n)
	if r.Intn(10) < 5 {
		var π *bp.InnerProductProof
		pan, st := simrt.Try(func() { π = bp.NewInnerProdArgument(p, a, b).Prove() })
		if simrt.Inert() {
			return
		}
		if pan != nil {
			c.Violate("prover-panic", "the prover of inner products fails: %v\n%s", pan, st)
		}
		c.Event("%s: inner product, %s", key, desc)
		if !π.P.Equals(P) || !zeq(π.C, dot(a, b)) {
			c.Violate("wrong-statement", "the inner product argument is about another commitment or product")
		}
		c.mustAccept(verify(π), "inner product, "+desc)
		for k := 0; k < 4; k++ {
			q := deepCopy(π)
			ls := leaves(q)
			what := pickLeaf(ls, r).alter(r, ls)
			if what != "" && c.Inject("channel-alters", fmt.Sprintf("%s.channel%d", key, k)) {
				c.mustRefuse(verify(q), true, "inner product with "+what+", "+desc)
			}
		}
		c.mustAccept(verify(π), "inner product once more, "+desc)
		return
	}
	trick := []string{"claim", "claim", "u:C", "u:P", "lr:L", "lr:R", "lr:U", "other"}[r.Intn(8)]
	if !c.Inject("dishonest-prover", key+":"+trick) {
		return
	}
	h := func() bool {
		// the honest mode: our own rounds
		C := dot(a, b)
		x := ipaX(p, P, C, nil)
		q := *p
		q.U = p.U.Mul(x)
		q.RecomputeDigest()
		lr, fa, fb := ipaRounds(&q, q.U, q.Digest, a, b, p.G, p.H)
		π := &bp.InnerProductProof{}
		f := &fields{π, true}
		f.set("LRs", lr)
		f.set("a", fa)
		f.set("b", fb)
		f.set("P", P)
		f.set("C", C)
		return f.ok && verify(π).accepted()
	}
	ok := h()
	if simrt.Inert() {
		return
	}
	known := c.knows(ok)
	δ := zi(int64(1 + r.Intn(5)))
	if r.Chance(0.3) {
		δ = zrnd(r)
	}
	C := zadd(dot(a, b), δ)
	var π *bp.InnerProductProof
	pan, _ := simrt.Try(func() {
		switch trick {
		case "claim":
			π = ipaProve(p, a, b, nil, C)
			if r.Chance(0.5) {
				setField(π, "C", C)
			}
		case "other":
			π = foreignIPA(r, p, C)
			π.P = P
		case "u:C", "u:P":
			// P carries a share of u that makes up for the difference, given the challenge
			o := opt{trick: true}
			var ρ *math.Zr
			if trick == "u:C" {
				ρ = zrnd(r)
				P = gcopyAdd(P, p.U.Mul(ρ))
				x := ipaX(p, P, C, o)
				C = zsub(dot(a, b), zdiv(ρ, x))
			} else {
				x := ipaX(p, P, C, o)
				ρ = zmul(x, zsub(dot(a, b), C))
				P = gcopyAdd(P, p.U.Mul(ρ))
			}
			x := ipaX(p, P, C, o)
			q := *p
			q.U = p.U.Mul(x)
			q.RecomputeDigest()
			lr, fa, fb := ipaRounds(&q, q.U, q.Digest, a, b, p.G, p.H)
			π = &bp.InnerProductProof{}
			f := &fields{π, true}
			f.set("LRs", lr)
			f.set("a", fa)
			f.set("b", fb)
			f.set("P", P)
			f.set("C", C)
			if !f.ok {
				π = nil
			}
		case "lr:U":
			// the rounds come first, without a share of u; the claim is what they end with
			q := *p
			q.U = p.U.Mul(zrnd(r))
			q.RecomputeDigest()
			none := p.U.Mul(zi(0))
			lr, fa, fb := ipaRounds(&q, none, q.Digest, a, b, p.G, p.H)
			π = &bp.InnerProductProof{}
			f := &fields{π, true}
			f.set("LRs", lr)
			f.set("a", fa)
			f.set("b", fb)
			f.set("P", P)
			f.set("C", zmul(fa, fb))
			if !f.ok || zeq(zmul(fa, fb), dot(a, b)) {
				π = nil // nothing to gain: the statement is true
			}
		default:
			if f, ok := ipaForge(r, p, P, C, opt{trick: true}); ok {
				π = f
			}
		}
	})
	if simrt.Inert() {
		return
	}
	if pan != nil || π == nil {
		c.Count("dishonest prover failed")
		return
	}
	c.Count("trick " + trick)
	c.Event("%s: false inner product, %s, %s", key, desc, trick)
	c.mustRefuse(verify(π), known, fmt.Sprintf("false inner product (%s), %s", trick, desc))
}

func (c *Ctx) reduceSession(p *bp.PP, n int, key string, r *simrt.Rng) {
	v := drawVec(r, n)
	V := msm(p.G, v)
	var rxs common.Vec
	var ru *math.Zr
	verify := func(V *math.G1, Δ [][3]*math.G1, u *math.Zr) verdict {
		return judge(func() (err error) {
			rxs, ru, err = bp.IterativeVerify(p, V, Δ, u)
			return err
		})
	}
	desc := fmt.Sprintf("length %d", n)
	var Δ [][3]*math.G1
	var xs common.Vec
	var u *math.Zr
	if r.Intn(10) < 6 {
		pan, st := simrt.Try(func() { Δ, xs, u = bp.IterativeReduce(p, v, V) })
		if simrt.Inert() {
			return
		}
		if pan != nil {
			c.Violate("prover-panic", "the reduction fails: %v\n%s", pan, st)
		}
		c.Event("%s: reduction, %s", key, desc)
		c.mustAccept(verify(V, Δ, u), "reduction, "+desc)
		if !zeq(ru, dot(foldVec(rxs, n), v)) || len(xs) != len(rxs) {
			c.Violate("wrong-reduction", "the accepted reduced value is not the one of the committed vector (%s)", desc)
		}
		for k := 0; k < 4; k++ {
			type wrap struct {
				Δ [][3]*math.G1
				U *math.Zr
				V *math.G1
			}
			w := deepCopy(&wrap{Δ, u, V})
			ls := leaves(w)
			what := pickLeaf(ls, r).alter(r, ls)
			if what != "" && c.Inject("channel-alters", fmt.Sprintf("%s.channel%d", key, k)) {
				c.mustRefuse(verify(w.V, w.Δ, w.U), true, "reduction with "+what+", "+desc)
			}
		}
		return
	}
	trick := []string{"plain", "plain", "A", "B", "V"}[r.Intn(5)]
	if !c.Inject("dishonest-prover", key+":"+trick) {
		return
	}
	ok := false
	pan, _ := simrt.Try(func() {
		switch trick {
		case "plain":
			// the reduction of another vector
			w := append(common.Vec{}, v...)
			w[r.Intn(n)] = zadd(w[0], zi(1))
			Δ, _, u = bp.IterativeReduce(p, w, V)
			ok = !V.Equals(msm(p.G, w))
		default:
			h := n / 2
			ea, eb := rndVec(r, n), rndVec(r, n)
			A, B := msm(p.G, ea), msm(p.G, eb)
			inner := sha(bytesUnless(opt{"A": trick == "A"}, "A", A.Bytes()), bytesUnless(opt{"B": trick == "B"}, "B", B.Bytes()), p.Digest)
			x := hashZr(inner, bytesUnless(opt{"V": trick == "V"}, "V", V.Bytes()))
			xi := zinv(x)
			g := make(common.G1v, h)
			for i := range g {
				g[i] = gcopyAdd(p.G[i], p.G[h+i].Mul(xi))
			}
			v2 := rndVec(r, h)
			V2 := msm(g, v2)
			switch trick {
			case "A":
				A = gsub(gsub(V2, V), B.Mul(xi)).Mul(xi)
			case "B":
				B = gsub(gsub(V2, V), A.Mul(x)).Mul(x)
			case "V":
				V = gsub(gsub(V2, A.Mul(x)), B.Mul(xi))
				for i := range v {
					e := v2[i%h]
					if i >= h {
						e = zmul(e, xi)
					}
					v[i] = zsub(zsub(e, zmul(x, ea[i])), zmul(xi, eb[i]))
				}
			}
			Δ = [][3]*math.G1{{A, B, V2}}
			if h > 1 {
				q := *p
				q.G = g
				rest, _, fu := bp.IterativeReduce(&q, v2, V2)
				Δ, u = append(Δ, rest...), fu
			} else {
				u = v2[0]
			}
			ok = true
		}
	})
	if simrt.Inert() {
		return
	}
	if pan != nil || !ok {
		c.Count("dishonest prover failed")
		return
	}
	c.Count("trick reduction " + trick)
	c.Event("%s: false reduction, %s, %s", key, desc, trick)
	res := verify(V, Δ, u)
	if res.accepted() && zeq(ru, dot(foldVec(rxs, n), v)) {
		c.Count("reduction happens to be true")
		return
	}
	c.mustRefuse(res, true, fmt.Sprintf("false reduction (%s), %s", trick, desc))
}

package main

import (
	"fmt"

	"pol/common"
	"pol/pp"

	math "github.com/IBM/mathlib"

	"simrt"
)

func init() {
	register(&Def{ID: "C17", Run: runC17, Quick: 90000, QuickReal: 60, Thorough: 1500000, ThorReal: 600,
		Rule: "Interleaved clients of one set of public parameters, each with its own vector commitments, histories of updates, openings, aggregated openings, openings altered or misdirected on the way, and dishonest openers; compared with a vector model and fresh commitments."})
}

type vcom struct {
	C *math.G1
	m common.Vec
	// model
	ref common.Vec
}

type ppClient struct {
	c    *Ctx
	p    *pp.PP
	n    int
	name string
	v    []*vcom
	r    *simrt.Rng
}

func ppPrint(p *pp.PP) uint64 {
	h := simrt.HashString(uint64(p.N), string(p.Digest))
	for _, g := range p.G1s {
		h = simrt.HashString(h, string(g.Bytes()))
	}
	for _, g := range p.G2s {
		h = simrt.HashString(h, string(g.Bytes()))
	}
	return simrt.HashString(h, string(p.Gt.Bytes()))
}

func runC17(c *Ctx) {
	r := c.Rng("c17")
	n := c.pick([]int{1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 65}, 2+r.Intn(4), r)
	var p *pp.PP
	c.Do(c.Node("setup"), "setup", func() { p = pp.NewPublicParams(n) })
	before := ppPrint(p)
	k := 1 + r.Intn(3)
	c.Event("vectors of length %d, %d clients", n, k)
	many := c.Plan.Group == "ideal" && n <= 5 && r.Chance(0.02)
	var cls []*ppClient
	var ts []*simrt.Task
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("client%d", i)
		if !c.On(name) {
			continue
		}
		cl := &ppClient{c: c, p: p, n: n, name: name, r: c.Rng(name)}
		cls = append(cls, cl)
		ts = append(ts, c.S.Spawn(name, c.Node(name), func() { cl.run(many) }))
	}
	c.Wait(ts...)
	for _, cl := range cls {
		cl.intact("at the end")
	}
	if ppPrint(p) != before {
		c.Violate("parameters-changed", "the public parameters were changed")
	}
}

// entry draws an entry of a vector.
func entry(r *simrt.Rng) *math.Zr {
	switch r.Intn(5) {
	case 0:
		return zi(0)
	case 1:
		return zi(1)
	case 2:
		return zneg(zi(int64(1 + r.Intn(5))))
	case 3:
		return zi(int64(r.Uint64() >> 2))
	}
	return zrnd(r)
}

func copyVec(v common.Vec) common.Vec {
	w := make(common.Vec, len(v))
	for i := range v {
		w[i] = v[i].Copy()
	}
	return w
}

func (cl *ppClient) fresh() *vcom {
	m := make(common.Vec, cl.n)
	kind := cl.r.Intn(3)
	for i := range m {
		switch kind {
		case 0:
			m[i] = zi(0)
		default:
			m[i] = entry(cl.r)
		}
	}
	v := &vcom{m: m, ref: copyVec(m)}
	v.C = pp.Commit(cl.p, m)
	return v
}

func (cl *ppClient) intact(when string) {
	for k, v := range cl.v {
		for i := range v.ref {
			if !zeq(v.ref[i], v.m[i]) {
				cl.c.Violate("vector-changed", "%s: entry %d of vector %d of %s was changed %s", cl.name, i, k, cl.name, when)
			}
		}
		if C := pp.Commit(cl.p, copyVec(v.ref)); !C.Equals(v.C) {
			cl.c.Violate("commitment-wrong", "%s: commitment %d is not a fresh commitment to the current vector (%s)", cl.name, k, when)
		}
	}
}

func (cl *ppClient) run(many bool) {
	c, r := cl.c, cl.r
	for k := 1 + r.Intn(4); k > 0; k-- {
		cl.v = append(cl.v, cl.fresh())
	}
	ops := 3 + r.Intn(10)
	for o := 0; o < ops; o++ {
		key := fmt.Sprintf("%s.op%02d", cl.name, o)
		if !c.On(key) {
			continue
		}
		v := cl.v[r.Intn(len(cl.v))]
		i := r.Intn(cl.n)
		if r.Chance(0.2) {
			i = cl.n - 1
		}
		switch x := r.Intn(10); {
		case x < 4:
			mi := entry(r)
			if r.Chance(0.15) {
				mi = v.m[i] // the very same value, possibly the very same pointer
			}
			keep := mi.Copy()
			pan, stack := simrt.Try(func() { pp.Update(cl.p, v.C, v.m, mi, i) })
			if simrt.Inert() {
				return
			}
			if pan != nil {
				c.Violate("update-failed", "Update at %d of %d failed: %v\n%s", i, cl.n, pan, stack)
			}
			if !zeq(mi, keep) {
				c.Violate("vector-changed", "Update changes the new value it is given")
			}
			// it is up to the caller to keep the vector; an implementation that stores the entry is as good
			v.m[i] = mi
			v.ref[i] = keep
			c.Count("updates")
			c.Event("%s: update %d", key, i)
			if r.Chance(0.4) {
				cl.intact("after an update")
			}
		case x < 7:
			cl.open(key, v, i)
		default:
			cl.aggregate(key, many && o == 3)
		}
		if r.Chance(0.3) {
			cl.intact("meanwhile")
		}
	}
}

func (cl *ppClient) open(key string, v *vcom, i int) {
	c, r := cl.c, cl.r
	var mi *math.Zr
	var π *math.G1
	pan, stack := simrt.Try(func() { mi, π = pp.Open(cl.p, i, v.m) })
	if simrt.Inert() {
		return
	}
	if pan != nil {
		c.Violate("open-failed", "Open at %d of %d failed: %v\n%s", i, cl.n, pan, stack)
	}
	if !zeq(mi, v.ref[i]) {
		c.Violate("opened-value", "Open returns another value for entry %d", i)
	}
	c.Event("%s: open %d", key, i)
	mi = mi.Copy()
	cl.verify(mi, π, v.C, i, true, fmt.Sprintf("entry %d of %d", i, cl.n))
	// to no other value, position or commitment
	for k := 0; k < 3; k++ {
		switch r.Intn(4) {
		case 0:
			w := []*math.Zr{zadd(mi, zi(1)), zneg(mi), zi(0), entry(r), zadd(mi, zi(1<<32)), v.ref[r.Intn(cl.n)]}[r.Intn(6)]
			if !zeq(w, mi) && c.Inject("value", key+fmt.Sprint(k)) {
				cl.verify(w, π, v.C, i, false, fmt.Sprintf("another value for entry %d", i))
			}
		case 1:
			j := r.Intn(cl.n)
			// the same opening at another position: accepted only if it happens to be right there
			if j != i && !zeq(v.ref[j], mi) && c.Inject("position", key+fmt.Sprint(k)) {
				cl.verify(mi, π, v.C, j, false, fmt.Sprintf("the opening of entry %d for entry %d", i, j))
			}
		case 2:
			w := cl.v[r.Intn(len(cl.v))]
			if r.Chance(0.3) {
				w = cl.fresh()
			}
			if !w.C.Equals(v.C) && !zeq(w.ref[i], mi) && c.Inject("commitment", key+fmt.Sprint(k)) {
				cl.verify(mi, π, w.C, i, false, fmt.Sprintf("the opening of entry %d for another commitment", i))
			}
		case 3:
			q := π.Copy()
			switch r.Intn(4) {
			case 0:
				q.Add(curve.GenG1)
			case 1:
				q = curve.GenG1.Mul(zrnd(r))
			case 2:
				q.Sub(π)
			case 3:
				q = v.C.Copy()
			}
			if !q.Equals(π) && c.Inject("opening", key+fmt.Sprint(k)) {
				cl.verify(mi, q, v.C, i, false, fmt.Sprintf("an altered opening of entry %d", i))
			}
		}
	}
}

func (cl *ppClient) verify(mi *math.Zr, π, C *math.G1, i int, want bool, what string) {
	fm, fp, fc := string(mi.Bytes()), string(π.Bytes()), string(C.Bytes())
	v := judge(func() error { return pp.Verify(cl.p, mi, π, C, i) })
	if want {
		cl.c.mustAccept(v, what)
	} else {
		cl.c.mustRefuse(v, true, what)
	}
	if fm != string(mi.Bytes()) || fp != string(π.Bytes()) || fc != string(C.Bytes()) {
		cl.c.Violate("argument-changed", "Verify changes what it verifies (%s)", what)
	}
}

func (cl *ppClient) aggregate(key string, many bool) {
	c, r := cl.c, cl.r
	k := 1 + r.Intn(6)
	if many {
		k = 250 + r.Intn(20)
	}
	var vs []*vcom
	idx := make([]int, k)
	val := make(common.Vec, k)
	com := make(common.G1v, k)
	prf := make([]*math.G1, k)
	for j := 0; j < k; j++ {
		v := cl.v[r.Intn(len(cl.v))]
		if many && r.Chance(0.3) || r.Chance(0.2) {
			v = cl.fresh()
			if r.Chance(0.3) {
				w := entry(r)
				i := r.Intn(cl.n)
				pp.Update(cl.p, v.C, v.m, w, i)
				v.m[i] = w
				v.ref[i] = w.Copy()
			}
		}
		vs = append(vs, v)
		idx[j] = r.Intn(cl.n)
		var m *math.Zr
		m, prf[j] = pp.Open(cl.p, idx[j], v.m)
		val[j] = m.Copy()
		com[j] = v.C
	}
	if simrt.Inert() {
		return
	}
	comPrint := gPrint(com) ^ gPrint(prf)
	c.Event("%s: aggregate %d", key, k)
	t := func(cs common.G1v) common.Vec {
		res := make(common.Vec, len(cs))
		for j := range cs {
			res[j] = pp.RO(cl.p, cs, j)
		}
		return res
	}
	var π *math.G1
	pan, stack := simrt.Try(func() { π = pp.Aggregate(cl.p, com, prf, pp.RO) })
	if simrt.Inert() {
		return
	}
	if pan != nil {
		c.Violate("aggregate-failed", "Aggregate of %d openings failed: %v\n%s", k, pan, stack)
	}
	verify := func(idx []int, com common.G1v, π *math.G1, vals common.Vec) verdict {
		Σ := dot(vals, t(com))
		return judge(func() error { return pp.VerifyAggregation(cl.p, idx, com, π, Σ, pp.RO) })
	}
	c.mustAccept(verify(idx, com, π, val), fmt.Sprintf("%d aggregated openings", k))
	for q := 0; q < 4; q++ {
		idx2 := append([]int{}, idx...)
		com2 := append(common.G1v{}, com...)
		val2 := copyVec(val)
		π2 := π
		what := ""
		a, b := r.Intn(k), r.Intn(k)
		if many && r.Chance(0.6) {
			// far apart, in particular by 256
			a, b = r.Intn(k), k-1
			if k > 256 {
				a = r.Intn(k - 256)
				b = a + 256
			}
		}
		switch r.Intn(9) {
		case 0:
			val2[a] = []*math.Zr{zadd(val[a], zi(1)), zi(0), entry(r), zneg(val[a])}[r.Intn(4)]
			if !zeq(val2[a], val[a]) {
				what = fmt.Sprintf("another value for opening %d", a)
			}
		case 1:
			if !zeq(val[a], val[b]) {
				val2[a], val2[b] = val2[b], val2[a]
				what = fmt.Sprintf("values of openings %d and %d exchanged", a, b)
			}
		case 2:
			// one more, one less
			if a != b {
				d := entry(r)
				val2[a], val2[b] = zadd(val2[a], d), zsub(val2[b], d)
				if !zeq(d, zi(0)) {
					what = fmt.Sprintf("values of openings %d and %d shifted against each other", a, b)
				}
			}
		case 3:
			i := r.Intn(cl.n)
			if i != idx[a] && !zeq(vs[a].ref[i], val[a]) {
				idx2[a] = i
				what = fmt.Sprintf("another position for opening %d", a)
			}
		case 4:
			w := cl.fresh()
			if !w.C.Equals(com[a]) {
				com2[a] = w.C
				what = fmt.Sprintf("another commitment for opening %d", a)
			}
		case 5:
			if !com[a].Equals(com[b]) && (idx[a] != idx[b] || !zeq(val[a], val[b])) {
				com2[a], com2[b] = com2[b], com2[a]
				what = fmt.Sprintf("commitments %d and %d exchanged", a, b)
			}
		case 6:
			π2 = π.Copy()
			π2.Add(curve.GenG1)
			what = "the aggregated opening altered"
		case 7:
			// a prover that picks an entry of one vector after it learned the challenges, so that the errors
			// cancel out: claims another value for a
			if a == b || k > 20 {
				break
			}
			ts := t(com)
			d := zadd(entry(r), zi(1))
			if zeq(d, zi(0)) {
				break
			}
			m2 := copyVec(vs[b].ref)
			// Σ t (claimed - committed) = 0
			m2[idx[b]] = zadd(m2[idx[b]], zdiv(zmul(d, ts[a]), ts[b]))
			com2[b] = pp.Commit(cl.p, m2)
			val2[a] = zadd(val2[a], d)
			prf2 := append([]*math.G1{}, prf...)
			_, prf2[b] = pp.Open(cl.p, idx[b], m2)
			// aggregated under the challenges of before
			π2 = curve.GenG1.Copy()
			π2.Sub(curve.GenG1)
			for j := range prf2 {
				π2.Add(prf2[j].Mul(ts[j]))
			}
			if r.Chance(0.5) {
				π2 = pp.Aggregate(cl.p, com2, prf2, pp.RO)
			}
			what = fmt.Sprintf("a false value for opening %d and commitment %d chosen after the challenges", a, b)
		case 8:
			// one opening left out of the aggregate
			prf2 := append([]*math.G1{}, prf...)
			zero := curve.GenG1.Copy()
			zero.Sub(curve.GenG1)
			if prf2[a].Equals(zero) {
				break
			}
			prf2[a] = zero
			π2 = pp.Aggregate(cl.p, com, prf2, pp.RO)
			what = fmt.Sprintf("opening %d left out", a)
		}
		if what == "" || !c.Inject("aggregate", fmt.Sprintf("%s.%d", key, q)) {
			continue
		}
		c.mustRefuse(verify(idx2, com2, π2, val2), true, fmt.Sprintf("%d aggregated openings, %s", k, what))
	}
	if gPrint(com)^gPrint(prf) != comPrint {
		c.Violate("argument-changed", "commitments or openings were changed by aggregating and verifying")
	}
}

func gPrint(g []*math.G1) uint64 {
	var h uint64
	for _, x := range g {
		h = simrt.HashString(h, string(x.Bytes()))
	}
	return h
}

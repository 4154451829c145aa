package main

import (
	"fmt"
	"math/big"
	"strings"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"

	math "github.com/IBM/mathlib"

	"simrt"
)

func init() {
	register(&Def{ID: "C24", Run: runC24, Quick: 900, QuickReal: 6, Thorough: 20000, ThorReal: 80,
		Rule: "1-4 parties generate 1-3 sets of public parameters each, concurrently and interleaved statement by statement, each from an entropy source of its own that fails at arbitrary reads, delivers parts, single bytes or nothing for a while, or stalls. Every set that is delivered is examined: the powers of its secret are consistent and the one that must stay unknown is absent, generators of different roles are different and the same for everybody, no two sets share a secret, and commitments, openings and totals made with it verify."})
}

// paramSet is a generated set of public parameters.
type paramSet struct {
	name string
	kind string
	fan  int
	p    *pol.PublicParams
	path func(string) []uint16
	fp   string
}

func runC24(c *Ctx) {
	r := c.Rng("c24")
	real := c.Plan.Group == "real"
	k := 1 + r.Intn(4)
	fans := []int{3, 3, 3, 7, 7, 15, 31}
	if c.Plan.Tier == "thorough" {
		fans = append(fans, 63, 127)
	}
	if real {
		fans = []int{3, 3, 7}
		if k > 2 {
			k = 2
		}
	}
	type job struct {
		fan   int
		kind  string
		fault *entFault
		small int
		key   string
	}
	fan := fans[r.Intn(len(fans))]
	jobs := make([][]job, k)
	for i := range jobs {
		n := 1 + r.Intn(3)
		if real {
			n = 1 + r.Intn(2)
		}
		for j := 0; j < n; j++ {
			x := job{fan: fan, kind: []string{Dense, Sparse}[r.Intn(2)], small: r.Intn(8), key: fmt.Sprintf("gen%d.%d", i, j)}
			if r.Chance(0.4) {
				x.fan = fans[r.Intn(len(fans))]
			}
			if r.Chance(0.35) {
				x.fault = &entFault{kind: entKinds[r.Intn(len(entKinds))], at: r.Intn(3)}
				if r.Chance(0.6) {
					x.fault.at = 0
				}
			}
			jobs[i] = append(jobs[i], x)
		}
	}
	hooks := map[string]func(string, int, []byte) (int, error){}
	c.ent.Hook = func(node string, read int, b []byte) (int, error) {
		if h := hooks[node]; h != nil {
			return h(node, read, b)
		}
		return -1, nil
	}
	own := c.ent.Hook
	sets := make([][]*paramSet, k)
	var ts []*simrt.Task
	for i := range jobs {
		i := i
		name := fmt.Sprintf("party%d", i)
		ts = append(ts, c.S.Spawn(name, c.Node(name), func() {
			for _, j := range jobs[i] {
				if !c.On(j.key) {
					continue
				}
				for attempt := 0; attempt < 2; attempt++ {
					f := copyFault(j.fault)
					if attempt > 0 {
						f = nil
					}
					// armEntropy installs its hook as the only one: keep it under the party's name
					c.armEntropy(name, fmt.Sprintf("%s.%d", j.key, attempt), f, j.small, c.Rng("small:"+j.key))
					hooks[name], c.ent.Hook = c.ent.Hook, own
					before := c.ent.Bytes[name]
					s := &paramSet{name: fmt.Sprintf("set %s (%s, fan-out %d)", j.key, j.kind, j.fan), kind: j.kind, fan: j.fan}
					pan, stack := simrt.Try(func() {
						s.path, s.p = pol.GeneratePublicParams(uint16(j.fan), pol.TreeType(j.kind == Dense))
					})
					hooks[name] = nil
					if simrt.Inert() {
						return
					}
					c.Event("%s %s fan-out %d failed=%v", j.key, j.kind, j.fan, pan != nil)
					if pan != nil {
						if f == nil || f.fired == 0 {
							c.Violate("params-failed", "GeneratePublicParams(%d) fails although its entropy source does not: %v\n%s", j.fan, pan, stack)
						}
						c.Count("generations that failed for want of entropy")
						continue
					}
					if got := c.ent.Bytes[name] - before; got < 32 {
						c.Violate("entropy-missing", "%s was generated from %d bytes of entropy", s.name, got)
					}
					s.fp = published(s.p)
					sets[i] = append(sets[i], s)
					break
				}
			}
		}))
	}
	c.Wait(ts...)
	c.ent.Hook = nil
	var all []*paramSet
	for _, s := range sets {
		all = append(all, s...)
	}
	c.Do(c.Node("auditor"), "audit", func() {
		for _, s := range all {
			s.audit(c)
		}
		compareParams(c, all)
	})
	// all are used at once
	ts = nil
	for _, s := range all {
		s := s
		ts = append(ts, c.S.Spawn("use", c.Node("user of "+s.name), func() { s.use(c, real) }))
	}
	c.Wait(ts...)
	for _, s := range all {
		if published(s.p) != s.fp {
			c.Violate("params-changed", "%s changed after it had been generated", s.name)
		}
	}
}

// published gives the encoding of everything that is published.
func published(p *pol.PublicParams) string {
	var b strings.Builder
	put := func(v ...*math.G1) {
		for _, g := range v {
			b.Write(g.Bytes())
		}
		b.WriteByte('|')
	}
	put(p.PPPP.G1s...)
	for _, g := range p.PPPP.G2s {
		b.Write(g.Bytes())
	}
	b.Write(p.PPPP.Gt.Bytes())
	b.Write(p.PPPP.Digest)
	put(p.SAPP.Gs...)
	put(p.SAPP.H...)
	put(p.SAPP.U, p.SAPP.G, p.SAPP.F, p.SAPP.B)
	put(p.RPPP.Gs...)
	put(p.RPPP.Fs...)
	put(p.RPPP.Hs...)
	put(p.RPPP.G, p.RPPP.H, p.RPPP.F)
	b.Write(p.RPPP.Digest())
	put(p.POEPP.G...)
	put(p.POEPP.H...)
	put(p.POEPP.F)
	b.Write(p.POEPP.Digest)
	return b.String()
}

// role is a published generator that nobody may know a relation for.
type role struct {
	name string
	g    *math.G1
}

func roles(p *pol.PublicParams) []role {
	var res []role
	vec := func(name string, v common.G1v) {
		for i, g := range v {
			res = append(res, role{fmt.Sprintf("%s[%d]", name, i), g})
		}
	}
	one := func(name string, g *math.G1) { res = append(res, role{name, g}) }
	vec("SAPP.H", p.SAPP.H)
	one("SAPP.G", p.SAPP.G)
	one("SAPP.U", p.SAPP.U)
	vec("RPPP.Fs", p.RPPP.Fs)
	vec("RPPP.Hs", p.RPPP.Hs)
	one("RPPP.G", p.RPPP.G)
	one("RPPP.H", p.RPPP.H)
	vec("POEPP.G", p.POEPP.G)
	vec("POEPP.H", p.POEPP.H)
	one("POEPP.F", p.POEPP.F)
	return res
}

func pair(a *math.G1, b *math.G2) *math.Gt {
	return common.G1v{a.Copy()}.InnerProd(common.G2v{b.Copy()})
}

// audit examines one set from outside.
func (s *paramSet) audit(c *Ctx) {
	p, v := s.p, s.p.PPPP
	n := s.fan + 2
	if p.Fanout != s.fan || v.N != n || len(v.G1s) != 2*n || len(v.G2s) != n {
		c.Violate("params-shape", "%s: fan-out %d, vectors of %d entries, %d and %d powers", s.name, p.Fanout, v.N, len(v.G1s), len(v.G2s))
	}
	if len(p.SAPP.Gs) != n-1 || len(p.SAPP.H) != n-1 || len(p.RPPP.Gs) != n-1 || len(p.RPPP.Fs) != 64*(n-1) || len(p.RPPP.Hs) != 64*(n-1) || p.POEPP.PP != v {
		c.Violate("params-shape", "%s: the generators of the arguments do not fit the fan-out", s.name)
	}
	for i := 0; i < n-1; i++ {
		if !p.SAPP.Gs[i].Equals(v.G1s[i]) || !p.RPPP.Gs[i].Equals(v.G1s[i]) {
			c.Violate("params-bases", "%s: the arguments and the commitments use different bases at %d", s.name, i)
		}
	}
	if !p.SAPP.F.Equals(v.G1s[n-1]) || !p.RPPP.F.Equals(v.G1s[n-1]) {
		c.Violate("params-bases", "%s: the arguments and the commitments use different bases for the blinding factor", s.name)
	}
	// one secret, in consecutive powers
	g1, g2 := curve.GenG1.Copy(), curve.GenG2.Copy()
	power := func(i int) *math.G1 { return v.G1s[i-1] } // i from 1
	step := func(what string, a, b *math.Gt) {
		if !a.Equals(b) {
			c.Violate("params-powers", "%s: %s", s.name, what)
		}
	}
	step("the first powers of the two groups differ", pair(power(1), g2), pair(g1, v.G2s[0]))
	probe := func(i int) bool { return c.Plan.Group == "ideal" || i < 2 || i > n-2 }
	for i := 1; i < 2*n; i++ {
		if i == n || i == n+1 || !probe(i) && i != n+2 {
			continue
		}
		step(fmt.Sprintf("power %d does not follow power %d", i+1, i), pair(power(i), v.G2s[0]), pair(power(i+1), g2))
	}
	step(fmt.Sprintf("power %d does not follow power %d", n+2, n), pair(power(n), v.G2s[1]), pair(power(n+2), g2))
	for i := 0; i+1 < n; i++ {
		if probe(i) {
			step(fmt.Sprintf("power %d of the second group does not follow power %d", i+2, i+1), pair(power(1), v.G2s[i]), pair(g1, v.G2s[i+1]))
		}
	}
	step("the target is not the power that is left out", pair(power(1), v.G2s[n-1]), v.Gt)
	// the power in between would open anything
	for i, g := range v.G1s {
		if (probe(i) || i == n) && pair(g, g2).Equals(v.Gt) {
			c.Violate("params-trapdoor", "%s: PPPP.G1s[%d] is the power that must stay unknown", s.name, i)
		}
	}
	for i, g := range v.G2s {
		if probe(i) && pair(g1, g).Equals(v.Gt) {
			c.Violate("params-trapdoor", "%s: PPPP.G2s[%d] is the power that must stay unknown", s.name, i)
		}
	}
	seen := map[string]string{}
	put := func(name string, g *math.G1) {
		if g.IsInfinity() {
			c.Violate("params-generator", "%s: %s is the identity", s.name, name)
		}
		key := string(g.Bytes())
		if o, ok := seen[key]; ok {
			c.Violate("params-generator", "%s: %s and %s are equal", s.name, o, name)
		}
		seen[key] = name
	}
	for i, g := range v.G1s {
		put(fmt.Sprintf("PPPP.G1s[%d]", i), g) // the generator of the group stands in the gap
	}
	for _, x := range roles(p) {
		put(x.name, x.g)
		if c.Plan.Group == "ideal" && pair(x.g, g2).Equals(v.Gt) {
			c.Violate("params-trapdoor", "%s: %s is the power that must stay unknown", s.name, x.name)
		}
	}
	// B is the combination the sum argument needs
	m := len(p.SAPP.H)
	b := p.SAPP.H[0].Copy()
	for i := 1; i < m-1; i++ {
		b.Add(p.SAPP.H[i])
	}
	b.Sub(p.SAPP.H[m-1])
	if !b.Equals(p.SAPP.B) {
		c.Violate("params-bases", "%s: SAPP.B is not the combination of SAPP.H", s.name)
	}
	if c.Plan.Group == "ideal" {
		// here the secret can be looked up
		if e, ok := new(big.Int).SetString(strings.TrimSuffix(strings.TrimPrefix(power(1).String(), "("), ",0)"), 10); ok && e.BitLen() < 100 && e.Sign() >= 0 {
			c.Violate("params-secret", "%s: the secret has %d bits", s.name, e.BitLen())
		}
	}
	// digests cover what they stand for
	q := *v
	q.SetupDigest()
	if string(q.Digest) != string(v.Digest) {
		c.Violate("params-digest", "%s: the digest of the commitment parameters is not that of their content", s.name)
	}
	r := c.Rng("digest:" + s.name)
	q.G1s = append(common.G1v{}, v.G1s...)
	q.G2s = append(common.G2v{}, v.G2s...)
	where := ""
	switch r.Intn(3) {
	case 0:
		i := r.Intn(2 * n)
		q.G1s[i] = q.G1s[i].Mul(curve.NewZrFromInt(3))
		where = fmt.Sprintf("PPPP.G1s[%d]", i)
	case 1:
		i := r.Intn(n)
		q.G2s[i] = q.G2s[i].Mul(curve.NewZrFromInt(3))
		where = fmt.Sprintf("PPPP.G2s[%d]", i)
	default:
		q.Gt = q.Gt.Exp(curve.NewZrFromInt(3))
		where = "PPPP.Gt"
	}
	q.SetupDigest()
	if string(q.Digest) == string(v.Digest) {
		c.Violate("params-digest", "%s: the digest of the commitment parameters does not cover %s", s.name, where)
	}
	o := &poe.PP{G: append(common.G1v{}, p.POEPP.G...), H: append(common.G1v{}, p.POEPP.H...), F: p.POEPP.F, PP: v}
	o.SetupDigest()
	if string(o.Digest) != string(p.POEPP.Digest) {
		c.Violate("params-digest", "%s: the digest of the equality parameters is not that of their content", s.name)
	}
	switch i := r.Intn(len(o.G)); r.Intn(4) {
	case 0:
		o.G[i], where = o.G[i].Mul(curve.NewZrFromInt(3)), fmt.Sprintf("POEPP.G[%d]", i)
	case 1:
		o.H[i], where = o.H[i].Mul(curve.NewZrFromInt(3)), fmt.Sprintf("POEPP.H[%d]", i)
	case 2:
		o.F, where = o.F.Mul(curve.NewZrFromInt(3)), "POEPP.F"
	default:
		o.PP, where = &q, "the digest of the commitment parameters"
	}
	o.SetupDigest()
	if string(o.Digest) == string(p.POEPP.Digest) {
		c.Violate("params-digest", "%s: the digest of the equality parameters does not cover %s", s.name, where)
	}
	copyOf := func() *bp.RangeProofPublicParams {
		return &bp.RangeProofPublicParams{G: p.RPPP.G, H: p.RPPP.H, F: p.RPPP.F, Gs: append(common.G1v{}, p.RPPP.Gs...), Fs: append(common.G1v{}, p.RPPP.Fs...), Hs: append(common.G1v{}, p.RPPP.Hs...)}
	}
	if string(copyOf().Digest()) != string(p.RPPP.Digest()) {
		c.Violate("params-digest", "%s: the digest of the range parameters is not that of their content", s.name)
	}
	b2 := copyOf()
	switch r.Intn(6) {
	case 0:
		b2.G, where = b2.G.Mul(curve.NewZrFromInt(3)), "RPPP.G"
	case 1:
		b2.H, where = b2.H.Mul(curve.NewZrFromInt(3)), "RPPP.H"
	case 2:
		b2.F, where = b2.F.Mul(curve.NewZrFromInt(3)), "RPPP.F"
	case 3:
		i := r.Intn(len(b2.Gs))
		b2.Gs[i], where = b2.Gs[i].Mul(curve.NewZrFromInt(3)), fmt.Sprintf("RPPP.Gs[%d]", i)
	case 4:
		i := r.Intn(len(b2.Fs))
		b2.Fs[i], where = b2.Fs[i].Mul(curve.NewZrFromInt(3)), fmt.Sprintf("RPPP.Fs[%d]", i)
	default:
		i := r.Intn(len(b2.Hs))
		b2.Hs[i], where = b2.Hs[i].Mul(curve.NewZrFromInt(3)), fmt.Sprintf("RPPP.Hs[%d]", i)
	}
	if string(b2.Digest()) == string(p.RPPP.Digest()) {
		c.Violate("params-digest", "%s: the digest of the range parameters does not cover %s", s.name, where)
	}
	c.Count("sets of parameters examined")
}

// compareParams: secrets are never shared, everything else is the same for everybody.
func compareParams(c *Ctx, all []*paramSet) {
	secret := map[string]string{}
	public := map[string]role{}
	digests := map[string]string{}
	for _, s := range all {
		n := s.fan + 2
		for i, g := range s.p.PPPP.G1s {
			if i == n {
				continue
			}
			where := fmt.Sprintf("PPPP.G1s[%d] of %s", i, s.name)
			key := string(g.Bytes())
			if o, ok := secret[key]; ok {
				c.Violate("equal-parameters", "%s and %s are equal", o, where)
			}
			secret[key] = where
		}
		for _, d := range [][2]string{{"commitment", string(s.p.PPPP.Digest)}, {"equality", string(s.p.POEPP.Digest)}, {"range", string(s.p.RPPP.Digest())}} {
			if o, ok := digests[d[1]]; ok {
				c.Violate("equal-digests", "%s and %s have the same digest of the %s parameters", o, s.name, d[0])
			}
			digests[d[1]] = s.name
		}
		for _, x := range roles(s.p) {
			o, ok := public[x.name]
			if !ok {
				public[x.name] = role{s.name, x.g}
				continue
			}
			if !o.g.Equals(x.g) {
				c.Violate("private-generator", "%s is not the same in %s and %s: it does not come from a public seed", x.name, o.name, s.name)
			}
			c.Count("generators compared")
		}
	}
}

// use: commitments, openings and totals of the set verify, and false ones do not.
func (s *paramSet) use(c *Ctx, real bool) {
	r := c.Rng("use:" + s.name)
	n := s.fan + 2
	v := make(common.Vec, n)
	for i := range v {
		v[i] = curve.NewZrFromInt(drawAmount(r))
	}
	var i int
	var val *math.Zr
	var com, π *math.G1
	var err, errFalse error
	i = r.Intn(n)
	pan, stack := simrt.Try(func() {
		com = pp.Commit(s.p.PPPP, v)
		val, π = pp.Open(s.p.PPPP, i, v)
		err = pp.Verify(s.p.PPPP, val, π, com, i)
		wrong := curve.ModAdd(val, curve.NewZrFromInt(1), curve.GroupOrder)
		errFalse = pp.Verify(s.p.PPPP, wrong, π, com, i)
	})
	if simrt.Inert() {
		return
	}
	if pan != nil || err != nil {
		c.Violate("params-use", "%s: entry %d of a vector cannot be opened: %v %v\n%s", s.name, i, err, pan, stack)
	}
	if errFalse == nil {
		c.Violate("params-use", "%s: entry %d opens to a wrong value", s.name, i)
	}
	c.Count("openings")
	if s.kind == Sparse && r.Chance(0.5) {
		return
	}
	e := &Env{Cfg: Cfg{Kind: s.kind, Fanout: s.fan, Full: true}, ID2Path: s.path, PP: s.p}
	e.Depth = digitLen(s.fan)
	if s.kind == Sparse {
		e.Depth = hexLen[s.fan]
	}
	ids := e.IDs(r, 2)
	m := &member{c: c, e: e, name: s.name, ids: ids, model: Model{}, dirty: map[string]int64{}}
	m.disk = NewDisk(c, s.name)
	m.ls = pol.NewLiabilitySet(s.p, m.disk, s.path)
	for _, id := range ids {
		m.set("", id, drawAmount(r), nil)
		if simrt.Inert() {
			return
		}
	}
	m.check(ids)
	c.Count("sets of parameters used for liabilities")
	if !simrt.Inert() && r.Chance(0.06) && s.kind == Dense && s.fan <= 31 && !real {
		m.prove(ids[0])
	}
}

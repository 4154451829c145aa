package main

import (
	"encoding/asn1"
	"encoding/binary"
	"fmt"

	"pol/common"
	"pol/pol"
	"pol/pp"
	"pol/verkle"

	math "github.com/IBM/mathlib"

	"simrt"
)

// tamper is a Byzantine operator that runs the library's own prover over a tree it has tampered with: the records
// in its storage describe an inconsistent path, with commitments that fit the records.
type tamper struct {
	c    *Ctx
	e    *Env
	r    *simrt.Rng
	ls   *pol.LiabilitySet
	path []uint16
	keys []string // of the path's vertices, root first
}

type rec struct {
	vals, digs map[int]*math.Zr
	sum, blind *math.Zr
	V, W       *math.G1
}

func kvMap(kvs []verkle.KV) (map[int]*math.Zr, bool) {
	m := map[int]*math.Zr{}
	for _, kv := range kvs {
		if len(kv.K) != 2 {
			return nil, false
		}
		m[int(binary.BigEndian.Uint16(kv.K))] = curve.NewZrFromBytes(kv.V)
	}
	return m, true
}

func mapKV(m map[int]*math.Zr, n int) []verkle.KV {
	var res []verkle.KV
	for i := 0; i < n; i++ {
		if z, ok := m[i]; ok {
			res = append(res, verkle.KV{K: []byte{byte(i >> 8), byte(i)}, V: z.Bytes()})
		}
	}
	return res
}

func (t *tamper) load(key string) *rec {
	var rv verkle.RawVertex
	if _, err := asn1.Unmarshal(t.ls.DB.Get([]byte(key)), &rv); err != nil {
		return nil
	}
	x := &rec{blind: curve.NewZrFromBytes(rv.BlindingFactor), sum: curve.NewZrFromBytes(rv.Sum)}
	var ok1, ok2 bool
	x.vals, ok1 = kvMap(rv.Values)
	x.digs, ok2 = kvMap(rv.Digests)
	var err error
	if x.V, err = curve.NewG1FromBytes(rv.V); err != nil || !ok1 || !ok2 {
		return nil
	}
	if len(rv.W) > 0 {
		if x.W, err = curve.NewG1FromBytes(rv.W); err != nil {
			return nil
		}
	}
	if !x.V.Equals(t.commitV(x)) {
		return nil // this is not how the vertices are kept
	}
	return x
}

func (t *tamper) commitV(x *rec) *math.G1 {
	n := t.e.Fanout
	m := make(common.Vec, n+2)
	for i := 0; i < n; i++ {
		m[i] = zi(0)
		if v, ok := x.vals[i]; ok {
			m[i] = v
		}
	}
	m[n], m[n+1] = x.sum, x.blind
	return pp.Commit(t.e.PP.PPPP, m)
}

func (t *tamper) commitW(x *rec) *math.G1 {
	n := t.e.Fanout
	m := make(common.Vec, n+2)
	for i := range m {
		m[i] = zi(0)
		if v, ok := x.digs[i]; ok {
			m[i] = v
		}
	}
	return pp.Commit(t.e.PP.PPPP, m)
}

func (t *tamper) store(key string, x *rec) {
	n := t.e.Fanout + 2
	rv := verkle.RawVertex{BlindingFactor: x.blind.Bytes(), Sum: x.sum.Bytes(), Values: mapKV(x.vals, n), Digests: mapKV(x.digs, n), V: x.V.Bytes()}
	if x.W != nil {
		rv.W = x.W.Bytes()
	}
	b, err := asn1.Marshal(rv)
	if err != nil {
		panic(err)
	}
	t.ls.DB.Put([]byte(key), b)
}

// treeAttacks lets the library's prover prove liabilities of inconsistent trees.
func treeAttacks(c *Ctx, e *Env, op, client *simrt.Node) {
	attacks := 3
	if c.Plan.Group == "real" || e.Depth > 12 {
		attacks = 1
	}
	for k := 0; k < attacks; k++ {
		key := fmt.Sprintf("tree%02d", k)
		if !c.On(key) || !c.Inject("byzantine-storage", key) {
			continue
		}
		r := c.Rng(key)
		var what, id string
		var p pol.LiabilityProof
		var root Root
		var ok bool
		c.Do(op, key, func() {
			pan, _ := simrt.Try(func() {
				t := &tamper{c: c, e: e, r: r}
				disk := NewDisk(c, key)
				t.ls = pol.NewLiabilitySet(e.PP, disk, e.ID2Path)
				ids := e.IDs(c.Rng("ids:"+key), 1+r.Intn(4))
				for _, x := range ids {
					id = x
					t.keys = nil
					disk.Arm(func(op string, key []byte, n int) DiskFault {
						if op == "put" {
							t.keys = append([]string{string(key)}, t.keys...)
						}
						return DiskOK
					})
					t.ls.Set(id, int64(1+r.Intn(1000)))
				}
				disk.Arm(nil)
				t.path = e.ID2Path(id)
				if len(t.keys) != len(t.path) || t.keys[0] != "" {
					return
				}
				if what = t.attack(); what == "" {
					return
				}
				root.V, root.W = t.ls.Root()
				root = root.Copy()
				_, p, _, ok = t.ls.ProveLiability(id)
			})
			if pan != nil && what != "" {
				c.Count("the library's prover refused a tampered tree")
			}
		})
		if !ok {
			continue
		}
		c.Event("%s: %s", key, what)
		c.Do(client, "verify "+key, func() {
			c.Count("proofs of tampered trees offered")
			if e.accepted(p, id, root) {
				c.Violate("inconsistent-path-accepted", "a client accepts a proof of the library's prover over a tree whose %s (id %s, %d levels, fan-out %d)", what, id, e.Depth, e.Fanout)
			}
		})
	}
}

// attack tampers with the path and says how; commitments of all levels fit what is recorded.
func (t *tamper) attack() string {
	r, D, n := t.r, len(t.path), t.e.Fanout
	xs := make([]*rec, D)
	for i, k := range t.keys {
		if xs[i] = t.load(k); xs[i] == nil {
			t.c.Count("stored vertices not understood")
			return ""
		}
	}
	z := &byz{r: r}
	dev := func(i int) *math.Zr { return z.delta() }
	l := r.Intn(D)
	what := ""
	skipEntry := map[int]bool{}
	skipDigest := map[int]*math.Zr{}
	addSum := map[int]*math.Zr{}
	switch kind := r.Intn(8); kind {
	case 0:
		addSum[l] = dev(l)
		what = fmt.Sprintf("sum of level %d is wrong", l)
	case 1:
		o := r.Intn(D)
		if o == l {
			return ""
		}
		addSum[l] = dev(l)
		addSum[o] = zneg(addSum[l])
		what = fmt.Sprintf("sums of levels %d and %d are wrong by opposite amounts", l, o)
	case 2, 3:
		l = r.Intn(D - 1)
		p := int(t.path[l])
		// the entry is the child's sum, as the levels below are left alone
		δ := dev(l)
		xs[l].vals[p] = zadd(xs[l].vals[p], δ)
		skipEntry[l] = true
		what = fmt.Sprintf("entry of level %d is not the sum of the child", l)
		if kind == 3 && l > 0 {
			// another level makes up for it
			addSum[r.Intn(l)] = zneg(δ)
		}
	case 4:
		j := (int(t.path[l]) + 1 + r.Intn(n-1)) % n
		xs[l].vals[j] = z.outOfRange()
		if xs[l].digs != nil && l < D-1 && xs[l].digs[j] == nil {
			xs[l].digs[j] = zrnd(r)
		}
		what = fmt.Sprintf("entries of level %d are out of range", l)
	case 5:
		// pairs of entries that cancel out
		j := (int(t.path[l]) + 1 + r.Intn(n-1)) % n
		j2 := (int(t.path[l]) + 1 + r.Intn(n-1)) % n
		if j == j2 {
			return ""
		}
		a := zi(int64(1 + r.Intn(100000)))
		xs[l].vals[j], xs[l].vals[j2] = a, zneg(a)
		if l < D-1 {
			xs[l].digs[j], xs[l].digs[j2] = zrnd(r), zrnd(r)
		}
		what = fmt.Sprintf("entries of level %d are out of range and cancel out", l)
	case 6:
		l = 1 + r.Intn(D-1)
		skipDigest[l] = zrnd(r)
		what = fmt.Sprintf("vertex of level %d is not the committed one", l)
	case 7:
		// the committed vertex differs in the values only, or in the digests only
		l = 1 + r.Intn(D-1)
		o := *xs[l]
		o.blind = zrnd(r)
		W := xs[l].W
		V := xs[l].V
		if l < D-1 && r.Chance(0.5) {
			o.digs = map[int]*math.Zr{int(t.path[l]): zrnd(r)}
			W = t.commitW(&o)
		} else {
			V = t.commitV(&o)
		}
		skipDigest[l] = digestOf(V, W)
		what = fmt.Sprintf("vertex of level %d is not the committed one but a similar one", l)
	}
	for i := D - 1; i >= 0; i-- {
		x := xs[i]
		p := int(t.path[i])
		if i < D-1 {
			if !skipEntry[i] {
				// parents' entries follow the children's sums
				x.vals[p] = xs[i+1].sum
			}
			x.digs[p] = digestOf(xs[i+1].V, xs[i+1].W)
			if d := skipDigest[i+1]; d != nil {
				x.digs[p] = d
			}
		}
		s := zi(0)
		for j := 0; j < n; j++ {
			if v, ok := x.vals[j]; ok {
				s = zadd(s, v)
			}
		}
		if d := addSum[i]; d != nil {
			s = zadd(s, d)
		}
		x.sum = s
		x.V = t.commitV(x)
		if i < D-1 {
			x.W = t.commitW(x)
		}
		t.store(t.keys[i], x)
	}
	return what
}

package main

import (
	"crypto/sha256"
	"math/big"
	"reflect"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"

	"simrt"
)

// Dishonest provers. They follow the protocols with the library's own building blocks where these do what a
// cheating prover needs, and depart from them where it pays to cheat. Each has an honest mode, which the
// scenarios run first: when the library does not accept what the honest mode yields, the protocol is another one
// than the prover knows and its attacks are not counted as tried.

func zi(n int64) *math.Zr         { return curve.NewZrFromInt(n) }
func zadd(a, b *math.Zr) *math.Zr { return curve.ModAdd(a, b, curve.GroupOrder) }
func zsub(a, b *math.Zr) *math.Zr { return curve.ModSub(a, b, curve.GroupOrder) }
func zmul(a, b *math.Zr) *math.Zr { return a.Mul(b) }
func zneg(a *math.Zr) *math.Zr    { return zsub(zi(0), a) }
func zinv(a *math.Zr) *math.Zr {
	x := a.Copy()
	x.InvModP(curve.GroupOrder)
	return x
}
func zdiv(a, b *math.Zr) *math.Zr { return zmul(a, zinv(b)) }
func zeq(a, b *math.Zr) bool {
	x, y := a.Copy(), b.Copy()
	x.Mod(curve.GroupOrder)
	y.Mod(curve.GroupOrder)
	return x.Equals(y)
}
func zrnd(r *simrt.Rng) *math.Zr { return curve.NewRandomZr(r) }
func zbig(b *big.Int) *math.Zr {
	o := new(big.Int).SetBytes(curve.GroupOrder.Bytes())
	x := new(big.Int).Mod(b, o)
	return curve.NewZrFromBytes(x.FillBytes(make([]byte, 32)))
}
func zbigOf(z *math.Zr) *big.Int {
	x := z.Copy()
	x.Mod(curve.GroupOrder)
	return new(big.Int).SetBytes(x.Bytes())
}

func rndVec(r *simrt.Rng, n int) common.Vec {
	v := make(common.Vec, n)
	for i := range v {
		v[i] = zrnd(r)
	}
	return v
}

func gcopyAdd(a, b *math.G1) *math.G1 {
	x := a.Copy()
	x.Add(b)
	return x
}

func gsub(a, b *math.G1) *math.G1 {
	x := a.Copy()
	x.Sub(b)
	return x
}

// msm is Σ g_i v_i.
func msm(g common.G1v, v common.Vec) *math.G1 {
	x := g[0].Mul(v[0])
	for i := 1; i < len(v); i++ {
		x.Add(g[i].Mul(v[i]))
	}
	return x
}

func dot(a, b common.Vec) *math.Zr {
	s := zi(0)
	for i := range a {
		s = zadd(s, zmul(a[i], b[i]))
	}
	return s
}

func hashZr(parts ...[]byte) *math.Zr {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return common.FieldElementFromBytes(h.Sum(nil))
}

func sha(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// setField sets a field, exported or not; it reports whether there is such a field.
func setField(ptr interface{}, name string, x interface{}) bool {
	v := reflect.ValueOf(ptr).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Name == name {
			f := field(v, i)
			if !reflect.TypeOf(x).AssignableTo(f.Type()) {
				return false
			}
			f.Set(reflect.ValueOf(x))
			return true
		}
	}
	return false
}

// getField reads a field, exported or not.
func getField(ptr interface{}, name string) interface{} {
	v := reflect.ValueOf(ptr).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Name == name {
			return field(v, i).Interface()
		}
	}
	return nil
}

type fields struct {
	ptr interface{}
	ok  bool
}

// fieldNames are the names that the values of proofs have where this was written.
var fieldNames = map[string]bool{"Δ": true, "u": true, "W": true, "γ": true, "Π": true, "c": true, "Q": true, "R": true, "C1": true, "C2": true,
	"τ": true, "ρ": true, "π": true, "LRs": true, "a": true, "b": true, "P": true, "C": true, "IPP": true, "U": true, "V": true, "Ω": true,
	"Waggr": true, "Vaggr": true}

// set sets a field. If none has the name, it takes the first one that is not set yet, has a name that is not
// known, and can hold the value: values keep their order when they are renamed.
func (f *fields) set(name string, x interface{}) {
	if setField(f.ptr, name, x) {
		return
	}
	v := reflect.ValueOf(f.ptr).Elem()
	for i := 0; i < v.NumField(); i++ {
		t := v.Type().Field(i)
		if !fieldNames[t.Name] && reflect.TypeOf(x).AssignableTo(t.Type) && field(v, i).IsZero() {
			field(v, i).Set(reflect.ValueOf(x))
			return
		}
	}
	f.ok = false
}

// opt is a set of options of a dishonest prover.
type opt map[string]bool

// omits: the challenge leaves the value out, and the prover makes use of it or ("-") does not.
func (o opt) omits(name string) bool { return o[name] || o["-"+name] }

// omitting is o with further values left out of challenges, some of the time.
func (o opt) omitting(r *simrt.Rng, names ...string) opt {
	if !r.Chance(0.35) {
		return o
	}
	q := opt{}
	for k := range o {
		q[k] = true
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		if n := names[r.Intn(len(names))]; !o[n] {
			q["-"+n] = true
		}
	}
	return q
}

func bytesUnless(o opt, name string, b []byte) []byte {
	if o.omits(name) {
		return nil
	}
	return b
}

// ipaProve proves the claim C about the commitment P to a and b, whatever they are.
func ipaProve(p *bp.PP, a, b common.Vec, P *math.G1, C *math.Zr) *bp.InnerProductProof {
	arg := bp.NewInnerProdArgument(p, a, b)
	if P != nil {
		arg.P = P
	}
	if C != nil {
		arg.C = C
	}
	return arg.Prove()
}

// ipaX is the challenge that the claim is bound with. It may leave something out.
func ipaX(p *bp.PP, P *math.G1, C *math.Zr, o opt) *math.Zr {
	return hashZr(bytesUnless(o, "u:P", P.Bytes()), bytesUnless(o, "u:C", C.Bytes()), bytesUnless(o, "u:D", p.Digest))
}

// ipaRounds proves, with the generator u already multiplied, that a, b are committed with their product; the
// forged mode chooses the elements of the first round so that any P passes if the challenge does not depend on
// the omitted one.
func ipaRounds(p *bp.PP, u *math.G1, digest []byte, a, b common.Vec, g, h common.G1v) ([]*math.G1, *math.Zr, *math.Zr) {
	if len(g) == 1 {
		return nil, a[0], b[0]
	}
	n := len(g) / 2
	L := msm(g[n:], a[:n])
	L.Add(msm(h[:n], b[n:]))
	L.Add(u.Mul(dot(a[:n], b[n:])))
	R := msm(g[:n], a[n:])
	R.Add(msm(h[n:], b[:n]))
	R.Add(u.Mul(dot(a[n:], b[:n])))
	x := hashZr(L.Bytes(), R.Bytes(), digest)
	xi := zinv(x)
	ng, nh := make(common.G1v, n), make(common.G1v, n)
	na, nb := make(common.Vec, n), make(common.Vec, n)
	for i := 0; i < n; i++ {
		ng[i] = gcopyAdd(g[i].Mul(xi), g[n+i].Mul(x))
		nh[i] = gcopyAdd(h[i].Mul(x), h[n+i].Mul(xi))
		na[i] = zadd(zmul(a[i], x), zmul(a[n+i], xi))
		nb[i] = zadd(zmul(b[i], xi), zmul(b[n+i], x))
	}
	rest, fa, fb := ipaRounds(p, u, digest, na, nb, ng, nh)
	return append([]*math.G1{L, R}, rest...), fa, fb
}

// ipaForge tries to prove the claim C about P although it is false: the first pair is chosen so that the
// remaining commitment is one to known vectors, given a first challenge that leaves out part of the pair.
func ipaForge(r *simrt.Rng, p *bp.PP, P *math.G1, C *math.Zr, o opt) (*bp.InnerProductProof, bool) {
	x := ipaX(p, P, C, o)
	u := p.U.Mul(x)
	q := *p
	q.U = u
	q.RecomputeDigest()
	P1 := P.Copy()
	P1.Add(p.U.Mul(zmul(x, C)))
	g, h := p.G, p.H
	n := len(g) / 2
	if n == 0 {
		return nil, false
	}
	L, R := curve.GenG1.Mul(zrnd(r)), curve.GenG1.Mul(zrnd(r))
	y := hashZr(bytesUnless(o, "lr:L", L.Bytes()), bytesUnless(o, "lr:R", R.Bytes()), bytesUnless(o, "lr:D", q.Digest))
	yi := zinv(y)
	ng, nh := make(common.G1v, n), make(common.G1v, n)
	for i := 0; i < n; i++ {
		ng[i] = gcopyAdd(g[i].Mul(yi), g[n+i].Mul(y))
		nh[i] = gcopyAdd(h[i].Mul(y), h[n+i].Mul(yi))
	}
	a, b := rndVec(r, n), rndVec(r, n)
	target := msm(ng, a)
	target.Add(msm(nh, b))
	target.Add(u.Mul(dot(a, b)))
	// target = P1 + y²L + y⁻²R
	y2, yi2 := zmul(y, y), zmul(yi, yi)
	if o["lr:L"] {
		L = gsub(gsub(target, P1), R.Mul(yi2)).Mul(yi2)
	} else {
		R = gsub(gsub(target, P1), L.Mul(y2)).Mul(y2)
	}
	rest, fa, fb := ipaRounds(&q, u, q.Digest, a, b, ng, nh)
	π := &bp.InnerProductProof{}
	f := &fields{π, true}
	f.set("LRs", append([]*math.G1{L, R}, rest...))
	f.set("a", fa)
	f.set("b", fb)
	f.set("P", P)
	f.set("C", C)
	return π, f.ok
}

// foreignIPA is a valid inner product proof of the claim C for vectors of the prover's choice.
func foreignIPA(r *simrt.Rng, p *bp.PP, C *math.Zr) *bp.InnerProductProof {
	n := len(p.G)
	a, b := rndVec(r, n), rndVec(r, n)
	a[0] = zdiv(zsub(C, dot(a[1:], b[1:])), b[0])
	return ipaProve(p, a, b, nil, nil)
}

// ---- range proofs ----

type rangeForger struct {
	pp *bp.RangeProofPublicParams
	V  *math.G1
	v  common.Vec
	r  *math.Zr
	rg *simrt.Rng
	o  opt
}

const rangeBits = 63

func bitsOf(v common.Vec) common.Vec {
	var out common.Vec
	for _, z := range v {
		b := zbigOf(z)
		for j := 0; j < rangeBits; j++ {
			out = append(out, zi(int64(b.Bit(j))))
		}
	}
	return out
}

func inRange(z *math.Zr) bool { return zbigOf(z).BitLen() <= rangeBits }

// prove yields a range proof for the committed v. Options:
//
//	bits:one     entries out of range are written with one "bit" that is none, and one minus it as complement
//	bits:zero    ... with a zero complement
//	bits:mod     ... with the bits of the value modulo 2^63
//	c:eq         the claimed product is the one the final equation asks for
//	c:claim      ... and the inner product proof claims it too
//	c:foreign    ... and the inner product proof is a valid one about something else
//	x:V x:W x:Q y:Q y:R z:C1 z:C2 z:Q z:R   the challenge leaves the value out, and the prover adapts the value to it
func (f *rangeForger) prove() (rp *bp.RangeProof, ok bool) {
	pan, _ := simrt.Try(func() { rp, ok = f.prove2() })
	if pan != nil {
		return nil, false
	}
	return rp, ok
}

func (f *rangeForger) prove2() (*bp.RangeProof, bool) {
	o, r, p := f.o, f.rg, f.pp
	n, m := len(p.Gs), rangeBits
	v := f.v
	w, rW := rndVec(r, n), zrnd(r)
	W := p.F.Mul(rW)
	W.Add(msm(p.Gs, w))
	V, rV := f.V, f.r

	bits := bitsOf(v)
	comp := make(common.Vec, n*m)
	for i := range comp {
		comp[i] = zsub(zi(1), bits[i])
	}
	for i := range v {
		if inRange(v[i]) {
			continue
		}
		switch {
		case o["bits:one"] || o["bits:zero"] || o["x:Q"] && r.Chance(0.3):
			// the lowest k bits are binary, the value of bit 62 makes up for the rest
			b := zbigOf(v[i])
			low := new(big.Int).And(b, new(big.Int).SetInt64(1<<62-1))
			rest := new(big.Int).Sub(b, low)
			bits[i*m+62] = zdiv(zbig(rest), zi(1<<62))
			comp[i*m+62] = zsub(zi(1), bits[i*m+62])
			if o["bits:zero"] {
				comp[i*m+62] = zi(0)
			}
		}
	}
	wq := append(common.Vec{}, w...)
	ν, η := zrnd(r), zrnd(r)
	late, δ := r.Intn(n), zrnd(r)
	if o["x:V"] {
		// the blinding part of Q is for values that V is made to commit to only later
		wq[late] = zadd(w[late], δ)
	}
	mkQ := func() *math.G1 {
		Q := p.F.Mul(ν)
		Q.Add(msm(p.Hs, append(append(common.Vec{}, bits...), wq...)))
		Q.Add(msm(p.Fs[:n*m], comp))
		return Q
	}
	s, t := rndVec(r, n*m+n), rndVec(r, n*m)
	R := p.F.Mul(η)
	R.Add(msm(p.Hs, s))
	R.Add(msm(p.Fs[:n*m], t))
	var x *math.Zr
	var Q *math.G1
	yAt := func(k byte) *math.Zr {
		var xb []byte
		if !o.omits("y:x") {
			xb = x.Bytes()
		}
		return hashZr(bytesUnless(o, "y:Q", Q.Bytes()), bytesUnless(o, "y:R", R.Bytes()), []byte{k}, p.Digest(), xb)
	}
	if o["y:x"] {
		// a value instead of a bit; the first entry of V makes up for it once y0 and y1 are known
		k := r.Intn(m)
		β := zrnd(r)
		i := late*m + k
		v = append(common.Vec{}, v...)
		v[late] = zadd(v[late], zmul(zsub(β, bits[i]), zbig(new(big.Int).Lsh(big.NewInt(1), uint(k)))))
		bits[i], comp[i] = β, zsub(zi(1), β)
		Q = mkQ()
		y0, y1 := yAt(0), yAt(1)
		e := zmul(β, comp[i])
		for ; i > 0; i-- {
			e = zmul(e, y0)
		}
		v[0] = zadd(v[0], zdiv(e, zmul(y1, y1)))
		V = p.F.Mul(rV)
		V.Add(msm(p.Gs, v))
		f.V, f.v = V, v
	}
	Q = mkQ()
	x = hashZr(p.Digest(), bytesUnless(o, "x:V", V.Bytes()), bytesUnless(o, "x:W", W.Bytes()), bytesUnless(o, "x:Q", Q.Bytes()))
	switch {
	case o["x:V"]:
		for k := range v {
			if !inRange(v[k]) {
				return nil, false
			}
		}
		v = append(common.Vec{}, v...)
		v[late] = zadd(v[late], zmul(x, δ))
		V = gcopyAdd(V, p.Gs[late].Mul(zmul(x, δ)))
		f.V, f.v = V, v
	case o["x:Q"]:
		// the bits of other values, made up for in the blinding part of Q
		for i := range v {
			if !inRange(v[i]) {
				b := new(big.Int).And(zbigOf(v[i]), new(big.Int).SetInt64(1<<63-1))
				diff := zsub(v[i], zbig(b))
				for j := 0; j < m; j++ {
					bits[i*m+j] = zi(int64(b.Bit(j)))
					comp[i*m+j] = zsub(zi(1), bits[i*m+j])
				}
				wq[i] = zadd(w[i], zdiv(diff, x))
			}
		}
		Q = mkQ()
	case o["x:W"]:
		// V + xW is a commitment to values in range plus xw
		good := make(common.Vec, n)
		for i := range v {
			good[i] = v[i]
			if !inRange(v[i]) {
				good[i] = zbig(new(big.Int).And(zbigOf(v[i]), new(big.Int).SetInt64(1<<63-1)))
			}
		}
		xi := zinv(x)
		for i := range v {
			d := zmul(zsub(good[i], v[i]), xi)
			W.Add(p.Gs[i].Mul(d))
		}
		v = good
		bits = bitsOf(v)
		for i := range comp {
			comp[i] = zsub(zi(1), bits[i])
		}
	}
	γ := zneg(zadd(rV, zmul(x, rW)))
	U := p.F.Mul(γ)
	U.Add(V)
	U.Add(W.Mul(x))
	rdx := &bp.PP{G: p.Gs, U: common.RandGenVec(1, "U range proof")[0]}
	rdx.RecomputeDigest()
	vx := make(common.Vec, n)
	for i := range vx {
		vx[i] = zadd(v[i], zmul(w[i], x))
	}
	Δ, xs, u := bp.IterativeReduce(rdx, vx, U)
	fv := foldVec(xs, n)
	d := make(common.Vec, 0, n*m+n)
	for i := 0; i < n; i++ {
		t := fv[i]
		for j := 0; j < m; j++ {
			d = append(d, t)
			t = zadd(t, t)
		}
	}
	for i := 0; i < n; i++ {
		d = append(d, zmul(fv[i], x))
	}
	y0, y1 := yAt(0), yAt(1)
	y0v := make(common.Vec, n*m)
	for i, c := 0, zi(1); i < n*m; i++ {
		y0v[i] = c
		c = zmul(c, y0)
	}
	if o["y:Q"] {
		// complements that satisfy both sums over y0 although one bit is none
		k := -1
		for i := range bits {
			if !zeq(bits[i], zi(0)) && !zeq(bits[i], zi(1)) {
				k = i
				break
			}
		}
		if k < 0 {
			return nil, false
		}
		l := (k + 1) % (n * m)
		// y_k(β + w_k − 1) + y_l(b_l + w_l − 1) = 0,  y_k β w_k + y_l b_l w_l = 0
		β, bl := bits[k], bits[l]
		A := zmul(y0v[k], zsub(β, zi(1)))
		B := zmul(y0v[l], zsub(bl, zi(1)))
		S := zneg(zadd(A, B)) // y_k w_k + y_l w_l = S
		// β X + bl Y = 0, X + Y = S
		if zeq(β, bl) {
			return nil, false
		}
		X := zdiv(zneg(zmul(bl, S)), zsub(β, bl))
		Y := zsub(S, X)
		comp[k], comp[l] = zdiv(X, y0v[k]), zdiv(Y, y0v[l])
		Q = mkQ()
	}
	y1sq := zmul(y1, y1)
	mkAB := func() (a1, b1 common.Vec) {
		a1, b1 = make(common.Vec, n*m+n), make(common.Vec, n*m+n)
		for i := range a1 {
			if i < n*m {
				a1[i] = zadd(bits[i], y1)
				b1[i] = zadd(zadd(zmul(d[i], y1sq), zmul(y0v[i], y1)), zmul(comp[i], y0v[i]))
			} else {
				a1[i] = wq[i-n*m]
				b1[i] = zmul(d[i], y1sq)
			}
		}
		return
	}
	a1, b1 := mkAB()
	ty := make(common.Vec, n*m+n)
	for i := range ty {
		if i < n*m {
			ty[i] = zmul(t[i], y0v[i])
		} else {
			ty[i] = zi(0)
		}
	}
	c1 := zadd(dot(a1, ty), dot(s, b1))
	c2 := dot(s, ty)
	τ1, τ2 := zrnd(r), zrnd(r)
	C1, C2 := p.G.Mul(c1), p.G.Mul(c2)
	C1.Add(p.H.Mul(τ1))
	C2.Add(p.H.Mul(τ2))
	z := hashZr(bytesUnless(o, "z:Q", Q.Bytes()), bytesUnless(o, "z:R", R.Bytes()), p.Digest(), bytesUnless(o, "z:C1", C1.Bytes()), bytesUnless(o, "z:C2", C2.Bytes()), y0.Bytes(), y1.Bytes())
	ρ := zneg(zadd(ν, zmul(η, z)))
	τ := zadd(zmul(τ1, z), zmul(τ2, zmul(z, z)))
	// the constant that the final equation asks for
	β1, β3 := zi(0), zi(0)
	for i := 0; i < n*m; i++ {
		β1 = zadd(β1, y0v[i])
		β3 = zadd(β3, d[i])
	}
	c0 := zadd(zadd(zmul(β3, zmul(y1, y1sq)), zmul(y1sq, zadd(u, β1))), zmul(β1, y1))
	a, b := make(common.Vec, n*m+n), make(common.Vec, n*m+n)
	for i := range a {
		a[i] = zadd(a1[i], zmul(s[i], z))
		b[i] = zadd(b1[i], zmul(ty[i], z))
	}
	c := dot(a, b)
	eq := zadd(c0, zadd(zmul(z, c1), zmul(zmul(z, z), c2)))
	switch {
	case o["z:C1"]:
		// zC1 + z²C2 + c0 G = c G + τ H
		C1 = gsub(gcopyAdd(p.G.Mul(zsub(c, c0)), p.H.Mul(τ)), C2.Mul(zmul(z, z))).Mul(zinv(z))
	case o["z:C2"]:
		C2 = gsub(gcopyAdd(p.G.Mul(zsub(c, c0)), p.H.Mul(τ)), C1.Mul(z)).Mul(zinv(zmul(z, z)))
	}
	yi := zinv(y0)
	Fp := make(common.G1v, len(p.Fs))
	for i, q := 0, zi(1); i < len(Fp); i++ {
		Fp[i] = p.Fs[i].Mul(q)
		q = zmul(q, yi)
	}
	ipaPP := &bp.PP{U: common.RandGenVec(1, "u")[0], G: p.Hs, H: Fp}
	ipaPP.RecomputeDigest()
	var Π *bp.InnerProductProof
	claim := c
	switch {
	case o["c:foreign"]:
		claim = eq
		Π = foreignIPA(r, ipaPP, eq)
	case o["c:claim"]:
		claim = eq
		Π = ipaProve(ipaPP, a, b, nil, eq)
	case o["c:eq"]:
		claim = eq
		Π = ipaProve(ipaPP, a, b, nil, nil)
	default:
		Π = ipaProve(ipaPP, a, b, nil, nil)
	}
	rp := &bp.RangeProof{}
	fs := &fields{rp, true}
	fs.set("Δ", Δ)
	fs.set("u", u)
	fs.set("W", W)
	fs.set("γ", γ)
	fs.set("Π", Π)
	fs.set("c", claim)
	fs.set("Q", Q)
	fs.set("R", R)
	fs.set("C1", C1)
	fs.set("C2", C2)
	fs.set("τ", τ)
	fs.set("ρ", ρ)
	return rp, fs.ok
}

// foldVec: the weight of every entry of the vector in the reduced value, given the challenges in order.
func foldVec(xs common.Vec, n int) common.Vec {
	f := make(common.Vec, n)
	k := len(xs)
	for i := range f {
		f[i] = zi(1)
		for j := 0; j < k; j++ {
			// the first challenge belongs to the most significant bit
			if i>>(uint(k-1-j))&1 == 1 {
				f[i] = zmul(f[i], xs[j])
			}
		}
	}
	return f
}

var rangeTricks = []opt{
	{"bits:one": true}, {"bits:one": true, "c:eq": true}, {"bits:one": true, "c:claim": true}, {"bits:one": true, "c:foreign": true},
	{"bits:zero": true}, {"bits:zero": true, "c:eq": true}, {"bits:zero": true, "c:claim": true},
	{"bits:mod": true}, {"bits:mod": true, "c:eq": true}, {"bits:mod": true, "c:claim": true}, {"bits:mod": true, "c:foreign": true},
	{"bits:one": true, "z:C1": true}, {"bits:one": true, "z:C2": true}, {"bits:mod": true, "z:C1": true}, {"bits:mod": true, "z:C2": true},
	{"x:Q": true}, {"x:W": true}, {"bits:one": true, "y:Q": true},
}

func (o opt) String() string {
	var ks []string
	for k := range o {
		ks = append(ks, k)
	}
	sortStrings(ks)
	s := ""
	for i, k := range ks {
		if i > 0 {
			s += "+"
		}
		s += k
	}
	if s == "" {
		return "honest"
	}
	return s
}

// ---- sum arguments ----

type sumForger struct {
	pp *sum.PP
	rg *simrt.Rng
	o  opt
}

func sumB(n int) common.Vec {
	b := make(common.Vec, n)
	for i := range b {
		b[i] = zi(1)
	}
	b[n-1] = zneg(zi(1))
	return b
}

// prove proves that the last entry of v, committed with r in V, is the sum of the others. Options:
//
//	x:c  the claim is adapted to a challenge that does not depend on it
//	x:W  W is adapted to a challenge that does not depend on it
//	x:V  the commitment is adapted (the returned one differs) to a challenge that does not depend on it
//	c:foreign  the inner product proof is one about something else
func (f *sumForger) prove(V *math.G1, v common.Vec, rV *math.Zr) (proof *sum.Proof, V2 *math.G1, v2 common.Vec, ok bool) {
	p, o, r := f.pp, f.o, f.rg
	n := len(v)
	b := sumB(n)
	w, rW := rndVec(r, n), zrnd(r)
	W := p.F.Mul(rW)
	W.Add(msm(p.Gs, w))
	c := dot(w, b)
	if o["x:V"] {
		c = zadd(c, zi(1))
	}
	x := hashZr(bytesUnless(o, "x:c", c.Bytes()), bytesUnless(o, "x:V", V.Bytes()), bytesUnless(o, "x:W", W.Bytes()))
	δ := dot(v, b)
	switch {
	case o["x:c"]:
		c = zadd(c, zdiv(δ, x))
	case o["x:W"]:
		w[0] = zsub(w[0], zdiv(δ, x))
		W = p.F.Mul(rW)
		W.Add(msm(p.Gs, w))
	case o["x:V"]:
		// (v + xw)·b = x(w·b + 1)
		v = append(common.Vec{}, v...)
		v[0] = zadd(v[0], zsub(x, δ))
		V = p.F.Mul(rV)
		V.Add(msm(p.Gs, v))
	}
	ρ := zneg(zadd(rV, zmul(rW, x)))
	ipaPP := &bp.PP{G: p.Gs, H: p.H, U: p.U}
	ipaPP.RecomputeDigest()
	a := make(common.Vec, n)
	for i := range a {
		a[i] = zadd(v[i], zmul(w[i], x))
	}
	var π *bp.InnerProductProof
	switch {
	case o["c:foreign"]:
		π = foreignIPA(r, ipaPP, zmul(c, x))
	case o["c:claim"]:
		π = ipaProve(ipaPP, a, b, nil, zmul(c, x))
	default:
		π = ipaProve(ipaPP, a, b, nil, nil)
	}
	proof = &sum.Proof{}
	fs := &fields{proof, true}
	fs.set("W", W)
	fs.set("c", c)
	fs.set("ρ", ρ)
	fs.set("π", π)
	return proof, V, v, fs.ok
}

// ---- equality arguments ----

type eqForger struct {
	rg *simrt.Rng
	o  opt
}

// prove proves that vs[k][I[k]] = ws[k][J[k]] for all k. Options:
//
//	x:A    the blinding commitments are adapted to a challenge that does not depend on them
//	t:V t:U  the committed entries are adapted to challenges that do not depend on their commitment
//	x:eV x:eW t:eV t:eW  the statement is adapted to challenges that do not depend on it
//	-..  a challenge does not depend on the value
//	c:foreign
func (f *eqForger) prove(e *poe.Equalities, vs, ws []common.Vec) (*poe.AggregatedProof, bool) {
	r, o := f.rg, f.o
	m := len(e.V)
	n := len(vs[0])
	G1s := e.PP.PP.G1s
	u, u2, ν, η := rndVec(r, m), make(common.Vec, m), rndVec(r, m), rndVec(r, m)
	copy(u2, u)
	Va, Wa := make(common.G1v, m), make(common.G1v, m)
	commitAggr := func() {
		for k := 0; k < m; k++ {
			Va[k] = gcopyAdd(G1s[e.I[k]].Mul(u[k]), G1s[n-1].Mul(ν[k]))
			Wa[k] = gcopyAdd(G1s[e.J[k]].Mul(u2[k]), G1s[n-1].Mul(η[k]))
		}
	}
	commitAggr()
	x := e.RO(f.xList(e, Va, Wa), nil, e.PP.Digest, 1)[0]
	adapted := o["x:Va"] || o["x:Wa"]
	if adapted {
		for k := range u {
			d := zdiv(zsub(vs[k][e.I[k]], ws[k][e.J[k]]), x)
			if o["x:Wa"] {
				u2[k] = zadd(u[k], d)
			} else {
				// the entries committed below are those of w
				u2[k] = u[k]
				u[k] = zsub(u[k], d)
			}
		}
		commitAggr()
	}
	// restate replaces a committed entry of the statement
	restateV := func(k int, z *math.Zr) {
		vs[k] = append(common.Vec{}, vs[k]...)
		vs[k][e.I[k]] = z
		e.V[k] = pp.Commit(e.PP.PP, vs[k])
	}
	restateW := func(k int, z *math.Zr) {
		ws[k] = append(common.Vec{}, ws[k]...)
		ws[k][e.J[k]] = z
		e.W[k] = pp.Commit(e.PP.PP, ws[k])
	}
	pick := r.Intn(m)
	if o["x:eV"] || o["x:eW"] {
		// v + xu = w + xu2 for the x that is known by now
		δ := zrnd(r)
		if o["x:eV"] {
			u[pick] = zsub(u2[pick], δ)
			commitAggr()
			x = e.RO(f.xList(e, Va, Wa), nil, e.PP.Digest, 1)[0]
			restateV(pick, zadd(ws[pick][e.J[pick]], zmul(x, δ)))
		} else {
			u2[pick] = zsub(u[pick], δ)
			commitAggr()
			x = e.RO(f.xList(e, Va, Wa), nil, e.PP.Digest, 1)[0]
			restateW(pick, zadd(vs[pick][e.I[pick]], zmul(x, δ)))
		}
	}
	r1, r2 := zrnd(r), zrnd(r)
	a0 := make(common.Vec, m) // the entries committed in V
	for k := range a0 {
		a0[k] = vs[k][e.I[k]]
		if o["x:Va"] || o["x:eV"] {
			a0[k] = ws[k][e.J[k]]
		}
	}
	if o["t:eV"] || o["t:eW"] {
		a0[pick] = zrnd(r)
	}
	uu := u
	if o["x:Va"] || o["x:eV"] {
		uu = u2
	}
	U := e.PP.F.Mul(r1)
	U.Add(msm(e.PP.G, uu))
	V := e.PP.F.Mul(r2)
	V.Add(msm(e.PP.G, a0))
	var all common.G1v
	if !o.omits("t:Va") {
		all = append(all, Va...)
	}
	if !o.omits("t:Wa") {
		all = append(all, Wa...)
	}
	if !o.omits("t:eV") {
		all = append(all, e.V...)
	}
	if !o.omits("t:eW") {
		all = append(all, e.W...)
	}
	if !o.omits("t:U") {
		all = append(all, U)
	}
	if !o.omits("t:V") {
		all = append(all, V)
	}
	ts := e.RO(all, nil, e.PP.Digest, 2*m)
	if o["t:eV"] || o["t:eW"] {
		// te v + to w = (te + to) a0
		te, to := ts[2*pick], ts[2*pick+1]
		rhs := zmul(zadd(te, to), a0[pick])
		if o["t:eV"] {
			restateV(pick, zdiv(zsub(rhs, zmul(to, ws[pick][e.J[pick]])), te))
		} else {
			restateW(pick, zdiv(zsub(rhs, zmul(te, vs[pick][e.I[pick]])), to))
		}
		x = e.RO(f.xList(e, Va, Wa), nil, e.PP.Digest, 1)[0]
	}
	te := func(k int) *math.Zr { return ts[2*k] }
	to := func(k int) *math.Zr { return ts[2*k+1] }
	need := zi(0)
	b := make(common.Vec, m)
	for k := 0; k < m; k++ {
		b[k] = zadd(te(k), to(k))
		need = zadd(need, zadd(zmul(te(k), zadd(vs[k][e.I[k]], zmul(x, u[k]))), zmul(to(k), zadd(ws[k][e.J[k]], zmul(x, u2[k])))))
	}
	a := make(common.Vec, m)
	for k := range a {
		a[k] = zadd(a0[k], zmul(x, uu[k]))
	}
	diff := zsub(need, dot(a, b))
	switch {
	case o["t:V"]:
		a0[0] = zadd(a0[0], zdiv(diff, b[0]))
		V = e.PP.F.Mul(r2)
		V.Add(msm(e.PP.G, a0))
	case o["t:U"]:
		uu = append(common.Vec{}, uu...)
		uu[0] = zadd(uu[0], zdiv(zdiv(diff, b[0]), x))
		U = e.PP.F.Mul(r1)
		U.Add(msm(e.PP.G, uu))
	}
	for k := range a {
		a[k] = zadd(a0[k], zmul(x, uu[k]))
	}
	var Ω *math.G1
	for k := 0; k < m; k++ {
		_, ov := pp.Open(e.PP.PP, e.I[k], vs[k])
		_, ow := pp.Open(e.PP.PP, e.J[k], ws[k])
		ov = gcopyAdd(ov, G1s[len(G1s)-1-e.I[k]].Mul(zmul(ν[k], x))).Mul(te(k))
		ow = gcopyAdd(ow, G1s[len(G1s)-1-e.J[k]].Mul(zmul(η[k], x))).Mul(to(k))
		if Ω == nil {
			Ω = ov
		} else {
			Ω.Add(ov)
		}
		Ω.Add(ow)
	}
	ρ := zneg(zadd(zmul(r1, x), r2))
	P := e.PP.F.Mul(ρ)
	P.Add(U.Mul(x))
	P.Add(V)
	P.Add(msm(e.PP.H, b))
	bpPP := &bp.PP{U: common.RandGenVec(1, "u")[0], G: e.PP.G, H: e.PP.H}
	bpPP.RecomputeDigest()
	var ipp *bp.InnerProductProof
	c := dot(a, b)
	switch {
	case o["c:foreign"]:
		c = need
		ipp = foreignIPA(r, bpPP, c)
	case o["c:claim"]:
		c = need
		ipp = ipaProve(bpPP, a, b, P, c)
	case o["c:eq"]:
		c = need
		ipp = ipaProve(bpPP, a, b, P, nil)
	default:
		ipp = ipaProve(bpPP, a, b, P, nil)
	}
	proof := &poe.AggregatedProof{}
	fs := &fields{proof, true}
	fs.set("IPP", ipp)
	fs.set("c", c)
	fs.set("ρ", ρ)
	fs.set("U", U)
	fs.set("V", V)
	fs.set("Ω", Ω)
	fs.set("Waggr", Wa)
	fs.set("Vaggr", Va)
	return proof, fs.ok
}

// xList is what the first challenge is made of.
func (f *eqForger) xList(e *poe.Equalities, Va, Wa common.G1v) common.G1v {
	o := f.o
	var gs common.G1v
	if !o.omits("x:Va") {
		gs = append(gs, Va...)
	}
	if !o.omits("x:Wa") {
		gs = append(gs, Wa...)
	}
	if !o.omits("x:eV") {
		gs = append(gs, e.V...)
	}
	if !o.omits("x:eW") {
		gs = append(gs, e.W...)
	}
	return gs
}

// proveSingle proves v[I] = w[J]. Options: x:Va, x:Wa as above; t:C the response is adapted to challenges that do
// not depend on it; c:mean solves the equation for equal challenges.
func (f *eqForger) proveSingle(e *poe.Equality, v, w common.Vec) *poe.Proof {
	r, o := f.rg, f.o
	n := len(v)
	G1s := e.PP.PP.G1s
	u, ν, η := zrnd(r), zrnd(r), zrnd(r)
	u2 := u
	Va := gcopyAdd(G1s[e.I].Mul(u), G1s[n-1].Mul(ν))
	Wa := gcopyAdd(G1s[e.J].Mul(u2), G1s[n-1].Mul(η))
	if o["t:eV"] || o["t:eW"] {
		u, ν, η = zi(0), zi(0), zi(0)
		u2 = u
		Va, Wa = G1s[0].Mul(u), G1s[0].Mul(u)
	}
	if o["x:eV"] {
		u2 = zrnd(r)
		Wa = gcopyAdd(G1s[e.J].Mul(u2), G1s[n-1].Mul(η))
	}
	if o["x:eW"] {
		u = zrnd(r)
		Va = gcopyAdd(G1s[e.I].Mul(u), G1s[n-1].Mul(ν))
	}
	challenge := func() *math.Zr {
		var gs common.G1v
		if !o.omits("x:eV") {
			gs = append(gs, e.V)
		}
		if !o.omits("x:eW") {
			gs = append(gs, e.W)
		}
		if !o.omits("x:Va") {
			gs = append(gs, Va)
		}
		if !o.omits("x:Wa") {
			gs = append(gs, Wa)
		}
		return e.RO(gs, nil, e.PP.Digest, 1)[0]
	}
	x := challenge()
	restateV := func(z *math.Zr) {
		v = append(common.Vec{}, v...)
		v[e.I] = z
		e.V = pp.Commit(e.PP.PP, v)
	}
	restateW := func(z *math.Zr) {
		w = append(common.Vec{}, w...)
		w[e.J] = z
		e.W = pp.Commit(e.PP.PP, w)
	}
	switch {
	case o["x:eV"]:
		restateV(zadd(w[e.J], zmul(x, zsub(u2, u))))
	case o["x:eW"]:
		restateW(zadd(v[e.I], zmul(x, zsub(u, u2))))
	}
	vi, wj := v[e.I], w[e.J]
	C := zadd(vi, zmul(u, x))
	if o["t:eV"] || o["t:eW"] {
		C = zrnd(r)
	}
	if o["x:Wa"] {
		u2 = zadd(u, zdiv(zsub(vi, wj), x))
		Wa = gcopyAdd(G1s[e.J].Mul(u2), G1s[n-1].Mul(η))
	}
	if o["x:Va"] {
		u = zadd(u2, zdiv(zsub(wj, vi), x))
		Va = gcopyAdd(G1s[e.I].Mul(u), G1s[n-1].Mul(ν))
		C = zadd(wj, zmul(u2, x))
	}
	sv, sw := zadd(vi, zmul(u, x)), zadd(wj, zmul(u2, x))
	if o["c:mean"] {
		C = zdiv(zadd(sv, sw), zi(2))
	}
	g := curve.GenG1.Copy()
	var list common.G1v
	if !o.omits("t:eV") {
		list = append(list, e.V)
	}
	if !o.omits("t:eW") {
		list = append(list, e.W)
	}
	if !o.omits("t:Va") {
		list = append(list, Va.Mul(x))
	}
	if !o.omits("t:Wa") {
		list = append(list, Wa.Mul(x))
	}
	if !o.omits("t:C") {
		list = append(list, g.Mul(C))
	}
	ints := []int{e.I, e.J}
	if o.omits("t:IJ") {
		ints = nil
	}
	ts := e.RO(list, ints, e.PP.Digest, 2)
	if o["t:eV"] || o["t:eW"] {
		rhs := zmul(zadd(ts[0], ts[1]), C)
		if o["t:eV"] {
			restateV(zdiv(zsub(rhs, zmul(ts[1], wj)), ts[0]))
		} else {
			restateW(zdiv(zsub(rhs, zmul(ts[0], vi)), ts[1]))
		}
		x = challenge()
	}
	if o["t:C"] {
		C = zdiv(zadd(zmul(ts[0], sv), zmul(ts[1], sw)), zadd(ts[0], ts[1]))
	}
	_, ov := pp.Open(e.PP.PP, e.I, v)
	_, ow := pp.Open(e.PP.PP, e.J, w)
	ov = gcopyAdd(ov, G1s[len(G1s)-1-e.I].Mul(zmul(ν, x))).Mul(ts[0])
	ow = gcopyAdd(ow, G1s[len(G1s)-1-e.J].Mul(zmul(η, x))).Mul(ts[1])
	return &poe.Proof{C: C, V: Va, W: Wa, Ω: gcopyAdd(ov, ow)}
}

// Package gurvy (simulation stub): an ideal replacement for mathlib's BN254 driver.
//
// Group elements are represented by their discrete logarithms (elements of the same scalar field), so the
// groups are isomorphic to BN254's and every algebraic identity the library checks holds here exactly when
// it holds there. Quirks of the real driver that callers can observe are kept: in-place mutation, fresh
// copies from Mul/Copy, the absolute value used by Gt.Exp for negative exponents, unreduced Zr sums,
// encodings that are rejected when damaged, and pairings that are not comparable before final exponentiation.
package gurvy

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"simrt"

	"github.com/IBM/mathlib/driver"
	"github.com/IBM/mathlib/driver/common"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

/*********************************************************************/
// Zr: identical to the real driver.

type bn254Zr struct {
	*big.Int
}

var modulus = fr.Modulus()

func (z *bn254Zr) Plus(a driver.Zr) driver.Zr {
	return &bn254Zr{new(big.Int).Add(z.Int, a.(*bn254Zr).Int)}
}

func (z *bn254Zr) Mul(a driver.Zr) driver.Zr {
	prod := new(big.Int).Mul(z.Int, a.(*bn254Zr).Int)
	return &bn254Zr{prod.Mod(prod, modulus)}
}

func (z *bn254Zr) Mod(a driver.Zr) {
	r := new(big.Int).Mod(z.Int, a.(*bn254Zr).Int)
	simrt.Y() // mutation is not atomic
	z.Int.Set(r)
}

func (z *bn254Zr) PowMod(x driver.Zr) driver.Zr {
	return &bn254Zr{new(big.Int).Exp(z.Int, x.(*bn254Zr).Int, modulus)}
}

func (z *bn254Zr) InvModP(a driver.Zr) {
	r := new(big.Int).ModInverse(z.Int, a.(*bn254Zr).Int)
	simrt.Y()
	if r != nil { // as big.Int.ModInverse, leave it alone when there is no inverse
		z.Int.Set(r)
	}
}

func (z *bn254Zr) Bytes() []byte {
	return common.BigToBytes(z.Int)
}

func (z *bn254Zr) Equals(a driver.Zr) bool {
	return z.Int.Cmp(a.(*bn254Zr).Int) == 0
}

func (z *bn254Zr) Copy() driver.Zr {
	return &bn254Zr{new(big.Int).Set(z.Int)}
}

func (z *bn254Zr) Clone(a driver.Zr) {
	raw := a.(*bn254Zr).Int.Bytes()
	z.Int.SetBytes(raw)
}

func (z *bn254Zr) String() string {
	return z.Int.Text(16)
}

/*********************************************************************/

// dlog is the mutable cell a group element points to (the real driver points to an affine point).
type dlog struct{ e fr.Element }

func toFr(z driver.Zr) fr.Element {
	var e fr.Element
	b := z.(*bn254Zr).Int
	if b.Sign() < 0 || b.Cmp(modulus) >= 0 {
		b = new(big.Int).Mod(b, modulus)
	}
	if b.BitLen() <= 64 {
		e.SetUint64(b.Uint64())
		return e
	}
	e.SetBigInt(b)
	return e
}

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return h
}

// encode writes 32 bytes of canonical scalar followed by 32 bytes of redundancy, so that, like points off
// the curve, damaged encodings do not decode.
func encode(dom uint64, e *fr.Element) [64]byte {
	var out [64]byte
	b := e.Bytes()
	copy(out[:32], b[:])
	h := mix(0x1234567, dom)
	for i := 0; i < 4; i++ {
		h = mix(h, binary.BigEndian.Uint64(out[8*i:]))
	}
	for i := 0; i < 4; i++ {
		h = mix(h, uint64(i)+77)
		binary.BigEndian.PutUint64(out[32+8*i:], h)
	}
	return out
}

func decode(dom uint64, b []byte) (fr.Element, error) {
	var e fr.Element
	if len(b) < 64 {
		return e, io.ErrShortBuffer
	}
	e.SetBytes(b[:32])
	if got := encode(dom, &e); string(got[:]) != string(b[:64]) {
		return e, fmt.Errorf("invalid point: subgroup check failed")
	}
	return e, nil
}

type bn254G1 struct{ *dlog }

func (g *bn254G1) Clone(a driver.G1) { g.e = a.(*bn254G1).e }
func (g *bn254G1) Copy() driver.G1   { return &bn254G1{&dlog{g.e}} }
func (g *bn254G1) Add(a driver.G1) {
	var r fr.Element
	r.Add(&g.e, &a.(*bn254G1).e)
	simrt.Y() // mutation is not atomic
	g.e = r
}
func (g *bn254G1) Sub(a driver.G1) {
	var r fr.Element
	r.Sub(&g.e, &a.(*bn254G1).e)
	simrt.Y() // mutation is not atomic
	g.e = r
}
func (g *bn254G1) Mul(a driver.Zr) driver.G1 {
	s := toFr(a)
	r := &dlog{}
	r.e.Mul(&g.e, &s)
	return &bn254G1{r}
}
func (g *bn254G1) Mul2(e driver.Zr, Q driver.G1, f driver.Zr) driver.G1 {
	a := g.Mul(e)
	a.Add(Q.Mul(f))
	return a
}
func (g *bn254G1) Equals(a driver.G1) bool { return g.e.Equal(&a.(*bn254G1).e) }
func (g *bn254G1) Bytes() []byte           { b := encode(1, &g.e); return b[:] }
func (g *bn254G1) IsInfinity() bool        { return g.e.IsZero() }
func (g *bn254G1) String() string          { return "(" + g.e.String() + ",0)" }

type bn254G2 struct{ *dlog }

func (g *bn254G2) Clone(a driver.G2) { g.e = a.(*bn254G2).e }
func (g *bn254G2) Copy() driver.G2   { return &bn254G2{&dlog{g.e}} }
func (g *bn254G2) Add(a driver.G2) {
	var r fr.Element
	r.Add(&g.e, &a.(*bn254G2).e)
	simrt.Y() // mutation is not atomic
	g.e = r
}
func (g *bn254G2) Sub(a driver.G2) {
	var r fr.Element
	r.Sub(&g.e, &a.(*bn254G2).e)
	simrt.Y() // mutation is not atomic
	g.e = r
}
func (g *bn254G2) Mul(a driver.Zr) driver.G2 {
	s := toFr(a)
	r := &dlog{}
	r.e.Mul(&g.e, &s)
	return &bn254G2{r}
}
func (g *bn254G2) Affine() {}
func (g *bn254G2) Bytes() []byte {
	b := encode(2, &g.e)
	c := encode(22, &g.e)
	return append(b[:], c[:]...)
}
func (g *bn254G2) String() string          { return g.e.String() }
func (g *bn254G2) Equals(a driver.G2) bool { return g.e.Equal(&a.(*bn254G2).e) }

// gtCell: e is the logarithm to the base e(g1,g2); raw counts Miller-loop outputs that have not been
// through the final exponentiation. Elements with a different raw state never compare equal.
type gtCell struct {
	e   fr.Element
	raw uint64
}

type bn254Gt struct{ *gtCell }

func (g *bn254Gt) Exp(x driver.Zr) driver.Gt {
	// The real driver ignores the sign of the exponent.
	s := toFr(&bn254Zr{new(big.Int).Abs(x.(*bn254Zr).Int)})
	r := &gtCell{raw: g.raw}
	r.e.Mul(&g.e, &s)
	return &bn254Gt{r}
}
func (g *bn254Gt) Equals(a driver.Gt) bool {
	o := a.(*bn254Gt)
	return g.raw == o.raw && g.e.Equal(&o.e)
}
func (g *bn254Gt) Inverse() { g.e.Neg(&g.e) }
func (g *bn254Gt) Mul(a driver.Gt) {
	o := a.(*bn254Gt)
	if g.raw != o.raw {
		g.raw = mix(g.raw+1, o.raw+1) | 2
	}
	var r fr.Element
	r.Add(&g.e, &o.e)
	simrt.Y()
	g.e = r
}
func (g *bn254Gt) IsUnity() bool    { return g.raw == 0 && g.e.IsZero() }
func (g *bn254Gt) ToString() string { return g.e.String() }
func (g *bn254Gt) Bytes() []byte {
	var out []byte
	for i := uint64(0); i < 6; i++ {
		b := encode(300+i+10*g.raw, &g.e)
		out = append(out, b[:]...)
	}
	return out
}

/*********************************************************************/

type Bn254 struct {
}

func (c *Bn254) Pairing(p2 driver.G2, p1 driver.G1) driver.Gt {
	r := &gtCell{raw: 1}
	r.e.Mul(&p1.(*bn254G1).e, &p2.(*bn254G2).e)
	return &bn254Gt{r}
}

func (c *Bn254) Pairing2(p2a, p2b driver.G2, p1a, p1b driver.G1) driver.Gt {
	a := c.Pairing(p2a, p1a)
	a.Mul(c.Pairing(p2b, p1b))
	return a
}

func (c *Bn254) FExp(a driver.Gt) driver.Gt {
	g := a.(*bn254Gt)
	r := &gtCell{e: g.e}
	switch g.raw {
	case 1:
		r.raw = 0
	case 0: // exponentiating twice
		r.raw = 3
	default:
		r.raw = mix(g.raw, 99) | 2
	}
	return &bn254Gt{r}
}

func (*Bn254) ModAdd(a, b, m driver.Zr) driver.Zr {
	c := a.Plus(b)
	c.Mod(m)
	return c
}

func (c *Bn254) ModSub(a, b, m driver.Zr) driver.Zr {
	return c.ModAdd(a, c.ModNeg(b, m), m)
}

func (c *Bn254) ModNeg(a1, m driver.Zr) driver.Zr {
	a := a1.Copy()
	a.Mod(m)
	return &bn254Zr{a.(*bn254Zr).Int.Sub(m.(*bn254Zr).Int, a.(*bn254Zr).Int)}
}

func (c *Bn254) ModMul(a1, b1, m driver.Zr) driver.Zr {
	a := a1.Copy()
	b := b1.Copy()
	a.Mod(m)
	b.Mod(m)
	return &bn254Zr{a.(*bn254Zr).Int.Mul(a.(*bn254Zr).Int, b.(*bn254Zr).Int)}
}

func one() *dlog {
	d := &dlog{}
	d.e.SetOne()
	return d
}

func (c *Bn254) GenG1() driver.G1 { return &bn254G1{one()} }
func (c *Bn254) GenG2() driver.G2 { return &bn254G2{one()} }
func (c *Bn254) GenGt() driver.Gt {
	return c.FExp(c.Pairing(c.GenG2(), c.GenG1()))
}

func (c *Bn254) GroupOrder() driver.Zr { return &bn254Zr{fr.Modulus()} }
func (c *Bn254) FieldBytes() int       { return 32 }
func (c *Bn254) NewG1() driver.G1      { return &bn254G1{&dlog{}} }
func (c *Bn254) NewG2() driver.G2      { return &bn254G2{&dlog{}} }

func (c *Bn254) NewG1FromCoords(ix, iy driver.Zr) driver.G1 { return nil }

func (c *Bn254) NewZrFromBytes(b []byte) driver.Zr { return &bn254Zr{new(big.Int).SetBytes(b)} }
func (c *Bn254) NewZrFromInt(i int64) driver.Zr    { return &bn254Zr{big.NewInt(i)} }

func (c *Bn254) NewG1FromBytes(b []byte) driver.G1 {
	e, err := decode(1, b)
	if err != nil {
		panic(fmt.Sprintf("set bytes failed [%s]", err.Error()))
	}
	return &bn254G1{&dlog{e}}
}

func (c *Bn254) NewG2FromBytes(b []byte) driver.G2 {
	e, err := decode(2, b)
	if err != nil {
		panic(fmt.Sprintf("set bytes failed [%s]", err.Error()))
	}
	return &bn254G2{&dlog{e}}
}

func (c *Bn254) NewGtFromBytes(b []byte) driver.Gt {
	e, err := decode(300, b)
	if err != nil {
		panic(fmt.Sprintf("set bytes failed [%s]", err.Error()))
	}
	return &bn254Gt{&gtCell{e: e}}
}

func (c *Bn254) HashToZr(data []byte) driver.Zr {
	digest := sha256.Sum256(data)
	digestBig := c.NewZrFromBytes(digest[:])
	digestBig.Mod(c.GroupOrder())
	return digestBig
}

func (c *Bn254) HashToG1(data []byte) driver.G1 {
	d := &dlog{}
	h1 := sha256.Sum256(append([]byte("ideal-hash-to-curve-1"), data...))
	h2 := sha256.Sum256(append([]byte("ideal-hash-to-curve-2"), data...))
	n := new(big.Int).SetBytes(append(h1[:], h2[:]...))
	d.e.SetBigInt(n.Mod(n, modulus))
	return &bn254G1{d}
}

func (c *Bn254) NewRandomZr(rng io.Reader) driver.Zr {
	res := new(big.Int)
	v := &fr.Element{}
	_, err := v.SetRandom()
	if err != nil {
		panic(err)
	}
	return &bn254Zr{v.ToBigIntRegular(res)}
}

func (c *Bn254) Rand() (io.Reader, error) {
	return rand.Reader, nil
}

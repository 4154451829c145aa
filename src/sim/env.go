package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"pol/pol"
	"pol/pp"
	"pol/sparse"

	math "github.com/IBM/mathlib"

	"simrt"
)

var curve = math.Curves[1]

// Kind of tree.
const (
	Short  = "short" // custom path function, small depth, full public parameters of a dense tree
	Dense  = "dense"
	Sparse = "sparse"
)

// Cfg is a deployment's configuration.
type Cfg struct {
	Kind   string
	Fanout int
	Depth  int
	Full   bool // parameters for proofs, not only for totals
	Par    bool
}

// Env holds the public parameters and the identifier space.
type Env struct {
	Cfg
	ID2Path func(string) []uint16
	PP      *pol.PublicParams
}

func (e *Env) String() string {
	return fmt.Sprintf("%s fanout=%d depth=%d parallel=%v", e.Kind, e.Fanout, e.Depth, e.Par)
}

var hexLen = map[int]int{3: 162, 7: 91, 15: 66, 31: 52, 63: 43, 127: 37, 255: 32, 511: 29, 1023: 26, 2047: 24, 4095: 22, 8191: 20, 16383: 19}

func digitLen(fanout int) int {
	n := big.NewInt(1)
	for l := 0; ; l++ {
		if n.Cmp(big.NewInt(1_000_000_000)) > 0 {
			return l
		}
		n.Mul(n, big.NewInt(int64(fanout)))
	}
}

// shortPath parses identifiers like "2.0.6".
func shortPath(depth int) func(string) []uint16 {
	return func(id string) []uint16 {
		parts := strings.Split(id, ".")
		if len(parts) != depth {
			panic(fmt.Sprintf("%q is not an identifier of this tree", id))
		}
		res := make([]uint16, depth)
		for i, p := range parts {
			n, err := strconv.Atoi(p)
			if err != nil {
				panic(err)
			}
			res[i] = uint16(n)
		}
		return res
	}
}

// NewEnv generates public parameters with the library.
func NewEnv(c *Ctx, cfg Cfg) *Env {
	e := &Env{Cfg: cfg}
	pol.ParallelismEnabled = cfg.Par
	if cfg.Full {
		tt := pol.TreeType(pol.Dense)
		if cfg.Kind == Sparse || cfg.Kind == Short && cfg.Depth > 17 {
			tt = pol.Sparse
		}
		e.ID2Path, e.PP = pol.GeneratePublicParams(uint16(cfg.Fanout), tt)
		if cfg.Kind == Short {
			m := 2
			for m < cfg.Depth-1 {
				m *= 2
			}
			if m > len(e.PP.POEPP.G) {
				panic("depth beyond the parameters")
			}
			// generators are independent of each other, a prefix serves a shallower tree
			e.PP.POEPP.G = e.PP.POEPP.G[:m:m]
			e.PP.POEPP.H = e.PP.POEPP.H[:m:m]
			e.PP.POEPP.SetupDigest()
			e.ID2Path = shortPath(cfg.Depth)
		}
		return e
	}
	e.PP = &pol.PublicParams{PPPP: pp.NewPublicParams(cfg.Fanout + 2), Fanout: cfg.Fanout}
	switch cfg.Kind {
	case Short:
		e.ID2Path = shortPath(cfg.Depth)
	case Dense:
		e.ID2Path = sparse.DigitPath(uint16(cfg.Fanout))
	case Sparse:
		e.ID2Path = sparse.HexId2PathForFanOut(uint16(cfg.Fanout))
	}
	return e
}

// pathToID crafts the identifier with (most of) the given digits.
func (e *Env) pathToID(d []int) string {
	switch e.Kind {
	case Short:
		s := make([]string, len(d))
		for i, x := range d {
			s[i] = strconv.Itoa(x)
		}
		return strings.Join(s, ".")
	case Dense:
		n := new(big.Int)
		for i := len(d) - 1; i >= 0; i-- {
			n.Mul(n, big.NewInt(int64(e.Fanout)))
			n.Add(n, big.NewInt(int64(d[i])))
		}
		n.Mod(n, big.NewInt(1_000_000_000))
		return fmt.Sprintf("%09d", n.Int64())
	}
	n := new(big.Int)
	for i := len(d) - 1; i >= 0; i-- {
		n.Mul(n, big.NewInt(int64(e.Fanout)))
		n.Add(n, big.NewInt(int64(d[i])))
	}
	lim := new(big.Int).Lsh(big.NewInt(1), 256)
	n.Mod(n, lim)
	return fmt.Sprintf("%064x", n)
}

// IDs draws n distinct identifiers with paths that share prefixes, bottom vertices and special digits.
func (e *Env) IDs(r *simrt.Rng, n int) []string {
	f := e.Fanout
	special := []int{0, 1, 2, 3, 9, 10, 11, 12, 20, 21, 22, 99, 100, 101, 110, 111, 255, 256, f - 3, f - 2, f - 1}
	digit := func() int {
		if r.Chance(0.6) {
			return ((special[r.Intn(len(special))] % f) + f) % f
		}
		return r.Intn(f)
	}
	seen := map[string]bool{}
	var res []string
	var prev []int
	for tries := 0; len(res) < n && tries < 50*n; tries++ {
		d := make([]int, e.Depth)
		for i := range d {
			d[i] = digit()
		}
		if prev != nil && r.Chance(0.75) {
			// share a prefix (dense digits are least significant first, so the path prefix is free)
			k := r.Intn(e.Depth)
			if r.Chance(0.4) {
				k = e.Depth - 1
			}
			copy(d, prev[:k])
		}
		if prev != nil && r.Chance(0.3) {
			d = e.lookalike(r, prev, d)
		}
		if e.Kind == Sparse && d[e.Depth-1] == 0 {
			d[e.Depth-1] = 1
		}
		var id string
		switch {
		case e.Kind == Dense && r.Chance(0.25):
			id = fmt.Sprintf("%09d", []int{0, 1, 2, 9, 10, 99, 999, 999999999, 999999998, 128999999, 100000000, r.Intn(1000), r.Intn(1000000), r.Intn(1000000000)}[r.Intn(14)])
		case e.Kind == Sparse && r.Chance(0.3):
			h := sha256.Sum256([]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))})
			id = hex.EncodeToString(h[:])
			if r.Chance(0.2) {
				id = strings.Repeat("0", 1+r.Intn(20)) + id
				id = id[:64]
			}
		default:
			if e.Kind == Sparse {
				// stay below 2^256 without wrapping: a wrapped number would have other digits
				n := new(big.Int)
				for i := len(d) - 1; i >= 0; i-- {
					n.Mul(n, big.NewInt(int64(f)))
					n.Add(n, big.NewInt(int64(d[i])))
				}
				if n.BitLen() > 256 {
					d[e.Depth-1] = 1
				}
			}
			if e.Kind == Dense {
				n := new(big.Int)
				for i := len(d) - 1; i >= 0; i-- {
					n.Mul(n, big.NewInt(int64(f)))
					n.Add(n, big.NewInt(int64(d[i])))
				}
				for i := e.Depth - 1; i >= 0 && n.Cmp(big.NewInt(999_999_999)) > 0; i-- {
					w := new(big.Int).Exp(big.NewInt(int64(f)), big.NewInt(int64(i)), nil)
					n.Sub(n, w.Mul(w, big.NewInt(int64(d[i]))))
					d[i] = 0
				}
			}
			id = e.pathToID(d)
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		prev = d
		res = append(res, id)
	}
	return res
}

// lookalike turns the path p into one that a careless encoding of paths confuses with it: shifted, reversed,
// with swapped or wrapped digits, or with the same decimal digits split at other places. fill has the digits for
// what p does not determine.
func (e *Env) lookalike(r *simrt.Rng, p, fill []int) []int {
	f, n := e.Fanout, len(p)
	d := append([]int{}, p...)
	kind := r.Intn(8)
	if n == 1 || f > 256 && r.Chance(0.5) {
		kind = 4
	}
	switch kind {
	case 0, 1: // a path is filled up with zeros: move them to the other side
		z := n
		for z > 0 && d[z-1] == 0 {
			z--
		}
		if z == 0 || z == n {
			z = 1 + r.Intn(n-1)
		}
		for i := range d {
			d[i] = 0
			if i >= n-z {
				d[i] = p[i-(n-z)]
			}
		}
		if r.Chance(0.3) { // make p a short one instead
			for i := range d {
				d[i] = 0
				if i < z {
					d[i] = p[n-z+i]
				}
			}
		}
	case 2:
		for i := range d {
			d[i] = p[n-1-i]
		}
	case 3:
		i := r.Intn(n - 1)
		d[i], d[i+1] = d[i+1], d[i]
	case 4:
		i := r.Intn(n)
		if n > 1 && r.Chance(0.5) {
			i = r.Intn(n - 1) // not the leaf
		}
		for _, w := range []int{256, -256, 16, -16, 10, -10, 100, -100} {
			if r.Chance(0.5) && d[i]+w >= 0 && d[i]+w < f {
				d[i] += w
				break
			}
		}
	default: // split the decimal digits of a prefix elsewhere
		k := 1 + r.Intn(n)
		s := ""
		for _, x := range p[:k] {
			s += strconv.Itoa(x)
		}
		var parts []int
		for s != "" {
			l := 1 + r.Intn(4)
			if l > len(s) {
				l = len(s)
			}
			x, _ := strconv.Atoi(s[:l])
			for x >= f || (l > 1 && s[0] == '0') {
				l--
				x, _ = strconv.Atoi(s[:l])
			}
			parts = append(parts, x)
			s = s[l:]
		}
		copy(d, fill)
		copy(d, parts)
	}
	return d
}

var amounts = []int64{0, 0, 1, 2, 5, 7, 100, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 3, 1 << 53, 1<<53 + 1, 1<<62 - 1, 1 << 62}

func drawAmount(r *simrt.Rng) int64 {
	switch x := r.Intn(10); {
	case x < 5:
		return int64(r.Intn(1000))
	case x < 9:
		return amounts[r.Intn(len(amounts))]
	}
	return int64(r.Uint64() >> (2 + uint(r.Intn(40))))
}

// Model is the reference: a map from identifiers to amounts.
type Model map[string]int64

func (m Model) Sum() *big.Int {
	s := new(big.Int)
	for _, v := range m {
		s.Add(s, big.NewInt(v))
	}
	return s
}

func (m Model) Clone() Model {
	r := Model{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

var maxTotal = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))

// fit lowers the amount so that the total stays below 2^63.
func (m Model) fit(id string, amt int64) int64 {
	n := m.Clone()
	n[id] = amt
	over := new(big.Int).Sub(n.Sum(), maxTotal)
	if over.Sign() <= 0 {
		return amt
	}
	return new(big.Int).Sub(big.NewInt(amt), over).Int64()
}

// Root is a published root.
type Root struct{ V, W *math.G1 }

func (r Root) Equal(o Root) bool {
	if r.V == nil || o.V == nil {
		return r.V == o.V
	}
	return r.V.Equals(o.V) && r.W.Equals(o.W)
}

func (r Root) Copy() Root {
	if r.V == nil {
		return r
	}
	return Root{r.V.Copy(), r.W.Copy()}
}

func (r Root) Key() string {
	if r.V == nil {
		return "nil"
	}
	h := sha256.Sum256(append(r.V.Bytes(), r.W.Bytes()...))
	return hex.EncodeToString(h[:4])
}

// verify runs the library's verifier, catching panics.
func (e *Env) verify(p pol.LiabilityProof, id string, r Root) (err error, pan interface{}) {
	pv, _ := simrt.Try(func() { _, err = p.Verify(e.PP, id, r.V, r.W, e.ID2Path) })
	return err, pv
}

func (e *Env) verifyTot(p pol.TotalProof, r Root) (err error, pan interface{}) {
	pv, _ := simrt.Try(func() { err = p.Verify(e.PP, r.V) })
	return err, pv
}

// accepted: no error and no panic.
func (e *Env) accepted(p pol.LiabilityProof, id string, r Root) bool {
	err, pan := e.verify(p, id, r)
	return err == nil && pan == nil
}

func (e *Env) acceptedTot(p pol.TotalProof, r Root) bool {
	err, pan := e.verifyTot(p, r)
	return err == nil && pan == nil
}

// drawCfg picks a configuration. weight selects how large it may be.
func drawCfg(c *Ctx, full bool) Cfg { return drawCfgFrom(c, c.Rng("cfg"), full) }

func drawCfgFrom(c *Ctx, r *simrt.Rng, full bool) Cfg {
	real := c.Plan.Group == "real"
	big := c.Plan.Tier == "thorough"
	cfg := Cfg{Full: full, Par: r.Chance(0.7)}
	if full {
		switch x := r.Intn(100); {
		case real:
			cfg.Kind, cfg.Fanout, cfg.Depth = Short, 3, 2+r.Intn(2)
			if big && r.Chance(0.2) {
				cfg.Kind, cfg.Fanout = Dense, 7
			}
		case x < 5:
			cfg.Kind, cfg.Fanout = Dense, []int{3, 7, 7, 15, 31}[r.Intn(5)]
		case x < 6 || (big && x < 8):
			cfg.Kind, cfg.Fanout = Sparse, 3
			if big {
				cfg.Fanout = []int{3, 7, 15}[r.Intn(3)]
			}
		case x < 60:
			cfg.Kind, cfg.Fanout, cfg.Depth = Short, 3, 2+r.Intn(4)
			if r.Chance(0.1) {
				cfg.Depth = 6 + r.Intn(5)
				if r.Chance(0.2) {
					cfg.Depth = 11 + r.Intn(30)
				}
			}
		case x < 86:
			cfg.Kind, cfg.Fanout, cfg.Depth = Short, 7, 2+r.Intn(3)
		case x < 98:
			cfg.Kind, cfg.Fanout, cfg.Depth = Short, 15, 2+r.Intn(3)
		default:
			cfg.Kind, cfg.Fanout, cfg.Depth = Short, []int{31, 31, 31, 63}[r.Intn(4)], 2
			if big {
				cfg.Fanout = []int{31, 63, 127, 255}[r.Intn(4)]
			}
		}
	} else {
		dense := []int{3, 7, 15, 31, 63, 127, 255, 511, 1023}
		switch x := r.Intn(100); {
		case real:
			cfg.Kind, cfg.Fanout = Dense, []int{7, 31, 127}[r.Intn(3)]
			if r.Chance(0.3) {
				cfg.Kind, cfg.Fanout = Sparse, 127
			}
		case x < 45:
			cfg.Kind, cfg.Fanout = Dense, dense[r.Intn(len(dense))]
		case x < 70:
			cfg.Kind, cfg.Fanout = Sparse, dense[r.Intn(8)]
		default:
			cfg.Kind, cfg.Fanout, cfg.Depth = Short, []int{3, 7, 15, 127}[r.Intn(4)], 2+r.Intn(6)
		}
		if !real && (r.Chance(0.004) || big && r.Chance(0.02)) {
			cfg.Kind, cfg.Fanout = Dense, []int{2047, 4095, 8191, 16383}[r.Intn(4)]
			if r.Chance(0.5) {
				cfg.Kind = Sparse
			}
		}
	}
	switch cfg.Kind {
	case Dense:
		cfg.Depth = digitLen(cfg.Fanout)
	case Sparse:
		cfg.Depth = hexLen[cfg.Fanout]
	}
	return cfg
}

func (r Root) fullKey() string {
	if r.V == nil {
		return "nil"
	}
	return string(r.V.Bytes()) + string(r.W.Bytes())
}

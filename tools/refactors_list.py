# Behaviour-preserving edits: name | [(file, old, new)...] | properties that must stay quiet
REFACTORS=[
('pool-verify',[('pol/pol.go','''		if ParallelismEnabled {
			go verifyRangeProof(lp.RangeProofs[i], lp.V[i])
		} else {
			verifyRangeProof(lp.RangeProofs[i], lp.V[i])
		}
''','''		if !ParallelismEnabled {
			verifyRangeProof(lp.RangeProofs[i], lp.V[i])
		} else {
			go func(index int) {
				verifyRangeProof(lp.RangeProofs[index], lp.V[index])
			}(i)
		}
''')],'C02 C05 C06 C07 C08'),
('chan-verify',[('pol/pol.go','''	var rangeProofsVerification sync.WaitGroup
	rangeProofsVerification.Add(len(path))

	var detectedRangeProofErr atomic.Value
''','''	rangeErrs := make(chan error, len(path))
'''),('pol/pol.go','''			defer rangeProofsVerification.Done()
			if err := bp.VerifyRange(publicParams.RPPP, rp, V); err != nil {
				detectedRangeProofErr.Store(err)
			}
''','''			rangeErrs <- bp.VerifyRange(publicParams.RPPP, rp, V)
'''),('pol/pol.go','''	rangeProofsVerification.Wait()
	if detectedRangeProofErr.Load() != nil {
		return nil, detectedRangeProofErr.Load().(error)
	}
''','''	var rangeErr error
	for range path {
		if err := <-rangeErrs; err != nil {
			rangeErr = err
		}
	}
	if rangeErr != nil {
		return nil, rangeErr
	}
'''),('pol/pol.go','''	"sync/atomic"
''','')],'C02 C05 C06 C07 C08'),
('semaphore-prove',[('pol/pol.go','''	createRangeProof := func(''','''	createRangeProof := func('''),('pol/pol.go','''			rp := bp.ProveRange(pp, V, v, r)
			lock.Lock()
			proof.RangeProofs[i] = rp
			lock.Unlock()
''','''			slots <- struct{}{}
			defer func() { <-slots }()
			rp := bp.ProveRange(pp, V, v, r)
			lock.Lock()
			defer lock.Unlock()
			proof.RangeProofs[i] = rp
'''),('pol/pol.go','''	var lock sync.Mutex
	var rangeProofFailure interface{}
''','''	var lock sync.Mutex
	var rangeProofFailure interface{}
	slots := make(chan struct{}, 4)
''')],'C02 C07 C08 C13'),
('helper-digest',[('pol/pol.go','''	h := sha256.New()
	h.Write(lp.V[i].Bytes())
	h.Write(lp.W[i].Bytes())
	hash := h.Sum(nil)
	expectedPreviousDigest := common.FieldElementFromBytes(hash)
	if !lp.Digests[i-1].Equals(expectedPreviousDigest) {
''','''	sum := sha256.Sum256(append(lp.V[i].Bytes(), lp.W[i].Bytes()...))
	if !lp.Digests[i-1].Equals(common.FieldElementFromBytes(sum[:])) {
''')],'C02 C05 C06'),
('sorted-bytes',[('verkle/tree.go','''	for k, v := range v.values {
		kBuff := make([]byte, 2)
		binary.BigEndian.PutUint16(kBuff, k)
		rv.Values = append(rv.Values, KV{K: kBuff, V: v.Bytes()})
	}
''','''	rv.Values = sortedKVs(v.values)
'''),('verkle/tree.go','''	for k, v := range v.Digests {
		kBuff := make([]byte, 2)
		binary.BigEndian.PutUint16(kBuff, k)
		rv.Digests = append(rv.Digests, KV{K: kBuff, V: v.Bytes()})
	}
''','''	rv.Digests = sortedKVs(v.Digests)
'''),('verkle/tree.go','''func (v *Vertex) Digest()''','''func sortedKVs(m map[uint16]*math.Zr) []KV {
	keys := make([]int, 0, len(m))
	for k := range m {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	var res []KV
	for _, k := range keys {
		buff := make([]byte, 2)
		binary.BigEndian.PutUint16(buff, uint16(k))
		res = append(res, KV{K: buff, V: m[uint16(k)].Bytes()})
	}
	return res
}

func (v *Vertex) Digest()'''),('verkle/tree.go','''	"pol/sum"
''','''	"pol/sum"
	"sort"
''')],'C01 C02 C03 C09 C10 C11 C12'),
('one-layer-func',[('verkle/tree.go','''	m := make(common.Vec, t.PP.N)
	for i := 0; i < len(m); i++ {
		if val, exists := v.values[uint16(i)]; exists {
			m[uint16(i)] = val
		} else {
			m[uint16(i)] = c.NewZrFromInt(0)
		}
	}
	m[len(m)-2] = v.sum
''','''	m := make(common.Vec, t.PP.N)
	for i := range m {
		m[i] = c.NewZrFromInt(0)
	}
	for i, val := range v.values {
		m[i] = val
	}
	m[t.PP.N-2] = v.sum
''')],'C01 C02 C03 C09 C11 C13'),
('recommit-leaf',[('verkle/tree.go','''	pp.Update(t.PP, v.V, m, newVal, index)
	v.values[uint16(index)] = newVal
''','''	v.values[uint16(index)] = newVal
	pp.Update(t.PP, v.V, m, newVal, index)
''')],'C01 C02 C03 C09'),
('recursive-put',[('sparse/tree.go','''	descendantsLeaves := true
	i := len(path) - 1
	for v != nil {
		v.Data = t.UpdateInnerVertex(v.key, v.Data, v.rawData(t.FanOut), descendantsLeaves, int(path[i]))
		v = v.Parent
		descendantsLeaves = false
		i--
	}
}
''','''	t.refresh(v, path, len(path)-1)
}

// refresh updates v and the vertices above it; v is at depth i of the path.
func (t *Tree) refresh(v *Vertex, path []uint16, i int) {
	if v == nil {
		return
	}
	v.Data = t.UpdateInnerVertex(v.key, v.Data, v.rawData(t.FanOut), i == len(path)-1, int(path[i]))
	t.refresh(v.Parent, path, i-1)
}
''')],'C01 C03 C09 C11 C18'),
('serialize-buffer',[('sparse/tree.go','''	header := make([]byte, 32)
	binary.BigEndian.PutUint32(header, uint32(len(bytes)))

	record := append(header, bytes...)
''','''	record := make([]byte, 32+len(bytes))
	binary.BigEndian.PutUint32(record, uint32(len(bytes)))
	copy(record[32:], bytes)
''')],'C12'),
('serialize-iter',[('sparse/tree.go','''	for k, v := range v.Descendants {
		descPath := fmt.Sprintf("%s.%d", path, k)
		v.Serialize(out, descPath, vertexToBytes)
	}
''','''	positions := make([]int, 0, len(v.Descendants))
	for k := range v.Descendants {
		positions = append(positions, int(k))
	}
	sort.Ints(positions)
	for _, k := range positions {
		v.Descendants[uint16(k)].Serialize(out, path+"."+strconv.Itoa(k), vertexToBytes)
	}
'''),('sparse/tree.go','''	"pol/common"
''','''	"pol/common"
	"sort"
''')],'C12'),
('key-concat',[('sparse/tree.go','''		pathString = fmt.Sprintf("%s.%d", pathString, p)
''','''		pathString += "." + strconv.Itoa(int(p))
''')],'C01 C02 C18'),
('pp-workers',[('common/math.go','''	v := make(Vec, n)
	for i := 0; i < n; i++ {
		v[i] = c.NewRandomZr(r)
	}
''','''	var v Vec
	for len(v) < n {
		v = append(v, c.NewRandomZr(r))
	}
''')],'C13 C14 C16'),
('sum-loop',[('sum/sa.go','''	vAggr := make(common.Vec, len(v[0]))
	for i := 0; i < len(v[0]); i++ {
		vi := make(common.Vec, len(v))
		for j := 0; j < len(v); j++ {
			vi[j] = v[j][i]
		}
		vAggr[i] = vi.InnerProd(t)
	}
''','''	vAggr := v[0].Mul(t[0])
	for j := 1; j < len(v); j++ {
		vAggr = vAggr.Add(v[j].Mul(t[j]))
	}
''')],'C02 C13 C14'),
('verify-order',[('pol/pol.go','''	saStart := time.Now()
	if err := lp.SumArgumentProof.VerifyAggregated(publicParams.SAPP, lp.V); err != nil {
		return nil, fmt.Errorf("failed verifying sum argument: %v", err)
	}
	saElapsed := time.Since(saStart)
''',''),('pol/pol.go','''	rangeProofsVerification.Wait()
	if detectedRangeProofErr.Load() != nil {
''','''	saStart := time.Now()
	if err := lp.SumArgumentProof.VerifyAggregated(publicParams.SAPP, lp.V); err != nil {
		return nil, fmt.Errorf("failed verifying sum argument: %v", err)
	}
	saElapsed := time.Since(saStart)

	rangeProofsVerification.Wait()
	if detectedRangeProofErr.Load() != nil {
''')],'C02 C04 C05 C06 C07 C08'),
('range-challenges',[('bp/range.go','''	y0Digest := []byte{0}
	y1Digest := []byte{1}
	y0Digest = append(y0Digest, pp.Digest()...)
	y1Digest = append(y1Digest, pp.Digest()...)
	y0Digest = append(y0Digest, x.Bytes()...)
	y1Digest = append(y1Digest, x.Bytes()...)

	y0, y1 := common.FieldElementFromBytes(randomOracle(rp.Q, rp.R, y0Digest)), common.FieldElementFromBytes(randomOracle(rp.Q, rp.R, y1Digest))
''','''	y0, y1 := challengesY(pp, rp.Q, rp.R, x)
'''),('bp/range.go','''	y0Digest := []byte{0}
	y1Digest := []byte{1}
	y0Digest = append(y0Digest, pp.Digest()...)
	y1Digest = append(y1Digest, pp.Digest()...)
	y0Digest = append(y0Digest, x.Bytes()...)
	y1Digest = append(y1Digest, x.Bytes()...)

	y0, y1 := common.FieldElementFromBytes(randomOracle(Q, R, y0Digest)), common.FieldElementFromBytes(randomOracle(Q, R, y1Digest))
''','''	y0, y1 := challengesY(pp, Q, R, x)
'''),('bp/range.go','''func computeP(''','''func challengesY(pp *RangeProofPublicParams, Q, R *math.G1, x *math.Zr) (*math.Zr, *math.Zr) {
	challenge := func(b byte) *math.Zr {
		preimage := append([]byte{b}, pp.Digest()...)
		return common.FieldElementFromBytes(randomOracle(Q, R, append(preimage, x.Bytes()...)))
	}
	return challenge(0), challenge(1)
}

func computeP(''')],'C02 C05 C06 C13 C16'),
('rename-fields',[('bp/range.go','''	γ            *math.Zr
	Π            *InnerProductProof
''','''	gamma        *math.Zr
	Π            *InnerProductProof
'''),('bp/range.go','rp.γ','rp.gamma'),('bp/range.go','rp.γ','rp.gamma'),('bp/range.go','		γ:  γ,\n','		gamma:  γ,\n')],'C05 C06 C07 C16'),
('root-copy',[('pol/pol.go','''	key := ls.tree.Tree.Root.Data.(string)
	bytes := ls.DB.Get([]byte(key))
	v := &verkle.Vertex{}
	v.FromBytes(bytes)
	return v.V, v.W
''','''	v := &verkle.Vertex{}
	v.FromBytes(ls.DB.Get([]byte(ls.tree.Tree.Root.Data.(string))))
	V, W = v.V, v.W
	return
''')],'C02 C04 C09 C10 C11'),
('update-single',[('pp/pointproofs.go','''	prevG := pp.G1s[i].Mul(m[i])
	nextG := pp.G1s[i].Mul(mi)
	C.Sub(prevG)
	C.Add(nextG)
''','''	C.Add(pp.G1s[i].Mul(mi))
	C.Sub(pp.G1s[i].Mul(m[i]))
''')],'C02 C09 C17'),
('ir-loop',[('bp/ir.go','''		GL, GR := G[:n], G[n:]
		vL, vR := v[:n], v[n:]
		A := GL.MulV(vR).Sum()
		B := GR.MulV(vL).Sum()
''','''		B := G[n:].MulV(v[:n]).Sum()
		A := G[:n].MulV(v[n:]).Sum()
		GL, GR := G[:n], G[n:]
		vL, vR := v[:n], v[n:]
''')],'C02 C16'),
('eq-precompute',[('poe/poe.go','''	g2sV := make(common.G2v, m)
	for k := 0; k < m; k++ {
		g2sV[k] = e.PP.PP.G2s[n-1-e.I[k]]
	}

	g2sW := make(common.G2v, m)
	for k := 0; k < m; k++ {
		g2sW[k] = e.PP.PP.G2s[n-1-e.J[k]]
	}
''','''	var g2sV, g2sW common.G2v
	for k := range e.I {
		g2sV = append(g2sV, e.PP.PP.G2s[n-1-e.I[k]])
		g2sW = append(g2sW, e.PP.PP.G2s[n-1-e.J[k]])
	}
''')],'C05 C06 C08 C15'),
('params-parallel',[('pp/pointproofs.go','''	for i := 1; i <= N; i++ {
		pp.G1s = append(pp.G1s, g1α(i))
	}

	// Artificially put the generator instead of g^{a^{N+1}}
	pp.G1s = append(pp.G1s, c.GenG1.Copy())

	for i := N + 2; i <= 2*N; i++ {
		pp.G1s = append(pp.G1s, g1α(i))
	}

	for i := 1; i <= N; i++ {
		pp.G2s = append(pp.G2s, g2α(i))
	}
''','''	var wg sync.WaitGroup
	wg.Add(2)

	go func() {
		defer wg.Done()
		g1s := make(common.G1v, 2*N)
		for i := range g1s {
			if i == N {
				// Artificially put the generator instead of g^{a^{N+1}}
				g1s[i] = c.GenG1.Copy()
				continue
			}
			g1s[i] = g1α(i + 1)
		}
		pp.G1s = g1s
	}()

	go func() {
		defer wg.Done()
		g2s := make(common.G2v, N)
		for i := range g2s {
			g2s[i] = g2α(i + 1)
		}
		pp.G2s = g2s
	}()

	wg.Wait()
'''),('pp/pointproofs.go','''	"pol/common"
''','''	"pol/common"
	"sync"
''')],'C24 C13 C23 C01'),
('params-iterative',[('pp/pointproofs.go','''	g1α := func(i int) *math.G1 {
		return g1.Mul(α.PowMod(c.NewZrFromInt(int64(i))))
	}

	g2α := func(i int) *math.G2 {
		return g2.Mul(α.PowMod(c.NewZrFromInt(int64(i))))
	}
''','''	powers := common.PowerSeries(2*N+1, α)

	g1α := func(i int) *math.G1 {
		return g1.Mul(powers[i])
	}

	g2α := func(i int) *math.G2 {
		return g2.Mul(powers[i])
	}
'''),('pp/pointproofs.go','c.GenGt.Exp(α.PowMod(c.NewZrFromInt(int64(N + 1))))','c.GenGt.Exp(powers[N+1])'),
('pp/pointproofs.go','''	α := c.NewRandomZr(rand.Reader)
''','''	α := common.RandVec(1)[0]
'''),('pp/pointproofs.go','''	"crypto/rand"
''','')],'C24 C13 C23'),
('generators-memo',[('common/math.go','''func RandGenVec(n int, context string) []*math.G1 {
	v := make([]*math.G1, n)

	for i := 0; i < n; i++ {
		randBytes := SHA256Digest(fmt.Sprintf("PoL %s %d", context, i))
		randBytes = append(randBytes, SHA256Digest(string(randBytes))...)
		v[i] = HashToG1(randBytes)
	}

	return v
}
''','''var (
	generatorsLock sync.Mutex
	generators     = make(map[string][]*math.G1)
)

func RandGenVec(n int, context string) []*math.G1 {
	generatorsLock.Lock()
	defer generatorsLock.Unlock()

	known := generators[context]
	for i := len(known); i < n; i++ {
		randBytes := SHA256Digest(fmt.Sprintf("PoL %s %d", context, i))
		randBytes = append(randBytes, SHA256Digest(string(randBytes))...)
		known = append(known, HashToG1(randBytes))
	}
	generators[context] = known

	v := make([]*math.G1, n)
	for i := range v {
		v[i] = known[i].Copy()
	}
	return v
}
'''),('common/math.go','''	"fmt"
''','''	"fmt"
	"sync"
''')],'C24 C13 C23 C22'),
('global-mutex',[('common/math.go','''func FieldElementFromBytes(digest []byte) *math.Zr {
''','''var (
	conversions     int64
	conversionsLock sync.Mutex
	lastDigests     sync.Map
	once            sync.Once
	started         atomic.Value
)

func FieldElementFromBytes(digest []byte) *math.Zr {
	once.Do(func() { started.Store(true) })
	if started.Load() == nil {
		panic("not initialised")
	}
	conversionsLock.Lock()
	conversions++
	conversionsLock.Unlock()
	lastDigests.Store("last", len(digest))
'''),('common/math.go','''	"math/bits"
''','''	"math/bits"
	"sync"
	"sync/atomic"
''')],'C09 C10 C11 C12 C01 C07 C08 C22'),
('rw-pow2',[('common/math.go','''func Pow2(n int) *math.Zr {
	return c.NewZrFromInt(2).PowMod(c.NewZrFromInt(int64(n)))
}
''','''var (
	powers     = make(map[int]*math.Zr)
	powersLock sync.RWMutex
)

func Pow2(n int) *math.Zr {
	powersLock.RLock()
	p, ok := powers[n]
	powersLock.RUnlock()
	if !ok {
		p = c.NewZrFromInt(2).PowMod(c.NewZrFromInt(int64(n)))
		powersLock.Lock()
		powers[n] = p
		powersLock.Unlock()
	}
	return p.Copy()
}
'''),('common/math.go','''	"math/bits"
''','''	"math/bits"
	"sync"
''')],'C10 C07 C08 C16'),
]

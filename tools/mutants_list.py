MUTANTS=[
('sum-x-no-c','sum/sa.go','	h.Write(c.Bytes())\n	h.Write(V','	h.Write(V','C14'),
('sum-x-no-V','sum/sa.go','	h.Write(c.Bytes())\n	h.Write(V.Bytes())\n','	h.Write(c.Bytes())\n','C14'),
('sum-x-no-W','sum/sa.go','	h.Write(V.Bytes())\n	h.Write(W.Bytes())\n','	h.Write(V.Bytes())\n','C14'),
('sum-t-const','sum/sa.go','nextT = nextT.Mul(τ)','nextT = nextT.Copy(); _ = τ','C14 C06'),
('sum-t-first','sum/sa.go','	h.Write(V.Bytes())\n	digest := h.Sum(nil)\n	τ','	h.Write(V[0].Bytes())\n	digest := h.Sum(nil)\n	τ','C14'),
('sum-t-noLast','sum/sa.go','	h.Write(V.Bytes())\n	digest := h.Sum(nil)\n	τ','	h.Write(V[:len(V)-1].Bytes())\n	digest := h.Sum(nil)\n	τ','C14'),
('sum-own-P','sum/sa.go','	π.P = P\n','	_ = P\n','C14'),
('sum-own-C','sum/sa.go','	π.C = proof.c.Mul(x)\n','','C14'),
('ipa-no-c','bp/innerprod.go','	hashPreImage = append(hashPreImage, c.Bytes()...)\n','','C16'),
('ipa-no-P','bp/innerprod.go','	hashPreImage = append(hashPreImage, P.Bytes()...)\n','','C16'),
('ipa-no-L','bp/innerprod.go','	h.Write(L.Bytes())\n','','C16'),
('ipa-no-R','bp/innerprod.go','	h.Write(R.Bytes())\n','','C16'),
('ir-no-V','bp/ir.go','	h.Write(V.Bytes())\n','','C16'),
('ir-no-A','bp/ir.go','randomOracle(A, B, pp.Digest), prevV','randomOracle(B, B, pp.Digest), prevV','C16'),
('ir-skip-first','bp/ir.go','		if !V.Equals(shouldBeV) {','		if n > 1 && !V.Equals(shouldBeV) {','C16'),
('range-x-no-W','bp/range.go','	h.Write(W.Bytes())\n	h.Write(Q','	h.Write(Q','C16'),
('range-x-no-Q','bp/range.go','	h.Write(W.Bytes())\n	h.Write(Q.Bytes())\n','	h.Write(W.Bytes())\n','C16'),
('range-z-no-C1','bp/range.go','	C1C2Digest = append(C1C2Digest, C1.Bytes()...)\n','','C16'),
('range-z-no-C2','bp/range.go','	C1C2Digest = append(C1C2Digest, C2.Bytes()...)\n','','C16'),
('range-own-P','bp/range.go','	Π.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)\n','	_ = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)\n','C16 C06'),
('range-own-C','bp/range.go','	Π.C = rp.c\n','','C16'),
('range-no-eq','bp/range.go','	if !left.Equals(right) {','	if false && !left.Equals(right) {','C16 C06'),
('poe-t-noU','poe/poe.go','	groupElements = append(groupElements, proof.U)\n','','C15'),
('poe-x-noVaggr','poe/poe.go','	groupElements = append(groupElements, proof.Vaggr...)\n','','C15'),
('poe-swap-t','poe/poe.go','e.W.Add(proof.Waggr.Mul(x)).MulV(ts.Odds())','e.W.Add(proof.Waggr.Mul(x)).MulV(ts.Evens())','C15'),
('poe-own-C','poe/poe.go','	ipp.C = proof.c\n','','C15'),
('poe-own-P','poe/poe.go','	ipp.P = P\n\n	return','	_ = P\n\n	return','C15'),

# lookups and paths
('dig-front-pad','sparse/tree.go','			res = append(res, 0)\n','			res = append([]uint16{0}, res...)\n','C01'),
('dig-byte','sparse/tree.go','			res = append(res, uint16(num%uint64(fanout)))','			res = append(res, uint16(uint8(num%uint64(fanout))))','C01'),
('amt-int32','pol/pol.go','	ls.tree.Put(id, liability)','	ls.tree.Put(id, int64(uint32(liability)))','C01'),
('malformed-root','sparse/tree.go',"""	path := t.ID2Path(id)

	if t.Root == nil {
		t.Root = &Vertex{
			Descendants: make(map[uint16]*Vertex),
		}
	}
""","""	if t.Root == nil {
		t.Root = &Vertex{
			Descendants: make(map[uint16]*Vertex),
		}
	}

	path := t.ID2Path(id)
""",'C01'),
('zero-unset','pol/pol.go','	liability, _, ok := ls.tree.Get(id)\n	return liability, ok','	liability, _, ok := ls.tree.Get(id)\n	return liability, ok && liability != 0','C01'),
('skip-zero','pol/pol.go','	ls.tree.Put(id, liability)','	if liability == 0 {\n		if _, ok := ls.Get(id); !ok {\n			return\n		}\n	}\n	ls.tree.Put(id, liability)','C01 C02'),
('get-leafmost','sparse/tree.go','		if !exists {\n			return nil, nil, false\n		}','		if !exists {\n			break\n		}','C01 C18'),
('neg-one','pol/pol.go','	if liability < 0 {\n		panic','	if liability < -1 {\n		panic','C01'),
# proofs
('inner-skip-same-sum','verkle/tree.go','	newDigest := descVertex.Digest()\n	v.Digests','	newDigest := descVertex.Digest()\n	if newVal.Equals(oldVal) {\n		return key\n	}\n	v.Digests','C02'),
('keys-nodot',"sparse/tree.go",'fmt.Sprintf("%s.%d", pathString, p)','fmt.Sprintf("%s%d", pathString, p)','C02 C18'),
('keys-hex',"sparse/tree.go",'fmt.Sprintf("%s.%d", pathString, p)','fmt.Sprintf("%s.%02x", pathString, uint8(p))','C02 C18'),
('memo-root',[('pol/pol.go','	db.DB.Put(key, val)\n	if len(key) == 0 {\n		db.root = val\n	}','	db.DB.Put(key, val)\n	if len(key) == 0 && len(db.root) == 0 {\n		db.root = val\n	}')],'C02 C03 C04'),
('leaf-new-only','verkle/tree.go','	pp.Update(t.PP, v.V, m, v.sum, len(m)-2)\n','	if len(v.values) > 1 {\n		pp.Update(t.PP, v.V, m, v.sum, len(m)-2)\n	}\n','C02'),
('leaf-oldval','verkle/tree.go','	new := descendants[index].(int64)\n','	if oldVal.Equals(c.NewZrFromInt(1)) {\n		oldVal = c.NewZrFromInt(0)\n	}\n	new := descendants[index].(int64)\n','C02 C03'),
('tot-cache',[('pol/pol.go','type LiabilitySet struct {\n','type LiabilitySet struct {\n	tot *TotalProof\n'),('pol/pol.go','	cachedRoot := ls.tree.DB.Get(nil)\n','	if ls.tot != nil && len(ls.tree.Tree.Root.Descendants) > 1 {\n		return *ls.tot\n	}\n	cachedRoot := ls.tree.DB.Get(nil)\n'),('pol/pol.go','	return TotalProof{\n		Sum:            int(sumAsInt),\n		LiabilityProof: π,\n	}\n','	ls.tot = &TotalProof{\n		Sum:            int(sumAsInt),\n		LiabilityProof: π,\n	}\n	return *ls.tot\n')],'C03'),
('noW','pol/pol.go','	if !lp.W[0].Equals(W) {','	if false && !lp.W[0].Equals(W) {','C04'),
('noV','pol/pol.go','	if !lp.V[0].Equals(V) {','	if false && !lp.V[0].Equals(V) {','C06'),
# altered proofs
('no-digest-check','pol/pol.go','		if i > 0 {\n			err := lp.checkCommitmentToInnerVertex(i)','		if i > 1 {\n			err := lp.checkCommitmentToInnerVertex(i)','C05 C06'),
('no-leaf-digest','pol/pol.go','			err := lp.checkCommitmentToLeafVertex(i)\n','			var err error\n','C06'),
('no-sigma','pol/pol.go','	if !lp.PointProofΣ.Equals(lp.Digests[:len(tPP)].InnerProd(tPP)) {','	if false {','C06'),
('no-neg-tot','pol/pol.go','	if tp.Sum < 0 {','	if tp.Sum < -1<<62 {','C03 C05'),
('no-sum-arg','pol/pol.go','lp.SumArgumentProof.VerifyAggregated(publicParams.SAPP, lp.V); err != nil','lp.SumArgumentProof.VerifyAggregated(publicParams.SAPP, lp.V[:len(lp.V)]); err != nil && len(lp.V) < 3','C05 C06'),
('no-eq','pol/pol.go','equalities.Verify(lp.EqualityProof); err != nil','equalities.Verify(lp.EqualityProof); err != nil && len(path) > 3','C05 C06'),
('eq-skip-last','pol/pol.go','			equalities.W[i] = lp.V[i+1]\n','			equalities.W[i] = lp.V[i+1]\n			if i == len(path)-2 {\n				equalities.J[i] = publicParams.Fanout\n				equalities.W[i] = lp.V[len(lp.V)-1]\n			}\n','-'),
('range-root-only','pol/pol.go','			if err := bp.VerifyRange(publicParams.RPPP, rp, V); err != nil {','			if err := bp.VerifyRange(publicParams.RPPP, rp, V); err != nil && !V.Equals(lp.V[len(lp.V)-1]) {','C05 C06 C07'),
# schedules
('wg-late','pol/pol.go','	rangeProofsVerification.Wait()\n	if detectedRangeProofErr.Load() != nil {\n		return nil, detectedRangeProofErr.Load().(error)\n	}\n','	if detectedRangeProofErr.Load() != nil {\n		return nil, detectedRangeProofErr.Load().(error)\n	}\n	rangeProofsVerification.Wait()\n','C07'),
('wg-done-early','pol/pol.go','			defer rangeProofsVerification.Done()\n			if err','			rangeProofsVerification.Done()\n			if err','C07'),
('prove-append','pol/pol.go','			proof.RangeProofs[i] = rp\n','			proof.RangeProofs[len(path)-1-i], proof.RangeProofs[i] = proof.RangeProofs[len(path)-1-i], rp\n','-'),
('prove-loopvar','pol/pol.go','		if ParallelismEnabled {\n			go createRangeProof(i, ls.pp.RPPP, v.V, values, v.BlindingFactor)','		if ParallelismEnabled {\n			go func() { createRangeProof(i, ls.pp.RPPP, v.V, values, verticesAlongThePath[i].BlindingFactor) }()','-'),
('prove-early-done','pol/pol.go','			rp := bp.ProveRange(pp, V, v, r)\n			lock.Lock()\n			proof.RangeProofs[i] = rp\n			lock.Unlock()\n','			rp := bp.ProveRange(pp, V, v, r)\n			go func() {\n				lock.Lock()\n				proof.RangeProofs[i] = rp\n				lock.Unlock()\n			}()\n','C07'),
('err-overwrite','pol/pol.go','			if err := bp.VerifyRange(publicParams.RPPP, rp, V); err != nil {\n				detectedRangeProofErr.Store(err)\n			}','			err := bp.VerifyRange(publicParams.RPPP, rp, V)\n			verdict = err','-'),
# shared state
('verify-mutates','sum/sa.go','	π := *proof.π\n','	π := proof.π\n','-'),
('pp-commit-alias','common/math.go','	sum := g1v[0].Copy()\n','	sum := g1v[0]\n','C02 C17'),
('update-alias','pp/pointproofs.go','	C.Sub(prevG)\n	C.Add(nextG)','	prevG.Sub(nextG)\n	C.Sub(prevG)','-'),
('scratch','common/math.go','func (g1v G1v) Bytes() []byte {\n	bb := bytes.Buffer{}\n','var scratch bytes.Buffer\n\nfunc (g1v G1v) Bytes() []byte {\n	bb := &scratch\n	bb.Reset()\n','C08'),
# storage failures
('memo-before-put','pol/pol.go','	db.DB.Put(key, val)\n	if len(key) == 0 {\n		db.root = val\n	}','	if len(key) == 0 {\n		db.root = val\n	}\n	db.DB.Put(key, val)','-'),
('skip-same-amount','pol/pol.go','	ls.tree.Put(id, liability)','	if prev, ok := ls.Get(id); ok && prev == liability {\n		return\n	}\n	ls.tree.Put(id, liability)','C09'),
('swallow','pol/pol.go','	ls.tree.Put(id, liability)','	defer func() { recover() }()\n	ls.tree.Put(id, liability)','C09 C13'),
('lenient-missing','verkle/tree.go','	bytes := t.DB.Get([]byte(k))\n	if len(bytes) == 0 {\n		panic(fmt.Sprintf("could not find %s in DB", k))\n	}\n	v := &Vertex{}','	bytes := t.DB.Get([]byte(k))\n	if len(bytes) == 0 {\n		return &Vertex{BlindingFactor: c.NewZrFromInt(0), sum: c.NewZrFromInt(0), values: map[uint16]*math.Zr{}, Digests: map[uint16]*math.Zr{}, V: c.NewG1()}\n	}\n	v := &Vertex{}','-'),
('leftover-vertex','verkle/tree.go','	if node == nil {\n		v = &Vertex{\n			BlindingFactor: c.NewRandomZr(rand.Reader),\n			sum:            c.NewZrFromInt(0),\n			values:         make(map[uint16]*math.Zr),\n			Digests:        make(map[uint16]*math.Zr),\n		}\n\n		m := make(common.Vec, 0, len(descendants)+2)\n','	if node == nil && len(t.DB.Get([]byte(key))) == 0 {\n		v = &Vertex{\n			BlindingFactor: c.NewRandomZr(rand.Reader),\n			sum:            c.NewZrFromInt(0),\n			values:         make(map[uint16]*math.Zr),\n			Digests:        make(map[uint16]*math.Zr),\n		}\n\n		m := make(common.Vec, 0, len(descendants)+2)\n','C11'),
('leftover-tot','pol/pol.go','	if ls.tree.Tree.Root == nil || ls.tree.Tree.Root.Data == nil {\n		panic("no liability is set")\n	}\n','','C11'),
('db-swallow-put','pol/pol.go','	// Memorize the root only once it is stored, as storing it may fail.\n	db.DB.Put(key, val)','	func() { defer func() { recover() }(); db.DB.Put(key, val) }()','C09'),
# snapshots
('ser-key-nodot','sparse/tree.go','fmt.Sprintf("%s.%d", path, k)','fmt.Sprintf("%s%d", path, k)','C12'),
('ser-len16','sparse/tree.go','uint32(len(bytes))','uint32(uint16(len(bytes)))','C12'),
('ser-once','sparse/tree.go','	if err != nil {\n		panic(err)\n	}\n\n	for k, v := range','	if err != nil && path != "" {\n		panic(err)\n	}\n\n	for k, v := range','C12'),
('ser-eof','sparse/tree.go','	if err != nil {\n		panic(err)\n	}\n\n	for k, v := range','	if err == io.EOF {\n		return\n	}\n	if err != nil {\n		panic(err)\n	}\n\n	for k, v := range','C12'),
('ser-noshort','sparse/tree.go','	if err == nil && n < len(record) {','	if err == nil && n == 0 {','C12'),
# entropy
('blind-const','verkle/tree.go','			BlindingFactor: c.NewRandomZr(rand.Reader),','			BlindingFactor: c.NewZrFromInt(int64(len(descendants))),','C13'),
('rp-reuse','bp/range.go','	s, t := common.RandVec(n*m+n), common.RandVec(n*m)','	s := common.RandVec(n*m + n)\n	t := s[:n*m]','C13'),
('rp-tau','bp/range.go','	τ1, τ2 := common.RandVec(1)[0], common.RandVec(1)[0]','	τ1 := common.RandVec(1)[0]\n	τ2 := τ1','C13'),
('eq-r','poe/poe.go','	r1, r2 := c.NewRandomZr(rand.Reader), c.NewRandomZr(rand.Reader)','	r1 := c.NewRandomZr(rand.Reader)\n	r2 := r1','C13'),
('randvec-cache','common/math.go','		v[i] = c.NewRandomZr(r)\n','		if i > 0 && i%16 == 0 {\n			v[i] = v[i-1].Copy()\n			continue\n		}\n		v[i] = c.NewRandomZr(r)\n','C13'),
('no-blind','verkle/tree.go','	// Artificially append the blinding factor\n	m[len(m)-1] = v.BlindingFactor\n','','C13 C02'),
('ent-recover','common/math.go','		v[i] = c.NewRandomZr(r)\n','		func() {\n			defer func() {\n				if recover() != nil {\n					v[i] = c.NewZrFromInt(int64(i))\n				}\n			}()\n			v[i] = c.NewRandomZr(r)\n		}()\n','C13'),
# commitments
('agg-byte','pp/pointproofs.go','byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)','byte(i)','C17'),
('ro-noi','pp/pointproofs.go','	h.Write([]byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})\n','','C17 C06'),
('ro-nocs','pp/pointproofs.go','	for j := 0; j < len(cs); j++ {\n		h.Write(cs[j].Bytes())','	for j := i; j < i+1; j++ {\n		h.Write(cs[j].Bytes())','-'),
('ro-prefix','pp/pointproofs.go','	for j := 0; j < len(cs); j++ {\n		h.Write(cs[j].Bytes())','	for j := 0; j <= i; j++ {\n		h.Write(cs[j].Bytes())','-'),
('update-m','pp/pointproofs.go','	C.Add(nextG)\n','	C.Add(nextG)\n	m[len(m)-1] = mi\n','C17'),
('update-zero','pp/pointproofs.go','	prevG := pp.G1s[i].Mul(m[i])','	if mi.Equals(m[i]) || mi.Equals(c.NewZrFromInt(0)) {\n		return\n	}\n	prevG := pp.G1s[i].Mul(m[i])','C17'),
('open-last','pp/pointproofs.go','		if j == i+1 {\n			continue\n		}','		if j == i+1 || (j == pp.N && i == 0) {\n			continue\n		}','C17'),
# sparse
('leafflag','sparse/tree.go','		descendantsLeaves = false\n','		descendantsLeaves = len(path) == 1\n','-'),
('leafflag2','sparse/tree.go','	descendantsLeaves := true\n','	descendantsLeaves := len(path) > 1\n','C18'),
('idx','sparse/tree.go','		i--\n','		if i > 0 && path[i-1] < uint16(t.FanOut) {\n			i--\n		}\n','-'),
('parent-skip','sparse/tree.go','	v.Data = data\n','	if v.Data == data {\n		return\n	}\n	v.Data = data\n','C18 C09'),
('rawdata-cache','sparse/tree.go','		v.Data = t.UpdateInnerVertex(','		if v.Parent != nil && v.Data == nil && len(v.Descendants) > 1 {\n			v = v.Parent\n			i--\n			continue\n		}\n		v.Data = t.UpdateInnerVertex(','C18'),
]

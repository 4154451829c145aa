From e0d4b1d5b9eeba1a049375170c074511c039fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 01/19] fix: recompute the commitment of a leaf-layer vertex
 correctly upon update

The update path committed to the sum at an index that depends on how many
liabilities the vertex holds, and removed the new sum instead of the old one.
Every vertex that was updated ended up with a commitment that does not match
its values, so proofs for liabilities beneath it were rejected.
---
 verkle/tree.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 6af97ec..208b083 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -401,9 +401,7 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 	new := descendants[index].(int64)
 	newVal := c.NewZrFromInt(new)
 
-	v.sum = updateSum(v.sum, oldVal, newVal)
-
-	// Update index with new value
+	// The vector that is currently committed to: the values, and the sum that follows them
 	m := make(common.Vec, t.PP.N)
 	for i := 0; i < len(m); i++ {
 		if val, exists := v.values[uint16(i)]; exists {
@@ -412,16 +410,16 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 			m[uint16(i)] = c.NewZrFromInt(0)
 		}
 	}
+	m[len(m)-2] = v.sum
 
-	// Artificially append the sum
-	m = append(m, v.sum)
+	v.sum = updateSum(v.sum, oldVal, newVal)
 
 	// Update index with new value
 	pp.Update(t.PP, v.V, m, newVal, index)
 	v.values[uint16(index)] = newVal
 
 	// Update last entry with sum
-	pp.Update(t.PP, v.V, m, v.sum, len(v.values))
+	pp.Update(t.PP, v.V, m, v.sum, len(m)-2)
 
 	return key
 }
-- 
2.43.0


From 925674e91967fda25204a9a072a6d57acb22d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 02/19] fix: do not report an outdated root after a liability
 is set

The root was memorized by a DB wrapper which only Root() used, while the tree
wrote straight to the underlying DB. Once Root() was called, it kept reporting
the root of that time.
---
 pol/pol.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index 159748e..39660cc 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -51,11 +51,13 @@ func (pp *PublicParams) Size() int {
 // NewLiabilitySet creates a liability set with the given fanout and tree type.
 // Only a fan-out of the form 2^k - 1 for some natural k is permitted.
 func NewLiabilitySet(pp *PublicParams, db verkle.DB, id2Path func(string) []uint16) *LiabilitySet {
-	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, db)
+	// The tree must write through the memorized root, otherwise Root() reports an outdated root.
+	memDB := &DBMemorizeRoot{DB: db}
+	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, memDB)
 	tree.PP = pp.PPPP
 
 	return &LiabilitySet{
-		DB:   &DBMemorizeRoot{DB: db},
+		DB:   memDB,
 		pp:   pp,
 		tree: tree,
 	}
@@ -491,8 +493,9 @@ func (db *DBMemorizeRoot) Get(key []byte) []byte {
 }
 
 func (db *DBMemorizeRoot) Put(key []byte, val []byte) {
+	// Memorize the root only once it is stored, as storing it may fail.
+	db.DB.Put(key, val)
 	if len(key) == 0 {
 		db.root = val
 	}
-	db.DB.Put(key, val)
 }
-- 
2.43.0


From 57f6eb900219887b13fd0321b59c5313644235ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 03/19] fix: pad paths of small decimal identifiers to the
 depth of the tree

A single zero was appended to the path no matter how many digits were missing,
so liabilities of small identifiers were put at inner vertices of the tree.
In addition, a leading sign was accepted as if it was a digit.
---
 sparse/tree.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index bf984f7..054641a 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -137,7 +137,8 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		if len(s) != 9 {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
 		}
-		num, err := strconv.ParseInt(s, 10, 32)
+		// Parse as unsigned, since a sign is not a digit
+		num, err := strconv.ParseUint(s, 10, 32)
 		if err != nil {
 			panic(fmt.Sprintf("%s is not a valid decimal number", s))
 		}
@@ -145,12 +146,12 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		var res []uint16
 
 		for num > 0 {
-			res = append(res, uint16(num%int64(fanout)))
-			num /= int64(fanout)
+			res = append(res, uint16(num%uint64(fanout)))
+			num /= uint64(fanout)
 		}
 
 		pathLen := DigitPathLen(fanout)
-		if len(res) != pathLen {
+		for len(res) < pathLen {
 			res = append(res, 0)
 		}
 
-- 
2.43.0


From 168c735f4eb8425859352710e2bdbfa89d8e3238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 04/19] fix: refuse malformed hexadecimal identifiers

Only 64 hexadecimal characters identify a liability in a sparse tree. Other
strings were accepted and mapped to the path of another identifier, and a
negative number never yielded a path and blocked forever.
---
 sparse/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparse/tree.go b/sparse/tree.go
index 054641a..8c4523b 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -203,6 +203,10 @@ func HexId2PathForFanOut(fanout uint16) func(string) []uint16 {
 	}
 
 	return func(s string) []uint16 {
+		if digest, err := hex.DecodeString(s); err != nil || len(digest) != sha256.Size {
+			panic(fmt.Sprintf("%s is not a hexadecimal string of %d characters", s, hex.EncodedLen(sha256.Size)))
+		}
+
 		expectedPathLen := ExpectedHexPathLengthByFanOut[fanout]
 
 		for {
-- 
2.43.0


From a4cb8733d8d741bb104958e78f2dc1a433da8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 05/19] fix: reject proofs with a wrong number of vertices or
 range proofs

A missing one crashed the verifier, and the liability was opened in the last
vertex given and not in the one at the end of the path, so an additional vertex
made the verifier accept any liability.
---
 pol/pol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 39660cc..152e1ca 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -129,6 +129,9 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	if len(lp.W) != expectedDigestNum-1 || len(lp.Digests) != expectedDigestNum {
 		return nil, fmt.Errorf("expected digest proofs of size %d but got %d", expectedDigestNum, len(lp.W))
 	}
+	if len(lp.V) != len(path) || len(lp.RangeProofs) != len(path) {
+		return nil, fmt.Errorf("expected %d vertices and range proofs but got %d and %d", len(path), len(lp.V), len(lp.RangeProofs))
+	}
 
 	// Check that the root is what is advertised.
 	if !lp.V[0].Equals(V) {
-- 
2.43.0


From 9a78e9e76c76370cd5bf69e282fdbfe1735e76f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 06/19] fix: check that the opened digests are the ones of the
 vertices

The aggregated opening of the hash chain was never compared to the digests,
hence a vertex did not have to be the one its parent commits to.
---
 pol/pol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 152e1ca..2558f14 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -197,6 +197,15 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		}
 	}
 
+	// Check that the aggregated opening is of the digests that the vertices were checked against.
+	var tPP common.Vec
+	for i := 0; i < len(path)-1; i++ {
+		tPP = append(tPP, pp.RO(publicParams.PPPP, lp.W, i))
+	}
+	if !lp.PointProofΣ.Equals(lp.Digests[:len(tPP)].InnerProd(tPP)) {
+		return nil, fmt.Errorf("hash chain aggregation does not match the digests")
+	}
+
 	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, pp.RO); err != nil {
 		return nil, fmt.Errorf("hash chain aggregation proof invalid: %v", err)
 	}
-- 
2.43.0


From 01ce0ea72cc5c42588b9727f5ed1b197865e7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 07/19] fix: reject negative liabilities and totals

Exponentiation in the target group ignores the sign, so the negation of a proven
sum was accepted as well.
---
 pol/pol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 2558f14..554caab 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -124,6 +124,11 @@ func (lp LiabilityProof) Size() int {
 }
 
 func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *math.G1, id2path func(string) []uint16) ([]time.Duration, error) {
+	// A negative sum encodes the same exponent as its absolute value.
+	if lp.LiabilityProof.Sum < 0 {
+		return nil, fmt.Errorf("liability %d is negative", lp.LiabilityProof.Sum)
+	}
+
 	path := id2path(id)
 	expectedDigestNum := len(path)
 	if len(lp.W) != expectedDigestNum-1 || len(lp.Digests) != expectedDigestNum {
@@ -286,6 +291,10 @@ type TotalProof struct {
 }
 
 func (tp TotalProof) Verify(publicParams *PublicParams, V *math.G1) error {
+	// A negative sum encodes the same exponent as its absolute value.
+	if tp.Sum < 0 {
+		return fmt.Errorf("sum %d is negative", tp.Sum)
+	}
 	mi := common.IntToZr(tp.Sum)
 	return pp.Verify(publicParams.PPPP, mi, tp.LiabilityProof, V, publicParams.Fanout)
 }
-- 
2.43.0


From a9b0f820150af4c1e85b5f14f20de7dac83c412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 08/19] fix: do not alter a proof while verifying it

Concurrent verifications of the same proof for different vertices raced on it:
valid proofs could be rejected, and invalid ones accepted.
---
 bp/range.go | 8 +++++---
 poe/poe.go  | 8 +++++---
 sum/sa.go   | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/bp/range.go b/bp/range.go
index 7e0f9a9..88fb013 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -133,9 +133,11 @@ func VerifyRange(pp *RangeProofPublicParams, rp *RangeProof, V *math.G1) error {
 	ipaPP.H = Fprime
 	ipaPP.RecomputeDigest()
 
-	rp.Π.C = rp.c
-	rp.Π.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)
-	if err := rp.Π.Verify(ipaPP); err != nil {
+	// Verification must not alter the proof
+	Π := *rp.Π
+	Π.C = rp.c
+	Π.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)
+	if err := Π.Verify(ipaPP); err != nil {
 		return fmt.Errorf("inner product proof invalid: %v", err)
 	}
 
diff --git a/poe/poe.go b/poe/poe.go
index 86f151e..40ba90f 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -119,10 +119,12 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 
 	bpPP.RecomputeDigest()
 
-	proof.IPP.C = proof.c
-	proof.IPP.P = P
+	// Verification must not alter the proof
+	ipp := *proof.IPP
+	ipp.C = proof.c
+	ipp.P = P
 
-	return proof.IPP.Verify(bpPP)
+	return ipp.Verify(bpPP)
 
 }
 
diff --git a/sum/sa.go b/sum/sa.go
index a341649..d8f37de 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -198,9 +198,11 @@ func (proof *Proof) Verify(pp *PP, a *Argument) error {
 
 	ipaPP.RecomputeDigest()
 
-	proof.π.C = proof.c.Mul(x)
-	proof.π.P = P
-	return proof.π.Verify(ipaPP)
+	// Verification must not alter the proof
+	π := *proof.π
+	π.C = proof.c.Mul(x)
+	π.P = P
+	return π.Verify(ipaPP)
 }
 
 func negZr(x *math.Zr) *math.Zr {
-- 
2.43.0


From 62dce99cd59ff0502824844ce8487edb9d45eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 09/19] fix: reject proofs with lists of a wrong length

Verification crashed on shortened lists and ignored the excess of longer ones.
---
 bp/innerprod.go | 6 ++++++
 bp/ir.go        | 5 +++++
 poe/poe.go      | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a0b44a1..770fdcf 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -3,6 +3,7 @@ package bp
 import (
 	"crypto/sha256"
 	"fmt"
+	"math/bits"
 	"pol/common"
 
 	math "github.com/IBM/mathlib"
@@ -132,6 +133,11 @@ func (ipa *InnerProdArgument) Prove() *InnerProductProof {
 }
 
 func (ipp *InnerProductProof) Verify(pp *PP) error {
+	// Each halving of the vectors contributes a pair of elements
+	if expected := 2 * bits.Len(uint(len(pp.G)-1)); len(ipp.LRs) != expected {
+		return fmt.Errorf("expected %d elements but got %d", expected, len(ipp.LRs))
+	}
+
 	pp, P := computeInstanceSpecificParams(pp, ipp.P, ipp.C)
 	return verify(pp, P, pp.G, pp.H, ipp.LRs, ipp.a, ipp.b)
 }
diff --git a/bp/ir.go b/bp/ir.go
index fa956cb..1d3c860 100644
--- a/bp/ir.go
+++ b/bp/ir.go
@@ -3,6 +3,7 @@ package bp
 import (
 	"crypto/sha256"
 	"fmt"
+	"math/bits"
 	"pol/common"
 
 	math "github.com/IBM/mathlib"
@@ -14,6 +15,10 @@ func IterativeVerify(pp *PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr)
 		panic(fmt.Sprintf("G Public Parameter should be a group vector of length that is power of two but its length is %d", n))
 	}
 
+	if expected := bits.TrailingZeros(uint(n)); len(Δ) != expected {
+		return nil, nil, fmt.Errorf("expected %d reductions but got %d", expected, len(Δ))
+	}
+
 	n /= 2
 
 	G := common.G1v(pp.G)
diff --git a/poe/poe.go b/poe/poe.go
index 40ba90f..0159a82 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -69,6 +69,10 @@ func (ap *AggregatedProof) Size() int {
 }
 
 func (e *Equalities) Verify(proof *AggregatedProof) error {
+	if len(proof.Vaggr) != len(e.V) || len(proof.Waggr) != len(e.V) {
+		return fmt.Errorf("expected %d aggregated commitments but got %d and %d", len(e.V), len(proof.Vaggr), len(proof.Waggr))
+	}
+
 	var groupElements common.G1v
 	groupElements = append(groupElements, proof.Vaggr...)
 	groupElements = append(groupElements, proof.Waggr...)
-- 
2.43.0


From 18b8322b18acc1e93597b484c3bd2188cfd3fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 10/19] fix: bind the inner product challenge to the statement

The commitment was dropped from the hash, and the claimed inner product was
not in it, so the challenge was known in advance and a prover could choose a
commitment for which any claimed inner product was accepted.
---
 bp/innerprod.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index 770fdcf..09a1402 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -105,7 +105,8 @@ func computeInstanceSpecificParams(pp *PP, P *math.G1, c *math.Zr) (*PP, *math.G
 	newPP = *pp
 	var hashPreImage []byte
 	hashPreImage = append(hashPreImage, P.Bytes()...)
-	hashPreImage = append(pp.Digest)
+	hashPreImage = append(hashPreImage, c.Bytes()...)
+	hashPreImage = append(hashPreImage, pp.Digest...)
 
 	x := common.FieldElementFromBytes(common.SHA256Digest(string(hashPreImage)))
 
-- 
2.43.0


From c9751b578308cdcd3a7a1a4b6a0582edbbe1054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 11/19] fix: serialize the vertices of the tree and report a
 failing writer

The data of a vertex in the tree is its key in the DB, but only vertices
themselves were serialized, hence no vertex ever was. Errors of the writer
were dropped, leaving a truncated snapshot unnoticed.
---
 sparse/tree.go | 5 +++--
 verkle/tree.go | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index 8c4523b..579f31f 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -107,8 +107,9 @@ func (v *Vertex) Serialize(out io.Writer, path string, vertexToBytes func(interf
 	header := make([]byte, 32)
 	binary.BigEndian.PutUint32(header, uint32(len(bytes)))
 
-	out.Write(header)
-	out.Write(bytes)
+	if _, err := out.Write(append(header, bytes...)); err != nil {
+		panic(err)
+	}
 
 	for k, v := range v.Descendants {
 		descPath := fmt.Sprintf("%s.%d", path, k)
diff --git a/verkle/tree.go b/verkle/tree.go
index 208b083..48cf409 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -189,11 +189,11 @@ func NewVerkleTree(fanOut uint16, id2Path func(string) []uint16, db DB) *Tree {
 
 func (t *Tree) Serialize(out io.Writer) {
 	t.Tree.Root.Serialize(out, "", func(data interface{}) []byte {
-		_, isVertex := data.(*Vertex)
-		if !isVertex {
+		// Vertices are kept in the DB and are referred to by their key, all else are liabilities
+		if _, isVertex := data.(string); !isVertex {
 			return nil
 		}
-		return data.(*Vertex).Bytes()
+		return t.fetchVertex(data).Bytes()
 	})
 }
 
-- 
2.43.0


From c6b0891224c908cc25d71a8a9b5e93a2177dc042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 12/19] fix: hand a failing range proof over to the caller
 instead of ending the process

---
 pol/pol.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 554caab..23b8b84 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -369,6 +369,7 @@ func (ls *LiabilitySet) ProveLiability(id string) (int64, LiabilityProof, []time
 	rangeProofProduction.Add(len(path))
 
 	var lock sync.Mutex
+	var rangeProofFailure interface{}
 
 	proof.RangeProofs = make([]*bp.RangeProof, len(path))
 
@@ -414,6 +415,14 @@ func (ls *LiabilitySet) ProveLiability(id string) (int64, LiabilityProof, []time
 
 		createRangeProof := func(i int, pp *bp.RangeProofPublicParams, V *math.G1, v common.Vec, r *math.Zr) {
 			defer rangeProofProduction.Done()
+			// A panic here would escape the caller and end the process, so hand it over to the caller.
+			defer func() {
+				if failure := recover(); failure != nil {
+					lock.Lock()
+					rangeProofFailure = failure
+					lock.Unlock()
+				}
+			}()
 			rp := bp.ProveRange(pp, V, v, r)
 			lock.Lock()
 			proof.RangeProofs[i] = rp
@@ -482,6 +491,9 @@ func (ls *LiabilitySet) ProveLiability(id string) (int64, LiabilityProof, []time
 	eqProofElapsed := time.Since(eqProofStart)
 
 	rangeProofProduction.Wait()
+	if rangeProofFailure != nil {
+		panic(rangeProofFailure)
+	}
 
 	return liability, proof, []time.Duration{saElapsed, eqProofElapsed, time.Since(start)}, true
 }
-- 
2.43.0


From c9782c2937dcdbbbe3d30c531594c052eddc79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 13/19] fix: do not report the total of an earlier set for an
 empty one

---
 pol/pol.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 23b8b84..c335813 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -300,6 +300,11 @@ func (tp TotalProof) Verify(publicParams *PublicParams, V *math.G1) error {
 }
 
 func (ls *LiabilitySet) ProveTot() TotalProof {
+	// The storage may hold the root of a set that was there before this one.
+	if ls.tree.Tree.Root == nil || ls.tree.Tree.Root.Data == nil {
+		panic("no liability is set")
+	}
+
 	cachedRoot := ls.tree.DB.Get(nil)
 
 	v := &verkle.Vertex{}
-- 
2.43.0


From ec1213719950c58f2011d93b8a3be90ea35aeb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 14/19] fix: compare the last entry with the sum modulo the
 group order

---
 sum/sa.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sum/sa.go b/sum/sa.go
index d8f37de..4372227 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -127,7 +127,12 @@ func NewCommitment(pp *PP, v common.Vec, r *math.Zr) *Argument {
 		sum = sum.Plus(v[i])
 	}
 
-	if !v[n-1].Equals(sum) {
+	// Both may exceed the group order
+	sum.Mod(GroupOrder)
+	expectedSum := v[n-1].Copy()
+	expectedSum.Mod(GroupOrder)
+
+	if !expectedSum.Equals(sum) {
 		panic("v[n-1] != Σv[j] j: 0->n-2")
 	}
 
-- 
2.43.0


From 9bcb6c80f8df1f255df7e15e0e511bfaa131d144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 15/19] fix: report a snapshot that the writer did not take
 completely

---
 sparse/tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index 579f31f..b5d82f5 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -107,7 +107,12 @@ func (v *Vertex) Serialize(out io.Writer, path string, vertexToBytes func(interf
 	header := make([]byte, 32)
 	binary.BigEndian.PutUint32(header, uint32(len(bytes)))
 
-	if _, err := out.Write(append(header, bytes...)); err != nil {
+	record := append(header, bytes...)
+	n, err := out.Write(record)
+	if err == nil && n < len(record) {
+		err = io.ErrShortWrite
+	}
+	if err != nil {
 		panic(err)
 	}
 
-- 
2.43.0


From b3e612667e5cf7ad444f55a113e2a377b16af64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 16/19] fix: open the only entry of a vector

---
 common/math.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/math.go b/common/math.go
index f1c29e8..824038b 100644
--- a/common/math.go
+++ b/common/math.go
@@ -340,6 +340,10 @@ func (g1v G1v) MulV(v Vec) G1v {
 }
 
 func (g1v G1v) Sum() *math.G1 {
+	if len(g1v) == 0 {
+		return c.NewG1()
+	}
+
 	sum := g1v[0].Copy()
 	for i := 1; i < len(g1v); i++ {
 		if g1v[i].IsInfinity() {
-- 
2.43.0


From ca6611b8f88aeb5f8e7cab47add8de9903dc75b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 17/19] fix: distinguish the challenges of more than 256
 aggregated openings

---
 pp/pointproofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 71658dd..24522c7 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -170,7 +170,7 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 func RO(pp *PP, cs []*math.G1, i int) *math.Zr {
 	h := sha256.New()
 	h.Write(pp.Digest)
-	h.Write([]byte{byte(i)})
+	h.Write([]byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
 	for j := 0; j < len(cs); j++ {
 		h.Write(cs[j].Bytes())
 	}
-- 
2.43.0


From 2a6a91f3b90f30478efc7cb15c6a55608b773b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 18/19] fix: let the digest of the range parameters cover the
 generators in use

GeneratePublicParams replaces Gs and F after the digest was computed, so the
challenges of range proofs were bound to generators that are not in use and
were the same for all deployments of a fan-out.
---
 bp/range.go | 6 ++++++
 pol/pol.go  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/bp/range.go b/bp/range.go
index 88fb013..0454c8c 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -52,6 +52,12 @@ func (rppp *RangeProofPublicParams) Digest() []byte {
 	return digest
 }
 
+// SetupDigest computes the digest anew, as is needed once any of the generators is replaced.
+func (rppp *RangeProofPublicParams) SetupDigest() {
+	rppp.digest = nil
+	rppp.Digest()
+}
+
 type RangeProof struct {
 	Δ            [][3]*math.G1
 	u            *math.Zr // Γ = (Δ, u)
diff --git a/pol/pol.go b/pol/pol.go
index c335813..2e032c1 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -99,6 +99,7 @@ func GeneratePublicParams(fanOut uint16, treeType TreeType) (func(string) []uint
 
 	pp.RPPP.Gs = pp.SAPP.Gs
 	pp.RPPP.F = pp.SAPP.F
+	pp.RPPP.SetupDigest()
 	return id2Path, pp
 }
 
-- 
2.43.0


From 57d7ed1048a98ae67508470004ee2c33df3f11d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 19/19] fix: distinguish the challenges of more than 32768
 pairs of an equality argument

Their index was written as two bytes, so the challenges repeated and amounts by
which two pairs that are 32768 apart differ could cancel.
---
 poe/poe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/poe/poe.go b/poe/poe.go
index 0159a82..c6a7653 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -262,9 +262,9 @@ type Equality struct {
 
 func RO(gs common.G1v, integers []int, ppDigest []byte, n int) common.Vec {
 	h := hmac.New(sha256.New, compressParameters(gs, integers, ppDigest))
-	scalar := func(i uint16) *math.Zr {
-		buff := make([]byte, 2)
-		binary.BigEndian.PutUint16(buff, i)
+	scalar := func(i uint32) *math.Zr {
+		buff := make([]byte, 4)
+		binary.BigEndian.PutUint32(buff, i)
 		h.Write(buff)
 		digest := h.Sum(nil)
 		h.Reset()
@@ -276,7 +276,7 @@ func RO(gs common.G1v, integers []int, ppDigest []byte, n int) common.Vec {
 
 	scalars := make([]*math.Zr, n)
 	for i := 0; i < n; i++ {
-		scalars[i] = scalar(uint16(i))
+		scalars[i] = scalar(uint32(i))
 	}
 	return scalars
 
-- 
2.43.0


#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, where=b) for a, b in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Liability lookups behave like a map from identifiers to amounts",
  "After any history of settings, looking up an identifier returns the amount last set for exactly that identifier, and 'not found' if it was never set; setting one identifier never changes what any other returns. This holds for every nine-digit decimal identifier (dense tree, including leading zeros) and every 64-character lower-case hexadecimal identifier (sparse tree), for every supported fan-out and every non-negative amount. A request with a negative amount or a malformed identifier is refused and leaves the set as it was.",
  ["histories", "inputs", "configurations"],
  "every sequence of set/get calls by any number of clients whose requests are delayed, duplicated and reordered by the network; all ids of both id spaces; all fan-outs; all conforming storage behaviours (retaining or copying buffers)",
  "The tests look up at most five hand-picked or random ids once each; they never overwrite an id, never use ids with leading zeros, never interleave requests and never use ids with adversarially similar paths.",
  ["pol/pol.go", "verkle/tree.go", "sparse/tree.go"],
  [("Set/Get", "pol/pol.go LiabilitySet.Set, LiabilitySet.Get"), ("tree walk", "sparse/tree.go Tree.Put, Tree.Get"), ("id to path", "sparse/tree.go DigitPath, HexId2PathForFanOut, DigitPathLen")],
  [("in-memory tree", "sparse/tree.go Vertex")], ["LiabilitySet.Get return values"])

p("C02", "Every recorded liability can be proven, with the latest amount",
  "At any point of any history, asking for a proof of a recorded identifier returns the amount last set for it together with a proof that the verifier accepts against the root the set reports at that moment; asking for an unrecorded identifier reports 'not found'. This holds for new and overwritten liabilities, for identifiers sharing any part of their path, for amounts from 0 up to totals below 2^63, for every supported fan-out and tree type, and with parallelism on or off. Reading the root, proofs or totals at any earlier time does not affect it.",
  ["histories", "inputs", "configurations", "schedules"],
  "every history of set/get/root/prove calls, fan-out, tree type, depth, amount, parallelism setting, storage behaviour, randomness tape and goroutine interleaving",
  "The tests prove one freshly inserted id once per tree; they never overwrite a liability, never put two ids under the same bottom vertex, and never read the root before a later change.",
  ["pol/pol.go", "verkle/tree.go", "sparse/tree.go", "bp/range.go", "poe/poe.go", "sum/sa.go", "pp/pointproofs.go"],
  [("proof construction", "pol/pol.go LiabilitySet.ProveLiability"), ("verification", "pol/pol.go LiabilityProof.Verify"), ("vertex maintenance", "verkle/tree.go updateInnerLayer, updateLayerAboveLeaves"), ("root", "pol/pol.go LiabilitySet.Root")],
  [("vertices in the database", "verkle/tree.go Vertex")], ["ProveLiability return values", "LiabilityProof.Verify result", "Root"])

p("C03", "The proven total is the sum of all current liabilities",
  "At any point of any history with at least one liability, the total the set reports equals the sum of the current amounts of all identifiers (each counted once, with its latest amount), and its proof is accepted against the root the set reports at that moment. No other total is accepted for that root.",
  ["histories", "inputs", "configurations"],
  "every history of sets (inserts, increases, decreases, zeroing), interleaved root/total/proof reads, fan-out, tree type and totals below 2^63",
  "The one test sets two random ids once, and checks that a proof verifies without checking which total it proves.",
  ["pol/pol.go", "verkle/tree.go", "sparse/tree.go", "pp/pointproofs.go"],
  [("total", "pol/pol.go LiabilitySet.ProveTot, TotalProof.Verify"), ("sums", "verkle/tree.go updateSum, updateInnerLayer, updateLayerAboveLeaves")],
  [("vertex sums", "verkle/tree.go Vertex")], ["ProveTot", "TotalProof.Verify", "Root"])

p("C04", "A proof counts only against the root of the state it describes",
  "Whenever a client holding some published root accepts a liability proof or a total proof, the accepted amount is the true amount in the state that root was published for. Proofs produced before or after that state, delivered late, duplicated or out of order, are accepted only if the root is the same, and every change of any liability's amount changes the published root.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of changes, root publications, proof requests and deliveries, with delayed, duplicated, reordered and stale messages, and every pair (state of the proof, state of the root)",
  "The tests verify each proof immediately against the only root that ever exists.",
  ["pol/pol.go", "verkle/tree.go"],
  [("root comparison", "pol/pol.go LiabilityProof.Verify"), ("root", "pol/pol.go LiabilitySet.Root, DBMemorizeRoot")],
  [], ["LiabilityProof.Verify, TotalProof.Verify against published roots"])

p("C05", "Altered, truncated, spliced or misdirected proofs are rejected cleanly",
  "A verifier returns an error, and never accepts, crashes or hangs, when a genuine liability proof reaches it with any group element, scalar or amount it relies on altered, with any list in it shortened, lengthened or reordered, with parts taken from another proof, or for another identifier or root. The same holds for total proofs, including a changed or negated total. (Values the verifier recomputes itself are not relied on.)",
  ["inputs", "fault_sequences", "schedules"],
  "every genuine proof, every position in it, every alteration of one or several of its values or list lengths, every splice of two genuine proofs, every wrong id or root, in every verification schedule",
  "No test ever verifies anything but an honest, untouched proof, so a verifier that accepted everything would pass all tests.",
  ["pol/pol.go", "bp/range.go", "bp/ir.go", "bp/innerprod.go", "poe/poe.go", "sum/sa.go", "pp/pointproofs.go"],
  [("liability verification", "pol/pol.go LiabilityProof.Verify"), ("total verification", "pol/pol.go TotalProof.Verify"), ("sub-verifiers", "bp.VerifyRange, sum.Proof.VerifyAggregated, poe.Equalities.Verify, pp.VerifyAggregation, pp.Verify")],
  [], ["Verify result"])

p("C06", "A dishonest operator cannot get an inconsistent tree accepted",
  "A verifier rejects every liability proof from an operator whose committed path is inconsistent: a vertex whose recorded sum differs from the sum of its entries, a parent entry that differs from the child's sum, an entry or sum outside [0, 2^63), a vertex on the path that is not the one its parent committed to, or an opened amount that is not the one in the committed leaf position - at any level, singly or combined, with every other part of the proof honestly computed. Different clients of one published root therefore cannot be shown conflicting trees, and an auditor cannot be shown a total other than the root's.",
  ["inputs", "fault_sequences", "configurations"],
  "every honest state, every level of the path, every listed kind of dishonesty and combination of them, every fan-out and depth",
  "No test contains a dishonest prover.",
  ["pol/pol.go", "sum/sa.go", "poe/poe.go", "bp/range.go", "pp/pointproofs.go"],
  [("sum relation", "sum/sa.go Proof.VerifyAggregated"), ("parent/child equality", "poe/poe.go Equalities.Verify"), ("range", "bp/range.go VerifyRange"), ("digest chain", "pol/pol.go checkCommitmentToInnerVertex, checkCommitmentToLeafVertex, pp.VerifyAggregation")],
  [], ["LiabilityProof.Verify, TotalProof.Verify"])

p("C07", "Parallel proving and verifying give the sequential outcome in any schedule",
  "For every interleaving of the concurrent work inside one proof generation or one verification, the outcome is that of the sequential mode: a returned proof is complete and accepted, a valid proof is accepted, and a proof whose range evidence is invalid at any one or more levels is rejected. Neither operation deadlocks, crashes the process, or reports success while any of its concurrent work is unfinished.",
  ["schedules", "configurations", "inputs"],
  "every goroutine interleaving inside ProveLiability and Verify, parallelism on and off, every set of levels with invalid range evidence, depth and fan-out",
  "The tests run whichever schedule the machine happens to produce, only on valid proofs, and never turn parallelism off.",
  ["pol/pol.go"],
  [("parallel range proving", "pol/pol.go ProveLiability"), ("parallel range verification", "pol/pol.go Verify")],
  [("wait groups, lock, detected error", "pol/pol.go")], ["return values of ProveLiability and Verify in each schedule"])

p("C08", "Concurrent queries and verifications do not influence each other",
  "While no liability is being set, any number of concurrent proof, total, lookup and root requests on one liability set, and any number of concurrent or repeated verifications - including of the very same proof object, against different roots or identifiers, and with shared public parameters - each return exactly what they would return alone. Verifying never changes a proof: it can be verified again with the same result.",
  ["schedules", "histories"],
  "every interleaving of any set of concurrent read-only requests and verifications, valid and invalid, over shared sets, proofs and parameters",
  "All tests are single-client and verify each proof object exactly once.",
  ["pol/pol.go", "bp/range.go", "bp/innerprod.go", "poe/poe.go", "sum/sa.go"],
  [("root cache", "pol/pol.go DBMemorizeRoot"), ("verification of received proofs", "bp/range.go VerifyRange, sum/sa.go Proof.Verify, poe/poe.go Equalities.Verify")],
  [("proof objects and public parameters shared by callers", "bp, poe, sum, pp")], ["results of concurrent calls"])

p("C09", "A storage failure during a change never falsifies, and a retry repairs",
  "If the storage fails at any point while a liability is being set, then until the set is retried nothing a client accepts against a root reported by the set states an amount other than the old or the newly requested one for that identifier, or any other than the true amount for every other identifier; totals likewise count either amount. Once the failed setting has been retried successfully, every lookup, proof and total is again exact and accepted, as if the failure had never happened.",
  ["fault_sequences", "crash_points", "histories"],
  "every storage operation of every set call as the failing one (before or after taking effect), several failures in a row, any history before and after, retried with the same or another amount",
  "The in-memory map used by the tests never fails.",
  ["verkle/tree.go", "sparse/tree.go", "pol/pol.go"],
  [("bottom-up update", "sparse/tree.go Tree.Put"), ("vertex write-back", "verkle/tree.go updateInnerLayer, updateLayerAboveLeaves, fetchVertex"), ("root cache", "pol/pol.go DBMemorizeRoot")],
  [("database records and in-memory tree", "verkle/tree.go, sparse/tree.go")], ["Get, Root, ProveLiability, ProveTot, Verify after the failure and after the retry"])

p("C10", "Damaged or misdirected stored records never yield an accepted false claim",
  "Whatever the storage returns for a record that is read while answering a query - damaged bytes, a truncated record, another record, an older version of the record, or nothing - the query either fails or produces a proof or total whose claim is true if a verifier accepts it against the published root. Once the storage returns correct records again, queries succeed again.",
  ["fault_sequences", "inputs"],
  "every record, every query, every damaged bit range, truncation point, substituted or outdated record",
  "The tests' storage always returns exactly what was written.",
  ["verkle/tree.go", "pol/pol.go"],
  [("record decoding", "verkle/tree.go Vertex.FromBytes, fetchVertex"), ("proof from records", "pol/pol.go ProveLiability, ProveTot")],
  [("database records", "verkle/tree.go RawVertex")], ["ProveLiability, ProveTot, Verify"])

p("C11", "A set restarted over leftover storage starts clean",
  "When the process stops at any point of any operation and a new liability set with the same parameters is created over whatever the storage then contains, lookups, proofs and totals of the new set depend only on the liabilities set since the restart: identifiers not set again are 'not found', and once liabilities are set again every lookup, proof and total is exact and accepted against the new root.",
  ["crash_points", "histories", "fault_sequences"],
  "every crash point (any instruction boundary or storage operation) in any operation of any history, any number of restarts, same or different liabilities afterwards",
  "The tests always start from an empty storage and never stop mid-operation.",
  ["pol/pol.go", "verkle/tree.go", "sparse/tree.go"],
  [("fresh vertices", "verkle/tree.go updateInnerLayer, updateLayerAboveLeaves"), ("set creation", "pol/pol.go NewLiabilitySet")],
  [("leftover records", "database")], ["Get, Root, ProveLiability, ProveTot after restart"])

p("C12", "A snapshot of the tree is complete, or its failure is reported",
  "Serializing a tree writes, for every vertex of the tree exactly once, its path and - for every vertex that carries commitments - a record from which that vertex's current commitments are recovered; nothing else is written. If the destination fails or cannot take everything at any point, the operation does not return as if it had succeeded.",
  ["histories", "fault_sequences", "inputs"],
  "every tree produced by any history, every write of the snapshot as the failing or short one, every order in which vertices may be visited",
  "The one test serializes into a memory buffer and does not look at the result.",
  ["verkle/tree.go", "sparse/tree.go"],
  [("tree serialization", "verkle/tree.go Tree.Serialize"), ("vertex framing", "sparse/tree.go Vertex.Serialize")],
  [], ["bytes received by the writer", "how Serialize returns"])

p("C13", "Everything published is blinded with fresh entropy, or not produced",
  "Two runs of the same history that differ only in the entropy they receive publish no equal vertex commitment, and two proofs of the same statement share none of their randomised parts; vertices holding equal contents have different commitments. If the entropy source fails or stalls, or delivers its bytes in arbitrarily small pieces, then an operation that needs entropy fails or still satisfies the above; it never publishes anything computed from missing entropy.",
  ["fault_sequences", "histories", "inputs"],
  "every history and proof request, every entropy tape, every read of the entropy source as the failing or short one",
  "The tests never compare two runs and the machine's entropy source never fails.",
  ["verkle/tree.go", "bp/range.go", "poe/poe.go", "sum/sa.go", "common/math.go", "pp/pointproofs.go"],
  [("vertex blinding", "verkle/tree.go updateInnerLayer, updateLayerAboveLeaves"), ("proof randomness", "common/math.go RandVec; bp/range.go ProveRange; poe/poe.go Prove; sum/sa.go NewArgument; pp/pointproofs.go NewPublicParams")],
  [], ["published commitments and proofs", "how operations end when entropy fails"])

p("C14", "The sum argument accepts exactly vectors whose last entry is the sum",
  "Between a prover and a verifier, single and aggregated sum arguments are accepted whenever every committed vector's last entry is the sum of the others (modulo the group order) and rejected whenever it is not for any of them, when the argument or a commitment is altered on the way, or when the argument is presented for other commitments. This holds for any vectors, any vector length that is a power of two, any entropy, and any number of interleaved sessions sharing public parameters.",
  ["inputs", "schedules", "fault_sequences"],
  "all vectors, blinding factors, numbers of aggregated commitments, entropy tapes, alterations, and interleavings of sessions sharing parameters",
  "Two tests check one honest argument each.",
  ["sum/sa.go", "bp/innerprod.go"],
  [("argument", "sum/sa.go NewArgument, NewAggregatedArgument"), ("verification", "sum/sa.go Proof.Verify, Proof.VerifyAggregated")],
  [], ["Verify, VerifyAggregated"])

p("C15", "The equality argument accepts exactly equal committed entries",
  "Between a prover and a verifier, single and aggregated equality arguments are accepted whenever the designated entries of each pair of committed vectors are equal and rejected whenever any pair differs, when the argument, a commitment or an index is altered on the way, or when it is presented for other commitments. This holds for any vectors, indices, power-of-two number of pairs, entropy, and any number of interleaved sessions sharing public parameters.",
  ["inputs", "schedules", "fault_sequences"],
  "all vectors, index pairs, numbers of pairs, entropy tapes, alterations, and interleavings of sessions sharing parameters",
  "Two tests check one honest argument each, with fixed indices.",
  ["poe/poe.go", "bp/innerprod.go", "pp/pointproofs.go"],
  [("argument", "poe/poe.go Equality.Prove, Equalities.Prove"), ("verification", "poe/poe.go Equality.Verify, Equalities.Verify")],
  [], ["Verify"])

p("C16", "Range, reduction and inner-product arguments accept exactly true statements",
  "A range proof is accepted for every committed vector with all entries in [0, 2^63) and never for a commitment to a vector with an entry outside, for another commitment, or after alteration; an inner-product proof is accepted exactly for the true inner product of the committed vectors, also against a prover that picks its claim after learning the challenges; an iterated reduction is accepted exactly for the committed vector. Verification reports failure by returning an error, also for truncated or overlong proofs, and this holds for any entropy and interleaved sessions sharing public parameters.",
  ["inputs", "schedules", "fault_sequences"],
  "all vectors (including all-zero, single-bit, maximal and just-out-of-range entries), lengths that are powers of two, entropy tapes, alterations, truncations, and interleavings of sessions",
  "Three tests check one honest proof each; the verifier of the iterated reduction is not called by its test at all.",
  ["bp/range.go", "bp/ir.go", "bp/innerprod.go"],
  [("range", "bp/range.go ProveRange, VerifyRange"), ("iterated reduction", "bp/ir.go IterativeReduce, IterativeVerify"), ("inner product", "bp/innerprod.go Prove, Verify")],
  [], ["VerifyRange, IterativeVerify, InnerProductProof.Verify"])

p("C17", "Vector commitments stay openable through any history of updates",
  "After any sequence of in-place updates a vector commitment equals a fresh commitment to the current vector, every entry opens to its current value and to no other value, position or commitment, and aggregated openings of several commitments are accepted exactly when every aggregated value is right. Updating one commitment or opening it never disturbs another commitment, vector or the shared public parameters, in any interleaving of clients.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "all update histories, vectors (including zero and repeated entries), positions, sets of aggregated commitments, alterations, and interleavings of clients sharing parameters",
  "The tests update one entry of one commitment once and check honest openings only.",
  ["pp/pointproofs.go", "common/math.go"],
  [("commitments", "pp/pointproofs.go Commit, Open, Verify, Update"), ("aggregation", "pp/pointproofs.go Aggregate, VerifyAggregation")],
  [], ["Commit, Update, Open, Verify, VerifyAggregation"])

p("C18", "The sparse tree keeps every inner vertex in step with its children",
  "After any history of insertions and overwrites, the data of every inner vertex is what the tree's update function yields for the current data of its children, vertices are updated bottom-up exactly once per insertion along exactly the inserted path, and the update function is told truthfully which child changed, whether its children are leaves and a key that is unique to that vertex. If the update function fails part-way, a repeated insertion restores all of this.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of insertions over all identifiers and fan-outs, every call of the update function as the failing one",
  "The tests insert each id once in one fixed order, and with fan-outs too small for keys to be confused.",
  ["sparse/tree.go"],
  [("insertion", "sparse/tree.go Tree.Put"), ("lookup", "sparse/tree.go Tree.Get"), ("children", "sparse/tree.go Vertex.rawData")],
  [("tree vertices", "sparse/tree.go Vertex")], ["arguments and results of the update function", "Tree.Get"])

p("C22", "Independent sets sharing public parameters do not influence each other",
  "Any number of liability sets that share public parameters, each with its own storage and its own client and operated concurrently, behave as if each were alone in the process: settings, storage failures, lookups, roots, totals and proofs of one set never change what another returns, and no total or proof made for one set is accepted against the root of another.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "every number of sets over the same parameters, identifiers shared or not, every history of each, every interleaving of their operations and storage failures, and every pair (set of the proof, set of the root)",
  "Every test creates one liability set, uses it from one goroutine and throws it away.",
  ["pol/pol.go", "verkle/tree.go", "sparse/tree.go", "pp/pointproofs.go", "bp/range.go", "sum/sa.go", "poe/poe.go", "common/math.go"],
  [("set creation", "pol/pol.go NewLiabilitySet"), ("vertex maintenance", "verkle/tree.go updateInnerLayer, updateLayerAboveLeaves"), ("commitment updates over shared parameters", "pp/pointproofs.go Update, Commit"), ("package-level values", "common/math.go")],
  [("public parameters and package-level values shared by the sets", "pol/pol.go PublicParams, common/math.go")], ["Get, Root, ProveTot, ProveLiability of every set", "Verify against every root"])

p("C23", "Deployments with different parameters coexist and nothing crosses between them",
  "Any number of deployments in one process, each with public parameters of its own (of the same or different fan-outs and tree types), behave as if each were alone, also while parameters are being generated for another: every lookup, total and proof is exact and accepted under the deployment's own parameters. Whatever the root it is compared with, no total or proof made under one set of public parameters is ever accepted under another, and verifying it there fails with an error instead of crashing.",
  ["histories", "schedules", "configurations", "fault_sequences"],
  "every number of deployments, every pair (parameters of the proof, parameters of the verifier), every history of each, and every interleaving of their operations and of the generation of parameters",
  "No test uses two sets of parameters at once or verifies anything under other parameters than its own.",
  ["pol/pol.go", "pp/pointproofs.go", "bp/range.go", "bp/innerprod.go", "sum/sa.go", "poe/poe.go", "common/math.go"],
  [("parameter generation", "pol/pol.go GeneratePublicParams"), ("binding of challenges to parameters", "pp/pointproofs.go RO, SetupDigest; poe/poe.go RO; sum/sa.go"), ("verification", "pol/pol.go LiabilityProof.Verify, TotalProof.Verify")],
  [("public parameters and package-level values", "pol/pol.go PublicParams, common/math.go")], ["Get, Root, ProveTot, ProveLiability of every set", "Verify under every set of parameters"])

p("C24", "Freshly generated public parameters are always fit for use",
  "Whoever generates public parameters, however many parties do so at the same time, and whatever their entropy sources deliver: generation either fails or yields parameters fit for use. The published powers belong to one secret of full entropy that no other set shares, the one power that would open any commitment to any value is absent, the generators of different roles are all different and the same for everybody (so that nobody has chosen them), the arguments and the commitments use the same bases, the digests that bind challenges cover the parameters and differ between deployments, and commitments, openings, lookups, totals and proofs made with them verify. A generation never alters parameters that were generated before.",
  ["schedules", "fault_sequences", "configurations"],
  "every fan-out and tree type, every number of parties generating concurrently, every interleaving, every entropy tape and every failure, shortfall or stall of an entropy source",
  "Tests generate parameters once, from a source that always works, in one goroutine, and use them honestly; an honest use does not touch what a cheat would.",
  ["pol/pol.go", "pp/pointproofs.go", "bp/range.go", "sum/sa.go", "poe/poe.go", "common/math.go"],
  [("parameter generation", "pol/pol.go GeneratePublicParams"), ("powers of the secret", "pp/pointproofs.go NewPublicParams"), ("transparent generators", "common/math.go RandGenVec; bp/range.go NewRangeProofPublicParams; sum/sa.go, poe/poe.go NewPublicParams"), ("digests", "pp/pointproofs.go, poe/poe.go SetupDigest; bp/range.go Digest")],
  [("public parameters", "pol/pol.go PublicParams")], ["the published parameters", "pp.Commit, Open, Verify; Get, Root, ProveTot of sets that use them"])

# not claimed
p("C19", "Proofs and commitments reveal nothing beyond the proven statement",
  "A client or auditor learns nothing about other clients' liabilities, their number or the shape of the tree from roots, proofs and totals beyond the proven amount.",
  ["inputs"], "every pair of states that agree on the proven statement, every distinguisher",
  "Zero-knowledge is a statement about distributions; no test addresses it.",
  ["pol/pol.go", "bp/range.go", "poe/poe.go", "sum/sa.go"],
  [("hiding commitments and simulatable arguments", "bp, poe, sum, pp")])
p("C20", "No efficient adversary whatsoever can forge a proof",
  "Every argument is computationally sound and every commitment binding against all polynomial-time adversaries under the scheme's assumptions.",
  ["programs"], "every efficient adversary program",
  "Tests run no adversary.",
  ["bp/innerprod.go", "bp/range.go", "poe/poe.go", "sum/sa.go", "pp/pointproofs.go"],
  [("Fiat-Shamir challenges", "bp/innerprod.go, poe/poe.go RO, pp/pointproofs.go RO, sum/sa.go")])
p("C21", "Reported proof and parameter sizes equal the bytes transmitted",
  "The sizes the library and the benchmark report for proofs and public parameters are the sizes of their encodings, and proof size grows logarithmically with the fan-out.",
  ["inputs", "configurations"], "every proof and parameter set",
  "No test checks sizes.",
  ["pol/pol.go", "bench/main.go", "bp/range.go", "sum/sa.go", "poe/poe.go"],
  [("size reports", "Size methods; bench/main.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

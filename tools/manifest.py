#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(here, 'properties.jsonl')):
    d = json.loads(l); props[d['id']] = d
common = ("Seeded exploration: many whole-system runs under a scheduler, clock, storage, network and entropy source that the "
          "simulator owns; every violation is minimised and replays exactly. A clean batch is evidence for the explored "
          "schedules, faults and histories, not a proof. Trusts the Go runtime, gnark-crypto's field arithmetic and, for the "
          "runs of the ideal group, the isomorphic group of discrete logarithms (the same checks also run on the real BN254 group). ")
notes = {
 'C01': 'Oracle: a Go map; ids of both spaces are crafted to share path prefixes, leading zeros and special digits.',
 'C02': 'Oracle: the map, and the library\'s own verifier against the root the set reports; verifier soundness is C05/C06.',
 'C03': 'Oracle: sum over the map; other totals are sampled (neighbours, negations, sub-sums, bit flips).',
 'C04': 'Oracle: the state every root was published for; proofs are delivered late, twice and out of order against every root of the run.',
 'C05': 'Must-reject rule for every altered value that the verifier relies on; values the verifier recomputes are excluded.',
 'C06': 'The operator is a Byzantine node with its own prover; each deviation has an honest twin that must be accepted, so that rejections are not vacuous.',
 'C07': 'Oracle: the sequential outcome; tasks are accounted for at return; schedules: random, PCT, starvation, none.',
 'C08': 'Oracle: the answer of each call alone; fingerprints of proofs, roots and parameters before and after.',
 'C09': 'Oracle: the map with {old, requested} while a failed setting is outstanding, exact after the retry.',
 'C10': 'Oracle: what a verifier accepts against the published root must be true; exactness once the records are right again.',
 'C11': 'Oracle: a fresh map since the restart.',
 'C12': 'Oracle: reference tree of paths, commitments recomputed from the model; the encoding of the frames is the one the repository ships.',
 'C13': 'Oracle: inequality across two tapes and across repeated proofs, and a lower bound for the entropy consumed; distributional quality is out of scope.',
 'C14': 'Oracle: truth of the statement; dishonest provers are those written into the simulator (algebraic forgers and adaptive ones).',
 'C15': 'Oracle: truth of the statement; dishonest provers are those written into the simulator.',
 'C16': 'Oracle: truth of the statement; dishonest provers are those written into the simulator, among them adaptive ones.',
 'C17': 'Oracle: vector model and fresh commitments; values of aggregated openings are fixed independently of the challenges, or commitments are chosen after them.',
 'C18': 'Oracle: a reference recursion over the leaves; every call of the update function is judged when it happens. No group elements are involved, so there is no run on the real group.',
 'C22': 'Oracle: a map of its own for every set; nothing of one set may be accepted against a root of another.',
 'C23': 'Oracle: a map of its own for every deployment; nothing of one deployment may be accepted under the parameters of another.',
 'C24': 'Oracle: relations among the published elements, checked with pairings; comparison of all sets of a run; the entropy that was delivered.',
}
na = {
 'C19': 'Hiding is a statement about probability distributions of transcripts; no schedule, fault or history decides it. Its observable consequences under entropy faults are C13.',
 'C20': 'Quantifies over all efficient adversaries; a simulator samples the strategies written into it (those are C05, C06, C14-C17).',
 'C21': 'A pure function of its inputs: no concurrency, time, I/O or second party for the property to depend on.',
}
checks = []
for pid in sorted(notes):
    assert pid in props
    checks.append({
        'property': pid,
        'quick_cmd': f'./check {pid} quick',
        'thorough_cmd': f'./check {pid} thorough',
        'technique': 'deterministic simulation with fault injection (seeded search over schedules, faults and histories)',
        'level': 'exploration',
        'level_note': common + notes[pid],
    })
for p in props:
    assert p in notes or p in na, p
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
     'notes': 'No hooks in /repo: build.sh copies the current working tree and instruments the copy. Replay: ./check replay <file>.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')

package main

import (
	"bytes"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"pol/common"
	"pol/sparse"
	"pol/verkle"

	math "github.com/IBM/mathlib"

	"simrt"
)

func init() {
	register(&Def{ID: "C12", Run: runC12, Quick: 1800, QuickReal: 12, Thorough: 30000, ThorReal: 200,
		Rule: "Seeded trees and histories (with storage failures that were retried), serialized in any map order into destinations that work, stall, fail, take a part with or without saying so, while other readers are active, and from a storage that fails or lost a record; what arrived is compared with a reference tree."})
	register(&Def{ID: "C18", Run: runC18, Quick: 12000, QuickReal: 0, Thorough: 400000, ThorReal: 0,
		Rule: "Seeded histories of insertions on several trees by concurrent tasks with an update function that fails at arbitrary calls; every call and every vertex is compared with a reference recursion."})
}

// --- C12

// sink is the destination of a snapshot.
type sink struct {
	c      *Ctx
	got    []byte
	writes int
	// at the given write: kind of failure
	at      int
	kind    string
	fired   bool
	stall   int64
	key     string
	partial int
}

var errSink = fmt.Errorf("simulated: no space left on device")

func (s *sink) Write(b []byte) (int, error) {
	simrt.Y()
	if s.stall > 0 {
		simrt.SleepNS(s.stall)
	}
	i := s.writes
	s.writes++
	if s.kind != "" && (i == s.at || (s.fired && s.kind != "error-once")) {
		if s.fired || s.c.Inject("sink-"+s.kind, fmt.Sprintf("%s.%d", s.key, i)) {
			s.fired = true
			n := 0
			if len(b) > 0 {
				n = s.partial % len(b)
			}
			switch s.kind {
			case "error", "error-once":
				return 0, errSink
			case "short-error":
				s.got = append(s.got, b[:n]...)
				return n, errSink
			case "short":
				s.got = append(s.got, b[:n]...)
				return n, nil
			case "eof":
				s.got = append(s.got, b[:n]...)
				return n, io.EOF
			case "error-all":
				s.got = append(s.got, b...)
				return len(b), errSink
			}
		}
	}
	s.got = append(s.got, b...)
	simrt.Y()
	return len(b), nil
}

var sinkKinds = []string{"error", "error-once", "short-error", "short", "eof", "error-all"}

type frame struct {
	path string
	rec  []byte
}

// parseFrames splits what was written.
func parseFrames(b []byte) ([]frame, error) {
	var fs []frame
	for len(b) > 0 {
		if len(b) < 32 {
			return fs, fmt.Errorf("%d bytes where a header is due", len(b))
		}
		n := int(binary.BigEndian.Uint32(b))
		b = b[32:]
		if n > len(b) {
			return fs, fmt.Errorf("a record of %d bytes is announced but %d follow", n, len(b))
		}
		var rv sparse.RawVertex
		rest, err := asn1.Unmarshal(b[:n], &rv)
		if err != nil || len(rest) > 0 {
			return fs, fmt.Errorf("record does not decode: %v, %d bytes left", err, len(rest))
		}
		fs = append(fs, frame{rv.Path, rv.Vertex})
		b = b[n:]
	}
	return fs, nil
}

func dotted(p []uint16) string {
	b := make([]byte, 0, 6*len(p))
	for _, x := range p {
		b = append(b, '.')
		b = strconv.AppendUint(b, uint64(x), 10)
	}
	return string(b)
}

// prefixes are the dotted prefixes of a path: of length 0, 1, ... len(p).
func prefixes(p []uint16) []string {
	s := dotted(p)
	res := make([]string, 0, len(p)+1)
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			res = append(res, s[:i])
		}
	}
	return append(res, s)
}

// vcase is a verkle tree under test with its model.
type vcase struct {
	c     *Ctx
	e     *Env
	disk  *Disk
	t     *verkle.Tree
	model Model
	dirty map[string]bool
}

// complete compares a snapshot with the reference tree.
func (v *vcase) complete(b []byte, what string) error {
	fs, err := parseFrames(b)
	if err != nil {
		return err
	}
	leaf := map[string]bool{}
	inner := map[string]map[int]int64{} // path -> sums of the amounts below, by index
	for _, id := range sortedKeys(v.model) {
		p := v.e.ID2Path(id)
		pre := prefixes(p)
		for k := range p {
			if inner[pre[k]] == nil {
				inner[pre[k]] = map[int]int64{}
			}
			inner[pre[k]][int(p[k])] += v.model[id]
		}
		leaf[pre[len(p)]] = true
	}
	seen := map[string]bool{}
	type com struct{ V, W *math.G1 }
	want := map[string]com{}
	for _, id := range sortedKeys(v.model) {
		p := v.e.ID2Path(id)
		if _, ok := want[dotted(p[:len(p)-1])]; ok {
			continue
		}
		_, vs, ok := v.t.Get(id)
		if !ok {
			v.c.Violate("lookup-lost", "the tree does not find %q", id)
		}
		pre := prefixes(p)
		for k, x := range vs {
			want[pre[k]] = com{x.V, x.W}
		}
	}
	for _, f := range fs {
		if seen[f.path] {
			return fmt.Errorf("vertex %q appears twice", f.path)
		}
		seen[f.path] = true
		w, isInner := want[f.path]
		switch {
		case isInner:
			x := &verkle.Vertex{}
			if pan, _ := simrt.Try(func() { x.FromBytes(f.rec) }); pan != nil {
				return fmt.Errorf("the record of vertex %q does not decode (%d bytes): %v", f.path, len(f.rec), pan)
			}
			if !x.V.Equals(w.V) {
				return fmt.Errorf("the record of vertex %q holds another V than the tree", f.path)
			}
			if (x.W == nil) != (w.W == nil) || (w.W != nil && !x.W.Equals(w.W)) {
				return fmt.Errorf("the record of vertex %q holds another W than the tree", f.path)
			}
			if bad := v.commits(inner[f.path], x); bad != "" {
				return fmt.Errorf("the record of vertex %q does not commit to the current liabilities: %s", f.path, bad)
			}
		case leaf[f.path]:
			if len(f.rec) > 0 {
				return fmt.Errorf("a record of %d bytes is written for the liability at %q", len(f.rec), f.path)
			}
		default:
			return fmt.Errorf("%q is written, which is no vertex of the tree", f.path)
		}
	}
	if len(seen) != len(leaf)+len(inner) {
		var miss []string
		for p := range inner {
			if !seen[p] {
				miss = append(miss, p)
			}
		}
		for p := range leaf {
			if !seen[p] {
				miss = append(miss, p)
			}
		}
		sort.Strings(miss)
		return fmt.Errorf("%d of %d vertices are written; missing e.g. %q", len(seen), len(leaf)+len(inner), miss[0])
	}
	return nil
}

// commits checks V of a vertex: entries are the sums below it, then the total, then the blinding.
func (v *vcase) commits(sums map[int]int64, x *verkle.Vertex) string {
	n := v.t.PP.N
	m := make(common.Vec, n)
	for i := range m {
		m[i] = zi(0)
	}
	total := zi(0)
	for k, amt := range sums {
		m[k] = zi(amt)
		total = zadd(total, m[k])
	}
	m[n-2] = total
	m[n-1] = x.BlindingFactor
	var C *math.G1
	C = msm(v.t.PP.G1s[:n], m)
	if !C.Equals(x.V) {
		return "V is no commitment to them"
	}
	return ""
}

func runC12(c *Ctx) {
	r := c.Rng("c12")
	if r.Chance(0.12) {
		c.Do(c.Node("operator"), "opaque", func() { opaqueSnapshot(c, r) })
		return
	}
	cfg := drawCfg(c, false)
	wide := c.Plan.Group == "ideal" && r.Chance(0.02)
	if wide {
		cfg = Cfg{Kind: Short, Fanout: []int{255, 511, 1023, 2047}[r.Intn(4)], Depth: 2}
	} else if r.Chance(0.5) {
		cfg = Cfg{Kind: Short, Fanout: []int{3, 7, 15}[r.Intn(3)], Depth: 2 + r.Intn(5)}
		if r.Chance(0.05) {
			cfg.Depth = 12 + r.Intn(20)
		}
	}
	v := &vcase{c: c, model: Model{}, dirty: map[string]bool{}}
	op := c.Node("operator")
	c.Do(c.Node("setup"), "setup", func() { v.e = NewEnv(c, cfg) })
	v.disk = NewDisk(c, "operator")
	nIDs := 1 + r.Intn(8)
	many := !wide && c.Plan.Group == "ideal" && v.e.Depth*v.e.Fanout < 1500 && r.Chance(0.03)
	if many {
		nIDs = 30 + r.Intn(150)
	}
	ids := v.e.IDs(c.Rng("ids"), nIDs)
	if wide {
		ids = ids[:0]
		for i := 0; i < cfg.Fanout*4/5; i++ {
			ids = append(ids, fmt.Sprintf("7.%d", i))
		}
		ids = append(ids, "0.0", "1.11", "11.1")
	}
	c.Event("tree: %s, %d identifiers", v.e, len(ids))
	c.Do(op, "history", func() {
		v.t = verkle.NewVerkleTree(uint16(cfg.Fanout), v.e.ID2Path, v.disk)
		if r.Chance(0.7) {
			// as a liability set does
			v.t.PP = v.e.PP.PPPP
		}
		// an empty tree has no vertices
		if c.On("empty") && r.Chance(0.2) {
			s := &sink{c: c}
			if pan, _ := simrt.Try(func() { v.t.Serialize(s) }); pan == nil && len(s.got) > 0 {
				c.Violate("snapshot-wrong", "%d bytes are written for a tree without vertices", len(s.got))
			}
		}
		n := len(ids) + r.Intn(len(ids)+1)
		if wide {
			n = len(ids)
		}
		for i := 0; i < n; i++ {
			id := ids[i%len(ids)]
			if i >= len(ids) {
				id = ids[r.Intn(len(ids))]
			}
			key := fmt.Sprintf("op%02d", i)
			if !c.On(key) {
				continue
			}
			v.put(key, id, drawAmount(r), r)
			if r.Chance(0.15) && !wide && (!many || i%20 == 0) {
				v.snapshots(key, r)
			}
		}
		// what failed is repeated
		for _, id := range ids {
			if v.dirty[id] {
				v.put("", id, v.model[id], r)
			}
		}
		v.snapshots("end", r)
		// a snapshot changes nothing
		for _, id := range sortedKeys(v.model) {
			got, _, ok := v.t.Get(id)
			if !ok || got != v.model[id] {
				c.Violate("lookup-wrong", "after the snapshot the tree finds %d, %v for %q=%d", got, ok, id, v.model[id])
			}
		}
	})
}

// opaqueSnapshot serializes a sparse tree whose vertices hold records of any size.
func opaqueSnapshot(c *Ctx, r *simrt.Rng) {
	depth := 1 + r.Intn(4)
	fan := []int{2, 3, 12, 127, 2047}[r.Intn(5)]
	e := &Env{Cfg: Cfg{Kind: Short, Fanout: fan, Depth: depth}}
	size := func() int {
		switch r.Intn(8) {
		case 0:
			return 0
		case 1:
			return 120 + r.Intn(20)
		case 2:
			return 240 + r.Intn(30)
		case 3:
			return 32700 + r.Intn(100)
		case 4:
			return 65500 + r.Intn(100)
		case 5:
			return 1<<17 + r.Intn(1<<10)
		default:
			return r.Intn(400)
		}
	}
	blob := func() []byte {
		b := make([]byte, size())
		x := r.Uint64()
		for i := range b {
			b[i] = byte(simrt.Mix(x, uint64(i/8)) >> (8 * (i % 8)))
		}
		return b
	}
	want := map[string][]byte{}
	t := &sparse.Tree{
		FanOut:  fan,
		ID2Path: func(id string) []uint16 { return parseDots("." + id) },
	}
	var cur []uint16
	pos := 0
	t.UpdateInnerVertex = func(key string, node interface{}, desc []interface{}, leaves bool, index int) interface{} {
		b := blob()
		pos--
		want[dotted(cur[:pos])] = b
		return b
	}
	for i, id := range e.IDs(r, 1+r.Intn(6)) {
		if !c.On(fmt.Sprintf("blob%d", i)) {
			continue
		}
		cur = t.ID2Path(id)
		pos = len(cur)
		b := blob()
		t.Put(id, b)
		want[dotted(cur)] = b
	}
	if t.Root == nil {
		return
	}
	check := func(got []byte) string {
		fs, err := parseFrames(got)
		if err != nil {
			return err.Error()
		}
		seen := map[string]bool{}
		for _, f := range fs {
			w, ok := want[f.path]
			if !ok || seen[f.path] {
				return fmt.Sprintf("vertex %q is unknown or appears twice", f.path)
			}
			seen[f.path] = true
			if !bytes.Equal(w, f.rec) {
				return fmt.Sprintf("the record of vertex %q is not the one of the tree (%d bytes instead of %d)", f.path, len(f.rec), len(w))
			}
		}
		if len(seen) != len(want) {
			return fmt.Sprintf("%d of %d vertices are written", len(seen), len(want))
		}
		return ""
	}
	data := func(d interface{}) []byte { simrt.Y(); return d.([]byte) }
	writes := 0
	for k := 0; k < 4; k++ {
		s := &sink{c: c, key: fmt.Sprintf("blobs%d", k), at: -1, partial: int(r.Uint64() >> 34)}
		if k > 0 {
			s.kind, s.at = sinkKinds[r.Intn(len(sinkKinds))], r.Intn(writes)
			if k == 2 {
				s.at = writes - 1
			}
		}
		pan, _ := simrt.Try(func() { t.Root.Serialize(s, "", data) })
		if simrt.Inert() {
			return
		}
		c.Count("opaque snapshots")
		switch {
		case pan != nil && !s.fired:
			c.Violate("snapshot-failed", "Serialize fails although the destination takes everything: %v", pan)
		case pan == nil && s.fired:
			c.Violate("failure-unreported", "Serialize returns although the destination failed (%s at write %d of %d)", s.kind, s.at, writes)
		case pan == nil:
			if bad := check(s.got); bad != "" {
				c.Violate("snapshot-wrong", "%s", bad)
			}
		}
		if k == 0 {
			if writes = s.writes; writes == 0 {
				return
			}
		}
	}
}

func (v *vcase) put(key, id string, amt int64, r *simrt.Rng) {
	c := v.c
	amt = v.model.fit(id, amt)
	if amt < 0 {
		amt = 0
	}
	if key != "" && r.Chance(0.1) {
		n := r.Intn(3*v.e.Depth + 2)
		v.disk.Arm(func(op string, k []byte, i int) DiskFault {
			if i == n && c.Inject("disk-error", fmt.Sprintf("%s.%d.%s", key, i, op)) {
				return []DiskFault{DiskErrBefore, DiskErrAfter, DiskErrBefore, DiskEmpty, DiskErrAfter, DiskShort}[n%6]
			}
			return DiskOK
		})
	}
	pan, _ := simrt.Try(func() { v.t.Put(id, amt) })
	v.disk.Arm(nil)
	if simrt.Inert() {
		return
	}
	v.model[id] = amt
	v.dirty[id] = pan != nil
	if pan != nil && key == "" {
		c.Violate("retry-failed", "Put(%q, %d) fails although the storage works again: %v", id, amt, pan)
	}
	c.Count("insertions")
	c.Event("put %s=%d failed=%v", sid(id), amt, pan != nil)
}

func (v *vcase) snapshots(key string, r *simrt.Rng) {
	c := v.c
	for _, id := range sortedKeys(v.model) {
		if v.dirty[id] {
			return
		}
	}
	if len(v.model) == 0 {
		return
	}
	c.Count("snapshots")
	good := &sink{c: c, key: key}
	if pan, stack := simrt.Try(func() { v.t.Serialize(good) }); pan != nil && !simrt.Inert() {
		c.Violate("snapshot-failed", "Serialize fails although the destination takes everything: %v\n%s", pan, stack)
	}
	if simrt.Inert() {
		return
	}
	if err := v.complete(good.got, key); err != nil {
		c.Violate("snapshot-wrong", "%v", err)
	}
	c.Event("snapshot of %d bytes in %d writes", len(good.got), good.writes)
	if good.writes == 0 {
		return
	}
	// concurrent snapshots, some into failing destinations, and lookups
	k := 1 + r.Intn(3)
	var ts []*simrt.Task
	for i := 0; i < k; i++ {
		skey := fmt.Sprintf("%s.snap%d", key, i)
		if !c.On(skey) {
			continue
		}
		s := &sink{c: c, key: skey, at: -1, partial: int(r.Uint64() >> 34)}
		if r.Chance(0.75) {
			s.kind = sinkKinds[r.Intn(len(sinkKinds))]
			s.at = r.Intn(good.writes)
			if r.Chance(0.25) {
				s.at = good.writes - 1
			}
			if r.Chance(0.15) {
				s.at = 0
			}
		}
		if r.Chance(0.2) {
			s.stall = int64(r.Intn(1_000_000))
		}
		ts = append(ts, c.S.Spawn(skey, c.Node("node "+skey), func() {
			pan, _ := simrt.Try(func() { v.t.Serialize(s) })
			if simrt.Inert() {
				return
			}
			if pan != nil {
				c.Count("snapshots that failed")
				if !s.fired {
					c.Violate("snapshot-failed", "Serialize fails although the destination takes everything: %v", pan)
				}
				return
			}
			if s.fired && s.kind != "error-once" && s.kind != "error-all" {
				if err := v.complete(s.got, skey); err == nil {
					c.Violate("harness", "the snapshot is complete although the destination failed (%s at %d)", s.kind, s.at)
				}
			}
			if s.fired {
				c.Violate("failure-unreported", "Serialize returns although the destination failed (%s at write %d of %d)", s.kind, s.at, good.writes)
			}
			if err := v.complete(s.got, skey); err != nil {
				c.Violate("snapshot-wrong", "%v", err)
			}
		}))
	}
	if r.Chance(0.3) {
		ids := sortedKeys(v.model)
		ts = append(ts, c.S.Spawn("lookups", c.Node("reader"), func() {
			for _, id := range ids {
				got, _, ok := v.t.Get(id)
				if !ok || got != v.model[id] {
					c.Violate("lookup-wrong", "the tree finds %d, %v for %q=%d", got, ok, id, v.model[id])
				}
			}
		}))
	}
	c.Wait(ts...)
	// the storage fails or has lost a record while the snapshot is taken
	if r.Chance(0.4) && c.On(key+".storage") {
		at := r.Intn(v.disk.Gets + 1)
		inner := map[string]bool{}
		for id := range v.model {
			p := v.e.ID2Path(id)
			for k := range p {
				inner[dotted(p[:k])] = true
			}
		}
		at %= len(inner)
		fired := false
		if r.Chance(0.5) {
			v.disk.Arm(func(op string, k []byte, i int) DiskFault {
				if i == at && c.Inject("disk-error", fmt.Sprintf("%s.%d.%s", key, i, op)) {
					fired = true
					return []DiskFault{DiskErrBefore, DiskErrBefore, DiskEmpty, DiskShort}[at%4]
				}
				return DiskOK
			})
		} else {
			n := 0
			v.disk.Damage = func(k string, val []byte) []byte {
				n++
				if n-1 == at && c.Inject("record-lost", fmt.Sprintf("%s.%d", key, n-1)) {
					fired = true
					return nil
				}
				return val
			}
		}
		s := &sink{c: c, key: key}
		pan, _ := simrt.Try(func() { v.t.Serialize(s) })
		v.disk.Arm(nil)
		v.disk.Damage = nil
		if simrt.Inert() {
			return
		}
		if pan == nil {
			if err := v.complete(s.got, key); err != nil {
				c.Violate("failure-unreported", "Serialize returns although the storage failed (%v): %v", fired, err)
			}
		} else if !fired {
			c.Violate("snapshot-failed", "Serialize fails although nothing else did: %v", pan)
		}
	}
}

// --- C18

type upd struct {
	key   string
	path  string
	index int
	leaf  bool
}

type sTree struct {
	c       *Ctx
	name    string
	fan     int
	depth   int
	t       *sparse.Tree
	leafs   map[string]uint64 // path -> data
	data    map[string]uint64 // inner path -> data that the update function returned last
	keys    map[string]string // key -> path
	keyOf   map[string]string // path -> key
	calls   []upd
	cur     []uint16 // path of the running insertion
	pos     int      // position along the path of the next expected call
	failAt  int
	failed  bool
	pending map[string]uint64 // paths whose insertion failed and was not repeated
	clean   bool
	bad     string
	key     string
	plain   bool
}

type sData struct{ x uint64 }

// wrap makes the data of a vertex: comparable by content or not.
func (s *sTree) wrap(x uint64) interface{} {
	if s.plain {
		return x
	}
	return &sData{x}
}

func unwrap(d interface{}) (uint64, bool) {
	switch v := d.(type) {
	case uint64:
		return v, true
	case *sData:
		if v != nil {
			return v.x, true
		}
	}
	return 0, false
}

// holds says that d holds x.
func holds(d interface{}, x uint64) bool {
	v, ok := unwrap(d)
	return ok && v == x
}

// value of an inner vertex, from its children
func sHash(children map[int]uint64, leaf bool) uint64 {
	h := uint64(17)
	var ks []int
	for k := range children {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		h = simrt.Mix(simrt.Mix(h, uint64(k)), children[k])
	}
	return h
}

func (s *sTree) fail(f string, a ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

func (s *sTree) child(path string) (uint64, bool) {
	if v, ok := s.leafs[path]; ok {
		return v, true
	}
	v, ok := s.data[path]
	return v, ok
}

// update is the function under which the tree keeps its inner vertices.
func (s *sTree) update(key string, node interface{}, desc []interface{}, leaves bool, index int) interface{} {
	simrt.Y()
	i := len(s.cur) - 1 - s.pos
	s.pos++
	if i < 0 {
		s.fail("the update function is called %d times for a path of length %d", s.pos, len(s.cur))
		return node
	}
	path := dotted(s.cur[:i])
	if index != int(s.cur[i]) {
		s.fail("at depth %d child %d is reported to have changed, it was %d", i, index, s.cur[i])
	}
	if leaves != (i == len(s.cur)-1) {
		s.fail("at depth %d of %d the children are reported to be leaves: %v", i, len(s.cur), leaves)
	}
	if p, ok := s.keys[key]; ok && p != path {
		s.fail("key %q is passed for vertex %q and for vertex %q", key, p, path)
	}
	if k, ok := s.keyOf[path]; ok && k != key {
		s.fail("vertex %q is passed key %q, then key %q", path, k, key)
	}
	s.keys[key], s.keyOf[path] = path, key
	if prev, ok := s.data[path]; ok != (node != nil) {
		s.fail("vertex %q had data: %v, passed: %v", path, ok, node)
	} else if ok && !holds(node, prev) {
		s.fail("vertex %q is not passed its data", path)
	}
	if len(desc) != s.fan {
		s.fail("vertex %q is passed %d children, the fan-out is %d", path, len(desc), s.fan)
	}
	ch := map[int]uint64{}
	for k, d := range desc {
		want, ok := s.child(path + fmt.Sprintf(".%d", k))
		if ok != (d != nil) {
			s.fail("vertex %q: child %d has data: %v, passed: %v", path, k, ok, d)
			continue
		}
		if d == nil {
			continue
		}
		if !holds(d, want) {
			s.fail("vertex %q: child %d is not passed with its current data", path, k)
			continue
		}
		ch[k] = want
	}
	if s.failAt == s.pos-1 && s.c.Inject("update-fails", fmt.Sprintf("%s.%s.%d", s.name, s.key, s.pos-1)) {
		s.failed = true
		panic("simulated failure of the update function")
	}
	h := sHash(ch, leaves)
	s.data[path] = h
	simrt.Y()
	return s.wrap(h)
}

// whole recomputes every inner vertex from the leaves alone.
func (s *sTree) whole() map[string]uint64 {
	type nd struct {
		ch map[int]uint64
	}
	cur := map[string]uint64{}
	paths := map[string][]uint16{}
	for p, v := range s.leafs {
		cur[p] = v
		paths[p] = parseDots(p)
	}
	all := map[string]uint64{}
	for lvl := s.depth - 1; lvl >= 0; lvl-- {
		next := map[string]map[int]uint64{}
		np := map[string][]uint16{}
		for p, v := range cur {
			q := paths[p]
			par := dotted(q[:lvl])
			if next[par] == nil {
				next[par] = map[int]uint64{}
				np[par] = q[:lvl]
			}
			next[par][int(q[lvl])] = v
		}
		cur = map[string]uint64{}
		for p, ch := range next {
			cur[p] = sHash(ch, false)
			all[p] = cur[p]
		}
		paths = np
	}
	return all
}

func parseDots(p string) []uint16 {
	var r []uint16
	for _, s := range strings.Split(p, ".")[1:] {
		n := 0
		fmt.Sscan(s, &n)
		r = append(r, uint16(n))
	}
	return r
}

func runC18(c *Ctx) {
	r := c.Rng("c18")
	k := 1 + r.Intn(3)
	var ts []*simrt.Task
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("tree%d", i)
		if !c.On(name) {
			continue
		}
		ts = append(ts, c.S.Spawn(name, c.Node(name), func() { treeHistory(c, name, c.Rng(name)) }))
	}
	c.Wait(ts...)
}

func treeHistory(c *Ctx, name string, r *simrt.Rng) {
	s := &sTree{c: c, name: name, leafs: map[string]uint64{}, data: map[string]uint64{}, keys: map[string]string{},
		keyOf: map[string]string{}, pending: map[string]uint64{}}
	s.fan = []int{2, 2, 3, 3, 7, 12, 15, 127, 1023, 16383}[r.Intn(10)]
	s.depth = 1 + r.Intn(5)
	s.plain = r.Chance(0.5)
	if r.Chance(0.04) {
		s.depth = 20 + r.Intn(140)
	}
	if s.fan > 1000 && s.depth > 3 {
		s.depth = 3
	}
	var id2path func(string) []uint16
	var ids []string
	lib := r.Intn(12)
	switch {
	case lib == 0:
		f := []uint16{3, 7, 15, 31, 127}[r.Intn(5)]
		s.fan, s.depth = int(f), digitLen(int(f))
		id2path = sparse.DigitPath(f)
		e := &Env{Cfg: Cfg{Kind: Dense, Fanout: int(f), Depth: s.depth}}
		ids = e.IDs(r, 3+r.Intn(8))
	case lib == 1:
		f := []uint16{15, 31, 127, 255}[r.Intn(4)]
		s.fan, s.depth = int(f), hexLen[int(f)]
		id2path = sparse.HexId2PathForFanOut(f)
		e := &Env{Cfg: Cfg{Kind: Sparse, Fanout: int(f), Depth: s.depth}}
		ids = e.IDs(r, 2+r.Intn(4))
	default:
		id2path = func(id string) []uint16 {
			simrt.Y()
			if strings.Contains(id, "x") {
				panic("malformed")
			}
			return parseDots(id)
		}
		e := &Env{Cfg: Cfg{Kind: Short, Fanout: s.fan, Depth: s.depth}}
		n := 1 + r.Intn(12)
		if r.Chance(0.012) && s.depth < 10 {
			n = 30 + r.Intn(80)
		}
		for _, id := range e.IDs(r, n) {
			ids = append(ids, "."+id)
		}
	}
	s.t = &sparse.Tree{ID2Path: id2path, FanOut: s.fan, UpdateInnerVertex: s.update}
	c.Event("%s: fan-out %d, depth %d, %d identifiers", name, s.fan, s.depth, len(ids))
	ops := 2 + r.Intn(2*len(ids)+2)
	pfail := []float64{0, 0, 0.2, 0.5}[r.Intn(4)]
	var failing []string
	for i := 0; i < ops; i++ {
		s.key = fmt.Sprintf("op%02d", i)
		if !c.On(name + "." + s.key) {
			continue
		}
		id := ids[r.Intn(len(ids))]
		if len(failing) > 0 && r.Chance(0.5) {
			id = failing[r.Intn(len(failing))]
		}
		val := r.Uint64()
		if r.Chance(0.1) {
			if v, ok := s.leafs[dotted(id2path(id))]; ok {
				val = v // written again unchanged
			}
		}
		s.failAt = -1
		if r.Chance(pfail) {
			s.failAt = r.Intn(s.depth)
		}
		if lib > 1 && r.Chance(0.05) {
			// a malformed identifier changes nothing
			before := treeShape(s.t.Root)
			simrt.Try(func() { s.t.Put("x", s.wrap(1)) })
			if simrt.Inert() {
				return
			}
			if treeShape(s.t.Root) != before && s.t.Root != nil && before != treeShape(nil) {
				c.Violate("malformed-changes", "an insertion with a malformed identifier changes the tree")
			}
		}
		s.insert(id, val)
		if s.failed {
			failing = append(failing, id)
		} else {
			var f2 []string
			for _, x := range failing {
				if x != id {
					f2 = append(f2, x)
				}
			}
			failing = f2
		}
		if len(failing) == 0 && (len(ids) < 20 || i%16 == 0) {
			s.compare(r, ids)
		}
	}
	for _, id := range failing {
		s.failAt = -1
		s.key = "repair"
		s.insert(id, s.leafs[dotted(id2path(id))])
		c.Count("repeated insertions")
	}
	s.compare(r, ids)
}

// treeShape is a summary of the vertices reachable from v.
func treeShape(v *sparse.Vertex) uint64 {
	if v == nil {
		return 0
	}
	h := uint64(len(v.Descendants)) + 1
	if x, ok := unwrap(v.Data); ok {
		h = simrt.Mix(h, x)
	}
	for i := 0; i < 1<<14; i++ {
		if u, ok := v.Descendants[uint16(i)]; ok {
			h = simrt.Mix(simrt.Mix(h, uint64(i)), treeShape(u))
		}
		if i > 16 && len(v.Descendants) == 0 {
			break
		}
	}
	return h
}

func (s *sTree) insert(id string, val uint64) {
	c := s.c
	s.cur, s.pos, s.failed = s.t.ID2Path(id), 0, false
	s.leafs[dotted(s.cur)] = val
	pan, stack := simrt.Try(func() { s.t.Put(id, s.wrap(val)) })
	if simrt.Inert() {
		return
	}
	c.Count("insertions")
	c.Event("%s: put %s=%x failed=%v", s.name, sid(id), val, pan != nil)
	if s.bad != "" {
		c.Violate("update-call", "%s (insertion of %q)", s.bad, id)
	}
	switch {
	case s.failed && pan == nil:
		c.Violate("failure-swallowed", "Put(%q) succeeds although the update function failed at call %d", id, s.failAt)
	case !s.failed && pan != nil:
		c.Violate("put-failed", "Put(%q) fails although the update function did not: %v\n%s", id, pan, stack)
	case !s.failed && s.pos != len(s.cur):
		c.Violate("update-call", "Put(%q) calls the update function %d times for a path of length %d", id, s.pos, len(s.cur))
	}
}

// compare checks the whole tree against the reference; no failed insertion is outstanding.
func (s *sTree) compare(r *simrt.Rng, ids []string) {
	c := s.c
	if len(s.leafs) == 0 || s.t.Root == nil {
		return
	}
	ref := s.whole()
	n := 0
	var rec func(v *sparse.Vertex, p string, d int)
	rec = func(v *sparse.Vertex, p string, d int) {
		want, ok := ref[p]
		if d == s.depth {
			want, ok = s.leafs[p]
		}
		if !ok || !holds(v.Data, want) {
			c.Violate("vertex-stale", "vertex %q does not hold what its children yield (known %v, data %v)", p, ok, v.Data != nil)
		}
		n++
		for k, u := range v.Descendants {
			rec(u, fmt.Sprintf("%s.%d", p, k), d+1)
		}
	}
	rec(s.t.Root, "", 0)
	if n != len(ref)+len(s.leafs) {
		c.Violate("vertices", "the tree has %d vertices, the reference %d", n, len(ref)+len(s.leafs))
	}
	c.CountN("vertices compared", n)
	// lookups
	for k := 0; k < 3; k++ {
		id := ids[r.Intn(len(ids))]
		p := s.t.ID2Path(id)
		data, along, ok := s.t.Get(id)
		want, has := s.leafs[dotted(p)]
		if ok != has || (ok && !holds(data, want)) {
			c.Violate("lookup-wrong", "Get(%q) = %v, recorded %v", id, ok, has)
		}
		if !ok {
			continue
		}
		if len(along) != s.depth {
			c.Violate("lookup-wrong", "Get(%q) returns %d vertices of a path of length %d", id, len(along), s.depth)
		}
		for i, x := range along {
			v, isV := x.(*sparse.Vertex)
			if !isV || !holds(v.Data, ref[dotted(p[:i])]) {
				c.Violate("lookup-wrong", "Get(%q): vertex %d of the path is not the one of the tree", id, i)
			}
		}
	}
}

package main

import (
	"fmt"

	"simrt"
)

// DiskFault is what happens to one storage operation.
type DiskFault int

const (
	DiskOK          DiskFault = iota
	DiskErrBefore             // fails, nothing happened
	DiskErrAfter              // fails although it took effect
	DiskCrashBefore           // the process dies before the operation
	DiskCrashAfter            // the process dies after it
	DiskEmpty                 // a read returns nothing (a write fails)
	DiskShort                 // a read returns a part of the record (a write fails)
)

// Disk is the simulated storage behind verkle.DB. As in the wrapper that ships with the repository's
// benchmark, an error surfaces as a panic of Get or Put.
type Disk struct {
	c       *Ctx
	recs    map[string][]byte
	old     map[string][][]byte
	alias   bool  // hand out and keep the very slices (as a Go map does)
	latency int64 // ns per operation
	Gets    int
	Puts    int
	// Hook decides on every operation; n counts operations since it was last installed.
	Hook func(op string, key []byte, n int) DiskFault
	n    int
	// Damage may replace what a read returns.
	Damage func(key string, val []byte) []byte
	crash  func()
	Keys   []string // in order of first write
}

type diskError struct{ msg string }

func (e diskError) Error() string { return e.msg }

func NewDisk(c *Ctx, label string) *Disk {
	r := c.Rng("disk:" + label)
	d := &Disk{c: c, recs: map[string][]byte{}, old: map[string][][]byte{}, alias: r.Chance(0.5)}
	if r.Chance(0.3) {
		d.latency = int64(r.Intn(2_000_000))
	}
	return d
}

// Arm installs a hook for the coming operations.
func (d *Disk) Arm(h func(op string, key []byte, n int) DiskFault) { d.Hook, d.n = h, 0 }

func (d *Disk) before(op string, key []byte) DiskFault {
	simrt.Y()
	if d.latency > 0 {
		simrt.SleepNS(d.latency)
	}
	if d.Hook == nil {
		return DiskOK
	}
	f := d.Hook(op, key, d.n)
	d.n++
	switch f {
	case DiskEmpty, DiskShort:
		if op == "put" {
			panic(diskError{fmt.Sprintf("simulated I/O error: %s %q", op, key)})
		}
	case DiskErrBefore:
		panic(diskError{fmt.Sprintf("simulated I/O error: %s %q", op, key)})
	case DiskCrashBefore:
		d.crash()
		simrt.Y()
	}
	return f
}

func (d *Disk) after(f DiskFault, op string, key []byte) {
	switch f {
	case DiskErrAfter:
		panic(diskError{fmt.Sprintf("simulated I/O error (after effect): %s %q", op, key)})
	case DiskCrashAfter:
		d.crash()
	}
	simrt.Y()
}

func (d *Disk) Get(key []byte) []byte {
	if simrt.Inert() {
		return nil
	}
	f := d.before("get", key)
	d.Gets++
	v := d.recs[string(key)]
	if d.Damage != nil {
		v = d.Damage(string(key), v)
	}
	switch f {
	case DiskEmpty:
		v = nil
	case DiskShort:
		v = append([]byte(nil), v[:len(v)*((d.Gets%7)+1)/9]...)
	}
	if !d.alias && v != nil {
		v = append([]byte(nil), v...)
	}
	d.after(f, "get", key)
	return v
}

func (d *Disk) Put(key, val []byte) {
	if simrt.Inert() {
		return
	}
	f := d.before("put", key)
	d.Puts++
	k := string(key)
	if prev, ok := d.recs[k]; ok {
		d.old[k] = append(d.old[k], append([]byte(nil), prev...))
	} else {
		d.Keys = append(d.Keys, k)
	}
	if !d.alias {
		val = append([]byte(nil), val...)
	}
	d.recs[k] = val
	d.after(f, "put", key)
}

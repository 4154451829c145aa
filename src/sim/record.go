package main

import (
	"encoding/asn1"
	"math/big"

	"simrt"
)

// The stored form of a vertex, as the storage sees it.
type kv struct{ K, V []byte }

type rawVertex struct {
	BlindingFactor []byte
	Values         []kv
	Digests        []kv
	Sum            []byte
	V, W           []byte
}

func parseRecord(b []byte) (*rawVertex, bool) {
	rv := &rawVertex{}
	rest, err := asn1.Unmarshal(b, rv)
	return rv, err == nil && len(rest) == 0 && len(rv.V) > 0
}

func (rv *rawVertex) bytes() []byte {
	b, err := asn1.Marshal(*rv)
	if err != nil {
		panic(err)
	}
	return b
}

func addTo(b []byte, d int64) []byte {
	n := new(big.Int).SetBytes(b)
	n.Add(n, big.NewInt(d))
	if n.Sign() < 0 {
		n.SetInt64(0)
	}
	return n.FillBytes(make([]byte, 32))
}

// alterRecord keeps the encoding intact and alters one or several fields. If the encoding is not the one we
// know, bits are flipped instead.
func alterRecord(b []byte, r *simrt.Rng, d *Disk, keys []string) []byte {
	rv, ok := parseRecord(b)
	if !ok {
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1
		}
		return b
	}
	other, ok2 := parseRecord(d.recs[keys[r.Intn(len(keys))]])
	delta := []int64{1, -1, 5, 1 << 32, 1<<62 + 1}[r.Intn(5)]
	for k := 1 + r.Intn(2); k > 0; k-- {
		switch r.Intn(12) {
		case 0:
			rv.Sum = addTo(rv.Sum, delta)
		case 1:
			rv.BlindingFactor = addTo(rv.BlindingFactor, delta)
		case 2, 3, 4:
			if len(rv.Values) > 0 {
				i := r.Intn(len(rv.Values))
				rv.Values[i].V = addTo(rv.Values[i].V, delta)
				if r.Chance(0.6) {
					rv.Sum = addTo(rv.Sum, delta)
				}
			}
		case 5:
			if len(rv.Digests) > 0 {
				i := r.Intn(len(rv.Digests))
				rv.Digests[i].V = addTo(rv.Digests[i].V, delta)
			}
		case 6:
			if len(rv.Values) > 1 {
				rv.Values[0].V, rv.Values[1].V = rv.Values[1].V, rv.Values[0].V
			}
		case 7:
			if ok2 {
				rv.V = other.V
			}
		case 8:
			if ok2 {
				rv.W = other.W
			}
		case 9:
			rv.W = nil
		case 10:
			if len(rv.Values) > 0 {
				i := r.Intn(len(rv.Values))
				rv.Values = append(rv.Values[:i], rv.Values[i+1:]...)
			}
		case 11:
			if len(rv.Values) > 0 {
				i := r.Intn(len(rv.Values))
				rv.Values[i].K = []byte{byte(r.Intn(256)), byte(r.Intn(256))}
				if r.Chance(0.5) {
					rv.Values[i].K = rv.Values[i].K[:1]
				}
			}
		}
	}
	return rv.bytes()
}

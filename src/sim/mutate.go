package main

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"pol/bp"

	math "github.com/IBM/mathlib"

	"simrt"
)

// Values of proofs are reached by reflection, also those in unexported fields, as whoever sends a proof over
// a network decides all of them.

var (
	tG1  = reflect.TypeOf((*math.G1)(nil))
	tZr  = reflect.TypeOf((*math.Zr)(nil))
	tIPP = reflect.TypeOf(bp.InnerProductProof{})
)

// field makes an unexported field accessible.
func field(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	if !f.CanSet() && f.CanAddr() {
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	}
	return f
}

// deepCopy copies a value built of structs, pointers, slices, arrays, group elements, scalars and numbers.
func deepCopy[T any](x T) T {
	v := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	v.Set(reflect.ValueOf(&x).Elem())
	copyInto(v)
	return v.Interface().(T)
}

func copyInto(v reflect.Value) {
	switch v.Type() {
	case tG1:
		if !v.IsNil() {
			v.Set(reflect.ValueOf(v.Interface().(*math.G1).Copy()))
		}
		return
	case tZr:
		if !v.IsNil() {
			v.Set(reflect.ValueOf(v.Interface().(*math.Zr).Copy()))
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(v.Elem())
		copyInto(n.Elem())
		v.Set(n)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			copyInto(field(v, i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(n, v)
		v.Set(n)
		for i := 0; i < v.Len(); i++ {
			copyInto(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			copyInto(v.Index(i))
		}
	}
}

// Leaf is one value of a proof.
type Leaf struct {
	Path string
	V    reflect.Value
	Kind string // g1, zr, int, list
	// redundant: the verifier of a larger proof computes the value itself
	Redundant bool
}

func (l Leaf) String() string { return l.Path }

// leaves lists all values of x, which must be a pointer. Fields P and C of an inner product proof that is part
// of a larger proof are marked.
func leaves(x interface{}) []Leaf {
	var out []Leaf
	walk(reflect.ValueOf(x).Elem(), "", false, 0, &out)
	return out
}

func walk(v reflect.Value, path string, red bool, depth int, out *[]Leaf) {
	switch v.Type() {
	case tG1:
		if !v.IsNil() {
			*out = append(*out, Leaf{path, v, "g1", red})
		}
		return
	case tZr:
		if !v.IsNil() {
			*out = append(*out, Leaf{path, v, "zr", red})
		}
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int64:
		*out = append(*out, Leaf{path, v, "int", red})
	case reflect.Ptr:
		if !v.IsNil() && depth < 20 {
			walk(v.Elem(), path, red, depth+1, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			name := v.Type().Field(i).Name
			r := red || (v.Type() == tIPP && path != "" && (name == "P" || name == "C"))
			walk(field(v, i), path+"."+name, r, depth+1, out)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		*out = append(*out, Leaf{path, v, "list", red})
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), red, depth+1, out)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), red, depth+1, out)
		}
	}
}

// class of a leaf: its path without indices, to choose among kinds of positions evenly.
func (l Leaf) class() string {
	var b strings.Builder
	skip := false
	for _, r := range l.Path {
		switch {
		case r == '[':
			skip = true
			b.WriteString("[]")
		case r == ']':
			skip = false
		case !skip:
			b.WriteRune(r)
		}
	}
	return l.Kind + b.String()
}

// pickLeaf picks a class of positions first.
func pickLeaf(ls []Leaf, r *simrt.Rng) Leaf {
	by := map[string][]Leaf{}
	var order []string
	for _, l := range ls {
		k := l.class()
		if by[k] == nil {
			order = append(order, k)
		}
		by[k] = append(by[k], l)
	}
	c := by[order[r.Intn(len(order))]]
	return c[r.Intn(len(c))]
}

// alter changes the value of the leaf; it returns what was done, or "" if the value would stay the same.
func (l Leaf) alter(r *simrt.Rng, all []Leaf) string {
	switch l.Kind {
	case "g1":
		old := l.V.Interface().(*math.G1)
		n := old.Copy()
		what := ""
		switch r.Intn(6) {
		case 0, 1:
			n.Add(curve.GenG1)
			what = "+generator"
		case 2:
			n.Sub(curve.GenG1)
			what = "-generator"
		case 3:
			n = curve.GenG1.Mul(curve.NewRandomZr(r))
			what = "=random"
		case 4:
			n.Sub(old)
			what = "=0"
		case 5:
			var c []Leaf
			for _, o := range all {
				if o.Kind == "g1" {
					c = append(c, o)
				}
			}
			o := c[r.Intn(len(c))]
			n = o.V.Interface().(*math.G1).Copy()
			what = "=" + o.Path
		}
		if n.Equals(old) {
			return ""
		}
		l.V.Set(reflect.ValueOf(n))
		return l.Path + " " + what
	case "zr":
		old := l.V.Interface().(*math.Zr)
		var n *math.Zr
		what := ""
		switch r.Intn(6) {
		case 0, 1:
			n = old.Plus(curve.NewZrFromInt(1))
			what = "+1"
		case 2:
			n = curve.ModSub(old, curve.NewZrFromInt(1), curve.GroupOrder)
			what = "-1"
		case 3:
			n = curve.NewRandomZr(r)
			what = "=random"
		case 4:
			n = curve.NewZrFromInt(0)
			what = "=0"
		case 5:
			n = curve.ModSub(curve.NewZrFromInt(0), old, curve.GroupOrder)
			what = "negated"
		}
		n.Mod(curve.GroupOrder)
		o := old.Copy()
		o.Mod(curve.GroupOrder)
		if n.Equals(o) {
			return ""
		}
		l.V.Set(reflect.ValueOf(n))
		return l.Path + " " + what
	case "int":
		old := l.V.Int()
		n := []int64{old + 1, old - 1, -old, 0, 1, old * 2, -1, 1<<62 + 3}[r.Intn(8)]
		if n == old {
			return ""
		}
		l.V.SetInt(n)
		return fmt.Sprintf("%s %d -> %d", l.Path, old, n)
	case "list":
		n := l.V.Len()
		if n == 0 {
			return ""
		}
		c := reflect.MakeSlice(l.V.Type(), n, n+2)
		reflect.Copy(c, l.V)
		what := ""
		switch r.Intn(8) {
		case 0:
			c = c.Slice(0, n-1)
			what = "without its last"
		case 1:
			c = c.Slice(1, n)
			what = "without its first"
		case 2:
			c = reflect.Append(c, l.V.Index(n-1))
			what = "with its last twice"
		case 3:
			c = reflect.Append(c, l.V.Index(n-1), l.V.Index(0))
			what = "longer by two"
		case 4:
			c = c.Slice(0, 0)
			what = "emptied"
		case 5:
			c = reflect.Append(c.Slice(0, 0), l.V.Index(0))
			c = reflect.AppendSlice(c, l.V)
			what = "with its first twice"
		case 6:
			c = c.Slice(0, n/2)
			what = "halved"
		case 7:
			if n < 2 {
				return ""
			}
			i := r.Intn(n)
			j := r.Intn(n - 1)
			if j >= i {
				j++
			}
			if equalValues(l.V.Index(i), l.V.Index(j)) {
				return ""
			}
			a, b := l.V.Index(i), l.V.Index(j)
			c.Index(i).Set(b)
			c.Index(j).Set(a)
			what = fmt.Sprintf("with %d and %d exchanged", i, j)
		}
		if c.Len() == n && what == "halved" {
			return ""
		}
		l.V.Set(c)
		return l.Path + " " + what
	}
	return ""
}

func equalValues(a, b reflect.Value) bool {
	x, y := a.Interface(), b.Interface()
	switch v := x.(type) {
	case *math.G1:
		return v.Equals(y.(*math.G1))
	case *math.Zr:
		return v.Equals(y.(*math.Zr))
	}
	return fingerprint(x) == fingerprint(y)
}

// fingerprint is a hash of all values of x.
func fingerprint(x interface{}) uint64 {
	p := reflect.New(reflect.TypeOf(x))
	p.Elem().Set(reflect.ValueOf(x))
	var h uint64
	for _, l := range leaves(p.Interface()) {
		switch l.Kind {
		case "g1":
			h = simrt.HashString(h, string(l.V.Interface().(*math.G1).Bytes()))
		case "zr":
			z := l.V.Interface().(*math.Zr).Copy()
			z.Mod(curve.GroupOrder)
			h = simrt.HashString(h, string(z.Bytes()))
		case "int":
			h = simrt.Mix(h, uint64(l.V.Int()))
		case "list":
			h = simrt.Mix(h, uint64(l.V.Len())+77)
		}
	}
	return h
}

package main

import (
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
)

// Arithmetic modulo the group order, independent of the code under test.

var modR, _ = new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)

func fr2big(f *bls.Fr) *big.Int {
	b := bls.FrTo32(f)
	return le2big(b[:])
}

func le2big(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func big2le(v *big.Int) []byte {
	b := new(big.Int).Mod(v, modR).Bytes()
	r := make([]byte, 32)
	for i := range b {
		r[i] = b[len(b)-1-i]
	}
	return r
}

func big2fr(v *big.Int) bls.Fr {
	var f bls.Fr
	var a [32]byte
	copy(a[:], big2le(v))
	bls.FrFrom32(&f, a)
	return f
}

type poly []*big.Int

func toPoly(f []bls.Fr) poly {
	p := make(poly, len(f))
	for i := range f {
		p[i] = fr2big(&f[i])
	}
	return p
}

func (p poly) at(x int64) *big.Int {
	r := new(big.Int)
	bx := big.NewInt(x)
	for i := len(p) - 1; i >= 0; i-- {
		r.Mul(r, bx)
		r.Add(r, p[i])
		r.Mod(r, modR)
	}
	return r
}

func (p poly) zero() bool {
	for _, c := range p {
		if c.Sign() != 0 {
			return false
		}
	}
	return true
}

func (p poly) eq(q poly) bool {
	n := len(p)
	if len(q) > n {
		n = len(q)
	}
	for i := 0; i < n; i++ {
		a, b := new(big.Int), new(big.Int)
		if i < len(p) {
			a = p[i]
		}
		if i < len(q) {
			b = q[i]
		}
		if a.Cmp(b) != 0 {
			return false
		}
	}
	return true
}

func (p poly) add(q poly, sign int64) poly {
	n := len(p)
	if len(q) > n {
		n = len(q)
	}
	r := make(poly, n)
	for i := range r {
		r[i] = new(big.Int)
		if i < len(p) {
			r[i].Add(r[i], p[i])
		}
		if i < len(q) {
			r[i].Add(r[i], new(big.Int).Mul(q[i], big.NewInt(sign)))
		}
		r[i].Mod(r[i], modR)
	}
	return r
}

// lagrange returns the value at x of the polynomial through (xs,ys).
func lagrange(xs []int64, ys []*big.Int, x int64) *big.Int {
	r := new(big.Int)
	for i := range xs {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range xs {
			if i != j {
				num.Mul(num, big.NewInt(x-xs[j]))
				num.Mod(num, modR)
				den.Mul(den, big.NewInt(xs[i]-xs[j]))
				den.Mod(den, modR)
			}
		}
		num.Mul(num, new(big.Int).ModInverse(den, modR))
		num.Mul(num, ys[i])
		r.Add(r, num)
		r.Mod(r, modR)
	}
	return r
}

// interp returns the coefficients of the polynomial through (xs,ys).
func interp(xs []int64, ys []*big.Int) poly {
	n := len(xs)
	res := make(poly, n)
	for i := range res {
		res[i] = new(big.Int)
	}
	for i := range xs {
		c := poly{big.NewInt(1)}
		den := big.NewInt(1)
		for j := range xs {
			if i == j {
				continue
			}
			nc := make(poly, len(c)+1)
			for k := range nc {
				nc[k] = new(big.Int)
			}
			for k := range c {
				nc[k+1].Add(nc[k+1], c[k])
				nc[k].Sub(nc[k], new(big.Int).Mul(c[k], big.NewInt(xs[j])))
			}
			for k := range nc {
				nc[k].Mod(nc[k], modR)
			}
			c = nc
			den.Mul(den, big.NewInt(xs[i]-xs[j]))
			den.Mod(den, modR)
		}
		den.ModInverse(den, modR)
		den.Mul(den, ys[i])
		for k := range c {
			res[k].Add(res[k], new(big.Int).Mul(c[k], den))
			res[k].Mod(res[k], modR)
		}
	}
	return res
}

// span is a row space over the field, kept in echelon form.
type span struct {
	rows map[int]poly // by pivot column
	n    int
}

func newSpan(n int) *span { return &span{map[int]poly{}, n} }

func (s *span) reduce(v poly) (poly, int) {
	v = append(poly(nil), v...)
	for i := 0; i < s.n; i++ {
		if v[i].Sign() == 0 {
			continue
		}
		r := s.rows[i]
		if r == nil {
			return v, i
		}
		f := v[i]
		for k := i; k < s.n; k++ {
			if r[k].Sign() != 0 {
				t := new(big.Int).Mul(f, r[k])
				t.Sub(v[k], t)
				v[k] = t.Mod(t, modR)
			}
		}
	}
	return v, -1
}

func (s *span) add(v poly) {
	v, i := s.reduce(v)
	if i < 0 {
		return
	}
	inv := new(big.Int).ModInverse(v[i], modR)
	for k := range v {
		t := new(big.Int).Mul(v[k], inv)
		v[k] = t.Mod(t, modR)
	}
	s.rows[i] = v
}

func (s *span) has(v poly) bool {
	_, i := s.reduce(v)
	return i < 0
}

package vh

import (
	"math/big"

	"pgregory.net/rapid"
)

// Lift returns the member that the number v stands for (an x coordinate, a
// residue, an encoding), if there is one. other selects the opposite point.
func Lift(r Ref, v *big.Int, other bool) (RVal, bool) {
	if v.Sign() < 0 || v.Cmp(r.P()) >= 0 {
		return RVal{}, false
	}
	switch q := r.(type) {
	case *Weierstrass:
		out, ok := q.LiftX(v)
		if ok && other {
			out = q.Neg(out)
		}
		return out, ok
	case *ModPRef:
		return RVal{X: new(big.Int).Set(v)}, v.Sign() > 0 && q.Member(v)
	case *Ristretto:
		if v.BitLen() > 255 {
			return RVal{}, false
		}
		b := v.FillBytes(make([]byte, 32))
		for i, j := 0, 31; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		out, err := q.Parse(b)
		return out, err == nil
	}
	return RVal{}, false
}

// numberOf is the number that stands for a value; the inverse of Lift.
func numberOf(r Ref, v RVal) *big.Int {
	if q, ok := r.(*Ristretto); ok {
		b := append([]byte{}, q.Bin(v)...)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return new(big.Int).SetBytes(b)
	}
	return v.X
}

// Lookalike returns another member whose number agrees with that of a in all
// but some bits, or which shares one coordinate with a.
func Lookalike(rt *rapid.T, r Ref, a RVal, label string) (RVal, string, bool) {
	if a.Inf {
		return RVal{}, "", false
	}
	n := numberOf(r, a)
	size := r.P().BitLen()
	if w, ok := r.(*Weierstrass); ok {
		switch Pick(rt, 8, label+"How") {
		case 0:
			return r.Neg(a), "same x", true
		case 1:
			// y^2 = x^3 + b: roots of unity.
			if w.a.Sign() == 0 {
				e := new(big.Int).Sub(w.p, I(1))
				e.Div(e, I(3))
				for g := int64(2); ; g++ {
					z := new(big.Int).Exp(I(g), e, w.p)
					if z.Cmp(I(1)) == 0 {
						continue
					}
					x := new(big.Int).Mul(a.X, z)
					return RVal{X: x.Mod(x, w.p), Y: a.Y}, "same y", true
				}
			}
		}
	}
	// The differing bits start at lo and span width.
	width := OneOf(rt, label+"Width", []int{8, 16, 32, 64, size / 4, size / 2, size - 64, size - 32})
	if width < 8 || width > size {
		width = min(8, size)
	}
	kind := "some bits"
	lo := Pick(rt, size-width+1, label+"Lo")
	switch Pick(rt, 3, label+"End") {
	case 0:
		lo, kind = 0, "upper bits agree"
	case 1:
		lo, kind = size-width, "lower bits agree"
	}
	mask := new(big.Int).Lsh(new(big.Int).Sub(new(big.Int).Lsh(I(1), uint(width)), I(1)), uint(lo))
	fill := DetInt(Seed64(rt, label+"Fill"), "lookalike", new(big.Int).Lsh(I(1), uint(width)))
	top := new(big.Int).Lsh(I(1), uint(width))
	for i := 0; i < 300; i++ {
		v := new(big.Int).AndNot(n, mask)
		v.Or(v, new(big.Int).Lsh(fill, uint(lo)))
		if out, ok := Lift(r, v, i%2 == 1); ok && v.Cmp(n) != 0 {
			return out, kind, true
		}
		fill = new(big.Int).Add(fill, I(1))
		fill.Mod(fill, top)
	}
	return RVal{}, "", false
}

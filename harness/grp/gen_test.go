package grp

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

var refs = vh.AllRefs()
var curves = refs[:4]

// drawRef picks a group; the curves and the real mod-p group are the most
// frequent.
func drawRef(rt *rapid.T) vh.Ref {
	return refs[vh.OneOf(rt, "group", []int{0, 1, 2, 3, 0, 2, 3, 4, 5, 6, 7, 8})]
}

func drawCurve(rt *rapid.T) vh.Ref {
	return curves[vh.Pick(rt, 4, "curve")]
}

// drawWide draws a number below 2^bits.
func drawWide(rt *rapid.T, bits int, label string) *big.Int {
	b := rapid.SliceOfN(rapid.Byte(), (bits+7)/8, (bits+7)/8).Draw(rt, label)
	v := new(big.Int).SetBytes(b)
	return v.Mod(v, new(big.Int).Lsh(vh.I(1), uint(bits)))
}

// drawScalar draws any integer: small, around multiples of the order,
// negative, or much larger than the order. The second result names the kind.
func drawScalar(rt *rapid.T, n *big.Int, label string) (*big.Int, string) {
	small := func() *big.Int { return vh.I(int64(vh.Pick(rt, 41, label+"Small"))) }
	neg := func(v *big.Int) *big.Int {
		if rapid.Bool().Draw(rt, label+"Neg") {
			v.Neg(v)
		}
		return v
	}
	switch k := vh.Pick(rt, 8, label+"Kind"); k {
	case 0:
		return neg(small()), "small"
	case 1: // around a multiple of the order
		v := new(big.Int).Mul(n, vh.I(int64(rapid.IntRange(1, 3).Draw(rt, label+"Mult"))))
		if rapid.Bool().Draw(rt, label+"Below") {
			v.Sub(v, small())
		} else {
			v.Add(v, small())
		}
		return neg(v), "near order"
	case 2: // beyond the order
		extra := 1 + vh.Pick(rt, 261, label+"Extra")
		if vh.Pick(rt, 3, label+"VeryWide") == 0 {
			extra *= 8
		}
		return neg(drawWide(rt, n.BitLen()+extra, label)), "wide"
	case 3: // a power of two, or one less
		v := new(big.Int).Lsh(vh.I(1), uint(vh.OneOf(rt, label+"Far", []int{1, 1, 1, 4})*rapid.IntRange(0, n.BitLen()+9).Draw(rt, label+"Bit")))
		if rapid.Bool().Draw(rt, label+"MinusOne") {
			v.Sub(v, vh.I(1))
		}
		return neg(v), "power of two"
	case 4: // half of the order
		v := new(big.Int).Rsh(n, 1)
		return neg(v.Add(v, vh.I(int64(vh.Pick(rt, 3, label+"Off"))))), "half order"
	default:
		v := drawWide(rt, n.BitLen()+64, label)
		return neg(v.Mod(v, n)), "uniform"
	}
}

var memoMu sync.Mutex
var memo = map[string]vh.RVal{}

// refMul is the reference multiple of the base point, remembered.
func refMul(r vh.Ref, k *big.Int) vh.RVal {
	m := new(big.Int).Mod(k, r.N())
	key := r.Name() + "/" + m.Text(62)
	memoMu.Lock()
	v, ok := memo[key]
	memoMu.Unlock()
	if ok {
		return v
	}
	v = r.Mul(r.Base(), m)
	memoMu.Lock()
	if len(memo) < 200000 {
		memo[key] = v
	}
	memoMu.Unlock()
	return v
}

// drawLog draws the discrete logarithm of an element, with special weight on
// elements whose coordinates have leading zero bytes.
func drawLog(rt *rapid.T, r vh.Ref, label string) (*big.Int, string) {
	z := vh.LeadingZeroScalars[r.Name()]
	switch k := vh.Pick(rt, 6, label+"Log"); {
	case k == 0:
		return vh.I(0), "identity"
	case k == 1:
		return new(big.Int).Mod(vh.I(int64(rapid.IntRange(-5, 6).Draw(rt, label+"LogSmall"))), r.N()), "small"
	case k == 2 && len(z) > 0:
		v := vh.I(vh.OneOf(rt, label+"LogZero", z))
		if rapid.Bool().Draw(rt, label+"LogNeg") {
			v.Sub(r.N(), v)
		}
		return v, "leading zeros"
	default:
		v := drawWide(rt, r.N().BitLen()+64, label+"LogWide")
		return v.Mod(v, r.N()), "uniform"
	}
}

// routes are different ways to compute kG.
var routes = []struct {
	name string
	f    func(r vh.Ref, k, j *big.Int) group.Element
}{
	{"BaseScale", func(r vh.Ref, k, j *big.Int) group.Element { return r.G().Element().BaseScale(k) }},
	{"Scale(G)", func(r vh.Ref, k, j *big.Int) group.Element { return r.G().Element().Scale(r.G().Generator(), k) }},
	{"Add", func(r vh.Ref, k, j *big.Int) group.Element {
		return r.G().Element().Add(r.G().Element().BaseScale(j), r.G().Element().BaseScale(new(big.Int).Sub(k, j)))
	}},
	{"Subtract", func(r vh.Ref, k, j *big.Int) group.Element {
		return r.G().Element().Subtract(r.G().Element().BaseScale(new(big.Int).Add(k, j)), r.G().Element().BaseScale(j))
	}},
	{"Negate", func(r vh.Ref, k, j *big.Int) group.Element {
		return r.G().Element().Negate(r.G().Element().BaseScale(new(big.Int).Neg(k)))
	}},
	{"beyond order", func(r vh.Ref, k, j *big.Int) group.Element {
		return r.G().Element().BaseScale(new(big.Int).Add(k, new(big.Int).Mul(r.N(), j)))
	}},
	{"double and add", func(r vh.Ref, k, j *big.Int) group.Element {
		acc := r.G().Identity()
		for i := k.BitLen() - 1; i >= 0; i-- {
			acc.Add(acc, acc)
			if k.Bit(i) == 1 {
				acc.Add(acc, r.G().Generator())
			}
		}
		return acc
	}},
	{"in place", func(r vh.Ref, k, j *big.Int) group.Element {
		e := r.G().Element().BaseScale(new(big.Int).Add(k, j))
		e.Subtract(e, r.G().Element().BaseScale(j))
		return e
	}},
	{"decode binary", func(r vh.Ref, k, j *big.Int) group.Element {
		e := r.G().Element()
		if err := e.UnmarshalBinary(r.Bin(refMul(r, k))); err != nil {
			panic(fmt.Sprint("binary encoding of a member refused: ", err))
		}
		return e
	}},
	{"decode JSON", func(r vh.Ref, k, j *big.Int) group.Element {
		e := r.G().Element()
		if err := e.UnmarshalJSON(r.JSON(refMul(r, k))); err != nil {
			panic(fmt.Sprint("JSON encoding of a member refused: ", err))
		}
		return e
	}},
	{"Set", func(r vh.Ref, k, j *big.Int) group.Element {
		return r.G().Element().Set(r.G().Element().BaseScale(k))
	}},
	{"Set over", func(r vh.Ref, k, j *big.Int) group.Element {
		return r.G().Element().BaseScale(j).Set(r.G().Element().BaseScale(k))
	}},
	{"Scale twice", func(r vh.Ref, k, j *big.Int) group.Element {
		jj := new(big.Int).Mod(j, r.N())
		if jj.Sign() == 0 {
			jj.SetInt64(1)
		}
		inv := new(big.Int).ModInverse(jj, r.N())
		return r.G().Element().Scale(r.G().Element().BaseScale(inv), new(big.Int).Mul(k, jj))
	}},
}

// drawElem draws an element with its reference value, along a drawn route
// that does not involve decoding (so that decoding faults stay out of the
// arithmetic properties).
func drawElem(rt *rapid.T, r vh.Ref, label string) (group.Element, *big.Int, string) {
	k, kind := drawLog(rt, r, label)
	plain := []int{0, 1, 2, 3, 4, 5, 7, 10, 12}
	rte := routes[vh.OneOf(rt, label+"Route", plain)]
	j := vh.I(int64(rapid.IntRange(1, 9).Draw(rt, label+"J")))
	if kind == "identity" && rapid.Bool().Draw(rt, label+"Id") {
		return r.G().Identity(), k, kind
	}
	return rte.f(r, k, j), k, kind
}

func member(r vh.Ref, e group.Element) (vh.RVal, error) { return r.Of(e) }

// drawSpecial draws a member by the number that stands for it (an x coordinate,
// a residue, an encoding): zero, small, large, sparse. Such elements are out of
// reach of computations from the generator.
func drawSpecial(rt *rapid.T, r vh.Ref, label string) (vh.RVal, string) {
	p := r.P()
	var v *big.Int
	kind := ""
	up := true
	special := vh.Pick(rt, 7, label+"Special")
	if p.BitLen() < 64 && special > 2 {
		special = 6
	}
	switch special {
	case 0:
		v, kind = vh.I(0), "zero"
	case 1:
		v, kind = vh.I(int64(rapid.IntRange(1, 300).Draw(rt, label+"Small"))), "small"
	case 2:
		v, kind, up = new(big.Int).Sub(p, vh.I(int64(rapid.IntRange(1, 300).Draw(rt, label+"Small")))), "just below the field order", false
	case 3:
		v, kind = new(big.Int).Lsh(vh.I(1), uint(vh.Pick(rt, p.BitLen()-1, label+"Bit"))), "power of two"
	case 4: // leading zeros
		v, kind = drawWide(rt, 8*(1+vh.Pick(rt, p.BitLen()/8, label+"Len")), label+"Short"), "short"
	case 5: // trailing zeros
		n := 8 * (1 + vh.Pick(rt, p.BitLen()/8-1, label+"Len"))
		v, kind = new(big.Int).Lsh(drawWide(rt, p.BitLen()-n, label+"High"), uint(n)), "trailing zeros"
	default:
		v, kind = drawWide(rt, p.BitLen(), label+"Any"), "any"
	}
	v.Mod(v, p)
	step := vh.I(1)
	if !up {
		step = vh.I(-1)
	}
	if kind == "trailing zeros" {
		step = new(big.Int).Lsh(step, uint(v.TrailingZeroBits()))
	}
	for i := 0; i < 400; i++ {
		var out vh.RVal
		ok := false
		switch q := r.(type) {
		case *vh.Weierstrass:
			if out, ok = q.LiftX(v); ok && rapid.Bool().Draw(rt, label+"Sign") {
				out = q.Neg(out)
			}
		case *vh.ModPRef:
			ok = v.Sign() > 0 && q.Member(v)
			out = vh.RVal{X: new(big.Int).Set(v)}
		case *vh.Ristretto:
			b := make([]byte, 32)
			if v.BitLen() <= 255 {
				v.FillBytes(b)
				for i, j := 0, 31; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
				var err error
				out, err = q.Parse(b)
				ok = err == nil
			}
		}
		if ok {
			if i > 0 {
				kind += ", near"
			}
			return out, kind
		}
		v.Add(v, step)
		v.Mod(v, p)
	}
	return r.Base(), "base point"
}

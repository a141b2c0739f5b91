package bp

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/util"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func drawInt(rt *rapid.T, n *big.Int, label string) *big.Int {
	switch vh.Pick(rt, 8, label+"Kind") {
	case 0:
		return vh.I(int64(vh.Pick(rt, 3, label)) - 1)
	case 1:
		return sub(n, vh.I(int64(vh.Pick(rt, 3, label))))
	case 2:
		return new(big.Int).Neg(vh.DetInt(vh.Seed64(rt, label), "v", n))
	case 3:
		return vh.DetInt(vh.Seed64(rt, label), "v", mul(mul(n, n), n))
	case 4:
		return vh.I(rapid.Int64().Draw(rt, label))
	default:
		return vh.DetInt(vh.Seed64(rt, label), "v", n)
	}
}

func drawInts(rt *rapid.T, k int, n *big.Int, label string) []*big.Int {
	out := make([]*big.Int, k)
	for i := range out {
		out[i] = drawInt(rt, n, fmt.Sprint(label, i))
	}
	// The same number may occur twice.
	if k > 1 && vh.Pick(rt, 8, label+"Alias") == 0 {
		out[0] = out[k-1]
	}
	return out
}

func same(rt *rapid.T, what string, got, want []*big.Int) {
	if len(got) != len(want) {
		rt.Fatalf("%s has %d entries instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] == nil || got[i].Cmp(want[i]) != 0 {
			rt.Fatalf("%s: entry %d is %v instead of %v", what, i, got[i], want[i])
		}
	}
}

func zip(a, b []*big.Int, n *big.Int, f func(x, y *big.Int) *big.Int) []*big.Int {
	out := make([]*big.Int, len(a))
	for i := range a {
		out[i] = mod(f(a[i], b[i]), n)
	}
	return out
}

// Vector arithmetic against its definition.
//vh:shards quick=4 thorough=8
func TestC25_Vectors(t *testing.T) {
	vh.Check(t, 160000, 800000, "vectors of integers of any sign and size and of equal or different lengths, and a modulus; non-trivial: at least one entry, distinct (operation, vectors)",
		func(rt *rapid.T, c *vh.Case) {
			g := vh.NewT(vh.OneOf(rt, "order", []int{16, 24, 64, 256, 384}))
			n := g.N()
			la := vh.Pick(rt, 9, "length")
			lb := la
			if vh.Pick(rt, 4, "mismatch") == 0 {
				lb = vh.Pick(rt, 9, "other")
			}
			a, b := drawInts(rt, la, n, "a"), drawInts(rt, lb, n, "b")
			s := drawInt(rt, n, "s")
			snap := fmt.Sprint(a, b, s, n)
			op := vh.Pick(rt, 9, "op")
			var got, want []*big.Int
			var err error
			name := ""
			two := true
			switch op {
			case 0:
				name = "VectorAdd"
				got, err = bulletproofs.VectorAdd(a, b, n)
				if la == lb {
					want = zip(a, b, n, add)
				}
			case 1:
				name = "VectorSub"
				got, err = bulletproofs.VectorSub(a, b, n)
				if la == lb {
					want = zip(a, b, n, sub)
				}
			case 2:
				name = "VectorMul"
				got, err = bulletproofs.VectorMul(a, b, n)
				if la == lb {
					want = zip(a, b, n, mul)
				}
			case 3:
				name, two = "VectorScalarMul", false
				got, err = bulletproofs.VectorScalarMul(a, s, n)
				want = zip(a, a, n, func(x, _ *big.Int) *big.Int { return mul(x, s) })
			case 4:
				name, two = "VectorAddConst", false
				got = bulletproofs.VectorAddConst(a, s, n)
				want = zip(a, a, n, func(x, _ *big.Int) *big.Int { return add(x, s) })
			case 5:
				name = "ScalarProduct"
				var r *big.Int
				r, err = bulletproofs.ScalarProduct(a, b, g)
				if la == lb {
					got, want = []*big.Int{r}, []*big.Int{dot(a, b, n)}
				}
			case 6:
				// Has no way to report an error.
				name, two = "VectorInnerProduct", false
				b = drawInts(rt, la, n, "b2")
				snap = fmt.Sprint(a, b, s, n)
				got, want = []*big.Int{bulletproofs.VectorInnerProduct(a, b, n)}, []*big.Int{dot(a, b, n)}
			case 7:
				name, two = "VectorCopy", false
				got, err = bulletproofs.VectorCopy(s, int64(la))
				for i := 0; i < la; i++ {
					want = append(want, s)
				}
			default:
				name, two = "VectorConvertToBig", false
				in := make([]int64, la)
				for i := range in {
					in[i] = rapid.Int64().Draw(rt, "x")
					want = append(want, vh.I(in[i]))
				}
				got, err = bulletproofs.VectorConvertToBig(in, int64(la))
			}
			if two && la != lb {
				if err == nil {
					rt.Fatalf("%s of vectors of lengths %d and %d gives no error", name, la, lb)
				}
			} else {
				if err != nil {
					rt.Fatalf("%s fails: %v", name, err)
				}
				same(rt, fmt.Sprintf("%s(%v, %v, %v) modulo %v", name, a, b, s, n), got, want)
			}
			if fmt.Sprint(a, b, s, n) != snap {
				rt.Fatalf("%s changes its inputs", name)
			}
			if la > 0 {
				c.NonTrivial(name, a, b, s, n)
			}
			c.Label("%s, equal lengths %v", name, la == lb)
		})
}

// Vectors of elements and multi-exponentiation.
//vh:shards quick=4 thorough=8
func TestC25_Elements(t *testing.T) {
	vh.Check(t, 12000, 60000, "vectors of elements and of integers of any sign and size, over a transparent group or a curve; non-trivial: at least one entry",
		func(rt *rapid.T, c *vh.Case) {
			var g group.Group = vh.NewT(vh.OneOf(rt, "order", []int{24, 256, 384}))
			if vh.Pick(rt, 4, "real") == 0 {
				g = curves[vh.Pick(rt, len(curves), "curve")]
			}
			n := g.N()
			la := vh.Pick(rt, 6, "length")
			lb := la
			if vh.Pick(rt, 4, "mismatch") == 0 {
				lb = vh.Pick(rt, 6, "other")
			}
			el := func(k int, label string) (out []group.Element, x []*big.Int) {
				for i := 0; i < k; i++ {
					e := drawInt(rt, n, fmt.Sprint(label, i))
					x = append(x, e)
					out = append(out, g.Element().BaseScale(e))
				}
				return
			}
			a, xa := el(la, "a")
			snap := fmt.Sprint(a)
			if rapid.Bool().Draw(rt, "exp") {
				s := drawInts(rt, lb, n, "s")
				was := fmt.Sprint(s)
				r, err := bulletproofs.VectorExp(a, s, g)
				if (err != nil) != (la != lb) {
					rt.Fatalf("%s: VectorExp of lengths %d and %d: error %v", g.Name(), la, lb, err)
				}
				if err == nil && !r.IsEqual(g.Element().BaseScale(dot(xa, s, n))) {
					rt.Fatalf("%s: VectorExp of %v and %v is wrong", g.Name(), xa, s)
				}
				if fmt.Sprint(s) != was || fmt.Sprint(a) != snap {
					rt.Fatalf("%s: VectorExp changes its inputs", g.Name())
				}
				c.Label("VectorExp, equal lengths %v", la == lb)
			} else {
				b, xb := el(lb, "b")
				was := fmt.Sprint(b)
				r, err := bulletproofs.VectorECAdd(a, b, g)
				if (err != nil) != (la != lb) {
					rt.Fatalf("%s: VectorECAdd of lengths %d and %d: error %v", g.Name(), la, lb, err)
				}
				if err == nil {
					if len(r) != la {
						rt.Fatalf("%s: VectorECAdd gives %d elements instead of %d", g.Name(), len(r), la)
					}
					for i := range r {
						if !r[i].IsEqual(g.Element().BaseScale(add(xa[i], xb[i]))) {
							rt.Fatalf("%s: VectorECAdd of %v and %v is wrong", g.Name(), xa, xb)
						}
					}
				}
				if fmt.Sprint(b) != was || fmt.Sprint(a) != snap {
					rt.Fatalf("%s: VectorECAdd changes its inputs", g.Name())
				}
				c.Label("VectorECAdd, equal lengths %v", la == lb)
			}
			if la > 0 {
				c.NonTrivial(g.Name(), xa, lb)
			}
		})
}

// Digits.
//vh:shards quick=4 thorough=8
func TestC25_Decompose(t *testing.T) {
	vh.Check(t, 160000, 800000, "a number of up to 200 bits, a base and a number of digits; non-trivial: distinct (number, base, digits) with a non-zero number",
		func(rt *rapid.T, c *vh.Case) {
			u := []int64{2, 2, 2, 3, 4, 10, 16, 255, 256, 65536, 1 << 32, 1<<62 + 1}[vh.Pick(rt, 12, "base")]
			l := int64(vh.Pick(rt, 70, "digits"))
			top := new(big.Int).Exp(vh.I(u), vh.I(l), nil)
			var x *big.Int
			switch vh.Pick(rt, 5, "kind") {
			case 0:
				x = sub(top, vh.I(1))
			case 1:
				x = new(big.Int).Exp(vh.I(u), vh.I(int64(vh.Pick(rt, 60, "power"))), nil)
			case 2: // more digits than asked for
				x = vh.DetInt(vh.Seed64(rt, "x"), "x", mul(top, top))
			default:
				x = vh.DetInt(vh.Seed64(rt, "x"), "x", top)
			}
			was := x.String()
			d := util.Decompose(x, u, l)
			if x.String() != was {
				rt.Fatalf("Decompose changes its input from %s to %v", was, x)
			}
			if int64(len(d)) != l {
				rt.Fatalf("Decompose(%v, %d, %d) has %d digits", x, u, l, len(d))
			}
			// The weighted sum is the number, as far as the digits go.
			sum := vh.I(0)
			for i := len(d) - 1; i >= 0; i-- {
				if d[i] < 0 || d[i] >= u {
					rt.Fatalf("Decompose(%v, %d, %d): digit %d is %d", x, u, l, i, d[i])
				}
				sum.Add(mul(sum, vh.I(u)), vh.I(d[i]))
			}
			if sum.Cmp(mod(x, top)) != 0 {
				rt.Fatalf("Decompose(%v, %d, %d) = %v sums to %v", x, u, l, d, sum)
			}
			if x.Sign() > 0 && l > 0 {
				c.NonTrivial(x, u, l)
			}
			c.Label("base %d", u)
		})
}

// Pedersen commitments.
//vh:shards quick=4 thorough=8
func TestC25_Pedersen(t *testing.T) {
	vh.Check(t, 16000, 60000, "two openings of Pedersen commitments, with values and blinding factors of any sign and size, over transparent groups, curves and mod-p groups; non-trivial: distinct openings",
		func(rt *rapid.T, c *vh.Case) {
			var g group.Group = vh.NewT(vh.OneOf(rt, "order", []int{24, 256, 384}))
			var h group.Element
			switch vh.Pick(rt, 4, "group") {
			case 0:
				g = curves[vh.Pick(rt, len(curves), "curve")]
			case 1:
				g = vh.SmallModP(272)
				h = g.Element().BaseScale(vh.I(77))
			}
			if h == nil {
				h, _ = g.Element().MapToGroup("another generator")
			}
			n := g.N()
			x, r, y, s := drawInt(rt, n, "x"), drawInt(rt, n, "r"), drawInt(rt, n, "y"), drawInt(rt, n, "s")
			snap := fmt.Sprint(x, r, y, s, h)
			a, b := util.PedersenCommit(x, r, h, g), util.PedersenCommit(y, s, h, g)
			if want := g.Element().Add(g.Element().BaseScale(x), g.Element().Scale(h, r)); !a.IsEqual(want) {
				rt.Fatalf("%s: the commitment to %v with %v is wrong", g.Name(), x, r)
			}
			if !g.Element().Add(a, b).IsEqual(util.PedersenCommit(add(x, y), add(r, s), h, g)) {
				rt.Fatalf("%s: commitments to %v, %v and %v, %v do not add up", g.Name(), x, r, y, s)
			}
			k := drawInt(rt, n, "k")
			if !g.Element().Scale(a, k).IsEqual(util.PedersenCommit(mul(x, k), mul(r, k), h, g)) {
				rt.Fatalf("%s: the commitment to %v, %v scaled by %v is not one to the product", g.Name(), x, r, k)
			}
			if !util.PedersenCommit(mod(x, n), mod(r, n), h, g).IsEqual(a) {
				rt.Fatalf("%s: the commitment to %v, %v changes when they are reduced", g.Name(), x, r)
			}
			if fmt.Sprint(x, r, y, s, h) != snap {
				rt.Fatalf("%s: committing changes the inputs", g.Name())
			}
			c.NonTrivial(g.Name(), x, r, y, s)
			c.Label("%s", g.Name())
		})
}

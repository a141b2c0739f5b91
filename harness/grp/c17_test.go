package grp

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// Every operation agrees with reference arithmetic.
//vh:shards quick=4 thorough=8
func TestC17_ReferenceArithmetic(t *testing.T) {
	vh.Check(t, 2400, 60000, "an operation on drawn elements (identity, small, leading-zero, uniform) and integers, compared with textbook arithmetic; non-trivial unless all operands are the identity",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			g := r.G()
			x, kx, kindX := drawElem(rt, r, "x")
			var y group.Element
			var ky *big.Int
			rel := vh.OneOf(rt, "relation", []string{"free", "same", "opposite", "double", "identity", "copy"})
			switch rel {
			case "free":
				y, ky, _ = drawElem(rt, r, "y")
			case "same":
				y, ky = x, kx
			case "copy":
				y, ky = g.Element().BaseScale(kx), kx
			case "opposite":
				ky = new(big.Int).Neg(kx)
				y = g.Element().BaseScale(ky)
			case "double":
				ky = new(big.Int).Lsh(kx, 1)
				y = g.Element().BaseScale(ky)
			case "identity":
				y, ky = g.Identity(), vh.I(0)
			}
			s, kindS := drawScalar(rt, r.N(), "s")
			rx, ry := refMul(r, kx), refMul(r, ky)
			want := func(what string, e group.Element, v vh.RVal) {
				if !vh.Matches(r, e, v) {
					rt.Fatalf("%s: %s is wrong: x=%v G, y=%v G, s=%v: got %v, want %v", r.Name(), what, kx, ky, s, e, vh.RString(v))
				}
				z := r.Zero()
				if got := e.IsIdentity(); got != vh.REq(v, z) {
					rt.Fatalf("%s: IsIdentity of %s says %v: x=%v y=%v s=%v", r.Name(), what, got, kx, ky, s)
				}
				if got := e.IsEqual(g.Identity()); got != vh.REq(v, z) {
					rt.Fatalf("%s: IsEqual(%s, identity) says %v: x=%v y=%v s=%v", r.Name(), what, got, kx, ky, s)
				}
			}
			want("x", x, rx)
			want("y", y, ry)
			recv := func() group.Element {
				if rapid.Bool().Draw(rt, "usedReceiver") {
					return g.Generator()
				}
				return g.Element()
			}
			want("x+y", recv().Add(x, y), r.Add(rx, ry))
			want("y+x", recv().Add(y, x), r.Add(rx, ry))
			want("x-y", recv().Subtract(x, y), r.Add(rx, r.Neg(ry)))
			want("-x", recv().Negate(x), r.Neg(rx))
			want("s*x", recv().Scale(x, s), r.Mul(rx, s))
			want("s*G", recv().BaseScale(s), refMul(r, s))
			want("set x", recv().Set(x), rx)
			if got := x.IsEqual(y); got != vh.REq(rx, ry) || got != y.IsEqual(x) {
				rt.Fatalf("%s: IsEqual says %v/%v: x=%v y=%v", r.Name(), got, y.IsEqual(x), kx, ky)
			}
			if !x.IsEqual(x) {
				rt.Fatalf("%s: x is not equal to itself: %v", r.Name(), kx)
			}
			// Both operations return the receiver.
			e := recv()
			if e.Add(x, y) != e || !vh.Matches(r, e, r.Add(rx, ry)) {
				rt.Fatalf("%s: Add does not set and return its receiver", r.Name())
			}
			c.Label("%s", r.Name())
			c.Label("relation %s", rel)
			c.Label("scalar %s", kindS)
			c.Label("x %s", kindX)
			if kx.Sign() != 0 || ky.Sign() != 0 {
				c.NonTrivial(r.Name(), kx, ky, s)
			}
		})
}

// Scaling distributes, and the published orders are the right ones.
//vh:shards quick=2 thorough=8
func TestC17_Laws(t *testing.T) {
	vh.Check(t, 1000, 30000, "laws relating several operations on drawn elements and integers; non-trivial: operands differ from the identity",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			g := r.G()
			x, kx, _ := drawElem(rt, r, "x")
			y, ky, _ := drawElem(rt, r, "y")
			w, kw, _ := drawElem(rt, r, "w")
			s, _ := drawScalar(rt, r.N(), "s")
			u, _ := drawScalar(rt, r.N(), "u")
			el := g.Element
			eq := func(law string, a, b group.Element) {
				if !a.IsEqual(b) || !b.IsEqual(a) {
					rt.Fatalf("%s: %s fails for x=%v y=%v w=%v s=%v u=%v: %v vs %v", r.Name(), law, kx, ky, kw, s, u, a, b)
				}
			}
			eq("s(x+y)=sx+sy", el().Scale(el().Add(x, y), s), el().Add(el().Scale(x, s), el().Scale(y, s)))
			eq("(s+u)x=sx+ux", el().Scale(x, new(big.Int).Add(s, u)), el().Add(el().Scale(x, s), el().Scale(x, u)))
			eq("(su)x=s(ux)", el().Scale(x, new(big.Int).Mul(s, u)), el().Scale(el().Scale(x, u), s))
			eq("(x+y)+w=x+(y+w)", el().Add(el().Add(x, y), w), el().Add(x, el().Add(y, w)))
			eq("x-y=x+(-y)", el().Subtract(x, y), el().Add(x, el().Negate(y)))
			eq("x+0=x", el().Add(x, g.Identity()), x)
			eq("0+x=x", el().Add(g.Identity(), x), x)
			eq("-(-x)=x", el().Negate(el().Negate(x)), x)
			eq("sG=Scale(G,s)", el().BaseScale(s), el().Scale(g.Generator(), s))
			eq("-1*x=-x", el().Scale(x, vh.I(-1)), el().Negate(x))
			if !el().Scale(x, g.N()).IsIdentity() || !el().Scale(x, vh.I(0)).IsIdentity() || !el().Subtract(x, x).IsIdentity() {
				rt.Fatalf("%s: order times x, 0 times x or x-x is not the identity: x=%v", r.Name(), kx)
			}
			for _, o := range []*big.Int{g.N(), x.GroupOrder(), g.Identity().GroupOrder(), g.Generator().GroupOrder()} {
				if o.Cmp(r.N()) != 0 {
					rt.Fatalf("%s: wrong group order %v", r.Name(), o)
				}
			}
			for _, o := range []*big.Int{g.P(), x.FieldOrder(), g.Element().FieldOrder()} {
				if o.Cmp(r.P()) != 0 {
					rt.Fatalf("%s: wrong field order %v", r.Name(), o)
				}
			}
			if !vh.Matches(r, g.Generator(), r.Base()) || !vh.Matches(r, g.Identity(), r.Zero()) {
				rt.Fatalf("%s: wrong generator or identity", r.Name())
			}
			var rnd group.Element
			vh.WithSeed(vh.Seed64(rt, "tape"), func() { rnd = g.Random() })
			v, err := member(r, rnd)
			if err != nil {
				v, err = r.OfJSON(rnd)
			}
			if err != nil {
				rt.Fatalf("%s: Random returned a non-member: %v", r.Name(), rnd)
			}
			eq("random x + 0", el().Add(rnd, g.Identity()), rnd)
			if !vh.Matches(r, el().Scale(rnd, vh.I(3)), r.Add(v, r.Add(v, v))) {
				rt.Fatalf("%s: 3 times a random element is wrong", r.Name())
			}
			c.Label("%s", r.Name())
			if kx.Sign() != 0 && ky.Sign() != 0 {
				c.NonTrivial(r.Name(), kx, ky, kw, s, u)
			}
		})
}

// Every operation refuses elements of another group.
//vh:shards quick=1 thorough=2
func TestC17_MixingRefused(t *testing.T) {
	vh.Check(t, 600, 5000, "an operation of one group applied to an element of another; always non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			i := vh.Pick(rt, len(refs), "group")
			j := vh.Pick(rt, len(refs)-1, "other")
			if j >= i {
				j++
			}
			g, h := refs[i].G(), refs[j].G()
			k := vh.I(int64(vh.Pick(rt, 51, "k")))
			x, f := g.Element().BaseScale(k), h.Element().BaseScale(k)
			if rapid.Bool().Draw(rt, "identity") {
				f = h.Identity()
			}
			ops := map[string]func(){
				"Add1":    func() { g.Element().Add(f, x) },
				"Add2":    func() { g.Element().Add(x, f) },
				"Sub1":    func() { g.Element().Subtract(f, x) },
				"Sub2":    func() { g.Element().Subtract(x, f) },
				"Negate":  func() { g.Element().Negate(f) },
				"Scale":   func() { g.Element().Scale(f, k) },
				"Set":     func() { g.Element().Set(f) },
				"IsEqual": func() { x.IsEqual(f) },
			}
			names := []string{"Add1", "Add2", "Sub1", "Sub2", "Negate", "Scale", "Set", "IsEqual"}
			op := vh.OneOf(rt, "op", names)
			if !panics(ops[op]) {
				rt.Fatalf("%s of a %s element on %s is not refused", op, h.Name(), g.Name())
			}
			c.NonTrivial(op, i, j, k)
		})
}

func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			_ = fmt.Sprint(r)
			p = true
		}
	}()
	f()
	return false
}

// Operations on elements out of reach of computations from the generator.
//vh:shards quick=2 thorough=8
func TestC17_SpecialElements(t *testing.T) {
	vh.Check(t, 2000, 50000, "an operation on members with special coordinates or residues, compared with textbook arithmetic; non-trivial: the elements could be made",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			g := r.G()
			mk := func(label string) (group.Element, vh.RVal, bool) {
				v, kind := drawSpecial(rt, r, label)
				e := g.Element()
				if e.UnmarshalBinary(r.Bin(v)) != nil || !vh.Matches(r, e, v) {
					c.Vacuous("decoding fails")
					return nil, v, false
				}
				c.Label("%s", kind)
				return e, v, true
			}
			x, rx, ok := mk("x")
			if !ok {
				return
			}
			var y group.Element
			var ry vh.RVal
			switch vh.Pick(rt, 4, "relation") {
			case 0:
				y, ry = g.Element().Negate(x), r.Neg(rx)
			case 1:
				y, ry = g.Generator(), r.Base()
			case 2:
				y, ry = g.Element().Set(x), rx
			default:
				if y, ry, ok = mk("y"); !ok {
					return
				}
			}
			s, _ := drawScalar(rt, r.N(), "s")
			want := func(what string, e group.Element, v vh.RVal) {
				if !vh.Matches(r, e, v) || e.IsIdentity() != vh.REq(v, r.Zero()) || e.IsEqual(g.Identity()) != vh.REq(v, r.Zero()) {
					rt.Fatalf("%s: %s is wrong: x=%s, y=%s, s=%v: got %v, want %s", r.Name(), what, vh.RString(rx), vh.RString(ry), s, e, vh.RString(v))
				}
			}
			want("x", x, rx)
			want("y", y, ry)
			want("x+y", g.Element().Add(x, y), r.Add(rx, ry))
			want("x-y", g.Element().Subtract(x, y), r.Add(rx, r.Neg(ry)))
			want("-x", g.Element().Negate(x), r.Neg(rx))
			want("x+x", g.Element().Add(x, x), r.Add(rx, rx))
			want("s*x", g.Element().Scale(x, s), r.Mul(rx, s))
			if got := x.IsEqual(y); got != vh.REq(rx, ry) || got != y.IsEqual(x) {
				rt.Fatalf("%s: IsEqual says %v: x=%s y=%s", r.Name(), got, vh.RString(rx), vh.RString(ry))
			}
			if !g.Element().Scale(x, g.N()).IsIdentity() {
				rt.Fatalf("%s: the order times %s is not the identity", r.Name(), vh.RString(rx))
			}
			c.NonTrivial(r.Name(), vh.RString(rx), vh.RString(ry), s)
		})
}

// Members that resemble each other are told apart.
//vh:shards quick=2 thorough=8
func TestC17_Lookalikes(t *testing.T) {
	vh.Check(t, 2400, 60000, "two different members whose coordinates, residues or encodings agree in many bits; non-trivial: the pair could be made",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			g := r.G()
			var a vh.RVal
			if rapid.Bool().Draw(rt, "special") {
				a, _ = drawSpecial(rt, r, "a")
			} else {
				k, _ := drawLog(rt, r, "a")
				a = refMul(r, k)
			}
			b, kind, ok := vh.Lookalike(rt, r, a, "b")
			if !ok {
				c.Vacuous("no such member")
				return
			}
			x, y := g.Element(), g.Element()
			if x.UnmarshalBinary(r.Bin(a)) != nil || y.UnmarshalBinary(r.Bin(b)) != nil || !vh.Matches(r, x, a) || !vh.Matches(r, y, b) {
				c.Vacuous("decoding fails")
				return
			}
			if vh.REq(a, b) {
				c.Vacuous("the same member")
				return
			}
			if x.IsEqual(y) || y.IsEqual(x) {
				rt.Fatalf("%s: %s and %s are said to be equal (%s)", r.Name(), vh.RString(a), vh.RString(b), kind)
			}
			want := func(what string, e group.Element, v vh.RVal) {
				if !vh.Matches(r, e, v) || e.IsIdentity() != vh.REq(v, r.Zero()) {
					rt.Fatalf("%s: %s is wrong: x=%s, y=%s: got %v, want %s", r.Name(), what, vh.RString(a), vh.RString(b), e, vh.RString(v))
				}
			}
			want("x+y", g.Element().Add(x, y), r.Add(a, b))
			want("x-y", g.Element().Subtract(x, y), r.Add(a, r.Neg(b)))
			c.Label("%s", kind)
			c.Label("%s", r.Name())
			c.NonTrivial(r.Name(), vh.RString(a), vh.RString(b))
		})
}

// Groups that share a name only.
func TestC17_SameName(t *testing.T) {
	vh.Check(t, 300, 3000, "an operation of one mod-p group applied to an element of a group over another field with the same name; always non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			sizes := []int{5, 12, 32, 64, 128, 272, 400, 520}
			i := vh.Pick(rt, len(sizes), "group")
			j := vh.Pick(rt, len(sizes)-1, "other")
			if j >= i {
				j++
			}
			g := group.NewModPGroup("Z", vh.SafePrimes[sizes[i]], "4")
			h := group.NewModPGroup("Z", vh.SafePrimes[sizes[j]], "4")
			k := vh.I(int64(1 + vh.Pick(rt, 50, "k")))
			x, f := g.Element().BaseScale(k), h.Element().BaseScale(k)
			ops := []func(){
				func() { g.Element().Add(f, x) },
				func() { g.Element().Add(x, f) },
				func() { g.Element().Subtract(f, x) },
				func() { g.Element().Subtract(x, f) },
				func() { g.Element().Negate(f) },
				func() { g.Element().Scale(f, k) },
				func() { g.Element().Set(f) },
				func() { x.IsEqual(f) },
			}
			op := vh.Pick(rt, len(ops), "op")
			if !panics(ops[op]) {
				rt.Fatalf("operation %d of an element of a %d-bit field is not refused by a group with a %d-bit field of the same name", op, sizes[j], sizes[i])
			}
			c.NonTrivial(op, i, j, k)
		})
}

package bp

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func ipAccepted(ip bulletproofs.InnerProductProof) bool {
	ok, _ := ip.Verify()
	return ok
}

// The arguments inside honest proofs stand on their own, and do not survive an
// alteration.
//vh:shards quick=6 thorough=8
func TestC11_InsideRangeProofs(t *testing.T) {
	vh.Check(t, 9000, 200000, "the inner product argument of an honest (aggregated) range proof, as it is and after one alteration; non-trivial: all",
		func(rt *rapid.T, c *vh.Case) {
			var p setupParams
			if vh.Pick(rt, 16, "real") == 0 {
				p = drawReal(rt, []int64{1, 2, 4, 8, 16})
			} else {
				_, p = drawT(rt, exps)
			}
			g, n := p.GP, p.GP.N()
			tape, _ := drawTape(rt, n)
			var ip bulletproofs.InnerProductProof
			if rapid.Bool().Draw(rt, "aggregated") {
				m := drawShare(rt, p.N)
				pr, _ := proveMulti(rt, drawValues(rt, m, p.N/int64(m)), p, tape)
				ip = pr.InnerProductProof
			} else {
				pr, _ := proveHonest(rt, drawValue(rt, p.N, "v"), p, tape)
				ip = pr.InnerProductProof
			}
			if ok, err := ip.Verify(); !ok || err != nil {
				rt.Fatalf("%s, %d bits: the inner product argument of an honest proof is not accepted: %v %v", g.Name(), p.N, ok, err)
			}
			if len(ip.L) != log2(int(p.N)) || len(ip.R) != len(ip.L) {
				rt.Fatalf("%d bits: %d and %d folding elements", p.N, len(ip.L), len(ip.R))
			}
			x := ip
			x.L, x.R = append([]group.Element{}, ip.L...), append([]group.Element{}, ip.R...)
			x.Params.Gg, x.Params.Hh = append([]group.Element{}, ip.Params.Gg...), append([]group.Element{}, ip.Params.Hh...)
			pool := append([]group.Element{ip.P, g.Generator(), p.H, ip.Params.Uu}, ip.L...)
			pool = append(append(pool, ip.R...), ip.Params.Gg...)
			scal := []*big.Int{ip.A, ip.B, ip.Cc}
			var name string
			switch k := vh.Pick(rt, 8, "alter"); {
			case k < 4:
				name = alterIP(rt, &x, p, pool, scal)
			case k == 4:
				i := vh.Pick(rt, int(p.N), "i")
				x.Params.Gg[i], name = otherElem(rt, x.Params.Gg[i], p, pool, "Gg")
				name = "g " + name
			case k == 5:
				i := vh.Pick(rt, int(p.N), "i")
				x.Params.Hh[i], name = otherElem(rt, x.Params.Hh[i], p, pool, "Hh")
				name = "h " + name
			case k == 6 && p.N > 1:
				x.Params.Uu, name = otherElem(rt, x.Params.Uu, p, pool, "Uu")
				name = "u " + name
			default:
				switch vh.Pick(rt, 3, "gens") {
				case 0:
					x.Params.Gg, x.Params.Hh = x.Params.Hh, x.Params.Gg
					name = "g and h exchanged"
				case 1:
					if p.N > 1 {
						x.Params.Gg[0], x.Params.Gg[1] = x.Params.Gg[1], x.Params.Gg[0]
						name = "two generators exchanged"
						break
					}
					fallthrough
				default:
					x.Params.Gg = append(x.Params.Gg, p.H)
					x.Params.Hh = append(x.Params.Hh, g.Generator())
					name = "generators added"
				}
			}
			// Zero scalars make some generators irrelevant.
			if ip.A.Sign() == 0 || ip.B.Sign() == 0 {
				c.Vacuous("zero scalar")
				return
			}
			if ipAccepted(x) {
				rt.Fatalf("%s, %d bits: an inner product argument is accepted after: %s", g.Name(), p.N, name)
			}
			c.NonTrivial(g.Name(), p.N, name, ip.Cc)
			c.Label(name)
		})
}

// A reference prover over any vectors and generators.
//vh:shards quick=6 thorough=8
func TestC11_ReferenceProver(t *testing.T) {
	vh.Check(t, 6000, 120000, "an inner product argument made by a reference prover that learns the challenges from the verifier, for any vectors and generators: accepted for the true product, rejected for a false one, or when one element is chosen after its challenge; non-trivial: the true one is accepted",
		func(rt *rapid.T, c *vh.Case) {
			g := vh.NewT(vh.OneOf(rt, "order", bigOrders))
			n := g.N()
			N := int(vh.OneOf(rt, "length", []int64{1, 2, 4, 8, 16, 32}))
			seed := vh.Seed64(rt, "seed")
			f := &forger{g: g, seed: seed}
			in := ipInst{}
			a, b := make([]*big.Int, N), make([]*big.Int, N)
			kind := vh.Pick(rt, 9, "vectors")
			place, other := vh.Pick(rt, N, "place"), vh.Pick(rt, N, "other")
			for i := range a {
				id := vh.I(int64(i)).String()
				// Generators that are combinations of symbols.
				in.Gg = append(in.Gg, g.Lin(map[string]*big.Int{"ip-g" + id: f.rnd("g" + id), "ip-s": f.rnd("gs" + id)}))
				in.Hh = append(in.Hh, g.Lin(map[string]*big.Int{"ip-h" + id: f.rnd("h" + id), "ip-s": f.rnd("hs" + id)}))
				a[i], b[i] = f.rnd("a"+id), f.rnd("b"+id)
				switch kind {
				case 1: // small entries
					a[i], b[i] = mod(a[i], vh.I(3)), mod(b[i], vh.I(3))
				case 2: // mostly zero
					if i > 0 {
						a[i] = vh.I(0)
					}
				case 3:
					a[i] = vh.I(0)
				case 4:
					b[i] = vh.I(0)
				case 5:
					a[i], b[i] = vh.I(0), vh.I(0)
				case 6: // unit vectors
					a[i], b[i] = vh.I(0), vh.I(0)
					if i == place {
						a[i] = vh.I(1)
					}
					if i == other {
						b[i] = vh.I(1)
					}
				case 7: // all alike
					a[i], b[i] = a[0], b[0]
				}
			}
			in.Uu = g.Sym("ip-u")
			in.P = f.vec(a, b, in.Gg, in.Hh)
			in.c = dot(a, b, n)
			if in.c.Sign() == 0 {
				// Nothing to fold, but a false claim.
				bad := in
				bad.c = f.rnd("wrong")
				if rapid.Bool().Draw(rt, "unit claim") {
					bad.c = vh.I(1)
				}
				forged := ipProve(g, bad, a, b)
				for _, x := range forged {
					if ipAccepted(x) {
						rt.Fatalf("length %d: an inner product argument for %v is accepted although the product is zero (vectors of kind %d)", N, bad.c, kind)
					}
				}
				if len(forged) > 0 {
					c.NonTrivial(N, "zero product", kind, seed)
					c.Label("zero product")
				} else {
					c.Vacuous("no forgery for a zero product")
				}
				return
			}
			cs := ipProve(g, in, a, b)
			ok := false
			var good bulletproofs.InnerProductProof
			for _, x := range cs {
				if ipAccepted(x) {
					ok, good = true, x
				}
			}
			if !ok {
				c.Vacuous("the reference prover is not accepted (product zero: %v)", in.c.Sign() == 0)
				return
			}
			mode := vh.OneOf(rt, "mode", []string{"false product", "false product", "late P", "late c", "late L", "late R", "late g", "swapped rounds", "late u", "last a", "last b", "other sign", "P after the base challenge", "c after the base challenge"})
			bad := in
			wrong := mod(add(in.c, f.rnd("wrong")), n)
			var forged []bulletproofs.InnerProductProof
			switch mode {
			case "false product":
				bad.c = wrong
				forged = ipProve(g, bad, a, b)
			case "late P":
				// The folding elements stay, the product changes, and the
				// commitment is chosen to make up for it.
				x := good
				x0, ok := ipBase(g, in)
				if !ok {
					c.Vacuous("no challenge")
					return
				}
				x.Cc = wrong
				x.P = g.Element().Add(in.P, g.Element().Scale(in.Uu, mul(x0, sub(in.c, wrong))))
				forged = append(forged, x)
			case "late c":
				x := good
				x.Cc = wrong
				forged = append(forged, x)
			case "late L", "late R":
				if N == 1 {
					c.Vacuous("no folding")
					return
				}
				bad.c = wrong
				forged = lateFold(g, bad, a, b, vh.Pick(rt, log2(N), "round"), mode == "late L")
			case "late g":
				// A generator changes and the commitment with it, not the
				// folding.
				if N == 1 {
					c.Vacuous("no folding")
					return
				}
				x := good
				x.Params.Gg = append([]group.Element{}, in.Gg...)
				x.Params.Gg[0] = g.Element().Add(in.Gg[0], g.Sym("ip-s"))
				x.P = g.Element().Add(in.P, g.Element().Scale(g.Sym("ip-s"), a[0]))
				forged = append(forged, x)
			case "P after the base challenge", "c after the base challenge":
				// The commitment gets a part on the base of the product,
				// chosen with the challenge known; the folding is honest.
				x0, ok := ipBase(g, in)
				if !ok {
					c.Vacuous("no challenge")
					return
				}
				if mode[0] == 'P' {
					bad.c = wrong
					if x0, ok = ipBase(g, bad); !ok {
						c.Vacuous("no challenge")
						return
					}
					bad.P = g.Element().Add(in.P, g.Element().Scale(in.Uu, mul(x0, sub(in.c, wrong))))
				} else {
					part := f.rnd("part")
					bad.P = g.Element().Add(in.P, g.Element().Scale(in.Uu, part))
					if x0, ok = ipBase(g, bad); !ok {
						c.Vacuous("no challenge")
						return
					}
					bad.c = mod(sub(in.c, mul(part, inv(x0, n))), n)
				}
				forged = ipProve(g, bad, a, b)
			case "late u":
				// Only meaningful if the claimed product is false.
				bad.c = wrong
				bad.Uu = g.Identity()
				for _, x := range ipProve(g, bad, a, b) {
					x.Params.Uu = in.Uu
					forged = append(forged, x)
				}
			case "last a", "last b":
				// The last numbers give the product, and not the commitment.
				bad.c = wrong
				for _, x := range ipProve(g, bad, a, b) {
					last, by := &x.A, x.B
					if mode == "last b" {
						last, by = &x.B, x.A
					}
					if by = inv(mod(by, n), n); by == nil {
						continue
					}
					*last = mod(add(*last, mul(sub(wrong, in.c), by)), n)
					forged = append(forged, x)
				}
			case "other sign":
				// The product with the other sign, for a verifier that
				// loses signs.
				bad.c, bad.neg = mod(new(big.Int).Neg(in.c), n), true
				for _, x := range ipProve(g, bad, a, b) {
					y, z := x, x
					y.A, z.B = sub(x.A, n), sub(x.B, n)
					forged = append(forged, x, y, z)
				}
			case "swapped rounds":
				if N < 4 {
					c.Vacuous("no folding")
					return
				}
				x := good
				x.L, x.R = append([]group.Element{}, good.L...), append([]group.Element{}, good.R...)
				x.L[0], x.L[1] = x.L[1], x.L[0]
				x.R[0], x.R[1] = x.R[1], x.R[0]
				forged = append(forged, x)
			}
			if len(forged) == 0 {
				c.Vacuous("no forgery (%s)", mode)
				return
			}
			for _, x := range forged {
				if ipAccepted(x) {
					rt.Fatalf("length %d: a forged inner product argument is accepted (%s)", N, mode)
				}
			}
			c.NonTrivial(N, mode, seed)
			c.Label(mode)
			c.Label("length %d", N)
		})
}

// lateFold proves a false product, and then chooses one folding element to
// make the last equation hold.
func lateFold(g *vh.TGroup, in ipInst, a, b []*big.Int, round int, left bool) []bulletproofs.InnerProductProof {
	n := g.N()
	cs := ipProve(g, in, a, b)
	if len(cs) == 0 {
		return nil
	}
	var out []bulletproofs.InnerProductProof
	for _, x := range cs {
		// What is missing in the last equation, and the factor of the
		// folding element in it.
		d := record(g, func() { _, _ = x.Verify() })
		if len(d) == 0 {
			continue
		}
		miss := d[len(d)-1]
		acc := g.Element().Set(in.P)
		x0, ok := ipBase(g, in)
		if !ok {
			return nil
		}
		acc.Add(acc, g.Element().Scale(in.Uu, mul(x0, in.c)))
		var x2 *big.Int
		for i := 0; i <= round; i++ {
			x2, ok = ipRound(g, in, vh.T(acc), x.L[:i+1], x.R[:i+1])
			if !ok {
				return nil
			}
			acc = g.Element().Add(acc, g.Element().Add(g.Element().Scale(x.L[i], x2), g.Element().Scale(x.R[i], inv(x2, n))))
		}
		for _, sign := range []int64{1, -1} {
			y := x
			y.L, y.R = append([]group.Element{}, x.L...), append([]group.Element{}, x.R...)
			if left {
				y.L[round] = g.Element().Add(x.L[round], g.Element().Scale(miss, mul(vh.I(sign), inv(x2, n))))
			} else {
				y.R[round] = g.Element().Add(x.R[round], g.Element().Scale(miss, mul(vh.I(sign), x2)))
			}
			out = append(out, y)
		}
	}
	return out
}

// Arguments put together from trivial parts, without regard to challenges.
//vh:shards quick=4 thorough=8
func TestC11_TrivialParts(t *testing.T) {
	vh.Check(t, 20000, 500000, "an argument all of whose parts are identities, generators, the commitment, zeros or ones: when it is accepted, the commitment is to vectors with the claimed product; non-trivial: the claim is false",
		func(rt *rapid.T, c *vh.Case) {
			g := vh.NewT(vh.OneOf(rt, "order", bigOrders))
			n := g.N()
			N := int(vh.OneOf(rt, "length", []int64{1, 1, 2, 2, 4, 8, 16}))
			in := ipInst{Uu: g.Sym("ip-u")}
			a, b := make([]*big.Int, N), make([]*big.Int, N)
			nums := []*big.Int{vh.I(0), vh.I(0), vh.I(1), vh.I(-1), vh.I(2), vh.DetInt(vh.Seed64(rt, "seed"), "x", n)}
			num := func(l string) *big.Int { return vh.OneOf(rt, l, nums) }
			fill := []*big.Int{num("fill a"), num("fill b")}
			for i := range a {
				in.Gg = append(in.Gg, g.Sym("g"+vh.I(int64(i)).String()))
				in.Hh = append(in.Hh, g.Sym("h"+vh.I(int64(i)).String()))
				a[i], b[i] = fill[0], fill[1]
				if vh.Pick(rt, 4, "differs") == 0 {
					a[i], b[i] = num("a"), num("b")
				}
			}
			f := &forger{g: g}
			in.P = f.vec(a, b, in.Gg, in.Hh)
			extra := vh.Pick(rt, 6, "extra") == 0
			if extra {
				in.P = g.Element().Add(in.P, vh.OneOf(rt, "on", []group.Element{g.Generator(), in.Uu}))
			}
			in.c = mod(dot(a, b, n), n)
			wrong := vh.Pick(rt, 5, "true") > 0
			if wrong {
				in.c = mod(num("c"), n)
			}
			parts := []group.Element{g.Identity(), g.Identity(), in.P, g.Element().Negate(in.P), in.Uu, g.Generator(), in.Gg[0], in.Hh[0], in.Gg[N-1], in.Hh[N-1]}
			var L, R []group.Element
			all := vh.Pick(rt, 3, "identities") > 0
			for i := 0; i < log2(N); i++ {
				l, r := g.Identity(), g.Identity()
				if !all {
					l, r = g.Element().Set(vh.OneOf(rt, "L", parts)), g.Element().Set(vh.OneOf(rt, "R", parts))
				}
				L, R = append(L, l), append(R, r)
			}
			fa, fb := num("final a"), num("final b")
			if rapid.Bool().Draw(rt, "first") {
				fa, fb = a[0], b[0]
			}
			pr := in.proof(g, L, R, mod(fa, n), mod(fb, n))
			ok, _ := pr.Verify()
			holds := !extra && dot(a, b, n).Cmp(in.c) == 0
			if ok && !holds {
				rt.Fatalf("length %d: an argument of trivial parts is accepted for %v, and the product is %v (part elsewhere: %v; final scalars %v, %v)", N, in.c, dot(a, b, n), extra, fa, fb)
			}
			if ok {
				c.Label("true and accepted")
			}
			if !holds {
				c.NonTrivial(N, in.c, a, b, fa, fb, extra, all)
				c.Label("length %d", N)
			}
		})
}

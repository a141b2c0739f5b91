package bp

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// drawOutside draws a value that is not below 2^bits, also not modulo n.
func drawOutside(rt *rapid.T, bits int64, n *big.Int, label string) (*big.Int, string) {
	top := new(big.Int).Lsh(vh.I(1), uint(bits))
	var v *big.Int
	kind := ""
	switch vh.Pick(rt, 9, label+"Kind") {
	case 0:
		v, kind = vh.I(-1-int64(vh.Pick(rt, 3, label+"Neg"))), "just below"
	case 1:
		v, kind = add(top, vh.I(int64(vh.Pick(rt, 3, label+"Over")))), "just above"
	case 2: // right low bits
		k := vh.I(int64(1 + vh.Pick(rt, 5, label+"Mult")))
		v, kind = add(drawValue(rt, bits, label), mul(k, top)), "in range modulo 2^N"
	case 3:
		v, kind = sub(drawValue(rt, bits, label), mul(vh.I(int64(1+vh.Pick(rt, 5, label+"Mult"))), top)), "negative, in range modulo 2^N"
	case 4:
		v, kind = sub(n, vh.I(1+int64(vh.Pick(rt, 4, label+"Wrap")))), "just below the order"
	case 5:
		v, kind = new(big.Int).Lsh(vh.I(1), uint(bits)+uint(vh.Pick(rt, 40, label+"Shift"))), "power of two"
	case 6:
		v, kind = new(big.Int).Rsh(n, uint(vh.Pick(rt, 3, label+"Half"))), "fraction of the order"
	case 7:
		v, kind = new(big.Int).Neg(add(vh.I(1), drawValue(rt, bits, label))), "negated"
	default:
		v, kind = vh.DetInt(vh.Seed64(rt, label+"Seed"), "v", n), "uniform"
	}
	if m := mod(v, n); m.Cmp(top) < 0 {
		v, kind = top, "just above"
	}
	return v, kind
}

func checkOutside(rt *rapid.T, p setupParams) (*big.Int, string) {
	v, kind := drawOutside(rt, p.N, p.GP.N(), "v")
	tape, _ := drawTape(rt, p.GP.N())
	var pr bulletproofs.BulletProof
	var err error
	vh.With(tape, func() { pr, _, err = bulletproofs.Prove(v, p) })
	if err != nil {
		return v, "refused"
	}
	if accepted(pr) {
		rt.Fatalf("%s, 2^%d: the proof of %v is accepted", p.GP.Name(), p.N, v)
	}
	return v, kind
}

// The honest prover fed with values outside the range.
//vh:shards quick=4 thorough=8
func TestC08_HonestProverOutsideTransparent(t *testing.T) {
	vh.Check(t, 6000, 150000, "the honest prover run on a value outside the range, over a transparent group; non-trivial: distinct (size, value)",
		func(rt *rapid.T, c *vh.Case) {
			_, p := drawT(rt, exps)
			v, kind := checkOutside(rt, p)
			c.NonTrivial(p.N, v)
			c.Label(kind)
		})
}

// The same on the curves.
//vh:shards quick=4 thorough=8
func TestC08_HonestProverOutsideCurves(t *testing.T) {
	vh.Check(t, 400, 8000, "the honest prover run on a value outside the range, over a curve; non-trivial: distinct (curve, size, value)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawReal(rt, []int64{1, 2, 4, 4, 8, 8, 16, 32})
			v, kind := checkOutside(rt, p)
			c.NonTrivial(p.GP.Name(), p.N, v)
			c.Label(kind)
		})
}

// A malicious prover that learns the challenges from the verifier.
//vh:shards quick=8 thorough=8
func TestC08_MaliciousProver(t *testing.T) {
	vh.Check(t, 6000, 120000, "a forged proof for a value outside the range that satisfies all relations but one (or cancels errors under a hypothesis on the challenges, or chooses one element after its challenge); non-trivial: the same prover with an honest witness is accepted",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, []int64{1, 2, 4, 4, 8, 8, 16})
			N := int(p.N)
			seed := vh.Seed64(rt, "seed")
			ctl := &forger{g: g, p: p, seed: seed, vs: []*big.Int{drawValue(rt, p.N, "honest")}}
			ctl.gammas = []*big.Int{ctl.rnd("gamma")}
			ctl.aL, ctl.aR = bitsOf(ctl.vs[0], N)
			if !anyAccepted(ctl.forge("plain")) {
				c.Vacuous("the reference prover is not accepted")
				return
			}
			v, kind := drawOutside(rt, p.N, g.N(), "v")
			f := &forger{g: g, p: p, seed: seed + 1, vs: []*big.Int{mod(v, g.N())}}
			f.gammas = []*big.Int{f.rnd("gamma")}
			mode := drawMode(rt)
			f.deg = drawDegenerate(rt)
			var how string
			y0, z0 := f.learn(1)
			f.aL, f.aR, how = cheatVectors(rt, g.N(), N, v, y0, z0)
			cs := f.forge(mode)
			if len(cs) == 0 {
				c.Vacuous("no forgery (%s)", mode)
				return
			}
			for _, x := range cs {
				if x.accepted() {
					rt.Fatalf("2^%d: a forged proof for the committed value %v is accepted (%s, %s, %s, %s)", p.N, v, mode, f.deg, how, kind)
				}
			}
			c.NonTrivial(p.N, mode, f.deg, how, kind, v)
			c.Label("%s", mode)
			c.Label("%s", f.deg)
			c.Label("%s", how)
		})
}

// A search for witnesses that satisfy the verifier's own equations under all
// challenges.
//vh:shards quick=4 thorough=8
func TestC08_SolvedWitness(t *testing.T) {
	vh.Check(t, 800, 20000, "digit vectors whose partners and committed value are solved for in the verifier's own equations, read for many statements; solutions outside the range are turned into proofs; non-trivial: the equations could be read",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, []int64{1, 2, 2, 4, 4, 8})
			solveOutside(rt, c, g, p, false, 1)
		})
}

// Accepted proofs moved to another commitment, size or inner product argument.
//vh:shards quick=4 thorough=8
func TestC08_Transplants(t *testing.T) {
	vh.Check(t, 4000, 100000, "an accepted proof moved to another commitment or range size, or with its inner product argument replaced by that of another proof; non-trivial: the original is accepted",
		func(rt *rapid.T, c *vh.Case) {
			real := vh.Pick(rt, 12, "real") == 0
			var p setupParams
			if real {
				p = drawReal(rt, []int64{2, 4, 8})
			} else {
				_, p = drawT(rt, exps)
			}
			v := drawValue(rt, p.N, "v")
			seed := vh.Seed64(rt, "tape")
			a, gamma := proveHonest(rt, v, p, vh.NewTape(seed))
			w := drawValue(rt, p.N, "w")
			b, _ := proveHonest(rt, w, p, vh.NewTape(seed+1))
			if !verify(a) || !verify(b) {
				c.Vacuous("honest proof rejected")
				return
			}
			gp := p.GP
			k := vh.Pick(rt, 13, "transplant")
			name := ""
			x := a
			switch k {
			case 0:
				name = "commitment to an outside value, same blinding"
				x.V = gp.Element().Add(gp.Element().BaseScale(add(v, new(big.Int).Lsh(vh.I(1), uint(p.N)))), gp.Element().Scale(p.H, gamma))
			case 1:
				name = "negated commitment"
				x.V = gp.Element().Negate(a.V)
			case 2:
				name = "commitment of another proof"
				x.V = b.V
			case 3:
				name = "commitment shifted by one"
				x.V = gp.Element().Add(a.V, gp.Generator())
			case 4:
				name = "commitment reblinded"
				x.V = gp.Element().Add(a.V, p.H)
			case 5:
				name = "other inner product argument"
				x.InnerProductProof = b.InnerProductProof
			case 6:
				name = "other inner product argument and commitment to vectors"
				x.InnerProductProof = b.InnerProductProof
				x.A, x.S = b.A, b.S
			case 7:
				name = "other inner product, same argument"
				x.InnerProductProof.Cc = add(a.InnerProductProof.Cc, vh.I(1))
			case 8:
				name = "all but the commitment of another proof"
				x = b
				x.V = a.V
			case 9, 10:
				n2 := vh.OneOf(rt, "otherBits", exps)
				if n2 == p.N {
					n2 = exps[(vh.Pick(rt, 5, "step")+1+indexOf(n2))%6]
				}
				if real && n2 > 8 {
					n2 = 1
					if p.N == 1 {
						n2 = 2
					}
				}
				var q setupParams
				if real {
					q = realSetup(rt, gp, n2)
				} else {
					q = mustSetup(rt, n2, gp)
				}
				name = "other range size"
				x.Params = q
			case 11:
				name = "identity as commitment"
				x.V = gp.Identity()
			default:
				name = "doubled commitment"
				x.V = gp.Element().Add(a.V, a.V)
			}
			if x.V.IsEqual(a.V) && k < 9 && k != 5 && k != 6 && k != 7 {
				c.Vacuous("unchanged")
				return
			}
			if accepted(x) {
				rt.Fatalf("%s, 2^%d: a proof of %v is accepted after: %s", gp.Name(), p.N, v, name)
			}
			c.NonTrivial(gp.Name(), p.N, v, name)
			c.Label(name)
		})
}

func indexOf(n int64) int {
	for i, e := range exps {
		if e == n {
			return i
		}
	}
	return 0
}

// Proofs put together from trivial parts, without regard to challenges.
//vh:shards quick=2 thorough=8
func TestC08_TrivialParts(t *testing.T) {
	vh.Check(t, 12000, 300000, "a proof all of whose parts are identities, generators, commitments, zeros, ones or small multiples, for a value outside the range: never accepted; non-trivial: distinct",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, []int64{1, 1, 2, 4, 8, 16})
			n := g.N()
			v, _ := drawOutside(rt, p.N, n, "v")
			gamma := vh.OneOf(rt, "blinding", []*big.Int{vh.I(0), vh.I(1), vh.DetInt(3, "gamma", n)})
			vs := []*big.Int{v}
			Vs := []group.Element{g.Element().Add(g.Element().BaseScale(v), g.Element().Scale(p.H, gamma))}
			x := vh.DetInt(vh.Seed64(rt, "seed"), "x", n)
			elems := []group.Element{g.Identity(), g.Identity(), g.Identity(), g.Generator(), p.H, p.Gg[0], p.Hh[0], g.Element().Negate(g.Generator()), g.Element().BaseScale(x)}
			for _, e := range Vs {
				elems = append(elems, e, g.Element().Negate(e))
			}
			nums := []*big.Int{vh.I(0), vh.I(0), vh.I(1), vh.I(-1), vh.I(2), x}
			for _, v := range vs {
				nums = append(nums, v)
			}
			plain := vh.Pick(rt, 3, "plain") == 0
			el := func(l string) group.Element {
				if plain && vh.Pick(rt, 4, l+"Plain") > 0 {
					return g.Identity()
				}
				return g.Element().Set(vh.OneOf(rt, l, elems))
			}
			num := func(l string) *big.Int {
				if plain && vh.Pick(rt, 4, l+"Plain") > 0 {
					return vh.I(0)
				}
				return mod(vh.OneOf(rt, l, nums), n)
			}
			pr := bulletproofs.BulletProof{V: Vs[0], A: el("A"), S: el("S"), T1: el("T1"), T2: el("T2"), Taux: num("taux"), Mu: num("mu"), Tprime: num("t"), Params: p}
			ip := &pr.InnerProductProof
			ip.P, ip.Cc, ip.A, ip.B = el("P"), num("c"), num("a"), num("b")
			if vh.Pick(rt, 3, "consistent") > 0 {
				ip.Cc = pr.Tprime
			}
			for i := 0; i < log2(int(p.N)); i++ {
				ip.L, ip.R = append(ip.L, el("L")), append(ip.R, el("R"))
			}
			// The parameters of the inner argument are as in honest proofs,
			// where they do not depend on challenges.
			ip.Params = bulletproofs.InnerProductParams{Gg: p.Gg, Hh: p.Hh, Uu: g.Identity(), GP: g}
			if rapid.Bool().Draw(rt, "u") {
				ip.Params.Uu = p.Gg[0]
			}
			if ok, _ := pr.Verify(); ok {
				rt.Fatalf("%d bits: a proof of trivial parts is accepted for %v", p.N, vs)
			}
			c.NonTrivial(p.N, vs, pr.Taux, pr.Mu, pr.Tprime, ip.A, ip.B, vh.T(pr.A).String(), vh.T(ip.P).String())
			c.Label("%d bits", p.N)
		})
}

package bp

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// drawBadList draws values at least one of which does not fit.
func drawBadList(rt *rapid.T, m int, bits int64, n *big.Int) ([]*big.Int, string) {
	vs := drawValues(rt, m, bits)
	top := new(big.Int).Lsh(vh.I(1), uint(bits))
	i := vh.Pick(rt, m, "bad")
	switch k := vh.Pick(rt, 6, "how"); {
	case k == 0 && m > 1: // the excess of one is lacking in another
		j := (i + 1 + vh.Pick(rt, m-1, "other")) % m
		d := mul(top, vh.I(int64(1+vh.Pick(rt, 3, "mult"))))
		vs[i] = add(vs[i], d)
		vs[j] = sub(vs[j], d)
		return vs, "compensated"
	case k == 1 && m > 1: // the concatenation of the digits is the same
		j := (i + 1) % m
		vs[i] = add(vs[i], top)
		vs[j] = sub(vs[j], vh.I(1))
		if vs[j].Sign() < 0 || i+1 == m {
			vs[j] = vh.I(0)
		}
		return vs, "carried"
	case k == 2: // fits the whole, not its share
		whole := drawValue(rt, bits*int64(m), "whole")
		if whole.Cmp(top) < 0 {
			whole = add(whole, top)
		}
		vs[i] = whole
		return vs, "too long for its share"
	case k == 3:
		for j := range vs {
			vs[j], _ = drawOutside(rt, bits, n, fmt.Sprintf("out%d-", j))
		}
		return vs, "all outside"
	default:
		var kind string
		vs[i], kind = drawOutside(rt, bits, n, "out")
		return vs, kind
	}
}

func checkBadList(rt *rapid.T, p setupParams) ([]*big.Int, string) {
	m := drawShare(rt, p.N)
	vs, kind := drawBadList(rt, m, p.N/int64(m), p.GP.N())
	tape, _ := drawTape(rt, p.GP.N())
	var pr bulletproofs.MultiBulletProof
	var err error
	vh.With(tape, func() { pr, _, err = bulletproofs.MultiProve(vs, p) })
	if err != nil {
		return vs, "refused"
	}
	if acceptedMulti(pr) {
		rt.Fatalf("%s, %d bits: the aggregated proof of %v is accepted (%s)", p.GP.Name(), p.N, vs, kind)
	}
	return vs, kind
}

// The honest prover fed with lists that contain a value outside its share.
//vh:shards quick=4 thorough=8
func TestC10_HonestProverOutsideTransparent(t *testing.T) {
	vh.Check(t, 6000, 150000, "the honest aggregated prover on a list with a value that does not fit; non-trivial: distinct (size, list)",
		func(rt *rapid.T, c *vh.Case) {
			_, p := drawT(rt, exps)
			vs, kind := checkBadList(rt, p)
			c.NonTrivial(p.N, vs)
			c.Label(kind)
			c.Label("%d values", len(vs))
		})
}

// The same on the curves.
//vh:shards quick=4 thorough=8
func TestC10_HonestProverOutsideCurves(t *testing.T) {
	vh.Check(t, 320, 6000, "the honest aggregated prover on a list with a value that does not fit, over a curve; non-trivial: distinct (curve, size, list)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawReal(rt, []int64{1, 2, 4, 4, 8, 8, 16})
			vs, kind := checkBadList(rt, p)
			c.NonTrivial(p.GP.Name(), p.N, vs)
			c.Label(kind)
		})
}

// A malicious aggregated prover.
//vh:shards quick=8 thorough=8
func TestC10_MaliciousProver(t *testing.T) {
	vh.Check(t, 5000, 100000, "a forged aggregated proof with a committed value outside its share that satisfies all relations but one, cancels errors, or chooses one element late; non-trivial: the same prover with an honest witness is accepted",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, []int64{1, 2, 4, 4, 8, 8, 16})
			n := g.N()
			m := drawShare(rt, p.N)
			bits := p.N / int64(m)
			seed := vh.Seed64(rt, "seed")
			mk := func(vs []*big.Int, seed uint64) *forger {
				f := &forger{g: g, p: p, agg: true, seed: seed}
				for j, v := range vs {
					f.vs = append(f.vs, mod(v, n))
					f.gammas = append(f.gammas, f.rnd(fmt.Sprint("gamma", j)))
				}
				return f
			}
			good := drawValues(rt, m, bits)
			ctl := mk(good, seed)
			for _, v := range good {
				l, r := bitsOf(v, int(bits))
				ctl.aL, ctl.aR = append(ctl.aL, l...), append(ctl.aR, r...)
			}
			if !anyAccepted(ctl.forge("plain")) {
				c.Vacuous("the reference prover is not accepted")
				return
			}
			vs, kind := drawBadList(rt, m, bits, n)
			f := mk(vs, seed+1)
			how := "low bits"
			y0, z0 := f.learn(m)
			if vh.Pick(rt, 3, "vectors") == 0 {
				for _, v := range vs {
					l, r := bitsOf(mod(v, n), int(bits))
					f.aL, f.aR = append(f.aL, l...), append(f.aR, r...)
				}
			} else {
				top := new(big.Int).Lsh(vh.I(1), uint(bits))
				for _, v := range vs {
					var l, r []*big.Int
					if w := mod(v, n); w.Cmp(top) < 0 {
						l, r = bitsOf(w, int(bits))
					} else {
						l, r, how = cheatVectors(rt, n, int(bits), v, y0, z0)
					}
					f.aL, f.aR = append(f.aL, l...), append(f.aR, r...)
				}
			}
			mode := drawMode(rt)
			f.deg = drawDegenerate(rt)
			cs := f.forge(mode)
			if len(cs) == 0 {
				c.Vacuous("no forgery (%s)", mode)
				return
			}
			for _, x := range cs {
				if x.accepted() {
					rt.Fatalf("%d bits: a forged aggregated proof for %v is accepted (%s, %s, %s, %s)", p.N, vs, mode, f.deg, how, kind)
				}
			}
			c.NonTrivial(p.N, mode, f.deg, how, vs)
			c.Label("%s", mode)
			c.Label("%s", f.deg)
			c.Label("%s", how)
			c.Label("%d values", m)
		})
}

// A search for witnesses that satisfy the verifier's own equations under all
// challenges.
//vh:shards quick=4 thorough=8
func TestC10_SolvedWitness(t *testing.T) {
	vh.Check(t, 600, 15000, "digit vectors whose partners and committed values are solved for in the verifier's own equations, read for many statements; solutions with a value outside its share are turned into proofs; non-trivial: the equations could be read",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, []int64{1, 2, 2, 4, 4, 8, 16})
			solveOutside(rt, c, g, p, true, drawShare(rt, p.N))
		})
}

// otherElem draws an element different from e.
func otherElem(rt *rapid.T, e group.Element, p setupParams, pool []group.Element, label string) (group.Element, string) {
	g := p.GP
	var x group.Element
	kind := ""
	switch vh.Pick(rt, 8, label+"Change") {
	case 0:
		x, kind = g.Element().Add(e, g.Generator()), "+G"
	case 1:
		x, kind = g.Element().Subtract(e, g.Generator()), "-G"
	case 2:
		x, kind = g.Element().Add(e, p.H), "+H"
	case 3:
		x, kind = g.Element().Negate(e), "negated"
	case 4:
		x, kind = g.Identity(), "identity"
	case 5:
		x, kind = g.Element().Add(e, p.Gg[vh.Pick(rt, len(p.Gg), label+"Gg")]), "+Gg"
	case 6:
		x, kind = g.Element().Add(e, e), "doubled"
	default:
		x, kind = pool[vh.Pick(rt, len(pool), label+"Pool")], "another element of the proof"
	}
	if x.IsEqual(e) {
		x, kind = g.Element().Add(e, p.H), "+H"
	}
	return x, kind
}

// otherScalar draws a scalar different from s modulo n.
func otherScalar(rt *rapid.T, s, n *big.Int, pool []*big.Int, label string) (*big.Int, string) {
	var x *big.Int
	kind := ""
	switch vh.Pick(rt, 11, label+"Change") {
	case 9, 10:
		// Another decimal digit, so that the others stay.
		digits := len(mod(s, n).String())
		k := vh.Pick(rt, digits, label+"Digit")
		if rapid.Bool().Draw(rt, label+"Front") {
			k = digits - 1 - vh.Pick(rt, min(digits, 4), label+"Digit")
		}
		d := new(big.Int).Exp(vh.I(10), vh.I(int64(k)), nil)
		if new(big.Int).Mod(new(big.Int).Div(mod(s, n), d), vh.I(10)).Sign() > 0 {
			d.Neg(d)
		}
		x, kind = add(mod(s, n), d), "decimal digit"
	case 0:
		x, kind = add(s, vh.I(1)), "+1"
	case 1:
		x, kind = sub(s, vh.I(1)), "-1"
	case 2:
		x, kind = vh.I(0), "0"
	case 3:
		x, kind = sub(n, s), "negated"
	case 4:
		x, kind = new(big.Int).Xor(s, new(big.Int).Lsh(vh.I(1), uint(vh.Pick(rt, n.BitLen()-1, label+"Bit")))), "bit flipped"
	case 5:
		x, kind = pool[vh.Pick(rt, len(pool), label+"Pool")], "another scalar of the proof"
	case 6:
		x, kind = new(big.Int).Neg(s), "opposite"
	case 7:
		d := new(big.Int).Lsh(vh.I(1), uint(vh.OneOf(rt, label+"Far", []int{64, 128, 256, 257, 320, 384, 512, 521, 1024, 4096})))
		x, kind = add(s, d), "far above"
	default:
		x, kind = mod(add(s, s), n), "doubled"
	}
	if mod(sub(x, s), n).Sign() == 0 {
		x, kind = add(s, vh.I(1)), "+1"
	}
	return x, kind
}

// Alterations of accepted aggregated proofs.
//vh:shards quick=6 thorough=8
func TestC10_Altered(t *testing.T) {
	vh.Check(t, 9000, 200000, "an accepted aggregated proof with one alteration of its commitments, elements, scalars or inner product argument; non-trivial: the original is accepted",
		func(rt *rapid.T, c *vh.Case) {
			var p setupParams
			if vh.Pick(rt, 20, "real") == 0 {
				p = drawReal(rt, []int64{2, 4, 8})
			} else {
				_, p = drawT(rt, exps)
			}
			g := p.GP
			m := drawShare(rt, p.N)
			vs := drawValues(rt, m, p.N/int64(m))
			seed := vh.Seed64(rt, "tape")
			pr, _ := proveMulti(rt, vs, p, vh.NewTape(seed))
			if ok, err := pr.Verify(); !ok || err != nil {
				c.Vacuous("honest proof rejected")
				return
			}
			x := pr
			x.Vs = append([]group.Element{}, pr.Vs...)
			x.InnerProductProof.L = append([]group.Element{}, pr.InnerProductProof.L...)
			x.InnerProductProof.R = append([]group.Element{}, pr.InnerProductProof.R...)
			pool := append([]group.Element{pr.A, pr.S, pr.T1, pr.T2, pr.InnerProductProof.P, g.Generator(), p.H}, pr.Vs...)
			pool = append(append(pool, pr.InnerProductProof.L...), pr.InnerProductProof.R...)
			ip := &x.InnerProductProof
			scal := []*big.Int{pr.Taux, pr.Mu, pr.Tprime, ip.A, ip.B}
			name := ""
			switch k := vh.Pick(rt, 20, "alter"); {
			case k == 0 && m > 1:
				i := vh.Pick(rt, m, "i")
				j := (i + 1 + vh.Pick(rt, m-1, "j")) % m
				x.Vs[i], x.Vs[j] = x.Vs[j], x.Vs[i]
				name = "swapped commitments"
			case k == 1 && m > 1:
				x.Vs = append(x.Vs[1:len(x.Vs):len(x.Vs)], x.Vs[0])
				name = "rotated commitments"
			case k == 2 && m > 1:
				x.Vs = x.Vs[:m/2]
				name = "dropped half of the commitments"
			case k == 3 && int64(2*m) <= p.N:
				x.Vs = append(x.Vs, x.Vs...)
				name = "duplicated all commitments"
			case k == 4 && int64(2*m) <= p.N:
				for i := 0; i < m; i++ {
					x.Vs = append(x.Vs, g.Identity())
				}
				name = "added commitments to zero"
			case k == 5 && m > 1:
				i := vh.Pick(rt, m, "i")
				j := (i + 1 + vh.Pick(rt, m-1, "j")) % m
				x.Vs[i] = x.Vs[j]
				name = "duplicated one commitment"
			case k == 6 && m > 1: // moves an amount between two
				i := vh.Pick(rt, m, "i")
				j := (i + 1 + vh.Pick(rt, m-1, "j")) % m
				d := g.Element().BaseScale(vh.I(int64(1 + vh.Pick(rt, 4, "amount"))))
				x.Vs[i] = g.Element().Add(x.Vs[i], d)
				x.Vs[j] = g.Element().Subtract(x.Vs[j], d)
				name = "amount moved between commitments"
			case k <= 8:
				i := vh.Pick(rt, m, "i")
				x.Vs[i], name = otherElem(rt, x.Vs[i], p, pool, "V")
				name = "V " + name
			case k == 9:
				x.A, name = otherElem(rt, x.A, p, pool, "A")
				name = "A " + name
			case k == 10:
				x.S, name = otherElem(rt, x.S, p, pool, "S")
				name = "S " + name
			case k == 11:
				x.T1, name = otherElem(rt, x.T1, p, pool, "T1")
				name = "T1 " + name
			case k == 12:
				x.T2, name = otherElem(rt, x.T2, p, pool, "T2")
				name = "T2 " + name
			case k == 13:
				x.Taux, name = otherScalar(rt, x.Taux, g.N(), scal, "Taux")
				name = "Taux " + name
			case k == 14:
				x.Mu, name = otherScalar(rt, x.Mu, g.N(), scal, "Mu")
				name = "Mu " + name
			case k == 15:
				x.Tprime, name = otherScalar(rt, x.Tprime, g.N(), scal, "Tprime")
				if rapid.Bool().Draw(rt, "both") {
					ip.Cc = x.Tprime
					name += " with Cc"
				}
				name = "Tprime " + name
			case k == 16:
				name = "inner product " + alterIP(rt, ip, p, pool, scal)
			case k == 17:
				other, _ := proveMulti(rt, vs, p, vh.NewTape(seed+1))
				if !acceptedMulti(other) {
					c.Vacuous("honest proof rejected")
					return
				}
				x.InnerProductProof = other.InnerProductProof
				name = "inner product argument of another proof"
			case k == 18:
				other, _ := proveMulti(rt, drawValues(rt, m, p.N/int64(m)), p, vh.NewTape(seed+1))
				x = other
				x.Vs = append([]group.Element{}, other.Vs...)
				i := vh.Pick(rt, m, "i")
				x.Vs[i] = pr.Vs[i]
				name = "one commitment of another proof"
			default:
				ip.Cc = add(ip.Cc, vh.I(1))
				name = "claimed inner product only"
			}
			if ok, _ := x.Verify(); ok {
				rt.Fatalf("%s, %d bits: an aggregated proof of %v is accepted after: %s", g.Name(), p.N, vs, name)
			}
			c.NonTrivial(g.Name(), p.N, vs, name)
			c.Label(name)
		})
}

// alterIP alters one part of an inner product argument.
func alterIP(rt *rapid.T, ip *bulletproofs.InnerProductProof, p setupParams, pool []group.Element, scal []*big.Int) string {
	n := p.GP.N()
	name := ""
	rounds := len(ip.L)
	switch k := vh.Pick(rt, 10, "part"); {
	case k == 0:
		ip.P, name = otherElem(rt, ip.P, p, pool, "P")
		return "P " + name
	case k == 1:
		ip.Cc, name = otherScalar(rt, ip.Cc, n, scal, "Cc")
		return "Cc " + name
	case k == 2:
		ip.A, name = otherScalar(rt, ip.A, n, scal, "a")
		return "a " + name
	case k == 3:
		ip.B, name = otherScalar(rt, ip.B, n, scal, "b")
		return "b " + name
	case k <= 5 && rounds > 0:
		i := vh.Pick(rt, rounds, "round")
		ip.L[i], name = otherElem(rt, ip.L[i], p, pool, "L")
		return "L " + name
	case k <= 7 && rounds > 0:
		i := vh.Pick(rt, rounds, "round")
		ip.R[i], name = otherElem(rt, ip.R[i], p, pool, "R")
		return "R " + name
	case k == 8 && rounds > 0:
		switch vh.Pick(rt, 6, "rounds") {
		case 0:
			ip.L, ip.R = ip.L[:rounds-1], ip.R[:rounds-1]
			return "last round dropped"
		case 1:
			ip.L, ip.R = ip.L[1:], ip.R[1:]
			return "first round dropped"
		case 2:
			ip.L = ip.L[:rounds-1]
			return "one L dropped"
		case 3:
			ip.R = ip.R[:rounds-1]
			return "one R dropped"
		case 4:
			ip.L, ip.R = ip.R, ip.L
			return "L and R exchanged"
		default:
			ip.L, ip.R = nil, nil
			return "all rounds dropped"
		}
	case k == 9:
		switch vh.Pick(rt, 4, "more") {
		case 0:
			ip.L, ip.R = append(ip.L, p.GP.Identity()), append(ip.R, p.GP.Identity())
			return "round of identities added"
		case 1:
			ip.L = append(ip.L, p.GP.Identity())
			return "one L added"
		case 2:
			ip.R = append(ip.R, p.GP.Generator())
			return "one R added"
		default:
			if ip.A.Cmp(ip.B) != 0 {
				ip.A, ip.B = ip.B, ip.A
				return "a and b exchanged"
			}
		}
	}
	ip.A = add(ip.A, vh.I(1))
	return "a +1"
}

// Proofs put together from trivial parts, without regard to challenges.
//vh:shards quick=2 thorough=8
func TestC10_TrivialParts(t *testing.T) {
	vh.Check(t, 12000, 300000, "a proof all of whose parts are identities, generators, commitments, zeros, ones or small multiples, for a list with a value outside its share: never accepted; non-trivial: distinct",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, []int64{1, 1, 2, 4, 8, 16})
			n := g.N()
			m := drawShare(rt, p.N)
			vs := drawValues(rt, m, p.N/int64(m))
			vs[vh.Pick(rt, m, "outside")], _ = drawOutside(rt, p.N/int64(m), n, "v")
			gamma := vh.OneOf(rt, "blinding", []*big.Int{vh.I(0), vh.I(1), vh.DetInt(3, "gamma", n)})
			var Vs []group.Element
			for _, v := range vs {
				Vs = append(Vs, g.Element().Add(g.Element().BaseScale(v), g.Element().Scale(p.H, gamma)))
			}
			x := vh.DetInt(vh.Seed64(rt, "seed"), "x", n)
			elems := []group.Element{g.Identity(), g.Identity(), g.Identity(), g.Generator(), p.H, p.Gg[0], p.Hh[0], g.Element().Negate(g.Generator()), g.Element().BaseScale(x)}
			for _, e := range Vs {
				elems = append(elems, e, g.Element().Negate(e))
			}
			nums := []*big.Int{vh.I(0), vh.I(0), vh.I(1), vh.I(-1), vh.I(2), x}
			for _, v := range vs {
				nums = append(nums, v)
			}
			plain := vh.Pick(rt, 3, "plain") == 0
			el := func(l string) group.Element {
				if plain && vh.Pick(rt, 4, l+"Plain") > 0 {
					return g.Identity()
				}
				return g.Element().Set(vh.OneOf(rt, l, elems))
			}
			num := func(l string) *big.Int {
				if plain && vh.Pick(rt, 4, l+"Plain") > 0 {
					return vh.I(0)
				}
				return mod(vh.OneOf(rt, l, nums), n)
			}
			pr := bulletproofs.MultiBulletProof{Vs: Vs, A: el("A"), S: el("S"), T1: el("T1"), T2: el("T2"), Taux: num("taux"), Mu: num("mu"), Tprime: num("t"), Params: p}
			ip := &pr.InnerProductProof
			ip.P, ip.Cc, ip.A, ip.B = el("P"), num("c"), num("a"), num("b")
			if vh.Pick(rt, 3, "consistent") > 0 {
				ip.Cc = pr.Tprime
			}
			for i := 0; i < log2(int(p.N)); i++ {
				ip.L, ip.R = append(ip.L, el("L")), append(ip.R, el("R"))
			}
			// The parameters of the inner argument are as in honest proofs,
			// where they do not depend on challenges.
			ip.Params = bulletproofs.InnerProductParams{Gg: p.Gg, Hh: p.Hh, Uu: g.Identity(), GP: g}
			if rapid.Bool().Draw(rt, "u") {
				ip.Params.Uu = p.Gg[0]
			}
			if ok, _ := pr.Verify(); ok {
				rt.Fatalf("%d bits: a proof of trivial parts is accepted for %v", p.N, vs)
			}
			c.NonTrivial(p.N, vs, pr.Taux, pr.Mu, pr.Tprime, ip.A, ip.B, vh.T(pr.A).String(), vh.T(ip.P).String())
			c.Label("%d bits", p.N)
		})
}

package vp

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// opened are the masks read off the first message.
type opened struct{ k, tp, tq1, tq2 *big.Int }

func (o opened) list() []*big.Int { return []*big.Int{o.k, o.tp, o.tq1, o.tq2} }

var maskNames = []string{"k", "tp", "tq1", "tq2"}

func open(rt *rapid.T, p params, pr voteproof.SigmaProof) opened {
	only := func(e group.Element, syms ...string) {
		for _, s := range vh.T(e).Symbols() {
			ok := false
			for _, x := range syms {
				ok = ok || x == s
			}
			if !ok {
				rt.Fatalf("%s: a commitment contains %s", desc(p), s)
			}
		}
	}
	only(pr.W, "G")
	only(pr.Kp, "G", "ff-H")
	only(pr.Kq1, "G", "ec-H")
	only(pr.Kq2, "G", "ec-H")
	o := opened{k: vh.T(pr.Kp).Coef("G"), tp: vh.T(pr.W).Coef("G"), tq1: vh.T(pr.Kq1).Coef("ec-H"), tq2: vh.T(pr.Kq2).Coef("ec-H")}
	if vh.T(pr.Kp).Coef("ff-H").Cmp(o.tp) != 0 {
		rt.Fatalf("%s: the two commitments in the ElGamal group have different masks", desc(p))
	}
	for _, e := range []group.Element{pr.Kq1, pr.Kq2} {
		if vh.T(e).Coef("G").Cmp(mod(o.k, p.GEC.N)) != 0 {
			rt.Fatalf("%s: the message mask differs between the groups", desc(p))
		}
	}
	return o
}

// drawRoomy draws parameters under which redrawing practically never happens.
func drawRoomy(rt *rapid.T) params {
	ff, ec := vh.NewT(vh.OneOf(rt, "field", []int{300, 384, 400, 521})), vh.NewT(vh.OneOf(rt, "curve", []int{300, 384, 521}))
	bg := min(ff.N().BitLen(), ec.N().BitLen())
	bx := 1 + vh.Pick(rt, 16, "bx")
	bc := 8 * vh.Pick(rt, 20, "bc8")
	return mustSetup(rt, bx, bc, bg, 1, 2, groupParams(ff, ff.Sym("ff-H")), groupParams(ec, ec.Sym("ec-H")))
}

// The first message opens to masks; responses are made of them and nothing
// else; the masks do not depend on the secret and are fresh.
//vh:shards quick=4 thorough=8
func TestC16_Masks(t *testing.T) {
	vh.Check(t, 40000, 250000, "three equality proofs: a secret, another one on the same randomness, the same one on other randomness; non-trivial: distinct (lengths, secrets)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawRoomy(rt)
			w := drawWitness(rt, p)
			w2 := w
			w2.m = drawSecret(rt, p, "m2")
			seed := vh.Seed64(rt, "tape")
			pr, pr2, pr3 := prove(w, p, vh.NewTape(seed)), prove(w2, p, vh.NewTape(seed)), prove(w, p, vh.NewTape(seed+1))
			o, o2, o3 := open(rt, p, pr), open(rt, p, pr2), open(rt, p, pr3)
			lo, hi := bounds(p)
			for _, x := range []struct {
				pr voteproof.SigmaProof
				o  opened
				m  *big.Int
			}{{pr, o, w.m}, {pr2, o2, w2.m}, {pr3, o3, w.m}} {
				if x.pr.Z.Cmp(lo) < 0 || x.pr.Z.Cmp(hi) >= 0 {
					rt.Fatalf("%s: the response is outside the safe interval", desc(p))
				}
				if x.pr.Z.Cmp(add(x.o.k, mul(x.pr.Challenge, x.m))) != 0 {
					rt.Fatalf("%s: the response is not the mask plus challenge times secret", desc(p))
				}
				if x.pr.Sp.Cmp(mod(add(x.o.tp, mul(x.pr.Challenge, w.rp)), p.GFF.N)) != 0 ||
					x.pr.Sq1.Cmp(mod(add(x.o.tq1, mul(x.pr.Challenge, w.rq1)), p.GEC.N)) != 0 ||
					x.pr.Sq2.Cmp(mod(add(x.o.tq2, mul(x.pr.Challenge, w.rq2)), p.GEC.N)) != 0 {
					rt.Fatalf("%s: a response for the randomness is not its reduced mask plus challenge times randomness", desc(p))
				}
			}
			a, b, d := o.list(), o2.list(), o3.list()
			for i := range a {
				if a[i].Sign() == 0 {
					rt.Fatalf("%s: mask %s is zero", desc(p), maskNames[i])
				}
				if a[i].Cmp(b[i]) != 0 {
					rt.Fatalf("%s: mask %s depends on the secret", desc(p), maskNames[i])
				}
				for j := range d {
					if a[i].Cmp(d[j]) == 0 {
						rt.Fatalf("%s: mask %s of one proof is %s of another", desc(p), maskNames[i], maskNames[j])
					}
					if i != j && a[i].Cmp(a[j]) == 0 {
						rt.Fatalf("%s: masks %s and %s are equal", desc(p), maskNames[i], maskNames[j])
					}
				}
			}
			c.NonTrivial(shape(p), w.m, w2.m, seed)
		})
}

// Each mask comes from its own draw.
//vh:shards quick=2 thorough=8
func TestC16_OneDrawEach(t *testing.T) {
	vh.Check(t, 6000, 40000, "the runs of the prover that differ from a first one in one bit of one read of randomness, for all its reads; non-trivial: distinct (lengths, secret)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawRoomy(rt)
			w := drawWitness(rt, p)
			seed := vh.Seed64(rt, "tape")
			t0 := vh.NewTape(seed)
			base := open(rt, p, prove(w, p, t0)).list()
			moved := make([]bool, 4)
			for _, at := range vh.Flips(t0.Lens) {
				r := open(rt, p, prove(w, p, vh.FlipTape(seed, at))).list()
				n := 0
				for x := range r {
					if r[x].Cmp(base[x]) != 0 {
						moved[x] = true
						n++
					}
				}
				if n > 1 {
					rt.Fatalf("%s: several masks come from the same randomness", desc(p))
				}
			}
			for x := range moved {
				if !moved[x] {
					rt.Fatalf("%s: mask %s does not depend on the randomness", desc(p), maskNames[x])
				}
			}
			c.NonTrivial(shape(p), w.m, seed)
		})
}

// Masks are of full size.
//vh:shards quick=4 thorough=8
func TestC16_FullSize(t *testing.T) {
	vh.Check(t, 160, 800, "400 proofs of one secret: every bit of every mask takes both values and the masks reach both ends of their ranges; non-trivial: each batch",
		func(rt *rapid.T, c *vh.Case) {
			p := drawRoomy(rt)
			w := drawWitness(rt, p)
			seed := vh.Seed64(rt, "tape")
			_, hi := bounds(p)
			ends := []*big.Int{hi, p.GFF.N, p.GEC.N, p.GEC.N}
			var ones, zeros, lows, highs [4]*big.Int
			for i := 0; i < 400; i++ {
				for x, v := range open(rt, p, prove(w, p, vh.NewTape(seed+uint64(i)))).list() {
					if ones[x] == nil {
						ones[x], zeros[x], lows[x], highs[x] = vh.I(0), vh.I(0), v, v
					}
					ones[x].Or(ones[x], v)
					zeros[x].Or(zeros[x], new(big.Int).AndNot(sub(pow2(ends[x].BitLen()), vh.I(1)), v))
					if v.Cmp(lows[x]) < 0 {
						lows[x] = v
					}
					if v.Cmp(highs[x]) > 0 {
						highs[x] = v
					}
				}
			}
			for x := range ones {
				for i := 0; i < ends[x].BitLen()-1; i++ {
					if ones[x].Bit(i) == 0 || zeros[x].Bit(i) == 0 {
						rt.Fatalf("%s: bit %d of mask %s never changes", desc(p), i, maskNames[x])
					}
				}
				eighth := new(big.Int).Rsh(ends[x], 3)
				if lows[x].Cmp(eighth) > 0 || highs[x].Cmp(sub(ends[x], eighth)) < 0 {
					rt.Fatalf("%s: mask %s stays between %v and %v, its range ends at %v", desc(p), maskNames[x], lows[x], highs[x], ends[x])
				}
			}
			c.NonTrivial(shape(p), w.m, seed)
		})
}

// A mask that leads outside the interval is not used.
//vh:shards quick=4 thorough=8
func TestC16_Redrawn(t *testing.T) {
	vh.Check(t, 48000, 300000, "a run of the prover whose first message masks are steered to lead outside the safe interval, or to just inside; non-trivial: the mask was redrawn or is at an end",
		func(rt *rapid.T, c *vh.Case) {
			_, _, p := drawT(rt, 253, 8*vh.Pick(rt, 20, "bc8"))
			w := drawWitness(rt, p)
			seed := vh.Seed64(rt, "tape")
			lo, hi := bounds(p)
			bad := 1 + vh.Pick(rt, 5, "bad")
			kind := vh.Pick(rt, 5, "kind")
			zeroSecret := rapid.Bool().Draw(rt, "zero")
			if zeroSecret {
				w.m = vh.I(0)
			}
			k := []*big.Int{vh.I(0), sub(lo, vh.I(1)), sub(hi, vh.I(1)), lo, new(big.Int).Rsh(lo, 1)}[kind]
			// Every read is steered: the other masks do not matter. A read
			// longer or shorter than the mask is left alone.
			bytes := (hi.BitLen() - 1 + 7) / 8
			tape := vh.NewTape(seed)
			steered := 0
			tape.Steer = func(i int, b []byte) {
				if len(b) == bytes && i < 4*bad {
					vh.SteerBig(b, k)
					steered++
				}
			}
			pr := prove(w, p, tape)
			if pr.Z.Cmp(lo) < 0 || pr.Z.Cmp(hi) >= 0 {
				rt.Fatalf("%s: the response %v to secret %v is outside [%v, %v)", desc(p), pr.Z, w.m, lo, hi)
			}
			o := open(rt, p, pr)
			if pr.Z.Cmp(add(o.k, mul(pr.Challenge, w.m))) != 0 {
				rt.Fatalf("%s: the response is not the mask plus challenge times secret", desc(p))
			}
			if !pr.Verify(w.comm(p)) {
				rt.Fatalf("%s: the proof is rejected", desc(p))
			}
			if steered > 0 {
				c.NonTrivial(shape(p), w.m, kind, bad)
			}
			c.Label("mask kind %d, reads %d", kind, (tape.Reads()+3)/4*4)
		})
}

// The response has the same distribution for every secret.
//vh:shards quick=4 thorough=8
func TestC16_Distribution(t *testing.T) {
	vh.Check(t, 64, 200, "8000 responses each for the smallest and the largest secret under parameters with little slack, in 16 classes of equal width of the safe interval; non-trivial: each batch",
		func(rt *rapid.T, c *vh.Case) {
			ff, ec := vh.NewT(256), vh.NewT(253)
			bx := 1 + vh.Pick(rt, 6, "bx")
			bc := 8 * (1 + vh.Pick(rt, 3, "bc8"))
			bb := 2 + vh.Pick(rt, 2, "bb")
			p := mustSetup(rt, bx, bc, bx+bc+bb+1, 1, 2, groupParams(ff, ff.Sym("ff-H")), groupParams(ec, ec.Sym("ec-H")))
			seed := vh.Seed64(rt, "tape")
			lo, hi := bounds(p)
			const runs, classes = 8000, 16
			var h [2][classes]int
			for s := 0; s < 2; s++ {
				w := witness{vh.I(0), vh.I(5), vh.I(6), vh.I(7)}
				if s == 1 {
					w.m = sub(pow2(bx), vh.I(1))
				}
				for i := 0; i < runs; i++ {
					pr := prove(w, p, vh.NewTape(seed+uint64(s*runs+i)))
					v := mul(sub(pr.Z, lo), vh.I(classes))
					v.Div(v, sub(hi, lo))
					if v.Sign() < 0 || v.Cmp(vh.I(classes)) >= 0 {
						rt.Fatalf("%s: response outside the safe interval", desc(p))
					}
					h[s][v.Int64()]++
				}
			}
			// Against each other and against uniform; 15 degrees of freedom.
			two, one := 0.0, [2]float64{}
			for i := 0; i < classes; i++ {
				a, b := float64(h[0][i]), float64(h[1][i])
				if a+b > 0 {
					two += (a - b) * (a - b) / (a + b)
				}
				e := float64(runs) / classes
				one[0] += (a - e) * (a - e) / e
				one[1] += (b - e) * (b - e) / e
			}
			if two > 110 || one[0] > 110 || one[1] > 110 {
				rt.Fatalf("%s: the response depends on the secret: %v for secret 0, %v for the largest", desc(p), h[0], h[1])
			}
			c.NonTrivial(shape(p), seed)
		})
}

package bp

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func proveHonest(rt *rapid.T, v *big.Int, p setupParams, tape *vh.Tape) (bulletproofs.BulletProof, *big.Int) {
	var pr bulletproofs.BulletProof
	var gamma *big.Int
	var err error
	vh.With(tape, func() { pr, gamma, err = bulletproofs.Prove(v, p) })
	if err != nil {
		rt.Fatalf("%s, 2^%d: proving %v fails: %v", p.GP.Name(), p.N, v, err)
	}
	return pr, gamma
}

func checkHonest(rt *rapid.T, p setupParams) (*big.Int, string) {
	v := drawValue(rt, p.N, "v")
	tape, kind := drawTape(rt, p.GP.N())
	want := new(big.Int).Set(v)
	pr, gamma := proveHonest(rt, v, p, tape)
	if gamma == nil || !opens(pr.V, want, gamma, p) {
		rt.Fatalf("%s, 2^%d: the commitment of the proof of %v does not open to it with the returned blinding factor %v", p.GP.Name(), p.N, v, gamma)
	}
	ok, err := pr.Verify()
	if !ok || err != nil {
		rt.Fatalf("%s, 2^%d: the proof of %v is not accepted: %v %v", p.GP.Name(), p.N, v, ok, err)
	}
	// The verifier only has what is published.
	again := pr
	again.Params = p
	if ok, err := again.Verify(); !ok || err != nil {
		rt.Fatalf("%s, 2^%d: the proof of %v is not accepted under the public parameters: %v %v", p.GP.Name(), p.N, v, ok, err)
	}
	return v, kind
}

// Honest range proofs in transparent groups.
//vh:shards quick=4 thorough=8
func TestC07_Transparent(t *testing.T) {
	vh.Check(t, 12000, 240000, "a range proof over an exponent-transparent group; non-trivial: distinct (size, order, value, tape kind)",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, exps)
			v, kind := checkHonest(rt, p)
			c.NonTrivial(g.N().BitLen(), p.N, v, kind)
			c.Label("2^%d", p.N)
		})
}

// Honest range proofs on the curves.
//vh:shards quick=8 thorough=8
func TestC07_Curves(t *testing.T) {
	vh.Check(t, 1600, 30000, "a range proof over a supported curve; non-trivial: distinct (curve, size, value, tape kind)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawReal(rt, []int64{1, 1, 2, 2, 4, 4, 4, 8, 8, 8, 16, 16, 32})
			v, kind := checkHonest(rt, p)
			c.NonTrivial(p.GP.Name(), p.N, v, kind)
			c.Label("%s 2^%d", p.GP.Name(), p.N)
		})
}

// Every value of the small ranges is provable.
//vh:shards quick=4 thorough=8
func TestC07_SmallRangesComplete(t *testing.T) {
	vh.Check(t, 24, 400, "all values of the ranges of 1 to 8 bits over a transparent group; non-trivial: each batch",
		func(rt *rapid.T, c *vh.Case) {
			n := vh.OneOf(rt, "bits", []int64{1, 2, 4, 8})
			g := vh.NewT(256)
			p := mustSetup(rt, n, g)
			seed := vh.Seed64(rt, "tape")
			for i := int64(0); i < 1<<n; i++ {
				pr, gamma := proveHonest(rt, vh.I(i), p, vh.NewTape(seed+uint64(i)))
				if !opens(pr.V, vh.I(i), gamma, p) || !verify(pr) {
					rt.Fatalf("2^%d: the proof of %d is not accepted or does not open", n, i)
				}
			}
			c.NonTrivial(n, seed)
			c.Label("2^%d", n)
		})
}

package bp

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// drawShare draws a number of values dividing the total size.
func drawShare(rt *rapid.T, N int64) int {
	var ms []int
	for m := 1; int64(m) <= N; m *= 2 {
		ms = append(ms, m)
	}
	return vh.OneOf(rt, "values", ms)
}

func drawValues(rt *rapid.T, m int, bits int64) []*big.Int {
	vs := make([]*big.Int, m)
	for i := range vs {
		if i > 0 && vh.Pick(rt, 5, "again") == 0 {
			vs[i] = vs[i-1-vh.Pick(rt, min(i, 2), "which")] // the same number, and the same object
			continue
		}
		vs[i] = drawValue(rt, bits, fmt.Sprintf("v%d-", i))
	}
	return vs
}

func proveMulti(rt *rapid.T, vs []*big.Int, p setupParams, tape *vh.Tape) (bulletproofs.MultiBulletProof, []*big.Int) {
	var pr bulletproofs.MultiBulletProof
	var gammas []*big.Int
	var err error
	vh.With(tape, func() { pr, gammas, err = bulletproofs.MultiProve(vs, p) })
	if err != nil {
		rt.Fatalf("%s, %d bits: proving %v fails: %v", p.GP.Name(), p.N, vs, err)
	}
	return pr, gammas
}

func checkMulti(rt *rapid.T, p setupParams) ([]*big.Int, string) {
	m := drawShare(rt, p.N)
	vs := drawValues(rt, m, p.N/int64(m))
	tape, kind := drawTape(rt, p.GP.N())
	pr, gammas := proveMulti(rt, vs, p, tape)
	if len(pr.Vs) != m || len(gammas) != m {
		rt.Fatalf("%s, %d bits: %d commitments and %d blinding factors for %d values", p.GP.Name(), p.N, len(pr.Vs), len(gammas), m)
	}
	for i := range vs {
		if gammas[i] == nil || !opens(pr.Vs[i], vs[i], gammas[i], p) {
			rt.Fatalf("%s, %d bits: commitment %d of %v does not open to its value", p.GP.Name(), p.N, i, vs)
		}
	}
	if ok, err := pr.Verify(); !ok || err != nil {
		rt.Fatalf("%s, %d bits: the aggregated proof of %v is not accepted: %v %v", p.GP.Name(), p.N, vs, ok, err)
	}
	return vs, kind
}

// Honest aggregated proofs in transparent groups.
//vh:shards quick=6 thorough=8
func TestC09_Transparent(t *testing.T) {
	vh.Check(t, 9000, 200000, "an aggregated range proof over an exponent-transparent group; non-trivial: more than one value, distinct (size, values, tape kind)",
		func(rt *rapid.T, c *vh.Case) {
			_, p := drawT(rt, exps)
			vs, kind := checkMulti(rt, p)
			c.Label("%d values in %d bits", len(vs), p.N)
			if len(vs) > 1 {
				c.NonTrivial(p.N, vs, kind)
			}
		})
}

// Honest aggregated proofs on the curves.
//vh:shards quick=6 thorough=8
func TestC09_Curves(t *testing.T) {
	vh.Check(t, 900, 16000, "an aggregated range proof over a curve; non-trivial: more than one value, distinct (curve, size, values, tape kind)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawReal(rt, []int64{1, 2, 2, 4, 4, 4, 8, 8, 8, 16, 16, 32})
			vs, kind := checkMulti(rt, p)
			c.Label("%s", p.GP.Name())
			c.Label("%d values in %d bits", len(vs), p.N)
			if len(vs) > 1 {
				c.NonTrivial(p.GP.Name(), p.N, vs, kind)
			}
		})
}

// Unsupported numbers of values are refused with an error, when proving and
// when verifying.
//vh:shards quick=2 thorough=4
func TestC09_Unsupported(t *testing.T) {
	vh.Check(t, 1500, 30000, "a number of values that does not divide the number of bits (none included), for proving and for verifying; non-trivial: all",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, exps)
			m := vh.Pick(rt, 3*int(p.N)+3, "values")
			for m > 0 && int(p.N)%m == 0 {
				m++
			}
			vs := make([]*big.Int, m)
			for i := range vs {
				vs[i] = vh.I(int64(vh.Pick(rt, 2, "v")))
			}
			tape := vh.NewTape(vh.Seed64(rt, "tape"))
			var pr bulletproofs.MultiBulletProof
			var err error
			vh.With(tape, func() { pr, _, err = bulletproofs.MultiProve(vs, p) })
			if err == nil {
				rt.Fatalf("%d bits: proving %d values is not refused", p.N, m)
			}
			// A proof with that number of commitments.
			good, _ := proveMulti(rt, []*big.Int{vh.I(0)}, p, tape)
			pr = good
			pr.Vs = nil
			for i := 0; i < m; i++ {
				pr.Vs = append(pr.Vs, group.Element(g.Element().Set(good.Vs[0])))
			}
			if ok, _ := pr.Verify(); ok {
				rt.Fatalf("%d bits: a proof with %d commitments is accepted", p.N, m)
			}
			c.NonTrivial(p.N, m)
		})
}

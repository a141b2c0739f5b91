package bp

import (
	"encoding/json"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// encode30 proves and encodes.
func encode30(rt *rapid.T, p setupParams, agg bool, vs []*big.Int, tape *vh.Tape) ([]byte, []*big.Int) {
	var v any
	var gs []*big.Int
	if agg {
		v, gs = proveMulti(rt, vs, p, tape)
	} else {
		pr, g := proveHonest(rt, vs[0], p, tape)
		v, gs = pr, []*big.Int{g}
	}
	b, err := json.Marshal(v)
	if err != nil {
		rt.Fatalf("encoding as JSON fails: %v", err)
	}
	return b, gs
}

// What does not change with the randomness does not change with the value.
//vh:shards quick=4 thorough=8
func TestC30_RangeProofsTellNothing(t *testing.T) {
	vh.Check(t, 800, 20000, "three encoded range proofs, single or aggregated, on a curve: two of one list of values, one of another: every place that is the same in the first two is the same in the third; non-trivial: distinct (curve, size, values), the lists differ",
		func(rt *rapid.T, c *vh.Case) {
			p := drawReal(rt, []int64{1, 2, 2, 4, 4, 8, 16, 32})
			agg, vs := drawList(rt, p)
			ws := drawValues(rt, len(vs), p.N/int64(len(vs)))
			seed := vh.Seed64(rt, "tape")
			x, _ := encode30(rt, p, agg, vs, vh.NewTape(seed))
			y, _ := encode30(rt, p, agg, vs, vh.NewTape(seed+1))
			z, _ := encode30(rt, p, agg, ws, vh.NewTape(seed+2))
			bad, err := vh.Tells(x, y, z)
			if err != nil {
				rt.Fatalf("%s: an encoded range proof is not JSON: %v", p.GP.Name(), err)
			}
			if bad != "" {
				rt.Fatalf("%s, %d bits: encoded range proofs tell %v and %v apart: %s", p.GP.Name(), p.N, vs, ws, bad)
			}
			if fmtInts(vs) == fmtInts(ws) {
				c.Vacuous("the values are equal")
				return
			}
			c.NonTrivial(p.GP.Name(), p.N, agg, vs, ws, seed)
			c.Label("%s, aggregated %v", p.GP.Name(), agg)
		})
}

// No blinding factor stands in a range proof.
//vh:shards quick=4 thorough=8
func TestC30_RangeProofsHoldNoSecret(t *testing.T) {
	vh.Check(t, 600, 15000, "an encoded range proof, single or aggregated, on a curve, and all the randomness it was made with: no blinding factor, nor its opposite, stands in it in decimal, hexadecimal, base64 or as bytes; non-trivial: distinct (curve, size, values, seed)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawReal(rt, []int64{1, 2, 2, 4, 4, 8, 16, 32})
			agg, vs := drawList(rt, p)
			seed := vh.Seed64(rt, "tape")
			tape := vh.NewTape(seed)
			var rec vh.TapeLog
			tape.Record(&rec)
			b, gs := encode30(rt, p, agg, vs, tape)
			text := vh.NewText(b)
			sum := vh.I(0)
			for _, g := range gs {
				sum.Add(sum, g)
			}
			secrets := append(rec.Candidates(), mod(sum, p.GP.N()))
			for _, s := range append(secrets, gs...) {
				for _, x := range []*big.Int{s, mod(new(big.Int).Neg(s), p.GP.N())} {
					if how := text.Contains(x); how != "" {
						rt.Fatalf("%s, %d bits, aggregated %v: an encoded range proof of %v contains a secret %s: %v", p.GP.Name(), p.N, agg, vs, how, s)
					}
				}
			}
			c.NonTrivial(p.GP.Name(), p.N, agg, vs, seed)
			c.Label("%s, aggregated %v", p.GP.Name(), agg)
		})
}

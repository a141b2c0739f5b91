package vp

import (
	"encoding/json"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func draw30(rt *rapid.T) (params, witness) {
	p := drawReal(rt)
	if p.Bc < 96 {
		// Short challenges repeat, and may be zero.
		p = mustSetup(rt, 16, 128, int(p.Bg), p.RangeLo, p.RangeHi, p.GFF, p.GEC)
	}
	seed := vh.Seed64(rt, "randomness")
	w := witness{m: drawSecret(rt, p, "m")}
	w.rp = add(vh.I(1), vh.DetInt(seed, "rp", sub(p.GFF.N, vh.I(1))))
	w.rq1 = add(vh.I(1), vh.DetInt(seed, "rq1", sub(p.GEC.N, vh.I(1))))
	w.rq2 = add(vh.I(1), vh.DetInt(seed, "rq2", sub(p.GEC.N, vh.I(1))))
	return p, w
}

// What does not change with the randomness does not change with the secret.
//vh:shards quick=4 thorough=8
func TestC30_EqualityProofsTellNothing(t *testing.T) {
	vh.Check(t, 1200, 30000, "three encoded equality proofs: two of one secret, one of another with other randomness: every place that is the same in the first two is the same in the third; non-trivial: distinct (curve, lengths, secrets), the secrets differ",
		func(rt *rapid.T, c *vh.Case) {
			p, w := draw30(rt)
			w2 := w
			w2.m = drawSecret(rt, p, "m2")
			w2.rp, w2.rq1, w2.rq2 = sub(p.GFF.N, w.rp), sub(p.GEC.N, w.rq1), sub(p.GEC.N, w.rq2)
			seed := vh.Seed64(rt, "tape")
			var enc [3][]byte
			for i, x := range []witness{w, w, w2} {
				b, err := json.Marshal(prove(x, p, vh.NewTape(seed+uint64(i))))
				if err != nil {
					rt.Fatalf("encoding as JSON fails: %v", err)
				}
				enc[i] = b
			}
			bad, err := vh.Tells(enc[0], enc[1], enc[2])
			if err != nil {
				rt.Fatalf("%s: an encoded equality proof is not JSON: %v", desc(p), err)
			}
			if bad != "" {
				rt.Fatalf("%s: encoded equality proofs tell %v and %v apart: %s", desc(p), w, w2, bad)
			}
			if w.m.Cmp(w2.m) == 0 {
				c.Label("equal secrets, other randomness")
			}
			c.NonTrivial(p.GEC.I.Name(), shape(p), w.m, w2.m, seed)
		})
}

// No secret and no mask stands in an equality proof.
//vh:shards quick=4 thorough=8
func TestC30_EqualityProofsHoldNoSecret(t *testing.T) {
	vh.Check(t, 1200, 30000, "an encoded equality proof of a secret other than 0, its witness and all the randomness it was made with: none of these numbers stands in it in decimal, hexadecimal, base64 or as bytes; non-trivial: distinct (curve, lengths, secret, seed)",
		func(rt *rapid.T, c *vh.Case) {
			p, w := draw30(rt)
			if w.m.Sign() == 0 {
				// The response to the secret 0 is the mask itself.
				w.m = vh.I(1)
			}
			if p.Bx == 0 {
				c.Vacuous("only the secret 0 is allowed")
				return
			}
			seed := vh.Seed64(rt, "tape")
			tape := vh.NewTape(seed)
			var rec vh.TapeLog
			tape.Record(&rec)
			b, err := json.Marshal(prove(w, p, tape))
			if err != nil {
				rt.Fatalf("encoding as JSON fails: %v", err)
			}
			text := vh.NewText(b)
			secrets := rec.Candidates()
			if top := pow2(w.m.BitLen()); sub(top, w.m).BitLen() > 32 && mod(w.m, pow2(32)).Sign() != 0 {
				secrets = append(secrets, w.m) // no run of equal digits
			}
			for _, n := range []*big.Int{p.GFF.N, p.GEC.N} {
				for _, x := range []*big.Int{w.rp, w.rq1, w.rq2} {
					secrets = append(secrets, x, mod(x, n), mod(new(big.Int).Neg(x), n))
				}
			}
			for _, s := range secrets {
				if how := text.Contains(s); how != "" {
					rt.Fatalf("%s: an encoded equality proof contains a secret %s: %v", desc(p), how, s)
				}
			}
			c.NonTrivial(p.GEC.I.Name(), shape(p), w.m, seed)
			c.Label("%s", p.GEC.I.Name())
		})
}

package vp

import (
	"encoding/json"
	"testing"

	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// Equality proofs on failing randomness.
//vh:shards quick=4 thorough=8
func TestC27_EqualityProofs(t *testing.T) {
	vh.Check(t, 4000, 100000, "an equality proof on a source of randomness that delivers its bytes in pieces, and on one that fails for good after any number of bytes; non-trivial: distinct (parameters, seed, point of failure)",
		func(rt *rapid.T, c *vh.Case) {
			var p params
			if vh.Pick(rt, 8, "real") == 0 {
				p = drawReal(rt)
			} else {
				_, _, p = drawT(rt, 0, -1)
			}
			w := drawWitness(rt, p)
			vh.Faults(rt, c, "proving equality, "+desc(p)+",", func() vh.Output {
				pr := voteproof.Prove(w.m, w.rp, w.rq1, w.rq2, p)
				if pr.W == nil || pr.Z == nil {
					return vh.Output{}
				}
				b, err := json.Marshal(pr)
				return vh.Output{Value: string(b), OK: err == nil}
			})
		})
}

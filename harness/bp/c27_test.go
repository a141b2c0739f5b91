package bp

import (
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// Range proofs on failing randomness.
//vh:shards quick=4 thorough=8
func TestC27_RangeProofs(t *testing.T) {
	vh.Check(t, 4000, 100000, "a single or aggregated range proof on a source of randomness that delivers its bytes in pieces, and on one that fails for good after any number of bytes; non-trivial: distinct (statement, seed, point of failure)",
		func(rt *rapid.T, c *vh.Case) {
			var p setupParams
			if vh.Pick(rt, 10, "real") == 0 {
				p = drawReal(rt, []int64{1, 2, 4})
			} else {
				_, p = drawT(rt, []int64{1, 2, 4, 8, 16})
			}
			agg, vs := drawList(rt, p)
			what := fmt.Sprintf("proving %v, %s, %d bits,", vs, p.GP.Name(), p.N)
			vh.Faults(rt, c, what, func() vh.Output {
				if agg {
					list := make([]*big.Int, len(vs))
					for i := range vs {
						list[i] = new(big.Int).Set(vs[i])
					}
					pr, gs, err := bulletproofs.MultiProve(list, p)
					if err != nil {
						return vh.Output{}
					}
					b, err := json.Marshal(pr)
					return vh.Output{Value: fmt.Sprint(gs, string(b)), OK: err == nil}
				}
				pr, g, err := bulletproofs.Prove(new(big.Int).Set(vs[0]), p)
				if err != nil {
					return vh.Output{}
				}
				b, err := json.Marshal(pr)
				return vh.Output{Value: fmt.Sprint(g, string(b)), OK: err == nil}
			})
		})
}

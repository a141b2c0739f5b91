package grp

import (
	"testing"

	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// Random elements on failing randomness.
func TestC27_RandomElements(t *testing.T) {
	vh.Check(t, 2000, 60000, "a random element on a source of randomness that delivers its bytes in pieces, and on one that fails for good after any number of bytes; non-trivial: distinct (group, seed, point of failure)",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			vh.Faults(rt, c, "drawing an element of "+r.Name(), func() vh.Output {
				e := r.G().Random()
				b, err := e.MarshalBinary()
				return vh.Output{Value: string(b), OK: err == nil}
			})
		})
}

package bp

import (
	"math"
	"math/bits"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func drawEnd(rt *rapid.T) int64 {
	switch vh.Pick(rt, 7, "kind") {
	case 0:
		return int64(1) << vh.Pick(rt, 63, "power")
	case 1:
		return int64(1)<<vh.Pick(rt, 63, "power") + int64(vh.Pick(rt, 5, "off")-2)
	case 2:
		return -(int64(1) << vh.Pick(rt, 63, "power"))
	case 3:
		return []int64{0, math.MinInt64, math.MaxInt64, -1, 1, math.MinInt64 + 1}[vh.Pick(rt, 6, "edge")]
	case 4:
		return int64(1)<<vh.Pick(rt, 63, "power") | int64(1)<<vh.Pick(rt, 63, "power2")
	case 5:
		return []int64{2, 4, 16, 256, 65536, 1 << 32}[vh.Pick(rt, 6, "supported")]
	default:
		return rapid.Int64().Draw(rt, "end")
	}
}

// Setup succeeds exactly for the supported range ends.
//vh:shards quick=4 thorough=8
func TestC22_RangeEnds(t *testing.T) {
	vh.Check(t, 120000, 600000, "setup for a range end; non-trivial: distinct ends that are a power of two or next to one",
		func(rt *rapid.T, c *vh.Case) {
			b := drawEnd(rt)
			g := vh.NewT(256)
			want := int64(0)
			for _, n := range exps {
				if b == int64(1)<<n {
					want = n
				}
			}
			p, err := bulletproofs.Setup(b, g)
			if (err == nil) != (want != 0) {
				rt.Fatalf("setup for range end %d: error %v", b, err)
			}
			if err == nil {
				if p.N != want || int64(len(p.Gg)) != want || int64(len(p.Hh)) != want || p.GP.Name() != g.Name() || p.G == nil || p.H == nil {
					rt.Fatalf("setup for range end %d gives N=%d with %d and %d generators", b, p.N, len(p.Gg), len(p.Hh))
				}
				if !p.G.IsEqual(g.Generator()) {
					rt.Fatalf("setup for range end %d: G is not the base point", b)
				}
			}
			if bulletproofs.IsPowerOfTwo(b) != (b > 0 && bits.OnesCount64(uint64(b)) == 1) {
				rt.Fatalf("IsPowerOfTwo(%d) = %v", b, bulletproofs.IsPowerOfTwo(b))
			}
			if b > 0 && bits.OnesCount64(uint64(b)) <= 2 {
				c.NonTrivial(b)
			}
			c.Label("accepted %v", err == nil)
		})
}

// The same on the curves, for the ends around the supported ones.
//vh:shards quick=2 thorough=8
func TestC22_RangeEndsCurves(t *testing.T) {
	vh.Check(t, 240, 1000, "setup on a curve for a range end; non-trivial: distinct (curve, end)",
		func(rt *rapid.T, c *vh.Case) {
			g := curves[vh.Pick(rt, len(curves), "curve")]
			b := drawEnd(rt)
			want := int64(0)
			for _, n := range exps {
				if b == int64(1)<<n {
					want = n
				}
			}
			p, err := bulletproofs.Setup(b, g)
			if (err == nil) != (want != 0) || err == nil && (p.N != want || int64(len(p.Gg)) != want || int64(len(p.Hh)) != want) {
				rt.Fatalf("%s: setup for range end %d: error %v, N=%d", g.Name(), b, err, p.N)
			}
			c.NonTrivial(g.Name(), b)
			c.Label("accepted %v", err == nil)
		})
}

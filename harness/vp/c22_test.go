package vp

import (
	"testing"

	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// Setup accepts exactly the consistent lengths.
//vh:shards quick=4 thorough=8
func TestC22_EqualityProofSetup(t *testing.T) {
	vh.Check(t, 240000, 1500000, "lengths of secret, challenge and order, and bounds, over their whole types with weight on the limit; non-trivial: distinct (lengths)",
		func(rt *rapid.T, c *vh.Case) {
			bx := rapid.Uint8().Draw(rt, "bx")
			var bc, bg uint16
			switch vh.Pick(rt, 5, "kind") {
			case 0:
				bc, bg = rapid.Uint16().Draw(rt, "bc"), rapid.Uint16().Draw(rt, "bg")
			case 1:
				bc = uint16(250 + vh.Pick(rt, 12, "bc"))
				bg = bc + uint16(bx) + uint16(vh.Pick(rt, 6, "slack"))
			case 2:
				bc = uint16(65535 - vh.Pick(rt, 300, "bc"))
				bg = uint16(vh.Pick(rt, 600, "bg"))
			default:
				bc = uint16(vh.Pick(rt, 257, "bc"))
				bg = bc + uint16(bx) + uint16(vh.Pick(rt, 6, "slack"))
			}
			lo, hi := rapid.Uint16().Draw(rt, "lo"), rapid.Uint16().Draw(rt, "hi")
			ff, ec := vh.NewT(256), vh.NewT(384)
			ap := voteproof.AlgebraicParameters{GFF: groupParams(ff, ff.Sym("ff-H")), GEC: groupParams(ec, ec.Sym("ec-H"))}
			p, err := voteproof.Setup(bx, bc, bg, lo, hi, ap)
			bb := int(bg) - 1 - int(bx) - int(bc)
			want := bb >= 1 && bc <= 256
			if (err == nil) != want {
				rt.Fatalf("setup for secrets of %d, challenges of %d and orders of %d bits: error %v", bx, bc, bg, err)
			}
			if want {
				if p.Bx != bx || p.Bc != bc || p.Bg != bg || p.Bb != bb || p.RangeLo != lo || p.RangeHi != hi {
					rt.Fatalf("setup(%d, %d, %d, %d, %d) reports %d, %d, %d, %d, slack %d", bx, bc, bg, lo, hi, p.Bx, p.Bc, p.Bg, p.RangeLo, p.RangeHi, p.Bb)
				}
				same := func(a, b voteproof.GroupParameters) bool {
					return a.G.IsEqual(b.G) && a.H.IsEqual(b.H) && a.N.Cmp(b.N) == 0 && a.F.Cmp(b.F) == 0 && a.I.Name() == b.I.Name()
				}
				if !same(p.GFF, ap.GFF) || !same(p.GEC, ap.GEC) {
					rt.Fatalf("setup reports other groups than configured")
				}
			}
			c.NonTrivial(bx, bc, bg)
			c.Label("accepted %v", want)
		})
}

package main

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// zzChecked remembers descriptions already checked: the large group is slow.
var zzChecked = map[string]bool{}

// zzGroupOK fails unless gp describes the group g.
func zzGroupOK(rt *rapid.T, what string, gp voteproof.GroupParameters, g group.Group) {
	if gp.I == nil || gp.I.Name() != g.Name() {
		rt.Fatalf("%s: not the group %s", what, g.Name())
	}
	if gp.N == nil || gp.N.Cmp(g.N()) != 0 || gp.F == nil || gp.F.Cmp(g.P()) != 0 {
		rt.Fatalf("%s: group size %v and field size %v, but those of %s are %v and %v", what, gp.N, gp.F, g.Name(), g.N(), g.P())
	}
	key := fmt.Sprintf("%s %v %x %x", gp.I.Name(), gp.N, zzBin(gp.G), zzBin(gp.H))
	zzMu.Lock()
	known := zzChecked[key]
	zzMu.Unlock()
	if known {
		return
	}
	if !gp.N.ProbablyPrime(20) {
		rt.Fatalf("%s: the group order is not prime", what)
	}
	if !gp.G.IsEqual(gp.I.Generator()) || !gp.G.IsEqual(gp.I.Element().BaseScale(vh.I(1))) {
		rt.Fatalf("%s: G is not the base of the group's operations", what)
	}
	for _, x := range []struct {
		n string
		e group.Element
	}{{"G", gp.G}, {"H", gp.H}} {
		if x.e == nil || x.e.IsIdentity() || !gp.I.Element().Scale(x.e, gp.N).IsIdentity() {
			rt.Fatalf("%s: %s has not the group's order", what, x.n)
		}
	}
	if gp.H.IsEqual(gp.G) || gp.H.IsEqual(gp.I.Element().Negate(gp.G)) {
		rt.Fatalf("%s: H is the generator or its inverse", what)
	}
	zzMu.Lock()
	zzChecked[key] = true
	zzMu.Unlock()
}

// zzConsistent checks what the parts of a configuration owe to each other.
func zzConsistent(rt *rapid.T, what string, pp PublicParameters, curve group.Group) {
	rp := pp.RPParams
	zzGroupOK(rt, what+", ElGamal group", pp.FFGroupParams, pp.FFGroupParams.I)
	zzGroupOK(rt, what+", ElGamal group of the equality proof", rp.GFF, pp.FFGroupParams.I)
	zzGroupOK(rt, what+", curve", pp.ECGroupParams, curve)
	zzGroupOK(rt, what+", curve of the equality proof", rp.GEC, curve)
	if pp.EGPK == nil || !pp.EGPK.IsEqual(pp.FFGroupParams.H) || !pp.EGPK.IsEqual(rp.GFF.H) {
		rt.Fatalf("%s: the election key is not the one the equality proof speaks about", what)
	}
	bp := pp.BPParams
	if bp.GP == nil || bp.GP.Name() != curve.Name() {
		rt.Fatalf("%s: range proofs are made in another group", what)
	}
	if !bp.H.IsEqual(pp.ECGroupParams.H) || !bp.H.IsEqual(rp.GEC.H) || !bp.G.IsEqual(pp.ECGroupParams.G) || !bp.G.IsEqual(rp.GEC.G) {
		rt.Fatalf("%s: range and equality proofs use different commitment bases", what)
	}
	if int64(len(bp.Gg)) != bp.N || int64(len(bp.Hh)) != bp.N {
		rt.Fatalf("%s: %d and %d generators for %d bits", what, len(bp.Gg), len(bp.Hh), bp.N)
	}
	seen := map[string]string{}
	put := func(n string, e group.Element) {
		if e == nil || e.IsIdentity() {
			rt.Fatalf("%s: generator %s is missing or the identity", what, n)
		}
		if o, dup := seen[zzBin(e)]; dup {
			rt.Fatalf("%s: generators %s and %s are equal", what, o, n)
		}
		seen[zzBin(e)] = n
	}
	put("G", bp.G)
	put("H", bp.H)
	for i := range bp.Gg {
		put(fmt.Sprint("g", i), bp.Gg[i])
		put(fmt.Sprint("h", i), bp.Hh[i])
	}
	if pp.candidateMin > pp.candidateMax || rp.RangeLo != pp.candidateMin || rp.RangeHi != pp.candidateMax {
		rt.Fatalf("%s: candidates %d to %d, but the equality proof shifts by %d and %d", what, pp.candidateMin, pp.candidateMax, rp.RangeLo, rp.RangeHi)
	}
	if width := int64(pp.candidateMax) - int64(pp.candidateMin); bp.N < 1 || bp.N > 32 || width >= int64(1)<<uint(bp.N) {
		rt.Fatalf("%s: range proofs of %d bits cannot span the candidates %d to %d", what, bp.N, pp.candidateMin, pp.candidateMax)
	}
	if new(big.Int).SetUint64(uint64(pp.candidateMax)).BitLen() > int(rp.Bx) {
		rt.Fatalf("%s: candidate %d does not fit the secret of %d bits", what, pp.candidateMax, rp.Bx)
	}
	// Committed values, those the range proofs allow included, stay far from
	// the order: no wrapping around.
	if rp.Bb < 1 || rp.Bc < 128 || rp.Bc > 256 {
		rt.Fatalf("%s: challenges of %d bits with %d bits of slack", what, rp.Bc, rp.Bb)
	}
	top := new(big.Int).Lsh(vh.I(1), uint(int(rp.Bx)+int(rp.Bc)+rp.Bb))
	for _, g := range []group.Group{pp.FFGroupParams.I, curve} {
		if top.Cmp(g.N()) > 0 {
			rt.Fatalf("%s: responses of up to %d bits wrap around the order of %s (%d bits)", what, top.BitLen()-1, g.Name(), g.N().BitLen())
		}
	}
}

// zzPrint describes public parameters completely.
func zzPrint(pp PublicParameters) string {
	gp := func(g voteproof.GroupParameters) string {
		return fmt.Sprintf("%s %v %v %x %x|", g.I.Name(), g.N, g.F, zzBin(g.G), zzBin(g.H))
	}
	rp := pp.RPParams
	s := gp(pp.FFGroupParams) + gp(pp.ECGroupParams) + gp(rp.GFF) + gp(rp.GEC) +
		fmt.Sprintf("%x|%d %d|%d %d %d %d %d %d|", zzBin(pp.EGPK), pp.candidateMin, pp.candidateMax, rp.Bx, rp.Bc, rp.Bg, rp.Bb, rp.RangeLo, rp.RangeHi)
	b := pp.BPParams
	s += fmt.Sprintf("%d %x %x", b.N, zzBin(b.G), zzBin(b.H))
	for i := range b.Gg {
		s += fmt.Sprintf(" %x %x", zzBin(b.Gg[i]), zzBin(b.Hh[i]))
	}
	return s
}

// zzPrime makes a prime of the given length.
func zzPrime(seed uint64, bits int) *big.Int {
	top := new(big.Int).Lsh(vh.I(1), uint(bits-1))
	v := zzAdd(top, vh.DetInt(seed, "prime", top))
	v.SetBit(v, 0, 1)
	for !v.ProbablyPrime(10) || v.BitLen() != bits {
		v.Add(v, vh.I(2))
		if v.BitLen() != bits {
			v.Add(top, vh.I(1))
		}
	}
	return v
}

// Setups over groups of any order.
//vh:shards quick=4 thorough=8
func TestC26_AnyOrder(t *testing.T) {
	vh.Check(t, 400, 8000, "the system's own setup over a transparent group of generated prime order (3 to 620 bits): consistent, or refused when secret, challenge and slack do not fit; non-trivial: distinct orders",
		func(rt *rapid.T, c *vh.Case) {
			bits := 3 + vh.Pick(rt, 618, "bits")
			if vh.Pick(rt, 3, "near") == 0 {
				bits = 232 + vh.Pick(rt, 32, "bits")
			}
			n := zzPrime(vh.Seed64(rt, "order"), bits)
			g := vh.NewTGroup(n)
			what := fmt.Sprintf("setup over a group of order %v (%d bits)", n, bits)
			pp, err := setup(g)
			if err != nil {
				if bits >= 253 {
					rt.Fatalf("%s fails: %v", what, err)
				}
				c.Label("refused")
				c.NonTrivial(n)
				return
			}
			zzConsistent(rt, what, pp, g)
			c.Label("accepted")
			c.NonTrivial(n)
		})
}

// Setups over the curves, in any order.
//vh:shards quick=4 thorough=8
func TestC26_Curves(t *testing.T) {
	vh.Check(t, 24, 600, "the system's own setup over the curves in any order, repeated ones included: consistent and the same each time, also after votes; a vote for an end of the range or anywhere in it, cast under it, is accepted, and none is accepted when the range is moved or narrowed past it; non-trivial: distinct (curves, votes)",
		func(rt *rapid.T, c *vh.Case) {
			first := map[string]string{}
			key := ""
			for i := 0; i < 3; i++ {
				k := vh.Pick(rt, 4, "curve")
				g := []func() group.Group{group.P256, group.P384, group.SecP256k1, group.Ristretto255}[k]()
				pp, err := setup(g)
				if err != nil {
					rt.Fatalf("the setup for %s fails: %v", g.Name(), err)
				}
				zzConsistent(rt, "setup for "+g.Name(), pp, g)
				if pp.FFGroupParams.F.Cmp(zzField(0).P()) != 0 {
					c.Label("another field")
				} else if p, q := pp.FFGroupParams.F, pp.FFGroupParams.N; p.Cmp(zzAdd(zzAdd(q, q), vh.I(1))) != 0 {
					rt.Fatalf("the ElGamal group is not the group of squares")
				}
				c.Digest("setup "+g.Name(), zzPrint(pp))
				if p, ok := first[g.Name()]; ok && p != zzPrint(pp) {
					rt.Fatalf("two setups for %s differ:\n%s\n%s", g.Name(), p, zzPrint(pp))
				}
				first[g.Name()] = zzPrint(pp)
				w := int64(pp.candidateMax) - int64(pp.candidateMin)
				pick := []int64{0, w, int64(vh.Pick(rt, int(w)+1, "pick"))}[vh.Pick(rt, 3, "vote")]
				tape, _ := zzTape(rt, pick, pp.ECGroupParams.N)
				bd := zzCast(pp, tape)
				if ok, _ := verifyVote(bd, pp.RPParams); !ok {
					rt.Fatalf("setup for %s: an honest vote for offset %d is rejected", g.Name(), pick)
				}
				// Collectors of another range.
				other := pp.RPParams
				d := uint16(1 + vh.Pick(rt, 50, "d"))
				switch vh.Pick(rt, 3, "moved") {
				case 0:
					other.RangeLo, other.RangeHi = other.RangeLo+d, other.RangeHi+d
				case 1:
					other.RangeLo += d
				case 2:
					other.RangeHi -= d
				}
				if ok, _ := verifyVote(bd, other); ok {
					rt.Fatalf("setup for %s: a vote cast for the candidates %d to %d is accepted for %d to %d", g.Name(), pp.candidateMin, pp.candidateMax, other.RangeLo, other.RangeHi)
				}
				if p := zzPrint(pp); p != first[g.Name()] {
					rt.Fatalf("setup for %s: voting changed the parameters", g.Name())
				}
				key += fmt.Sprint(g.Name(), pick, " ")
			}
			c.NonTrivial(key)
		})
}

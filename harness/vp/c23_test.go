package vp

import (
	"encoding/json"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func parts(p voteproof.SigmaProof) (el map[string]group.Element, sc map[string]*big.Int) {
	el = map[string]group.Element{"W": p.W, "Kp": p.Kp, "Kq1": p.Kq1, "Kq2": p.Kq2,
		"GFF.G": p.Params.GFF.G, "GFF.H": p.Params.GFF.H, "GEC.G": p.Params.GEC.G, "GEC.H": p.Params.GEC.H}
	sc = map[string]*big.Int{"challenge": p.Challenge, "Z": p.Z, "Sp": p.Sp, "Sq1": p.Sq1, "Sq2": p.Sq2,
		"GFF.N": p.Params.GFF.N, "GFF.F": p.Params.GFF.F, "GEC.N": p.Params.GEC.N, "GEC.F": p.Params.GEC.F,
		"Bx": vh.I(int64(p.Params.Bx)), "Bc": vh.I(int64(p.Params.Bc)), "Bg": vh.I(int64(p.Params.Bg)), "Bb": vh.I(int64(p.Params.Bb)),
		"RangeLo": vh.I(int64(p.Params.RangeLo)), "RangeHi": vh.I(int64(p.Params.RangeHi))}
	return
}

// Equality proofs survive JSON.
//vh:shards quick=6 thorough=8
func TestC23_EqualityProofs(t *testing.T) {
	vh.Check(t, 1500, 30000, "an equality proof over a curve and a mod-p group, as proved or with components replaced (identities, zero, negative and oversized scalars), encoded and decoded; non-trivial: distinct (curve, alteration, secret)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawReal(rt)
			p.RangeLo, p.RangeHi = rapid.Uint16().Draw(rt, "lo"), rapid.Uint16().Draw(rt, "hi")
			w := drawWitness(rt, p)
			tape, _ := drawTape(rt)
			pr := prove(w, p, tape)
			cm := w.comm(p)
			what := "unaltered"
			if vh.Pick(rt, 4, "params") == 0 {
				// Numbers that do not fit the groups or each other.
				what = "parameters"
				q := &pr.Params
				x := vh.DetInt(vh.Seed64(rt, "number"), "x", pow2(8+vh.Pick(rt, 600, "size")))
				switch vh.Pick(rt, 6, "which") {
				case 0:
					q.Bb += vh.Pick(rt, 9, "by") - 4
				case 1:
					q.Bg += uint16(vh.Pick(rt, 9, "by"))
				case 2:
					q.GFF.F = x
				case 3:
					q.GEC.F = x
				case 4:
					q.GFF.N = add(x, vh.I(1))
				case 5:
					q.GEC.N = add(x, vh.I(1))
				}
			}
			for n := vh.Pick(rt, 3, "alterations"); n > 0; n-- {
				if rapid.Bool().Draw(rt, "scalar") {
					sc := []**big.Int{&pr.Challenge, &pr.Z, &pr.Sp, &pr.Sq1, &pr.Sq2}
					i := vh.Pick(rt, len(sc), "which")
					v := *sc[i]
					*sc[i] = []*big.Int{vh.I(0), new(big.Int).Neg(v), add(v, p.GFF.N), pow2(vh.Pick(rt, 4000, "bits")), add(v, vh.I(1)), new(big.Int).Rsh(v, 100)}[vh.Pick(rt, 6, "shape")]
					what = "scalar"
				} else {
					keep := cm
					what = alter13(rt, p, &pr, &keep)
				}
			}
			b, err := json.Marshal(pr)
			if err != nil {
				rt.Fatalf("encoding fails: %v", err)
			}
			d, err := voteproof.ProofUnmarshalJSON(b, p.GFF.I, p.GEC.I)
			if err != nil {
				rt.Fatalf("%s: decoding an encoded proof fails (%s): %v", p.GEC.I.Name(), what, err)
			}
			e1, s1 := parts(pr)
			e2, s2 := parts(d)
			for k := range e1 {
				if !e1[k].IsEqual(e2[k]) || e1[k].String() != e2[k].String() {
					rt.Fatalf("%s: %s changes in transport (%s)", p.GEC.I.Name(), k, what)
				}
			}
			for k := range s1 {
				if s2[k] == nil || s1[k].Cmp(s2[k]) != 0 {
					rt.Fatalf("%s: %s changes in transport from %v to %v (%s)", p.GEC.I.Name(), k, s1[k], s2[k], what)
				}
			}
			if d.Params.GFF.I.Name() != p.GFF.I.Name() || d.Params.GEC.I.Name() != p.GEC.I.Name() {
				rt.Fatalf("the groups change in transport")
			}
			b2, err := json.Marshal(d)
			if err != nil || string(b2) != string(b) {
				rt.Fatalf("%s: encoding a decoded proof again gives other bytes (%s): %v", p.GEC.I.Name(), what, err)
			}
			v1, v2 := pr.Verify(cm), d.Verify(cm)
			if v1 != v2 {
				rt.Fatalf("%s: the verdict is %v before and %v after transport (%s)", p.GEC.I.Name(), v1, v2, what)
			}
			c.NonTrivial(p.GEC.I.Name(), shape(p), what, w.m)
			c.Label("%s", p.GEC.I.Name())
			c.Label("accepted %v", v1)
		})
}

package vp

import (
	"testing"

	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func check12(rt *rapid.T, p params) (witness, string) {
	w := drawWitness(rt, p)
	tape, kind := drawTape(rt)
	pr := prove(w, p, tape)
	lo, hi := bounds(p)
	if pr.Z == nil || pr.Z.Cmp(lo) < 0 || pr.Z.Cmp(hi) >= 0 {
		rt.Fatalf("%s: the response %v to secret %v is outside [%v, %v)", desc(p), pr.Z, w.m, lo, hi)
	}
	if !pr.Verify(w.comm(p)) {
		rt.Fatalf("%s: the proof of secret %v is rejected", desc(p), w.m)
	}
	pr.Params = p
	if !pr.Verify(w.comm(p)) {
		rt.Fatalf("%s: the proof of secret %v is rejected under the public parameters", desc(p), w.m)
	}
	if tape.Reads() > 4 {
		kind += ", redrawn"
	}
	return w, kind
}

// Honest proofs in transparent groups.
//vh:shards quick=4 thorough=8
func TestC12_Transparent(t *testing.T) {
	vh.Check(t, 180000, 1500000, "an equality proof over transparent groups of various orders, for lengths up to the last one setup accepts; non-trivial: distinct (lengths, secret, tape kind)",
		func(rt *rapid.T, c *vh.Case) {
			_, _, p := drawT(rt, 16, -1)
			w, kind := check12(rt, p)
			c.NonTrivial(shape(p), w.m, kind)
			c.Label(kind)
		})
}

// Honest proofs on curves and mod-p groups.
//vh:shards quick=6 thorough=8
func TestC12_Curves(t *testing.T) {
	vh.Check(t, 4500, 30000, "an equality proof over a curve and a mod-p group; non-trivial: distinct (curve, lengths, secret, tape kind)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawReal(rt)
			w, kind := check12(rt, p)
			c.NonTrivial(p.GEC.I.Name(), shape(p), w.m, kind)
			c.Label("%s", p.GEC.I.Name())
			c.Label("%s", p.GFF.I.Name())
			c.Label(kind)
		})
}

// All secrets of the small lengths.
//vh:shards quick=2 thorough=4
func TestC12_SmallSecretsComplete(t *testing.T) {
	vh.Check(t, 180, 1500, "all secrets of up to 8 bits; non-trivial: each batch",
		func(rt *rapid.T, c *vh.Case) {
			ff, ec := vh.NewT(vh.OneOf(rt, "field", tBits)), vh.NewT(vh.OneOf(rt, "curve", tBits))
			bg := min(ff.N().BitLen(), ec.N().BitLen())
			bx := vh.Pick(rt, 9, "bx")
			bc := vh.Pick(rt, min(bg-2-bx, 256)+1, "bc")
			p := mustSetup(rt, bx, bc, bg, 1, 2, groupParams(ff, ff.Sym("ff-H")), groupParams(ec, ec.Sym("ec-H")))
			seed := vh.Seed64(rt, "tape")
			lo, hi := bounds(p)
			for m := int64(0); m < 1<<bx; m++ {
				w := witness{vh.I(m), vh.DetInt(seed, "rp", ff.N()), vh.DetInt(seed, "rq1", ec.N()), vh.DetInt(seed, "rq2", ec.N())}
				pr := prove(w, p, vh.NewTape(seed+uint64(m)))
				if !pr.Verify(w.comm(p)) || pr.Z.Cmp(lo) < 0 || pr.Z.Cmp(hi) >= 0 {
					rt.Fatalf("%s: the proof of secret %d is rejected", desc(p), m)
				}
			}
			c.NonTrivial(shape(p), seed)
		})
}

// Safe intervals so small that every response, both ends included, occurs.
//vh:shards quick=4 thorough=8
func TestC12_TinyIntervals(t *testing.T) {
	vh.Check(t, 180000, 1500000, "an equality proof with secrets and challenges of a few bits, so that responses and masks at the ends of the interval occur; non-trivial: the response is at an end",
		func(rt *rapid.T, c *vh.Case) {
			ff, ec := vh.NewT(vh.OneOf(rt, "field", []int{40, 130, 256})), vh.NewT(vh.OneOf(rt, "curve", []int{40, 130, 256}))
			bx := vh.OneOf(rt, "bx", []int{0, 1, 1, 2})
			bc := vh.OneOf(rt, "bc", []int{8, 8, 9, 0, 15})
			bg := bx + bc + 2 + vh.Pick(rt, 2, "slack")
			p := mustSetup(rt, bx, bc, bg, 1, 2, groupParams(ff, ff.Sym("ff-H")), groupParams(ec, ec.Sym("ec-H")))
			w := witness{drawSecret(rt, p, "m"), vh.I(5), vh.I(6), vh.I(7)}
			if rapid.Bool().Draw(rt, "top") {
				w.m = sub(pow2(bx), vh.I(1))
			}
			pr := prove(w, p, vh.NewTape(vh.Seed64(rt, "tape")))
			lo, hi := bounds(p)
			if pr.Z == nil || pr.Z.Cmp(lo) < 0 || pr.Z.Cmp(hi) >= 0 {
				rt.Fatalf("%s: the response %v to secret %v is outside [%v, %v)", desc(p), pr.Z, w.m, lo, hi)
			}
			if !pr.Verify(w.comm(p)) {
				rt.Fatalf("%s: the proof of secret %v with response %v is rejected", desc(p), w.m, pr.Z)
			}
			if pr.Z.Cmp(lo) == 0 || pr.Z.Cmp(sub(hi, vh.I(1))) == 0 {
				c.NonTrivial(shape(p), w.m, pr.Z)
				c.Label("at an end")
			}
		})
}

package main

import (
	"encoding/json"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func zzSameElem(rt *rapid.T, cf *zzConf, what string, a, b group.Element) {
	if b == nil || !a.IsEqual(b) || !b.IsEqual(a) || a.String() != b.String() || zzBin(a) != zzBin(b) {
		rt.Fatalf("%v: %s changes in transport from %v to %v", cf, what, a, b)
	}
}

// zzShape draws scalars of all shapes a JSON number can have.
func zzShape(rt *rapid.T, s, n *big.Int) (*big.Int, string) {
	kind := vh.OneOf(rt, "shape", []string{"zero", "negative", "plus order", "power", "order minus one", "short", "beyond 64 bits", "huge"})
	switch kind {
	case "zero":
		return vh.I(0), kind
	case "negative":
		return new(big.Int).Neg(s), kind
	case "plus order":
		return zzAdd(s, n), kind
	case "power":
		return new(big.Int).Lsh(vh.I(1), uint(vh.Pick(rt, 1200, "bits"))), kind
	case "order minus one":
		return zzSub(n, vh.I(1)), kind
	case "short":
		return new(big.Int).Rsh(s, uint(vh.Pick(rt, 250, "shift"))), kind
	case "beyond 64 bits":
		return zzAdd(new(big.Int).Lsh(vh.I(1), 64), vh.I(int64(vh.Pick(rt, 3, "d")-1))), kind
	default:
		return new(big.Int).Lsh(s, uint(vh.Pick(rt, 4000, "shift"))), kind
	}
}

// Ballots survive JSON.
//vh:shards quick=8 thorough=8
func TestC23_Ballots(t *testing.T) {
	vh.Check(t, 600, 16000, "a ballot on a curve, as cast or with components replaced (other elements, identities, zero, negative and oversized scalars), encoded and decoded by the collector; non-trivial: distinct (configuration, vote, alteration)",
		func(rt *rapid.T, c *vh.Case) {
			cf := zzDrawReal(rt, []int{400, 400, 400, 400, 520, 0}, []int64{1, 2, 2, 4, 4, 8, 16})
			m := cf.candidate(rt, "vote")
			tape, _ := zzTape(rt, -1, cf.ec.N())
			orig, _ := cf.castFor(rt, m, tape)
			bd := zzCopy(orig)
			what := ""
			for n := vh.Pick(rt, 3, "alterations"); n > 0; n-- {
				fs := cf.fields(bd)
				f := vh.OneOf(rt, "field", fs)
				how := ""
				if f.num != nil && rapid.Bool().Draw(rt, "shaped") {
					*f.num, how = zzShape(rt, *f.num, f.g.N())
				} else {
					how = zzAlter(rt, cf, f, fs)
				}
				what += f.name + " " + how + "; "
			}
			b := zzJSON(rt, *bd)
			d, err := BallotDataUnmarshalJSON(b, cf.pp)
			if err != nil {
				rt.Fatalf("%v: decoding an encoded ballot fails (%s): %v", cf, what, err)
			}
			fa, fb := cf.fields(bd), cf.fields(&d)
			if len(fa) != len(fb) {
				rt.Fatalf("%v: a ballot has %d parts before and %d after transport (%s)", cf, len(fa), len(fb), what)
			}
			for i := range fa {
				if fa[i].elem != nil {
					zzSameElem(rt, cf, fa[i].name, *fa[i].elem, *fb[i].elem)
				} else if *fb[i].num == nil || (*fa[i].num).Cmp(*fb[i].num) != 0 {
					rt.Fatalf("%v: %s changes in transport from %v to %v", cf, fa[i].name, *fa[i].num, *fb[i].num)
				}
			}
			b2 := zzJSON(rt, d)
			if vh.Lists(string(b)) != vh.Lists(string(b2)) {
				rt.Fatalf("%v: encoding a decoded ballot again gives other bytes (%s)", cf, what)
			}
			// Through a generic JSON processor, with spaces and reordered keys.
			var any any
			dec := json.NewDecoder(zzReader(b))
			dec.UseNumber()
			if err := dec.Decode(&any); err != nil {
				rt.Fatalf("%v: the encoding of a ballot is not JSON: %v", cf, err)
			}
			b3, _ := json.MarshalIndent(any, " ", "\t")
			d3, err := BallotDataUnmarshalJSON(b3, cf.pp)
			if err != nil {
				rt.Fatalf("%v: decoding an equivalent encoding of a ballot fails (%s): %v", cf, what, err)
			}
			v1, v2, v3 := cf.accepts(*bd), cf.accepts(d), cf.accepts(d3)
			if v1 != v2 || v1 != v3 {
				rt.Fatalf("%v: the verdict is %v before transport, %v after it and %v after reformatting (%s)", cf, v1, v2, v3, what)
			}
			if what == "" && !v1 {
				rt.Fatalf("%v: an honest ballot for %d is rejected", cf, m)
			}
			c.NonTrivial(cf.String(), m, what)
			c.Label("%s", cf.ec.Name())
			c.Label("accepted %v", v1)
		})
}

// Ciphertexts alone.
func TestC23_Ciphertexts(t *testing.T) {
	vh.Check(t, 4000, 100000, "a ciphertext in a mod-p group, encoded and decoded; non-trivial: distinct ciphertexts",
		func(rt *rapid.T, c *vh.Case) {
			ff := zzField(vh.OneOf(rt, "field", []int{5, 12, 32, 64, 128, 272, 400, 520, 0}))
			e := func(l string) group.Element {
				switch vh.Pick(rt, 6, l) {
				case 0:
					return ff.Identity()
				case 1:
					return ff.Generator()
				default:
					return ff.Element().BaseScale(vh.DetInt(vh.Seed64(rt, l+"x"), "x", ff.N()))
				}
			}
			ct := ElGamalCiphertext{U: e("u"), V: e("v")}
			b := zzJSON(rt, ct)
			d, err := BallotUnmarshalJSON(b, ff)
			if err != nil {
				rt.Fatalf("%s: decoding the encoding %s of a ciphertext fails: %v", ff.Name(), b, err)
			}
			if d.U == nil || d.V == nil || !d.U.IsEqual(ct.U) || !d.V.IsEqual(ct.V) || d.U.String() != ct.U.String() || d.V.String() != ct.V.String() {
				rt.Fatalf("%s: the ciphertext (%v, %v) becomes (%v, %v)", ff.Name(), ct.U, ct.V, d.U, d.V)
			}
			if b2 := zzJSON(rt, d); vh.Lists(string(b)) != vh.Lists(string(b2)) {
				rt.Fatalf("%s: %s becomes %s", ff.Name(), b, b2)
			}
			c.NonTrivial(ff.Name(), string(b))
		})
}

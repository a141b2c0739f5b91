package bp

import (
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// parts lists all components of a range proof.
func parts(p *bulletproofs.BulletProof) (el map[string]group.Element, sc map[string]*big.Int, lens string) {
	ip := p.InnerProductProof
	el = map[string]group.Element{"V": p.V, "A": p.A, "S": p.S, "T1": p.T1, "T2": p.T2, "P": ip.P, "Uu": ip.Params.Uu}
	for i, e := range ip.L {
		el[fmt.Sprintf("L[%d]", i)] = e
	}
	for i, e := range ip.R {
		el[fmt.Sprintf("R[%d]", i)] = e
	}
	for i, e := range ip.Params.Gg {
		el[fmt.Sprintf("ip.Gg[%d]", i)] = e
	}
	for i, e := range ip.Params.Hh {
		el[fmt.Sprintf("ip.Hh[%d]", i)] = e
	}
	el["G"], el["H"] = p.Params.G, p.Params.H
	for i, e := range p.Params.Gg {
		el[fmt.Sprintf("Gg[%d]", i)] = e
	}
	for i, e := range p.Params.Hh {
		el[fmt.Sprintf("Hh[%d]", i)] = e
	}
	sc = map[string]*big.Int{"Taux": p.Taux, "Mu": p.Mu, "Tprime": p.Tprime, "Cc": ip.Cc, "a": ip.A, "b": ip.B}
	lens = fmt.Sprint(len(ip.L), len(ip.R), len(ip.Params.Gg), len(ip.Params.Hh), p.Params.N, len(p.Params.Gg), len(p.Params.Hh))
	return
}

func compareParts(rt *rapid.T, what string, a, b *bulletproofs.BulletProof) {
	ea, sa, la := parts(a)
	eb, sb, lb := parts(b)
	if la != lb {
		rt.Fatalf("%s: sizes differ: %s and %s", what, la, lb)
	}
	for k := range ea {
		if !ea[k].IsEqual(eb[k]) || ea[k].String() != eb[k].String() {
			rt.Fatalf("%s: %s differs: %s and %s", what, k, ea[k], eb[k])
		}
	}
	for k := range sa {
		if sa[k].Cmp(sb[k]) != 0 {
			rt.Fatalf("%s: %s differs: %v and %v", what, k, sa[k], sb[k])
		}
	}
}

// drawScalarShape draws scalars of all shapes a JSON number can have.
func drawScalarShape(rt *rapid.T, s, n *big.Int, label string) *big.Int {
	switch vh.Pick(rt, 7, label) {
	case 0:
		return vh.I(0)
	case 1:
		return new(big.Int).Neg(s)
	case 2:
		return add(s, n)
	case 3:
		return new(big.Int).Lsh(vh.I(1), uint(vh.Pick(rt, 1200, label+"Bits")))
	case 4:
		return sub(n, vh.I(1))
	case 5:
		return new(big.Int).Rsh(s, uint(vh.Pick(rt, 250, label+"Shift")))
	default:
		return add(s, vh.I(1))
	}
}

// Range proofs survive JSON.
//vh:shards quick=8 thorough=8
func TestC23_RangeProofs(t *testing.T) {
	vh.Check(t, 1500, 40000, "a range proof on a curve, as proved or with components replaced (identity, zero, negative and oversized scalars, other numbers of rounds), encoded and decoded; non-trivial: distinct (curve, size, alteration)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawReal(rt, []int64{1, 1, 2, 2, 4, 4, 8, 16, 32})
			g := p.GP
			v := drawValue(rt, p.N, "v")
			tape, _ := drawTape(rt, g.N())
			pr, _ := proveHonest(rt, v, p, tape)
			ip := &pr.InnerProductProof
			ip.L, ip.R = append([]group.Element{}, ip.L...), append([]group.Element{}, ip.R...)
			pool := append(append([]group.Element{pr.V, pr.A, pr.S, g.Generator()}, ip.L...), ip.R...)
			scal := []*big.Int{pr.Taux, pr.Mu, pr.Tprime, ip.A}
			what := "unaltered"
			for n := vh.Pick(rt, 3, "alterations"); n > 0; n-- {
				el := []*group.Element{&pr.V, &pr.A, &pr.S, &pr.T1, &pr.T2, &ip.P, &ip.Params.Uu}
				sc := []**big.Int{&pr.Taux, &pr.Mu, &pr.Tprime, &ip.Cc, &ip.A, &ip.B}
				switch vh.Pick(rt, 4, "what") {
				case 0:
					i := vh.Pick(rt, len(el), "element")
					*el[i], what = otherElem(rt, *el[i], p, pool, "e")
				case 1, 2:
					i := vh.Pick(rt, len(sc), "scalar")
					*sc[i] = drawScalarShape(rt, *sc[i], g.N(), "shape")
					what = fmt.Sprint("scalar ", i)
				default:
					what = alterIP(rt, ip, p, pool, scal)
				}
			}
			b, err := json.Marshal(pr)
			if err != nil {
				rt.Fatalf("%s: encoding fails: %v", g.Name(), err)
			}
			d, err := bulletproofs.BulletProofUnmarshalJSON(b, p)
			if err != nil {
				rt.Fatalf("%s, 2^%d: decoding an encoded proof fails (%s): %v", g.Name(), p.N, what, err)
			}
			compareParts(rt, g.Name()+" "+what, &pr, &d)
			b2, err := json.Marshal(d)
			if err != nil || vh.Lists(string(b2)) != vh.Lists(string(b)) {
				rt.Fatalf("%s, 2^%d: encoding a decoded proof again gives other bytes (%s): %v", g.Name(), p.N, what, err)
			}
			ok1, ok2 := accepted(pr), accepted(d)
			if ok1 != ok2 {
				rt.Fatalf("%s, 2^%d: the verdict is %v before and %v after transport (%s)", g.Name(), p.N, ok1, ok2, what)
			}
			c.NonTrivial(g.Name(), p.N, what, v)
			c.Label("%s", g.Name())
			c.Label("accepted %v", ok1)
		})
}

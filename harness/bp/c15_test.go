package bp

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// run15 is one run of a prover and the blinding factors read off what it
// published.
type run15 struct {
	blind   map[string]*big.Int
	elems   map[string]group.Element
	scalars map[string]*big.Int
	reads   int
}

func (r run15) names() []string {
	var out []string
	for k := range r.blind {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// prove15 runs the single or the aggregated prover.
func prove15(rt *rapid.T, p setupParams, agg bool, vs []*big.Int, tape *vh.Tape) run15 {
	r := run15{blind: map[string]*big.Int{}, elems: map[string]group.Element{}, scalars: map[string]*big.Int{}}
	var A, S, T1, T2 group.Element
	var Vs []group.Element
	var gammas []*big.Int
	var ip bulletproofs.InnerProductProof
	if agg {
		pr, gs := proveMulti(rt, vs, p, tape)
		A, S, T1, T2, Vs, gammas, ip = pr.A, pr.S, pr.T1, pr.T2, pr.Vs, gs, pr.InnerProductProof
		r.scalars["Taux"], r.scalars["Mu"], r.scalars["Tprime"] = pr.Taux, pr.Mu, pr.Tprime
	} else {
		pr, g := proveHonest(rt, vs[0], p, tape)
		A, S, T1, T2, Vs, gammas, ip = pr.A, pr.S, pr.T1, pr.T2, []group.Element{pr.V}, []*big.Int{g}, pr.InnerProductProof
		r.scalars["Taux"], r.scalars["Mu"], r.scalars["Tprime"] = pr.Taux, pr.Mu, pr.Tprime
	}
	r.reads = tape.Reads()
	r.scalars["Cc"], r.scalars["a"], r.scalars["b"] = ip.Cc, ip.A, ip.B
	r.elems["A"], r.elems["S"], r.elems["T1"], r.elems["T2"] = A, S, T1, T2
	for j := range Vs {
		r.elems[fmt.Sprintf("V%d", j)] = Vs[j]
	}
	if _, ok := p.GP.(*vh.TGroup); !ok {
		for j := range gammas {
			r.blind[fmt.Sprintf("gamma%d", j)] = gammas[j]
		}
		return r
	}
	h := symbolOf(p.H)
	for j := range Vs {
		r.blind[fmt.Sprintf("gamma%d", j)] = vh.T(Vs[j]).Coef(h)
	}
	r.blind["alpha"], r.blind["rho"] = vh.T(A).Coef(h), vh.T(S).Coef(h)
	r.blind["tau1"], r.blind["tau2"] = vh.T(T1).Coef(h), vh.T(T2).Coef(h)
	for i := range p.Gg {
		r.blind[fmt.Sprintf("sL%d", i)] = vh.T(S).Coef(symbolOf(p.Gg[i]))
		r.blind[fmt.Sprintf("sR%d", i)] = vh.T(S).Coef(symbolOf(p.Hh[i]))
	}
	return r
}

func drawList(rt *rapid.T, p setupParams) (bool, []*big.Int) {
	agg := rapid.Bool().Draw(rt, "aggregated")
	m := 1
	if agg {
		m = drawShare(rt, p.N)
	}
	return agg, drawValues(rt, m, p.N/int64(m))
}

// Blinding factors are non-zero, distinct, fresh and independent of the value.
//vh:shards quick=4 thorough=8
func TestC15_FreshAndIndependentOfValue(t *testing.T) {
	vh.Check(t, 8000, 100000, "three runs of a prover: a value, another value on the same randomness, the same value on other randomness; non-trivial: distinct (size, values, seed)",
		func(rt *rapid.T, c *vh.Case) {
			_, p := drawT(rt, []int64{1, 2, 4, 8, 16, 32})
			agg, vs := drawList(rt, p)
			ws := drawValues(rt, len(vs), p.N/int64(len(vs)))
			seed := vh.Seed64(rt, "tape")
			a := prove15(rt, p, agg, vs, vh.NewTape(seed))
			b := prove15(rt, p, agg, ws, vh.NewTape(seed))
			d := prove15(rt, p, agg, vs, vh.NewTape(seed+1))
			seen := map[string]string{}
			for _, k := range a.names() {
				v := a.blind[k]
				if v.Sign() == 0 {
					rt.Fatalf("%d bits: blinding factor %s of the proof of %v is zero", p.N, k, vs)
				}
				if o, dup := seen[v.Text(62)]; dup {
					rt.Fatalf("%d bits: blinding factors %s and %s are equal", p.N, o, k)
				}
				seen[v.Text(62)] = k
				neg := sub(p.GP.N(), v)
				if o, dup := seen[neg.Text(62)]; dup {
					rt.Fatalf("%d bits: blinding factors %s and %s are opposite", p.N, o, k)
				}
				if b.blind[k].Cmp(v) != 0 {
					rt.Fatalf("%d bits: blinding factor %s depends on the value (%v, %v)", p.N, k, vs, ws)
				}
			}
			for _, k := range d.names() {
				if o, dup := seen[d.blind[k].Text(62)]; dup {
					rt.Fatalf("%d bits: blinding factor %s of one proof is %s of another", p.N, o, k)
				}
			}
			for k, e := range a.elems {
				for k2, e2 := range d.elems {
					if e.IsEqual(e2) {
						rt.Fatalf("%d bits: two proofs of the same value share commitment %s=%s", p.N, k, k2)
					}
				}
			}
			for k, s := range a.scalars {
				if s.Sign() < 0 || s.Cmp(p.GP.N()) >= 0 {
					rt.Fatalf("%d bits: the published scalar %s is not reduced and reveals more than its residue", p.N, k)
				}
				if s.Cmp(d.scalars[k]) == 0 {
					rt.Fatalf("%d bits: two proofs of the same value publish the same %s", p.N, k)
				}
			}
			c.NonTrivial(p.N, agg, vs, ws, seed)
			c.Label("%d bits, %d values", p.N, len(vs))
		})
}

// Each blinding factor comes from its own draw.
//vh:shards quick=4 thorough=8
func TestC15_OneDrawEach(t *testing.T) {
	vh.Check(t, 480, 6000, "the runs of a prover that differ from a first one in one bit of one read of randomness, for all its reads or thirty of them; non-trivial: distinct (size, values, seed)",
		func(rt *rapid.T, c *vh.Case) {
			_, p := drawT(rt, []int64{1, 2, 2, 4, 4, 8, 16, 32})
			agg, vs := drawList(rt, p)
			seed := vh.Seed64(rt, "tape")
			t0 := vh.NewTape(seed)
			base := prove15(rt, p, agg, vs, t0)
			moved := map[string]int{}
			flips := vh.Flips(t0.Lens)
			whole := len(flips) <= 50
			for !whole && len(flips) > 30 {
				i := vh.Pick(rt, len(flips), "leave")
				flips = append(flips[:i:i], flips[i+1:]...)
			}
			for _, at := range flips {
				r := prove15(rt, p, agg, vs, vh.FlipTape(seed, at))
				var ch []string
				for _, k := range base.names() {
					if r.blind[k].Cmp(base.blind[k]) != 0 {
						ch = append(ch, k)
						moved[k]++
					}
				}
				if len(ch) > 1 {
					rt.Fatalf("%d bits: blinding factors %v come from the same randomness", p.N, ch)
				}
			}
			for _, k := range base.names() {
				if whole && moved[k] == 0 {
					rt.Fatalf("%d bits: blinding factor %s does not depend on the randomness", p.N, k)
				}
			}
			c.NonTrivial(p.N, agg, vs, seed)
			c.Label("%d draws", base.reads)
		})
}

// Each blinding factor spans the whole scalar range.
//vh:shards quick=4 thorough=8
func TestC15_WholeRange(t *testing.T) {
	vh.Check(t, 48, 400, "400 runs of a prover on one value: every bit of every blinding factor takes both values, and the factors reach both ends of the scalar range; non-trivial: each batch",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, []int64{1, 2, 4})
			agg, vs := drawList(rt, p)
			seed := vh.Seed64(rt, "tape")
			n := g.N()
			bits := n.BitLen()
			ones, zeros := map[string]*big.Int{}, map[string]*big.Int{}
			min, max := map[string]*big.Int{}, map[string]*big.Int{}
			full := sub(new(big.Int).Lsh(vh.I(1), uint(bits)), vh.I(1))
			var names []string
			for i := 0; i < 400; i++ {
				r := prove15(rt, p, agg, vs, vh.NewTape(seed+uint64(i)))
				names = r.names()
				for k, v := range r.blind {
					if ones[k] == nil {
						ones[k], zeros[k], min[k], max[k] = vh.I(0), vh.I(0), v, v
					}
					ones[k].Or(ones[k], v)
					zeros[k].Or(zeros[k], new(big.Int).AndNot(full, v))
					if v.Cmp(min[k]) < 0 {
						min[k] = v
					}
					if v.Cmp(max[k]) > 0 {
						max[k] = v
					}
				}
			}
			eighth := new(big.Int).Rsh(n, 3)
			for _, k := range names {
				for i := 0; i < bits-1; i++ {
					if ones[k].Bit(i) == 0 || zeros[k].Bit(i) == 0 {
						rt.Fatalf("%d bits: bit %d of blinding factor %s never changes", p.N, i, k)
					}
				}
				if min[k].Cmp(eighth) > 0 || max[k].Cmp(sub(n, eighth)) < 0 {
					rt.Fatalf("%d bits: blinding factor %s stays between %v and %v, the order is %v", p.N, k, min[k], max[k], n)
				}
			}
			c.NonTrivial(p.N, agg, vs, seed)
		})
}

// Two proofs on a curve share nothing.
//vh:shards quick=4 thorough=8
func TestC15_Curves(t *testing.T) {
	vh.Check(t, 600, 6000, "two proofs of the same value on a curve; non-trivial: distinct (curve, size, values, seed)",
		func(rt *rapid.T, c *vh.Case) {
			p := drawReal(rt, []int64{1, 2, 4, 8})
			agg, vs := drawList(rt, p)
			seed := vh.Seed64(rt, "tape")
			a := prove15(rt, p, agg, vs, vh.NewTape(seed))
			b := prove15(rt, p, agg, vs, vh.NewTape(seed+1))
			for k, e := range a.elems {
				for k2, e2 := range b.elems {
					if e.IsEqual(e2) {
						rt.Fatalf("%s: two proofs of %v share %s=%s", p.GP.Name(), vs, k, k2)
					}
				}
			}
			for k, v := range a.blind {
				if v.Sign() <= 0 || v.Cmp(p.GP.N()) >= 0 || v.Cmp(b.blind[k]) == 0 {
					rt.Fatalf("%s: bad or repeated blinding factor %s", p.GP.Name(), k)
				}
			}
			for k, s := range a.scalars {
				if s.Sign() < 0 || s.Cmp(p.GP.N()) >= 0 {
					rt.Fatalf("%s: the published scalar %s is not reduced and reveals more than its residue", p.GP.Name(), k)
				}
				if s.Cmp(b.scalars[k]) == 0 {
					rt.Fatalf("%s: two proofs of %v publish the same %s", p.GP.Name(), vs, k)
				}
			}
			c.NonTrivial(p.GP.Name(), p.N, vs, seed)
			c.Label("%s", p.GP.Name())
		})
}

package bp

import (
	"fmt"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// All generators of a setup on a curve.
//vh:shards quick=4 thorough=8
func TestC21_Setup(t *testing.T) {
	vh.Check(t, 48, 400, "a setup on a curve, repeated and compared with a smaller one, and the inner product parameters of a proof under it; non-trivial: more than one bit",
		func(rt *rapid.T, c *vh.Case) {
			g := curves[vh.Pick(rt, len(curves), "curve")]
			n := vh.OneOf(rt, "bits", exps)
			p := mustSetup(rt, n, g)
			q := mustSetup(rt, n, g)
			small := mustSetup(rt, vh.OneOf(rt, "smaller", exps[:1+log2(int(n))]), g)
			pr, _ := proveHonest(rt, vh.I(1), p, vh.NewTape(vh.Seed64(rt, "tape")))
			names := []string{"G", "H", "U"}
			all := []group.Element{p.G, p.H, pr.InnerProductProof.Params.Uu}
			again := []group.Element{q.G, q.H, nil}
			for i := range p.Gg {
				names = append(names, fmt.Sprintf("Gg[%d]", i), fmt.Sprintf("Hh[%d]", i))
				all = append(all, p.Gg[i], p.Hh[i])
				again = append(again, q.Gg[i], q.Hh[i])
			}
			if !p.G.IsEqual(g.Generator()) {
				rt.Fatalf("%s: G is not the base point", g.Name())
			}
			for i, e := range all {
				if e.IsIdentity() {
					rt.Fatalf("%s, 2^%d: %s is the identity", g.Name(), n, names[i])
				}
				b, err := e.MarshalBinary()
				if err != nil || g.Element().UnmarshalBinary(b) != nil {
					rt.Fatalf("%s, 2^%d: %s is not a valid element", g.Name(), n, names[i])
				}
				if !g.Element().Scale(e, g.N()).IsIdentity() {
					rt.Fatalf("%s, 2^%d: %s is not in the group", g.Name(), n, names[i])
				}
				if again[i] != nil && !again[i].IsEqual(e) {
					rt.Fatalf("%s, 2^%d: two setups disagree on %s", g.Name(), n, names[i])
				}
				c.Digest(g.Name()+" "+names[i], fmt.Sprintf("%x", b))
				for j := range all[:i] {
					d := g.Element().Subtract(e, all[j])
					s := g.Element().Add(e, all[j])
					if d.IsIdentity() || s.IsIdentity() || e.IsEqual(all[j]) {
						rt.Fatalf("%s, 2^%d: %s and %s are equal or opposite", g.Name(), n, names[j], names[i])
					}
				}
			}
			// No step of a fixed size leads from one generator to the next.
			steps := map[string]string{}
			for i := 1; i < len(all); i++ {
				for j := range all[:i] {
					d := g.Element().Subtract(all[i], all[j])
					b, _ := d.MarshalBinary()
					nb, _ := g.Element().Negate(d).MarshalBinary()
					me := names[j] + "->" + names[i]
					if o, dup := steps[string(b)]; dup {
						rt.Fatalf("%s, 2^%d: generators are related: %s is the same step as %s", g.Name(), n, me, o)
					}
					steps[string(b)], steps[string(nb)] = me, me
				}
			}
			// Small multiples of the other generators.
			mult := map[string]string{}
			for i, e := range all {
				acc := g.Identity()
				for k := 1; k <= 40; k++ {
					acc = g.Element().Add(acc, e)
					for _, x := range []group.Element{acc, g.Element().Negate(acc)} {
						b, _ := x.MarshalBinary()
						me := fmt.Sprintf("+-%d*%s", k, names[i])
						if o, dup := mult[string(b)]; dup {
							rt.Fatalf("%s, 2^%d: generators are related: %s = %s", g.Name(), n, me, o)
						}
						mult[string(b)] = me
					}
				}
			}
			for i := range small.Gg {
				if !small.Gg[i].IsEqual(p.Gg[i]) || !small.Hh[i].IsEqual(p.Hh[i]) {
					rt.Fatalf("%s: generators %d of the setups for 2^%d and 2^%d differ", g.Name(), i, small.N, n)
				}
			}
			if !small.H.IsEqual(p.H) || !small.G.IsEqual(p.G) {
				rt.Fatalf("%s: G or H of the setups for 2^%d and 2^%d differ", g.Name(), small.N, n)
			}
			if n > 1 {
				c.NonTrivial(g.Name(), n, small.N)
			}
			c.Label("%s 2^%d", g.Name(), n)
		})
}

// In a transparent group the strings that are hashed are seen: every generator
// is one hashed string, and no two are the same.
//vh:shards quick=2 thorough=4
func TestC21_SetupStrings(t *testing.T) {
	vh.Check(t, 60, 600, "a setup over a transparent group; non-trivial: distinct (size, order)",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, exps)
			uu, _ := g.Element().MapToGroup(bulletproofs.SEEDU)
			all := append(append([]group.Element{p.G, p.H, uu}, p.Gg...), p.Hh...)
			seen := map[string]bool{}
			for i, e := range all {
				s := symbolOf(e)
				if s == "" {
					rt.Fatalf("generator %d is not a single hashed string: %v", i, vh.T(e).Symbols())
				}
				if (s == "G") != (i == 0) {
					rt.Fatalf("generator %d is made of the base point", i)
				}
				if seen[s] {
					rt.Fatalf("two generators are made from the string %q", s)
				}
				seen[s] = true
			}
			c.NonTrivial(p.N, g.Name())
		})
}

// However many setups were made before, a setup gives the same generators.
//vh:shards quick=2 thorough=8
func TestC21_ManySetups(t *testing.T) {
	vh.Check(t, 8, 200, "a history of 2500 setups of drawn sizes over a transparent group: all of a size have the same generators, and each of a smaller size those of the larger ones; non-trivial: distinct (order, seed)",
		func(rt *rapid.T, c *vh.Case) {
			g := vh.NewT(vh.OneOf(rt, "order", bigOrders))
			seed := vh.Seed64(rt, "sizes")
			first := mustSetup(rt, 32, g)
			for k := 0; k < 2500; k++ {
				n := exps[int(vh.DetInt(seed, fmt.Sprint(k), vh.I(int64(len(exps)))).Int64())]
				p := mustSetup(rt, n, g)
				if !p.G.IsEqual(first.G) || !p.H.IsEqual(first.H) {
					rt.Fatalf("G or H changes with the setup number %d", k+2)
				}
				for i := range p.Gg {
					if !p.Gg[i].IsEqual(first.Gg[i]) || !p.Hh[i].IsEqual(first.Hh[i]) {
						rt.Fatalf("generator %d of the setup for 2^%d changes with the setup number %d", i, n, k+2)
					}
				}
			}
			c.NonTrivial(g.Name(), seed)
		})
}

// What one party does with its generators does not reach another party's setup.
//vh:shards quick=2 thorough=4
func TestC21_SetupsApart(t *testing.T) {
	vh.Check(t, 80, 800, "a setup whose generators are then overwritten in place, followed by and compared with another of any size; non-trivial: something was overwritten that both have",
		func(rt *rapid.T, c *vh.Case) {
			var g group.Group
			if vh.Pick(rt, 3, "kind") == 0 {
				g = curves[vh.Pick(rt, len(curves), "curve")]
			} else {
				g = vh.NewT(vh.OneOf(rt, "order", bigOrders))
			}
			n, m := vh.OneOf(rt, "bits", exps), vh.OneOf(rt, "again", exps)
			p := mustSetup(rt, n, g)
			want := map[string]group.Element{}
			places := map[string]*group.Element{"G": &p.G, "H": &p.H}
			order := []string{"G", "H"}
			for i := range p.Gg {
				for name, e := range map[string]*group.Element{"Gg": &p.Gg[i], "Hh": &p.Hh[i]} {
					places[fmt.Sprint(name, i)] = e
				}
				order = append(order, fmt.Sprint("Gg", i), fmt.Sprint("Hh", i))
			}
			for name, e := range places {
				want[name] = g.Element().Set(*e)
			}
			shared := 0
			for k := 0; k < 1+vh.Pick(rt, 4, "changes"); k++ {
				at := vh.OneOf(rt, "place", order)
				e := places[at]
				switch vh.Pick(rt, 4, "how") {
				case 0:
					(*e).Add(*e, p.G)
				case 1:
					(*e).BaseScale(vh.I(0))
				case 2:
					(*e).Scale(*e, vh.I(2))
				default:
					*e = g.Identity() // the list's place, not the element
				}
				var i int64
				if _, err := fmt.Sscanf(at[1:], "g%d", &i); err != nil {
					fmt.Sscanf(at[1:], "h%d", &i)
				}
				if i < m {
					shared++
				}
			}
			q := mustSetup(rt, m, g)
			same := func(name string, e group.Element) {
				if w := want[name]; w != nil && !w.IsEqual(e) {
					rt.Fatalf("%s: %s of a setup for 2^%d is another one after a party overwrote its own of a setup for 2^%d", g.Name(), name, m, n)
				}
			}
			same("G", q.G)
			same("H", q.H)
			for i := range q.Gg {
				same(fmt.Sprint("Gg", i), q.Gg[i])
				same(fmt.Sprint("Hh", i), q.Hh[i])
			}
			if shared > 0 {
				c.NonTrivial(g.Name(), n, m)
			}
		})
}

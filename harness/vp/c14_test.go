package vp

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// The verifier's challenge depends on each element: it no longer accepts a
// proof when one element is written differently, although all equations hold.
//vh:shards quick=4 thorough=8
func TestC14_EqualityProofVerifier(t *testing.T) {
	vh.Check(t, 16000, 400000, "an accepted equality proof verified in a group in which one of the eight elements of statement and first message has another string form; non-trivial: the original is accepted",
		func(rt *rapid.T, c *vh.Case) {
			ff, ec, p := drawT(rt, 253, vh.OneOf(rt, "bc", []int{64, 128, 200}))
			w := drawWitness(rt, p)
			w.rp, w.rq1, w.rq2 = add(w.rp, vh.I(2)), add(w.rq1, vh.I(2)), add(w.rq2, vh.I(3))
			pr := prove(w, p, vh.NewTape(vh.Seed64(rt, "tape")))
			cm := w.comm(p)
			if !pr.Verify(cm) {
				c.Vacuous("honest proof rejected")
				return
			}
			els := []struct {
				name string
				g    *vh.TGroup
				e    group.Element
			}{{"Y", ff, cm.Y}, {"Xp", ff, cm.Xp}, {"Xq1", ec, cm.Xq1}, {"Xq2", ec, cm.Xq2}, {"W", ff, pr.W}, {"Kp", ff, pr.Kp}, {"Kq1", ec, pr.Kq1}, {"Kq2", ec, pr.Kq2}}
			x := els[vh.Pick(rt, len(els), "element")]
			same := 0
			for _, o := range els {
				if o.g == x.g && vh.T(o.e).Same(x.e) {
					same++
				}
			}
			if same != 1 {
				c.Vacuous("two elements coincide")
				return
			}
			s := []byte(x.e.String())
			switch vh.Pick(rt, 5, "form") {
			case 0:
				s[0] ^= 1
			case 1:
				s[len(s)-1] ^= 0x80
			case 2:
				s = append(s, '0')
			case 3:
				s = s[:len(s)-1]
			default:
				s = append([]byte{'0'}, s...)
			}
			x.g.Alias[vh.T(x.e).Canon()] = string(s)
			ok := pr.Verify(cm)
			x.g.Alias = map[string]string{}
			if ok {
				rt.Fatalf("%s: the challenge does not depend on %s", desc(p), x.name)
			}
			c.NonTrivial(shape(p), x.name, w.m, pr.Z)
			c.Label(x.name)
		})
}

// The same for the challenge the prover uses, and neighbouring elements do not
// run into each other.
//vh:shards quick=4 thorough=8
func TestC14_EqualityProofProver(t *testing.T) {
	vh.Check(t, 8000, 200000, "the prover's challenges for two statements or first messages that differ in one of the eight elements, or only in where one element ends and the next begins; non-trivial: the challenges could be read",
		func(rt *rapid.T, c *vh.Case) {
			bc := vh.OneOf(rt, "bc", []int{64, 128, 200})
			ff, ec, p := drawT(rt, 253, bc)
			as := ""
			if vh.Pick(rt, 3, "written") == 0 {
				// Elements written like those of the system's groups.
				real := curves[vh.Pick(rt, len(curves), "curveForms")]
				ff, ec = vh.NewShadow(vh.SmallModP(vh.OneOf(rt, "fieldForms", []int{272, 400}))), vh.NewShadow(real)
				bg := min(ff.N().BitLen(), ec.N().BitLen())
				p = mustSetup(rt, min(16, bg-2-bc), bc, bg, 1, 2, groupParams(ff, ff.Sym("ff-H")), groupParams(ec, ec.Sym("ec-H")))
				as = real.Name()
			}
			a := newAsker(ff, ec, p)
			seed := vh.Seed64(rt, "seed")
			el := func(g *vh.TGroup, l string) group.Element {
				return g.Lin(map[string]*big.Int{"G": vh.DetInt(seed, l, g.N()), "x": vh.DetInt(seed, l+"'", g.N())})
			}
			names := []string{"Y", "Xp", "W", "Kp", "Xq1", "Xq2", "Kq1", "Kq2"}
			ask := func(m map[string]group.Element) *big.Int {
				cm := a.w.comm(p)
				cm.Y, cm.Xp, cm.Xq1, cm.Xq2 = m["Y"], m["Xp"], m["Xq1"], m["Xq2"]
				ch, ok := a.challenge(cm, first{W: m["W"], Kp: m["Kp"], Kq1: m["Kq1"], Kq2: m["Kq2"]})
				if !ok {
					return nil
				}
				return ch
			}
			m := map[string]group.Element{}
			for i, n := range names {
				if i < 4 {
					m[n] = el(ff, n)
				} else {
					m[n] = el(ec, n)
				}
			}
			if k := vh.Pick(rt, 4, "boundary"); k == 0 && as == "" {
				// Decimal strings of varying length.
				pair := [][2]string{{"Y", "Xp"}, {"W", "Kp"}}[vh.Pick(rt, 2, "pair")]
				digits := vh.DetInt(seed, "digits", pow2(700)).String() + "1234567"
				i, j := 1+vh.Pick(rt, len(digits)-2, "i"), 1+vh.Pick(rt, len(digits)-2, "j")
				if i == j {
					j = i%(len(digits)-2) + 1
				}
				read := func(cut int) *big.Int {
					m[pair[0]], m[pair[1]] = fixed{m[pair[0]], digits[:cut]}, fixed{m[pair[1]], digits[cut:]}
					return ask(m)
				}
				c1 := read(i)
				c2 := read(j)
				if c1 == nil || c2 == nil {
					c.Vacuous("challenge not known")
					return
				}
				if c1.Cmp(c2) == 0 {
					rt.Fatalf("%s: %s=%s and %s=%s give the same challenge when a digit moves between them", desc(p), pair[0], digits[:i], pair[1], digits[i:])
				}
				c.NonTrivial(shape(p), "boundary", pair, i, j)
				c.Label("boundary")
				return
			}
			c1 := ask(m)
			n := names[vh.Pick(rt, len(names), "element")]
			name := n
			if rapid.Bool().Draw(rt, "exchange") {
				pair := [][2]string{{"Y", "Xp"}, {"W", "Kp"}, {"Y", "W"}, {"Xq1", "Xq2"}, {"Kq1", "Kq2"}, {"Xq1", "Kq1"}}[vh.Pick(rt, 6, "pair")]
				m[pair[0]], m[pair[1]] = m[pair[1]], m[pair[0]]
				name = fmt.Sprint(pair, " exchanged")
			} else {
				g := ec
				if n == "Y" || n == "Xp" || n == "W" || n == "Kp" {
					g = ff
				}
				switch vh.Pick(rt, 4, "other") {
				case 0:
					m[n], name = g.Element().Negate(m[n]), n+" negated"
				case 1:
					m[n], name = g.Element().Add(m[n], g.Generator()), n+" +G"
				case 2:
					m[n], name = g.Identity(), n+" identity"
				default:
					m[n] = el(g, n+"2")
				}
			}
			c2 := ask(m)
			if c1 == nil || c2 == nil {
				c.Vacuous("challenge not known")
				return
			}
			if c1.Cmp(c2) == 0 {
				rt.Fatalf("%s: the challenge does not change with %s", desc(p), name)
			}
			if c1.Sign() < 0 || c1.BitLen() > bc {
				rt.Fatalf("%s: the challenge %v is longer than %d bits", desc(p), c1, bc)
			}
			c.NonTrivial(shape(p), name, seed, as)
			c.Label(name)
			if as != "" {
				c.Label("written as on %s", as)
			}
		})
}

// Few different elements, among them the neutral one, or elements with long
// string forms that differ in one character.
//vh:shards quick=4 thorough=8
func TestC14_EqualityProofPlaces(t *testing.T) {
	vh.Check(t, 8000, 200000, "the prover's challenges for two lists of eight elements filled from few elements, or with string forms of up to 4000 characters that differ in one; non-trivial: the challenges could be read",
		func(rt *rapid.T, c *vh.Case) {
			bc := vh.OneOf(rt, "bc", []int{64, 128, 200})
			ff, ec, p := drawT(rt, 253, bc)
			as := ""
			resemble := vh.Pick(rt, 6, "resemble") == 0
			if !resemble && vh.Pick(rt, 4, "written") == 0 {
				real := curves[vh.Pick(rt, len(curves), "curveForms")]
				ff, ec = vh.NewShadow(vh.SmallModP(vh.OneOf(rt, "fieldForms", []int{272, 400}))), vh.NewShadow(real)
				bg := min(ff.N().BitLen(), ec.N().BitLen())
				p = mustSetup(rt, min(16, bg-2-bc), bc, bg, 1, 2, groupParams(ff, ff.Sym("ff-H")), groupParams(ec, ec.Sym("ec-H")))
				as = real.Name()
			}
			a := newAsker(ff, ec, p)
			seed := vh.Seed64(rt, "seed")
			ask := func(m [8]group.Element) *big.Int {
				cm := a.w.comm(p)
				cm.Y, cm.Xp, cm.Xq1, cm.Xq2 = m[0], m[1], m[4], m[5]
				ch, ok := a.challenge(cm, first{W: m[2], Kp: m[3], Kq1: m[6], Kq2: m[7]})
				if !ok {
					return nil
				}
				return ch
			}
			names := []string{"Y", "Xp", "W", "Kp", "Xq1", "Xq2", "Kq1", "Kq2"}
			var pf, pe []group.Element
			for i := 0; i < 2; i++ {
				pf = append(pf, ff.Identity(), ff.Lin(map[string]*big.Int{"G": vh.DetInt(seed, fmt.Sprint("f", i), ff.N()), "x": vh.I(1)}))
				pe = append(pe, ec.Identity(), ec.Lin(map[string]*big.Int{"G": vh.DetInt(seed, fmt.Sprint("e", i), ec.N()), "x": vh.I(1)}))
			}
			var m1, m2 [8]group.Element
			name := ""
			if resemble {
				// Members of the system's groups that look alike, by their
				// own string forms.
				rs := vh.AllRefs()
				r := rs[vh.OneOf(rt, "group", []int{0, 1, 2, 3, 4, 8})]
				k := vh.DetInt(seed, "member", r.N())
				x := r.Mul(r.Base(), k)
				y, how, ok := vh.Lookalike(rt, r, x, "y")
				ex, ey := r.G().Element(), r.G().Element()
				if !ok || ex.UnmarshalBinary(r.Bin(x)) != nil || ey.UnmarshalBinary(r.Bin(y)) != nil || !vh.Matches(r, ex, x) || !vh.Matches(r, ey, y) {
					c.Vacuous("no pair of members")
					return
				}
				for i := range m1 {
					m1[i] = pf[1]
					if i >= 4 {
						m1[i] = pe[1]
					}
				}
				i := 4*vh.Pick(rt, 2, "half") + vh.Pick(rt, 4, "element")
				m2 = m1
				m1[i], m2[i] = fixed{m1[i], ex.String()}, fixed{m1[i], ey.String()}
				name = fmt.Sprint(r.Name(), how, names[i], k)
				c.Label("alike: %s", how)
			} else if rapid.Bool().Draw(rt, "long") && as == "" {
				size := 1 + vh.Pick(rt, 4000, "size")
				for i := range m1 {
					g, l := pf[1], size
					if i >= 4 {
						g, l = pe[1], 2+vh.Pick(rt, 200, "small")
					}
					s := ""
					for k := 0; len(s) < l; k++ {
						s += vh.DetInt(seed, fmt.Sprint(i, k), pow2(2000)).String()
					}
					m1[i] = fixed{g, s[:l]}
				}
				m2 = m1
				i := vh.Pick(rt, 8, "element")
				f := m1[i].(fixed)
				b := []byte(f.s)
				k := vh.Pick(rt, len(b), "character")
				if rapid.Bool().Draw(rt, "last") {
					k = len(b) - 1
				}
				b[k] = '0' + (b[k]-'0'+1+byte(vh.Pick(rt, 9, "digit")))%10
				m2[i] = fixed{f.Element, string(b)}
				name = "long " + names[i]
			} else {
				var is, js [8]int
				for i := range is {
					is[i] = vh.Pick(rt, 4, "a")
				}
				js = is
				for n := 1 + vh.Pick(rt, 2, "changes"); n > 0; n-- {
					i, j := vh.Pick(rt, 8, "i"), vh.Pick(rt, 8, "j")
					if i/4 == j/4 && i != j {
						js[i], js[j] = js[j], js[i]
					} else {
						js[i] = vh.Pick(rt, 4, "e")
					}
				}
				differ := false
				for i := range is {
					pool := pf
					if i >= 4 {
						pool = pe
					}
					m1[i], m2[i] = pool[is[i]], pool[js[i]]
					differ = differ || !vh.T(m1[i]).Same(m2[i])
				}
				if !differ {
					c.Vacuous("the same elements")
					return
				}
				name = fmt.Sprint(is, js)
				c.Label("few elements")
			}
			c1, c2 := ask(m1), ask(m2)
			if c1 == nil || c2 == nil {
				c.Vacuous("challenge not known")
				return
			}
			if c1.Cmp(c2) == 0 {
				rt.Fatalf("%s: two different lists of elements have the same challenge (%s)", desc(p), name)
			}
			c.NonTrivial(shape(p), name, seed, as)
			if as != "" {
				c.Label("written as on %s", as)
			}
		})
}

// fixed is an element with a given string form.
type fixed struct {
	group.Element
	s string
}

func (f fixed) String() string { return f.s }

// Challenges use the whole configured length.
//vh:shards quick=2 thorough=8
func TestC14_EqualityProofSpread(t *testing.T) {
	vh.Check(t, 120, 3000, "the challenges of 100 equality proofs of one shape, of any configured challenge length: every bit takes both values, no long challenge occurs twice; non-trivial: each batch",
		func(rt *rapid.T, c *vh.Case) {
			bc := 1 + vh.Pick(rt, 256, "bc")
			switch vh.Pick(rt, 4, "own") {
			case 0:
				bc = vh.OneOf(rt, "round", []int{64, 128, 200, 224, 256})
			case 1:
				bc = 1 + vh.Pick(rt, 20, "short")
			}
			_, _, p := drawT(rt, 384, bc)
			w := drawWitness(rt, p)
			seed := vh.Seed64(rt, "tape")
			ones, zeros := vh.I(0), vh.I(0)
			seen := map[string]bool{}
			for i := 0; i < 100; i++ {
				pr := prove(w, p, vh.NewTape(seed+uint64(i)))
				if pr.Challenge.Sign() < 0 || pr.Challenge.BitLen() > bc {
					rt.Fatalf("%s: the challenge %v is longer than configured", desc(p), pr.Challenge)
				}
				if bc >= 64 && seen[pr.Challenge.String()] {
					rt.Fatalf("%s: a challenge occurs twice", desc(p))
				}
				seen[pr.Challenge.String()] = true
				ones.Or(ones, pr.Challenge)
				zeros.Or(zeros, new(big.Int).AndNot(sub(pow2(bc), vh.I(1)), pr.Challenge))
			}
			for i := 0; i < bc; i++ {
				if ones.Bit(i) == 0 || zeros.Bit(i) == 0 {
					rt.Fatalf("%s: bit %d of the challenge never changes", desc(p), i)
				}
			}
			c.NonTrivial(shape(p), seed)
			c.Label("%d bits", bc)
		})
}

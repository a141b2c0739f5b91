package bp

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func ne(a, b *big.Int) bool { return a == nil || b == nil || a.Cmp(b) != 0 }

// lookalikes draws two members of a curve that resemble each other.
func lookalikes(rt *rapid.T, seed uint64) (x, y group.Element, how string, ok bool) {
	rs := vh.CurveRefs()
	r := rs[vh.Pick(rt, len(rs), "alike")]
	a := r.Mul(r.Base(), vh.DetInt(seed, "member", r.N()))
	b, how, ok := vh.Lookalike(rt, r, a, "alike")
	x, y = r.G().Element(), r.G().Element()
	if !ok || x.UnmarshalBinary(r.Bin(a)) != nil || y.UnmarshalBinary(r.Bin(b)) != nil || !vh.Matches(r, x, a) || !vh.Matches(r, y, b) || x.String() == y.String() {
		return nil, nil, "", false
	}
	return x, y, how, true
}

// The verifier's challenges of range proofs change with each element they have
// to depend on, and differ from each other.
//vh:shards quick=6 thorough=8
func TestC14_RangeProofVerifier(t *testing.T) {
	vh.Check(t, 8000, 200000, "the challenges the verifier uses for a statement, and for the statement with one element changed, read off its equations; non-trivial: the challenges could be read",
		func(rt *rapid.T, c *vh.Case) {
			g, p, as := drawTS(rt, []int64{1, 2, 4, 8, 16, 1, 2, 4, 8, 32})
			agg := rapid.Bool().Draw(rt, "aggregated")
			m := 1
			if agg {
				m = drawShare(rt, p.N)
			}
			f := &forger{g: g, p: p, seed: vh.Seed64(rt, "seed")}
			s := randomStmt(f, m)
			// Both statements are drawn before any challenge is read.
			s2 := s
			s2.Vs = append([]group.Element{}, s.Vs...)
			places := func(s *stmt) (out []*group.Element) {
				for j := range s.Vs {
					out = append(out, &s.Vs[j])
				}
				return append(out, &s.A, &s.S, &s.T1, &s.T2)
			}
			pool := append([]group.Element{s.A, s.S, s.T1, s.T2}, s.Vs...)
			which := vh.Pick(rt, 8, "element")
			early := true // y and z have to change as well
			name := ""
			switch {
			case which == 6: // two elements, in a way that keeps a combination
				i := vh.Pick(rt, m+4, "i")
				if rapid.Bool().Draw(rt, "last") {
					i = m + vh.Pick(rt, 4, "i")
				}
				j := vh.Pick(rt, m+3, "j")
				if j >= i {
					j++
				}
				a, b := places(&s2)[i], places(&s2)[j]
				d := g.Lin(map[string]*big.Int{"G": f.rnd("d"), symbolOf(p.H): f.rnd("d'")})
				*a = g.Element().Add(*a, d)
				switch vh.Pick(rt, 3, "keep") {
				case 0:
					*b, name = g.Element().Subtract(*b, d), "two elements, same sum"
				case 1:
					*b, name = g.Element().Add(*b, d), "two elements, same difference"
				default:
					k := vh.Pick(rt, 40, "weight")
					*b, name = g.Element().Subtract(*b, g.Element().Scale(d, vh.I(int64(k+2)))), "two elements, same weighted sum"
				}
				early = i < m+2 || j < m+2
			case which == 7: // one element that looks like the other on a curve
				i := vh.Pick(rt, m+4, "i")
				e := places(&s2)[i]
				x, y, how, ok := lookalikes(rt, f.seed)
				if !ok {
					c.Vacuous("no pair of members")
					return
				}
				*e = g.Element().Add(*e, g.Lin(map[string]*big.Int{"G": f.rnd("d"), symbolOf(p.H): f.rnd("d'")}))
				g.Disguise(vh.T(*places(&s)[i]), x)
				g.Disguise(vh.T(*e), y)
				defer g.Reveal()
				name, early = "resembling: "+how, i < m+2
			case which == 0:
				s2.A, name = otherElem(rt, s.A, p, pool, "A")
				name = "A " + name
			case which == 1:
				s2.S, name = otherElem(rt, s.S, p, pool, "S")
				name = "S " + name
			case which == 2:
				s2.T1, name = otherElem(rt, s.T1, p, pool, "T1")
				name, early = "T1 "+name, false
			case which == 3:
				s2.T2, name = otherElem(rt, s.T2, p, pool, "T2")
				name, early = "T2 "+name, false
			case which == 4 && rapid.Bool().Draw(rt, "swap"):
				switch vh.Pick(rt, 3, "pair") {
				case 0:
					s2.A, s2.S, name = s.S, s.A, "A and S exchanged"
				case 1:
					s2.T1, s2.T2, name, early = s.T2, s.T1, "T1 and T2 exchanged", false
				default:
					s2.Vs[m-1], s2.A, name = s.A, s.Vs[m-1], "V and A exchanged"
				}
			default:
				j := vh.Pick(rt, m, "j")
				s2.Vs[j], name = otherElem(rt, s.Vs[j], p, pool, "V")
				name = fmt.Sprintf("V %s", name)
			}
			ch, ok := challenges(g, p, agg, s)
			if !ok {
				c.Vacuous("challenges not readable")
				return
			}
			if !ne(ch.x, ch.y) || !ne(ch.y, ch.z) || !ne(ch.x, ch.z) {
				rt.Fatalf("%d bits: two challenges of one proof are equal: x=%v y=%v z=%v", p.N, ch.x, ch.y, ch.z)
			}
			ch2, ok := challenges(g, p, agg, s2)
			if !ok {
				c.Vacuous("challenges not readable after the change")
				return
			}
			if !ne(ch.x, ch2.x) {
				rt.Fatalf("%d bits, %d values: x does not change with the statement (%s)", p.N, m, name)
			}
			if early && (!ne(ch.z, ch2.z) || p.N > 1 && !ne(ch.y, ch2.y)) {
				rt.Fatalf("%d bits, %d values: y or z does not change with the statement (%s)", p.N, m, name)
			}
			if !ne(ch.x, ch2.y) || !ne(ch.y, ch2.z) || !ne(ch.x, ch2.z) || !ne(ch.z, ch2.y) {
				rt.Fatalf("%d bits, %d values: challenges of two statements coincide (%s)", p.N, m, name)
			}
			c.NonTrivial(p.N, m, name, f.seed, as)
			c.Label("%s", name)
			if as != "" {
				c.Label("written as on %s", as)
			}
		})
}

// Statements that consist of few different elements, the neutral one among
// them: which element stands where decides the challenges.
//vh:shards quick=4 thorough=8
func TestC14_FewElements(t *testing.T) {
	vh.Check(t, 4000, 120000, "the verifier's challenges for two statements whose places are filled from two elements, their sum and the neutral one; non-trivial: the statements differ and the challenges could be read",
		func(rt *rapid.T, c *vh.Case) {
			g, p, as := drawTS(rt, []int64{1, 2, 4, 8, 1, 2, 4, 8, 32})
			agg := rapid.Bool().Draw(rt, "aggregated")
			m := 1
			if agg {
				m = drawShare(rt, p.N)
			}
			f := &forger{g: g, p: p, seed: vh.Seed64(rt, "seed")}
			base := randomStmt(f, m)
			id := g.Identity()
			pool := []group.Element{id, base.A, id, base.S, base.A, g.Element().Add(base.A, base.S)}
			k := m + 4 // V..., A, S, T1, T2
			fill := func(l string) (is []int) {
				for i := 0; i < k; i++ {
					is = append(is, vh.Pick(rt, len(pool), l))
				}
				return is
			}
			is := fill("a")
			js := append([]int{}, is...)
			switch vh.Pick(rt, 4, "how") {
			case 0:
				js = fill("b")
			case 1: // two places exchanged
				i, j := vh.Pick(rt, k, "i"), vh.Pick(rt, k, "j")
				js[i], js[j] = js[j], js[i]
			case 2: // a place moved
				i := vh.Pick(rt, k-1, "i")
				e := js[i]
				copy(js[i:], js[i+1:])
				js[k-1] = e
			default:
				js[vh.Pick(rt, k, "i")] = vh.Pick(rt, len(pool), "e")
			}
			early, late := false, false
			for i := range is {
				if !vh.T(pool[is[i]]).Same(pool[js[i]]) {
					late = true
					early = early || i < m+2
				}
			}
			if !late {
				c.Vacuous("the same statement")
				return
			}
			build := func(is []int) (s stmt) {
				for j := 0; j < m; j++ {
					s.Vs = append(s.Vs, pool[is[j]])
				}
				s.A, s.S, s.T1, s.T2 = pool[is[m]], pool[is[m+1]], pool[is[m+2]], pool[is[m+3]]
				return s
			}
			ch, ok := challenges(g, p, agg, build(is))
			ch2, ok2 := challenges(g, p, agg, build(js))
			if !ok || !ok2 {
				c.Vacuous("challenges not readable")
				return
			}
			if !ne(ch.x, ch2.x) {
				rt.Fatalf("%d bits, %d values: two statements have the same x (%v, %v)", p.N, m, is, js)
			}
			if early && (!ne(ch.z, ch2.z) || p.N > 1 && !ne(ch.y, ch2.y)) {
				rt.Fatalf("%d bits, %d values: two statements have the same y or z (%v, %v)", p.N, m, is, js)
			}
			c.NonTrivial(p.N, m, is, js, as)
			c.Label("%d values", m)
			if as != "" {
				c.Label("written as on %s", as)
			}
		})
}

// The challenges of inner product arguments.
//vh:shards quick=4 thorough=8
func TestC14_InnerProductVerifier(t *testing.T) {
	vh.Check(t, 6000, 150000, "the challenges the inner product verifier uses for an argument, and for the argument with one part changed; non-trivial: the challenges could be read",
		func(rt *rapid.T, c *vh.Case) {
			g := vh.NewT(vh.OneOf(rt, "order", bigOrders))
			N := int(vh.OneOf(rt, "length", []int64{2, 4, 8, 16, 32, 64}))
			if N > 16 && vh.Pick(rt, 4, "long") > 0 {
				N /= 16
			}
			if vh.Pick(rt, 10, "written") == 0 {
				g = vh.NewShadow(curves[vh.Pick(rt, len(curves), "curve")])
				N = int(vh.OneOf(rt, "length", []int64{2, 4}))
			}
			f := &forger{g: g, p: setupParams{H: g.Sym("ip-H"), GP: g}, seed: vh.Seed64(rt, "seed")}
			in := ipInst{Uu: g.Sym("ip-u"), c: f.rnd("c")}
			for i := 0; i < N; i++ {
				id := fmt.Sprint(i)
				in.Gg = append(in.Gg, g.Lin(map[string]*big.Int{"ip-g" + id: f.rnd("g" + id)}))
				in.Hh = append(in.Hh, g.Lin(map[string]*big.Int{"ip-h" + id: f.rnd("h" + id)}))
			}
			f.p.Gg = in.Gg
			in.P = g.Lin(map[string]*big.Int{"ip-x": f.rnd("P")})
			rounds := log2(N)
			// Few different elements, now and then.
			few := vh.Pick(rt, 3, "few") == 0
			id := g.Identity()
			some := []group.Element{in.Gg[0], in.Hh[0], id, g.Lin(map[string]*big.Int{"ip-y": f.rnd("L")}), id}
			if few {
				for i := range in.Gg {
					in.Gg[i], in.Hh[i] = some[vh.Pick(rt, 3, "g")], some[vh.Pick(rt, 3, "h")]
				}
			}
			var L, R []group.Element
			for i := 0; i < rounds; i++ {
				if few {
					L, R = append(L, some[vh.Pick(rt, 5, "l")]), append(R, some[vh.Pick(rt, 5, "r")])
					continue
				}
				L = append(L, g.Lin(map[string]*big.Int{"ip-y": f.rnd(fmt.Sprint("L", i))}))
				R = append(R, g.Lin(map[string]*big.Int{"ip-w": f.rnd(fmt.Sprint("R", i))}))
			}
			read := func(in ipInst, L, R []group.Element) (out []*big.Int) {
				x0, ok := ipBase(g, in)
				if !ok {
					return nil
				}
				out = append(out, x0)
				acc := g.Element().Add(in.P, g.Element().Scale(in.Uu, mul(x0, in.c)))
				for i := 0; i < rounds; i++ {
					x2, ok := ipRound(g, in, vh.T(acc), L[:i+1], R[:i+1])
					if !ok {
						return nil
					}
					out = append(out, x2)
					acc = g.Element().Add(acc, g.Element().Add(g.Element().Scale(L[i], x2), g.Element().Scale(R[i], inv(x2, g.N()))))
				}
				return out
			}
			a := read(in, L, R)
			if a == nil {
				c.Vacuous("challenges not readable")
				return
			}
			// With few elements, rounds may repeat each other.
			for i := range a {
				for j := range a[:i] {
					if few {
						break
					}
					if a[i].Cmp(a[j]) == 0 || mod(mul(a[j], a[j]), g.N()).Cmp(a[i]) == 0 {
						rt.Fatalf("length %d: challenges %d and %d of one argument are equal", N, j, i)
					}
				}
			}
			in2 := in
			in2.Gg, in2.Hh = append([]group.Element{}, in.Gg...), append([]group.Element{}, in.Hh...)
			L2, R2 := append([]group.Element{}, L...), append([]group.Element{}, R...)
			pool := append(append([]group.Element{in.P, in.Uu}, L...), R...)
			from := 0 // first challenge that has to change
			name := ""
			part := vh.Pick(rt, 9, "part")
			if part == 6 {
				part = 1
			}
			if few {
				part = 6
			}
			switch part {
			case 6: // two places of a list exchanged, or one filled differently
				list := vh.OneOf(rt, "list", [][]group.Element{in2.Gg, in2.Hh, L2, R2})
				old := append([]group.Element{}, list...)
				i, j := vh.Pick(rt, len(list), "i"), vh.Pick(rt, len(list), "j")
				list[i], list[j] = list[j], list[i]
				if rapid.Bool().Draw(rt, "fill") {
					list[i] = some[vh.Pick(rt, 5, "e")]
				}
				from = -1
				for k := range list {
					if !vh.T(list[k]).Same(old[k]) && from < 0 {
						from = k + 1
					}
				}
				if from < 0 {
					c.Vacuous("the same argument")
					return
				}
				if len(list) == N { // generators
					from = 0
				}
				name = "few elements"
			case 7: // one element that looks like the other on a curve
				from = 0
				var e, o *group.Element
				switch vh.Pick(rt, 5, "list") {
				case 0:
					e, o = &in2.P, &in.P
				case 1:
					i := vh.Pick(rt, N, "i")
					e, o = &in2.Gg[i], &in.Gg[i]
				case 2:
					i := vh.Pick(rt, N, "i")
					e, o = &in2.Hh[i], &in.Hh[i]
				case 3:
					i := vh.Pick(rt, rounds, "round")
					e, o, from = &L2[i], &L[i], i+1
				default:
					i := vh.Pick(rt, rounds, "round")
					e, o, from = &R2[i], &R[i], i+1
				}
				x, y, how, ok := lookalikes(rt, f.seed)
				if !ok {
					c.Vacuous("no pair of members")
					return
				}
				*e = g.Element().Add(*e, g.Lin(map[string]*big.Int{"ip-x": f.rnd("d")}))
				g.Disguise(vh.T(*o), x)
				g.Disguise(vh.T(*e), y)
				defer g.Reveal()
				// The challenges before were those of the undisguised element.
				if a = read(in, L, R); a == nil {
					c.Vacuous("challenges not readable")
					return
				}
				name = "resembling: " + how
			case 8: // two parts, in a way that keeps a combination
				d := g.Lin(map[string]*big.Int{"ip-y": f.rnd("d")})
				var e, o *group.Element
				i, j := vh.Pick(rt, N, "i"), vh.Pick(rt, N, "j")
				k := vh.Pick(rt, rounds, "round")
				switch vh.Pick(rt, 6, "pair") {
				case 0:
					e, o, name = &in2.Gg[i], &in2.Hh[j], "g and h"
				case 1:
					e, o, name = &in2.Gg[i], &in2.Gg[(i+1+j%(N-1))%N], "two g"
				case 2:
					e, o, name = &in2.Hh[i], &in2.Hh[(i+1+j%(N-1))%N], "two h"
				case 3:
					e, o, name = &in2.P, &in2.Gg[i], "P and g"
				case 4:
					e, o, name, from = &L2[k], &R2[k], "L and R", k+1
				default: // the commitment to the inner product stays
					dc := f.rnd("dc")
					in2.c = mod(sub(in.c, dc), g.N())
					if in2.c.Sign() == 0 {
						c.Vacuous("c is zero")
						return
					}
					in2.P, name = g.Element().Add(in.P, g.Element().Scale(in.Uu, dc)), "P and c"
				}
				if e != nil {
					*e = g.Element().Add(*e, d)
					if rapid.Bool().Draw(rt, "sum") {
						*o, name = g.Element().Subtract(*o, d), name+", same sum"
					} else {
						*o, name = g.Element().Add(*o, d), name+", same difference"
					}
				}
			case 0:
				in2.P, name = otherElem(rt, in.P, f.p, pool, "P")
				if in2.P.IsIdentity() {
					in2.P, name = g.Element().Add(in.P, in.P), "doubled"
				}
				name = "P " + name
			case 1:
				in2.c, name = otherScalar(rt, in.c, g.N(), []*big.Int{vh.I(7)}, "c")
				in2.c = mod(in2.c, g.N())
				if in2.c.Sign() == 0 {
					in2.c = add(in.c, vh.I(1))
				}
				name = "c " + name
			case 2:
				i := vh.Pick(rt, N, "i")
				in2.Gg[i], name = otherElem(rt, in.Gg[i], f.p, pool, "g")
				name = "g " + name
			case 3:
				i := vh.Pick(rt, N, "i")
				in2.Hh[i], name = otherElem(rt, in.Hh[i], f.p, pool, "h")
				name = "h " + name
			case 4:
				i := vh.Pick(rt, rounds, "round")
				L2[i], name = otherElem(rt, L[i], f.p, pool, "L")
				name, from = "L "+name, i+1
			default:
				i := vh.Pick(rt, rounds, "round")
				R2[i], name = otherElem(rt, R[i], f.p, pool, "R")
				name, from = "R "+name, i+1
			}
			b := read(in2, L2, R2)
			if b == nil {
				c.Vacuous("challenges not readable after the change")
				return
			}
			for i := from; i < len(a); i++ {
				if a[i].Cmp(b[i]) == 0 {
					rt.Fatalf("length %d: challenge %d does not change with the argument (%s)", N, i, name)
				}
				if few {
					break
				}
			}
			c.NonTrivial(N, name, f.seed)
			c.Label("%s", name)
		})
}

// A prover who chooses one element after the challenge, whatever the value.
//vh:shards quick=4 thorough=8
func TestC14_LateElements(t *testing.T) {
	vh.Check(t, 3000, 80000, "a range proof one element of which was chosen after learning the challenges for another one in its place, with an honest witness otherwise; non-trivial: the honest proof of the same prover is accepted",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, []int64{1, 2, 4, 8, 16})
			n := g.N()
			agg := rapid.Bool().Draw(rt, "aggregated")
			m := 1
			if agg {
				m = drawShare(rt, p.N)
			}
			bits := p.N / int64(m)
			f := &forger{g: g, p: p, agg: agg, seed: vh.Seed64(rt, "seed"), vs: drawValues(rt, m, bits)}
			for j := range f.vs {
				f.gammas = append(f.gammas, f.rnd(fmt.Sprint("gamma", j)))
				l, r := bitsOf(f.vs[j], int(bits))
				f.aL, f.aR = append(f.aL, l...), append(f.aR, r...)
			}
			cs := f.forge("plain")
			var good *cand
			for i := range cs {
				if cs[i].accepted() {
					good = &cs[i]
				}
			}
			if good == nil {
				c.Vacuous("the reference prover is not accepted")
				return
			}
			// Shift one element and make the equations it occurs in hold
			// again, for the challenges as they were.
			ch, ok := challenges(g, p, agg, good.s)
			if !ok {
				c.Vacuous("challenges not readable")
				return
			}
			x := *good
			d := f.rnd("shift")
			D := g.Element().BaseScale(d)
			Dh := g.Element().Scale(p.H, d)
			name := vh.OneOf(rt, "which", []string{"V value", "V blinding", "A blinding", "S blinding", "T1 value", "T1 blinding", "T2 blinding", "V and T1"})
			x.s.Vs = append([]group.Element{}, good.s.Vs...)
			j := vh.Pick(rt, m, "j")
			switch name {
			case "V value": // compensated by T1
				x.s.Vs[j] = g.Element().Add(x.s.Vs[j], D)
				x.s.T1 = g.Element().Subtract(x.s.T1, g.Element().Scale(D, mul(ch.w[j], inv(ch.x, n))))
			case "V blinding":
				x.s.Vs[j] = g.Element().Add(x.s.Vs[j], Dh)
				x.taux = mod(add(x.taux, mul(ch.w[j], d)), n)
			case "A blinding":
				x.s.A = g.Element().Add(x.s.A, Dh)
				x.mu = mod(add(x.mu, d), n)
			case "S blinding":
				x.s.S = g.Element().Add(x.s.S, Dh)
				x.mu = mod(add(x.mu, mul(ch.x, d)), n)
			case "T1 value": // compensated by T2
				x.s.T1 = g.Element().Add(x.s.T1, D)
				x.s.T2 = g.Element().Subtract(x.s.T2, g.Element().Scale(D, inv(ch.x, n)))
			case "T1 blinding":
				x.s.T1 = g.Element().Add(x.s.T1, Dh)
				x.taux = mod(add(x.taux, mul(ch.x, d)), n)
			case "T2 blinding":
				x.s.T2 = g.Element().Add(x.s.T2, Dh)
				x.taux = mod(add(x.taux, mul(mul(ch.x, ch.x), d)), n)
			case "V and T1":
				x.s.Vs[j] = g.Element().Add(x.s.Vs[j], Dh)
				x.s.T1 = g.Element().Subtract(x.s.T1, g.Element().Scale(Dh, mul(ch.w[j], inv(ch.x, n))))
			}
			if x.accepted() {
				rt.Fatalf("%d bits, %d values: a proof with an element chosen after the challenge is accepted (%s)", p.N, m, name)
			}
			c.NonTrivial(p.N, m, name, f.seed)
			c.Label(name)
		})
}

// Challenges are spread over many values: they are neither short nor stuck.
//vh:shards quick=2 thorough=8
func TestC14_Spread(t *testing.T) {
	vh.Check(t, 24, 400, "the challenges of 96 statements of one shape, over a group of more than 256 bits; non-trivial: the challenges could be read",
		func(rt *rapid.T, c *vh.Case) {
			g := vh.NewT(521)
			p := mustSetup(rt, vh.OneOf(rt, "bits", []int64{2, 4}), g)
			agg := rapid.Bool().Draw(rt, "aggregated")
			m := 1
			if agg {
				m = 2
			}
			seed := vh.Seed64(rt, "seed")
			seen := map[string]bool{}
			ones, zeros := map[string]*big.Int{}, map[string]*big.Int{}
			all := new(big.Int).Sub(new(big.Int).Lsh(vh.I(1), 521), vh.I(1))
			put := func(name string, v *big.Int) {
				if seen[v.Text(62)] {
					rt.Fatalf("a challenge occurs twice")
				}
				seen[v.Text(62)] = true
				if ones[name] == nil {
					ones[name], zeros[name] = vh.I(0), vh.I(0)
				}
				ones[name].Or(ones[name], v)
				zeros[name].Or(zeros[name], new(big.Int).AndNot(all, v))
			}
			for i := 0; i < 96; i++ {
				f := &forger{g: g, p: p, seed: seed + uint64(i)}
				s := randomStmt(f, m)
				ch, ok := challenges(g, p, agg, s)
				if !ok {
					c.Vacuous("challenges not readable")
					return
				}
				put("x", ch.x)
				put("y", ch.y)
				put("z", ch.z)
				in := ipInst{Gg: p.Gg, Hh: p.Hh, Uu: g.Sym("ip-u"), c: f.rnd("c"), P: g.Lin(map[string]*big.Int{"ip-x": f.rnd("P")})}
				if x0, ok := ipBase(g, in); ok {
					put("base", x0)
				}
				if x2, ok := ipRound(g, in, vh.T(g.Element().Add(in.P, g.Sym("ip-v"))), []group.Element{g.Sym("ip-y")}, []group.Element{g.Sym("ip-w")}); ok {
					if seen[x2.Text(62)] {
						rt.Fatalf("a challenge occurs twice")
					}
					seen[x2.Text(62)] = true
				}
			}
			for name := range ones {
				v := new(big.Int).And(ones[name], zeros[name])
				n := 0
				for i := 0; i < v.BitLen(); i++ {
					n += int(v.Bit(i))
				}
				if n < 128 {
					rt.Fatalf("only %d bits of challenge %s ever change", n, name)
				}
				c.Label("varying bits of %s: %d", name, n)
			}
			c.NonTrivial(p.N, agg, seed)
		})
}

// The prover's commitments determine its responses: the same tape up to some
// point, with a later random value changed, gives other challenges.
//vh:shards quick=4 thorough=8
func TestC14_Prover(t *testing.T) {
	vh.Check(t, 3000, 80000, "two runs of the honest prover whose randomness differs in one read: if a commitment differs, every published response that depends on a later challenge differs too; non-trivial: all",
		func(rt *rapid.T, c *vh.Case) {
			g, p := drawT(rt, []int64{1, 2, 4, 8})
			_ = g
			v := drawValue(rt, p.N, "v")
			seed := vh.Seed64(rt, "tape")
			run := func(flip int) (bulletproofs.BulletProof, int) {
				t := vh.NewTape(seed)
				t.Steer = func(i int, b []byte) {
					if i == flip {
						b[len(b)-1] ^= 1
					}
				}
				pr, _ := proveHonest(rt, v, p, t)
				return pr, t.Reads()
			}
			a, reads := run(-1)
			i := vh.Pick(rt, reads, "read")
			b, _ := run(i)
			if !verify(a) || !verify(b) {
				c.Vacuous("honest proof rejected")
				return
			}
			diff := func(x, y group.Element) bool { return !vh.T(x).Same(y) }
			first := diff(a.V, b.V) || diff(a.A, b.A) || diff(a.S, b.S)
			second := diff(a.T1, b.T1) || diff(a.T2, b.T2)
			if !first && !second {
				c.Vacuous("the read does not matter")
				return
			}
			// x enters all of these.
			same := a.Mu.Cmp(b.Mu) == 0 || a.Taux.Cmp(b.Taux) == 0 || a.Tprime.Cmp(b.Tprime) == 0 || !diff(a.InnerProductProof.P, b.InnerProductProof.P)
			if same {
				rt.Fatalf("%d bits: a commitment changes and a response does not", p.N)
			}
			if first && !second {
				rt.Fatalf("%d bits: an early commitment changes and the later commitments do not", p.N)
			}
			c.NonTrivial(p.N, v, seed, i)
		})
}

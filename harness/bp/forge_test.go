package bp

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// forger is a prover that need not be honest. It follows the protocol with any
// witness and learns the challenges from the verifier.
type forger struct {
	g      *vh.TGroup
	p      setupParams
	agg    bool
	vs     []*big.Int // committed values
	gammas []*big.Int
	aL, aR []*big.Int
	seed   uint64
	deg    string // what is degenerate about the proof, see degenerate
}

// degenerate are particular values that parts of a forged proof take.
var degenerate = []string{"S neutral", "A neutral", "S equals A", "S opposite to A", "T1 neutral", "T2 neutral", "T1 equals T2", "T1 opposite to T2",
	"T1 equals V", "A equals V", "no blinding", "S neutral, no blinding", "a zero", "b zero", "a equals b", "mu zero", "taux zero", "product zero",
	"L neutral", "R neutral", "L equals R", "P neutral", "base point as T1"}

// drawDegenerate draws one of them, or none.
func drawDegenerate(rt *rapid.T) string {
	if rapid.Bool().Draw(rt, "generic") {
		return ""
	}
	return vh.OneOf(rt, "degenerate", degenerate)
}

func (f *forger) rnd(label string) *big.Int {
	v := vh.DetInt(f.seed, label, sub(f.g.N(), vh.I(1)))
	return v.Add(v, vh.I(1))
}

// T is the linear combination G*a + H*b.
func (f *forger) com(a, b *big.Int) group.Element {
	e := f.g.Element().BaseScale(a)
	return e.Add(e, f.g.Element().Scale(f.p.H, b))
}

func (f *forger) vec(l, r []*big.Int, Gg, Hh []group.Element) group.Element {
	e := f.g.Identity()
	for i := range l {
		e.Add(e, f.g.Element().Scale(Gg[i], l[i]))
		e.Add(e, f.g.Element().Scale(Hh[i], r[i]))
	}
	return e
}

func dot(a, b []*big.Int, n *big.Int) *big.Int {
	s := vh.I(0)
	for i := range a {
		s.Add(s, mul(a[i], b[i]))
	}
	return s.Mod(s, n)
}

// bitsOf gives the bit vectors of honest provers.
func bitsOf(v *big.Int, share int) (aL, aR []*big.Int) {
	for i := 0; i < share; i++ {
		b := int64(new(big.Int).Rsh(v, uint(i)).Bit(0))
		if v.Sign() < 0 {
			b = new(big.Int).And(new(big.Int).Rsh(v, uint(i)), vh.I(1)).Int64()
		}
		aL = append(aL, vh.I(b))
		aR = append(aR, vh.I(b-1))
	}
	return
}

// forgery modes: each satisfies all relations but one, or binds one element
// late.
var forgeModes = []string{"plain", "cc", "ip", "last a", "last b", "67", "uu", "gens", "short", "cc congruent", "cc written otherwise", "late V", "late A", "late S", "late T1", "late T2", "late mu", "late P", "V after y and z", "A after y and z",
	"late V and V", "late T1 and T2", "late T1 with T2", "late V and T1", "late A and S"}

// forge returns candidate proofs (one of which may be accepted), or nothing
// when the verifier's challenges could not be learnt.
func (f *forger) forge(mode string) []cand {
	g, p, n := f.g, f.p, f.g.N()
	N := int(p.N)
	s := stmt{}
	gammas, aL, aR := f.gammas, f.aL, f.aR
	none := func(k int) (out []*big.Int) {
		for i := 0; i < k; i++ {
			out = append(out, vh.I(0))
		}
		return out
	}
	if f.deg == "no blinding" || f.deg == "S neutral, no blinding" {
		gammas = none(len(gammas))
	}
	for j := range f.vs {
		s.Vs = append(s.Vs, f.com(f.vs[j], gammas[j]))
	}
	alpha, rho, tau1, tau2 := f.rnd("alpha"), f.rnd("rho"), f.rnd("tau1"), f.rnd("tau2")
	sL, sR := make([]*big.Int, N), make([]*big.Int, N)
	for i := range sL {
		sL[i], sR[i] = f.rnd("sL"+vh.I(int64(i)).String()), f.rnd("sR"+vh.I(int64(i)).String())
	}
	switch f.deg {
	case "no blinding":
		alpha, rho, tau1, tau2 = vh.I(0), vh.I(0), vh.I(0), vh.I(0)
	case "S neutral, no blinding":
		alpha, rho, tau1, tau2 = vh.I(0), vh.I(0), vh.I(0), vh.I(0)
		sL, sR = none(N), none(N)
	case "S neutral":
		rho, sL, sR = vh.I(0), none(N), none(N)
	case "A neutral":
		alpha, aL, aR = vh.I(0), none(N), none(N)
	case "S equals A":
		rho, sL, sR = alpha, aL, aR
	case "S opposite to A":
		rho = new(big.Int).Neg(alpha)
		for i := range sL {
			sL[i], sR[i] = new(big.Int).Neg(aL[i]), new(big.Int).Neg(aR[i])
		}
	}
	blind := func(e group.Element, k *big.Int) group.Element { return e.Add(e, g.Element().Scale(p.H, k)) }
	s.A = blind(f.vec(aL, aR, p.Gg, p.Hh), alpha)
	s.S = blind(f.vec(sL, sR, p.Gg, p.Hh), rho)
	if f.deg == "A equals V" {
		s.A = g.Element().Set(s.Vs[0])
	}
	s.T1, s.T2 = f.com(f.rnd("d1"), f.rnd("d2")), f.com(f.rnd("d3"), f.rnd("d4"))
	ch, ok := challenges(g, p, f.agg, s)
	if !ok {
		return nil
	}
	hp := make([]group.Element, N)
	for i := range hp {
		hp[i] = g.Element().Scale(p.Hh[i], inv(ch.ys[i], n))
	}
	l0, r0, r1 := make([]*big.Int, N), make([]*big.Int, N), make([]*big.Int, N)
	for i := range l0 {
		l0[i] = mod(add(aL[i], ch.gz[i]), n)
		r0[i] = mod(mul(ch.ys[i], add(aR[i], ch.hz[i])), n)
		r1[i] = mod(mul(ch.ys[i], sR[i]), n)
	}
	// An element chosen with y and z known, and before x.
	need0 := sub(dot(l0, r0, n), ch.delta)
	for j := range s.Vs {
		need0.Sub(need0, mul(ch.w[j], f.vs[j]))
	}
	need0.Mod(need0, n)
	late := int(f.seed % uint64(len(s.Vs))) // the commitment that is chosen late
	switch mode {
	case "V after y and z":
		s.Vs = append([]group.Element{}, s.Vs...)
		s.Vs[late] = g.Element().Add(s.Vs[late], g.Element().BaseScale(mod(mul(need0, inv(ch.w[late], n)), n)))
	case "A after y and z":
		if r0[0].Sign() == 0 {
			return nil
		}
		d := mod(new(big.Int).Neg(mul(need0, inv(r0[0], n))), n)
		l0[0] = mod(add(l0[0], d), n)
		s.A = g.Element().Add(s.A, g.Element().Scale(p.Gg[0], d))
	}
	t1 := mod(add(dot(sL, r0, n), dot(l0, r1, n)), n)
	t2 := dot(sL, r1, n)
	s.T1, s.T2 = f.com(t1, tau1), f.com(t2, tau2)
	switch f.deg {
	case "T1 neutral":
		s.T1 = g.Identity()
	case "T2 neutral":
		s.T2 = g.Identity()
	case "T1 equals T2":
		s.T2 = g.Element().Set(s.T1)
	case "T1 opposite to T2":
		s.T2 = g.Element().Negate(s.T1)
	case "T1 equals V":
		s.T1 = g.Element().Set(s.Vs[0])
	case "base point as T1":
		s.T1 = g.Generator()
	}
	if ch2, ok := challenges(g, p, f.agg, s); !ok {
		return nil
	} else {
		ch.x = ch2.x
	}
	x := ch.x
	l, r := make([]*big.Int, N), make([]*big.Int, N)
	for i := range l {
		l[i] = mod(add(l0[i], mul(sL[i], x)), n)
		r[i] = mod(add(r0[i], mul(r1[i], x)), n)
	}
	taux := mod(ch.lin(s, symbolOf(p.H)), n)
	mu := mod(add(alpha, mul(rho, x)), n)
	prod := dot(l, r, n)                        // what the vectors give
	fit := mod(add(ch.lin(s, "G"), ch.delta), n) // what the polynomial identity needs
	uu := g.Element()
	uu, _ = uu.MapToGroup(bulletproofs.SEEDU)

	tprime, cc := prod, prod
	in := ipInst{Gg: p.Gg, Hh: hp, Uu: uu}
	ll := l
	switch mode {
	case "plain":
	case "cc":
		tprime = fit
	case "cc congruent":
		// Different modulo the order, and equal modulo something else.
		m := []*big.Int{g.P(), new(big.Int).Lsh(vh.I(1), 64), new(big.Int).Lsh(vh.I(1), 256), new(big.Int).Lsh(vh.I(1), 512), add(g.P(), vh.I(1))}[f.seed%5]
		i := inv(mod(n, m), m)
		if i == nil {
			return nil
		}
		tprime = add(fit, mul(n, mod(mul(sub(prod, fit), i), m)))
	case "cc written otherwise":
		tprime = fit
		k := []*big.Int{vh.I(1), vh.I(-1), vh.I(2), vh.I(-2), f.rnd("multiple"), new(big.Int).Lsh(vh.I(1), 256)}[f.seed%6]
		switch f.seed / 6 % 3 {
		case 0:
			cc = add(prod, mul(n, k))
		case 1:
			tprime = add(fit, mul(n, k))
		default:
			cc, tprime = add(prod, mul(n, k)), add(fit, mul(n, k))
		}
	case "ip", "last a", "last b":
		tprime, cc = fit, fit
	case "67":
		tprime, cc = fit, fit
		ll = append([]*big.Int{}, l...)
		ll[0] = mod(add(l[0], mul(sub(fit, prod), inv(r[0], n))), n)
	case "uu":
		tprime, cc = fit, fit
		in.Uu = g.Identity()
	case "gens":
		tprime, cc = fit, fit
		if prod.Sign() == 0 || fit.Sign() == 0 {
			return nil
		}
		lam := mod(mul(fit, inv(prod, n)), n)
		li := inv(lam, n)
		ll = make([]*big.Int, N)
		in.Gg = make([]group.Element, N)
		for i := range l {
			ll[i] = mod(mul(l[i], lam), n)
			in.Gg[i] = g.Element().Scale(p.Gg[i], li)
		}
	case "short":
		tprime, cc = fit, fit
		P := f.vec(l, r, p.Gg, hp)
		pr := bulletproofs.InnerProductProof{P: P, Cc: fit, A: vh.I(1), B: fit,
			Params: bulletproofs.InnerProductParams{Gg: []group.Element{P}, Hh: []group.Element{g.Identity()}, Uu: uu, GP: g}}
		return []cand{{f, s, taux, mu, tprime, pr}}
	case "late V":
		// One commitment is chosen last: any value will do.
		tprime, cc = prod, prod
		need := f.com(sub(tprime, fit), vh.I(0))
		need.Scale(need, inv(ch.w[late], n))
		s.Vs = append([]group.Element{}, s.Vs...)
		s.Vs[late] = g.Element().Add(s.Vs[late], need)
	case "late T1":
		need := f.com(sub(tprime, fit), vh.I(0))
		s.T1 = g.Element().Add(s.T1, g.Element().Scale(need, inv(x, n)))
	case "late T2":
		need := f.com(sub(tprime, fit), vh.I(0))
		s.T2 = g.Element().Add(s.T2, g.Element().Scale(need, inv(mod(mul(x, x), n), n)))
	case "late V and V", "late T1 and T2", "late T1 with T2", "late V and T1":
		// Two elements chosen last whose sum (or difference) stays.
		need := f.com(sub(tprime, fit), vh.I(0))
		s.Vs = append([]group.Element{}, s.Vs...)
		x2 := mod(mul(x, x), n)
		to, from, by := &s.T1, &s.T2, sub(x, x2)
		switch mode {
		case "late V and V":
			if len(s.Vs) == 1 {
				return nil
			}
			o := (late + 1 + int(f.seed/11%uint64(len(s.Vs)-1))) % len(s.Vs)
			to, from, by = &s.Vs[late], &s.Vs[o], sub(ch.w[late], ch.w[o])
		case "late T1 with T2":
			by = add(x, x2)
		case "late V and T1":
			to, from, by = &s.Vs[late], &s.T1, sub(ch.w[late], x)
		}
		by = inv(mod(by, n), n)
		if by == nil {
			return nil
		}
		need.Scale(need, by)
		*to = g.Element().Add(*to, need)
		if mode == "late T1 with T2" {
			*from = g.Element().Add(*from, need)
		} else {
			*from = g.Element().Subtract(*from, need)
		}
	case "late A", "late S", "late mu", "late P", "late A and S":
		// Vectors with the right product, and a commitment that
		// is made to fit afterwards.
		tprime, cc = fit, fit
		ll = append([]*big.Int{}, l...)
		ll[0] = mod(add(l[0], mul(sub(fit, prod), inv(r[0], n))), n)
		d := g.Element().Scale(p.Gg[0], sub(ll[0], l[0]))
		switch mode {
		case "late A":
			s.A = g.Element().Add(s.A, d)
		case "late S":
			s.S = g.Element().Add(s.S, g.Element().Scale(d, inv(x, n)))
		case "late A and S":
			by := inv(mod(sub(x, vh.I(1)), n), n)
			if by == nil {
				return nil
			}
			d.Scale(d, by)
			s.S = g.Element().Add(s.S, d)
			s.A = g.Element().Subtract(s.A, d)
		case "late mu":
			mu = mod(add(mu, vh.I(1)), n)
		case "late P":
			// P of the commitment identity, vectors of another.
			in.P = f.vec(l, r, p.Gg, hp)
		}
	}
	if in.P == nil {
		in.P = f.vec(ll, r, in.Gg, in.Hh)
	}
	in.c = cc
	var out []cand
	for _, ip := range ipProve(g, in, ll, r) {
		c := cand{f, s, taux, mu, tprime, ip}
		if mode == "last a" || mode == "last b" {
			// The last numbers give the product, and not the commitment.
			last, by := &c.ip.A, c.ip.B
			if mode == "last b" {
				last, by = &c.ip.B, c.ip.A
			}
			by = inv(mod(by, n), n)
			if by == nil {
				continue
			}
			*last = mod(add(*last, mul(sub(fit, prod), by)), n)
		}
		switch f.deg {
		case "a zero":
			c.ip.A = vh.I(0)
		case "b zero":
			c.ip.B = vh.I(0)
		case "a equals b":
			c.ip.B = c.ip.A
		case "mu zero":
			c.mu = vh.I(0)
		case "taux zero":
			c.taux = vh.I(0)
		case "product zero":
			c.tprime, c.ip.Cc = vh.I(0), vh.I(0)
		case "P neutral":
			c.ip.P = g.Identity()
		}
		if k := len(ip.L); k > 0 {
			k = int(f.seed/7) % k
			switch f.deg {
			case "L neutral":
				c.ip.L[k] = g.Identity()
			case "R neutral":
				c.ip.R[k] = g.Identity()
			case "L equals R":
				c.ip.L[k] = c.ip.R[k]
			}
		}
		out = append(out, c)
	}
	return out
}

// cand is a candidate proof.
type cand struct {
	f                *forger
	s                stmt
	taux, mu, tprime *big.Int
	ip               bulletproofs.InnerProductProof
}

func (c cand) accepted() bool { return runVerify(c.f.p, c.f.agg, c.s, c.taux, c.mu, c.tprime, c.ip) }

func anyAccepted(cs []cand) bool {
	for _, c := range cs {
		if c.accepted() {
			return true
		}
	}
	return false
}

// ipProve runs the inner product prover with any vectors; it returns the
// candidates for the two signs of the last fold.
func ipProve(g *vh.TGroup, in ipInst, a, b []*big.Int) []bulletproofs.InnerProductProof {
	n := g.N()
	if in.c.Sign() == 0 {
		return nil
	}
	x0, ok := ipBase(g, in)
	if !ok {
		x0 = vh.I(1) // perhaps it does not matter
	}
	ux := g.Element().Scale(in.Uu, x0)
	acc := g.Element().Add(in.P, g.Element().Scale(ux, in.c))
	if in.neg {
		ux.Negate(g.Element().Set(ux))
	}
	Gg, Hh := in.Gg, in.Hh
	var L, R []group.Element
	for len(a) > 1 {
		h := len(a) / 2
		le, re := g.Element().Scale(ux, dot(a[:h], b[h:], n)), g.Element().Scale(ux, dot(a[h:], b[:h], n))
		for i := 0; i < h; i++ {
			le.Add(le, g.Element().Scale(Gg[h+i], a[i]))
			le.Add(le, g.Element().Scale(Hh[i], b[h+i]))
			re.Add(re, g.Element().Scale(Gg[i], a[h+i]))
			re.Add(re, g.Element().Scale(Hh[h+i], b[i]))
		}
		L, R = append(L, le), append(R, re)
		x2, ok := ipRound(g, in, vh.T(acc), L, R)
		if !ok {
			return nil
		}
		x := new(big.Int).ModSqrt(x2, n)
		if x == nil || x.Sign() == 0 {
			return nil
		}
		xi := inv(x, n)
		na, nb := make([]*big.Int, h), make([]*big.Int, h)
		ng, nh := make([]group.Element, h), make([]group.Element, h)
		for i := 0; i < h; i++ {
			na[i] = mod(add(mul(a[i], x), mul(a[h+i], xi)), n)
			nb[i] = mod(add(mul(b[i], xi), mul(b[h+i], x)), n)
			ng[i] = g.Element().Add(g.Element().Scale(Gg[i], xi), g.Element().Scale(Gg[h+i], x))
			nh[i] = g.Element().Add(g.Element().Scale(Hh[i], x), g.Element().Scale(Hh[h+i], xi))
		}
		acc = g.Element().Add(acc, g.Element().Add(g.Element().Scale(le, x2), g.Element().Scale(re, inv(x2, n))))
		a, b, Gg, Hh = na, nb, ng, nh
	}
	p1 := in.proof(g, L, R, a[0], b[0])
	p2 := in.proof(g, L, R, mod(new(big.Int).Neg(a[0]), n), mod(new(big.Int).Neg(b[0]), n))
	return []bulletproofs.InnerProductProof{p1, p2}
}

// cheatVectors gives bit vectors for a value that is not in the range. Each
// kind is accepted by a verifier with a particular weakness.
// y and z are challenges of an unrelated proof: they help when the challenges
// are constants.
func cheatVectors(rt *rapid.T, n *big.Int, N int, v, y0, z0 *big.Int) (aL, aR []*big.Int, kind string) {
	if y0 == nil {
		y0 = vh.I(1)
	}
	if z0 == nil {
		z0 = vh.I(1)
	}
	aL, aR = bitsOf(mod(v, n), N)
	top := func() *big.Int { // what is missing in <aL, 2^n>
		s := vh.I(0)
		for i := range aL {
			s.Add(s, new(big.Int).Lsh(aL[i], uint(i)))
		}
		return mod(sub(v, s), n)
	}
	neg1 := vh.I(-1)
	fix := func(i int) { // put the missing part into position i
		w := inv(new(big.Int).Lsh(vh.I(1), uint(i)), n)
		aL[i] = mod(add(aL[i], mul(top(), w)), n)
		aR[i] = add(aL[i], neg1)
	}
	switch k := vh.Pick(rt, 8, "cheat"); {
	case k == 0:
		return aL, aR, "low bits"
	case k == 1:
		i := vh.Pick(rt, N, "position")
		fix(i)
		return aL, aR, "one digit is not a bit"
	case k == 2:
		i := vh.Pick(rt, N, "position")
		fix(i)
		aR[i] = vh.I(0)
		return aL, aR, "one digit is not a bit, its partner is zero"
	case k == 3 && N > 1:
		// Errors of the product constraint cancel if all positions
		// weigh the same, or as in another known geometric series.
		i := vh.Pick(rt, N, "position")
		j := (i + 1 + vh.Pick(rt, N-1, "other")) % N
		y := vh.OneOf(rt, "series", []*big.Int{vh.I(1), vh.I(2), neg1, vh.I(4), y0, y0, z0})
		fix(i)
		e := mul(aL[i], aR[i])
		e.Mul(e, new(big.Int).Exp(mod(y, n), vh.I(int64(i)), n))
		e.Mul(e, inv(new(big.Int).Exp(mod(y, n), vh.I(int64(j)), n), n))
		aR[j] = mod(new(big.Int).Neg(e), n)
		b := aL[j]
		if b.Sign() == 0 {
			// The difference constraint is satisfied the same way.
			aL[j] = vh.I(1)
			fix(i)
			e = mul(mul(aL[i], aR[i]), new(big.Int).Exp(mod(y, n), vh.I(int64(i)), n))
			e.Mul(e, inv(new(big.Int).Exp(mod(y, n), vh.I(int64(j)), n), n))
			aR[j] = mod(new(big.Int).Neg(e), n)
		}
		d := aR[j] // aL[j]-1-aR[j] = -aR[j] must cancel: use aR[i]
		aR[i] = mod(sub(aR[i], mul(d, mul(new(big.Int).Exp(mod(y, n), vh.I(int64(j)), n), inv(new(big.Int).Exp(mod(y, n), vh.I(int64(i)), n), n)))), n)
		return aL, aR, "cancelling pair"
	case k == 4 && N > 1:
		// y = z: an error of the difference constraint at position 1
		// weighs as much as an error of the value.
		i := 1
		if rapid.Bool().Draw(rt, "elsewhere") {
			i = vh.Pick(rt, N, "position")
		}
		aL[i], aR[i] = vh.I(0), vh.I(-1)
		aR[i] = mod(sub(vh.I(-1), top()), n)
		if i != 1 {
			return aL, aR, "value error moved to a difference constraint"
		}
		return aL, aR, "value error moved to the difference constraint of equal weight"
	case k == 5:
		// z = 1, 2: a value error moved with a constant factor.
		z := vh.OneOf(rt, "z", []*big.Int{vh.I(1), vh.I(2), z0, z0, y0})
		aL[0] = vh.I(0)
		aR[0] = mod(sub(vh.I(-1), mul(z, top())), n)
		return aL, aR, "value error moved with a constant factor"
	case k == 6 && N > 1:
		// Two digits compensate each other in the value.
		i := vh.Pick(rt, N-1, "position")
		aL[i] = add(aL[i], vh.I(2))
		aL[i+1] = sub(aL[i+1], vh.I(1))
		aR[i], aR[i+1] = sub(aL[i], vh.I(1)), sub(aL[i+1], vh.I(1))
		return aL, aR, "carried digits"
	default:
		i := N - 1
		fix(i)
		return aL, aR, "top digit is not a bit"
	}
}

// learn returns the challenges of an unrelated statement of this shape.
func (f *forger) learn(m int) (y, z *big.Int) {
	o := &forger{g: f.g, p: f.p, agg: f.agg, seed: f.seed + 991}
	ch, ok := challenges(f.g, f.p, f.agg, randomStmt(o, m))
	if !ok {
		return nil, nil
	}
	return ch.y, ch.z
}

// drawMode draws a way to forge; following the protocol with a bad witness is
// the most frequent.
func drawMode(rt *rapid.T) string {
	if vh.Pick(rt, 3, "plain") == 0 {
		return "plain"
	}
	return vh.OneOf(rt, "mode", forgeModes)
}

func randomStmt(f *forger, m int) stmt {
	g := f.g
	el := func(l string) group.Element {
		return g.Lin(map[string]*big.Int{"G": f.rnd(l + "0"), symbolOf(f.p.H): f.rnd(l + "1"), symbolOf(f.p.Gg[0]): f.rnd(l + "2")})
	}
	s := stmt{A: el("A"), S: el("S"), T1: el("T1"), T2: el("T2")}
	for j := 0; j < m; j++ {
		s.Vs = append(s.Vs, el(fmt.Sprint("V", j)))
	}
	return s
}

// solve looks for vectors and values that satisfy the verifier's equations
// whatever its challenges are. aL is given; the partners aR and the values
// enter linearly, with coefficients that are read off the verifier for as many
// statements as are needed to determine them. It returns every committed value
// list of a basis of the solutions (added to one solution), with its aR.
func (f *forger) solve(m int, aL []*big.Int) (vs, aRs [][]*big.Int, ok bool) {
	n := f.g.N()
	N := len(aL)
	cols := N + m
	var rows [][]*big.Int
	for k := 0; k < cols+2; k++ {
		o := &forger{g: f.g, p: f.p, agg: f.agg, seed: f.seed + 1000 + uint64(k)}
		ch, ok := challenges(f.g, f.p, f.agg, randomStmt(o, m))
		if !ok {
			return nil, nil, false
		}
		// sum (aL+gz) ys (aR+hz) = sum w v + delta
		row := make([]*big.Int, cols+1)
		row[cols] = new(big.Int).Set(ch.delta)
		for i := range aL {
			c := mod(mul(add(aL[i], ch.gz[i]), ch.ys[i]), n)
			row[i] = c
			row[cols].Sub(row[cols], mul(c, ch.hz[i]))
		}
		for j := 0; j < m; j++ {
			row[N+j] = mod(new(big.Int).Neg(ch.w[j]), n)
		}
		row[cols].Mod(row[cols], n)
		rows = append(rows, row)
	}
	// Gauss-Jordan.
	pivot := make([]int, 0, cols)
	r := 0
	for c := 0; c < cols && r < len(rows); c++ {
		s := r
		for s < len(rows) && rows[s][c].Sign() == 0 {
			s++
		}
		if s == len(rows) {
			continue
		}
		rows[r], rows[s] = rows[s], rows[r]
		iv := inv(rows[r][c], n)
		for k := range rows[r] {
			rows[r][k] = mod(mul(rows[r][k], iv), n)
		}
		for s := range rows {
			if s != r && rows[s][c].Sign() != 0 {
				q := rows[s][c]
				nr := make([]*big.Int, cols+1)
				for k := range nr {
					nr[k] = mod(sub(rows[s][k], mul(q, rows[r][k])), n)
				}
				rows[s] = nr
			}
		}
		pivot = append(pivot, c)
		r++
	}
	for _, row := range rows[r:] {
		if row[cols].Sign() != 0 {
			return nil, nil, true // no solution
		}
	}
	isPivot := map[int]int{}
	for i, c := range pivot {
		isPivot[c] = i
	}
	emit := func(free int) {
		sol := make([]*big.Int, cols)
		for c := range sol {
			sol[c] = vh.I(0)
			if i, ok := isPivot[c]; ok {
				sol[c] = rows[i][cols]
				if free >= 0 {
					sol[c] = mod(sub(sol[c], rows[i][free]), n)
				}
			} else if c == free {
				sol[c] = vh.I(1)
			}
		}
		aRs, vs = append(aRs, sol[:N]), append(vs, sol[N:])
	}
	emit(-1)
	for c := 0; c < cols; c++ {
		if _, ok := isPivot[c]; !ok {
			emit(c)
		}
	}
	return vs, aRs, true
}

// solveOutside solves for drawn digits and tries the solutions with a value
// that does not fit.
func solveOutside(rt *rapid.T, c *vh.Case, g *vh.TGroup, p setupParams, agg bool, m int) {
	N := int(p.N)
	bits := uint(N / m)
	seed := vh.Seed64(rt, "seed")
	f := &forger{g: g, p: p, agg: agg, seed: seed}
	aL := make([]*big.Int, N)
	kind := vh.Pick(rt, 4, "digits")
	for i := range aL {
		aL[i] = vh.I(int64(vh.Pick(rt, 2, "bit")))
		if kind == 1 && i == int(seed%uint64(N)) || kind == 2 {
			aL[i] = f.rnd(fmt.Sprint("digit", i))
		}
		if kind == 3 {
			aL[i] = vh.I(int64(vh.Pick(rt, 5, "digit") - 1))
		}
	}
	vss, aRs, ok := f.solve(m, aL)
	if !ok {
		c.Vacuous("the verifier's equations could not be read")
		return
	}
	outside := func(vs []*big.Int) bool {
		for _, v := range vs {
			if v.BitLen() > int(bits) {
				return true
			}
		}
		return false
	}
	for i := range vss {
		if !outside(vss[i]) {
			continue
		}
		a := &forger{g: g, p: p, agg: agg, seed: seed + 1, vs: vss[i], aL: aL, aR: aRs[i]}
		for j := range a.vs {
			a.gammas = append(a.gammas, a.rnd(fmt.Sprint("gamma", j)))
		}
		if anyAccepted(a.forge("plain")) {
			rt.Fatalf("%d bits: a proof for the committed values %v is accepted; digits %v, partners %v", N, vss[i], aL, aRs[i])
		}
	}
	c.NonTrivial(N, m, aL)
	c.Label("%s", []string{"bits", "one digit is not a bit", "no digit is a bit", "small digits"}[kind])
	c.Label("%d solutions", len(vss))
}

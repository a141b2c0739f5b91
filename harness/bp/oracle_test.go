package bp

import (
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
)

// The verifier itself serves as the oracle for its challenges: elements are
// replaced by fresh symbols that behave as they do, so the challenges stay
// what they are, and are then read off the coefficients of the
// equations the verifier compares.

// stmt is what the challenges of a range proof depend on.
type stmt struct {
	Vs           []group.Element
	A, S, T1, T2 group.Element
}

// chals are the challenges of a range proof; y is nil for a single bit, where
// it does not occur. gz and hz are what the commitment identity adds to the
// generators (-z, and z + z^(2+j) 2^i y^-i), ys the inverse factors of the
// second generators in the inner product argument (y^i).
type chals struct {
	x, y, z, delta *big.Int
	w              []*big.Int // factors of the value commitments
	gz, hz, ys     []*big.Int
}

// agg selects the aggregated verifier.
func runVerify(p setupParams, agg bool, s stmt, taux, mu, tprime *big.Int, ipp bulletproofs.InnerProductProof) (ok bool) {
	if agg {
		pr := bulletproofs.MultiBulletProof{Vs: s.Vs, A: s.A, S: s.S, T1: s.T1, T2: s.T2, Taux: taux, Mu: mu, Tprime: tprime,
			InnerProductProof: ipp, Params: p}
		ok, _ = pr.Verify()
		return ok
	}
	pr := bulletproofs.BulletProof{V: s.Vs[0], A: s.A, S: s.S, T1: s.T1, T2: s.T2, Taux: taux, Mu: mu, Tprime: tprime,
		InnerProductProof: ipp, Params: p}
	ok, _ = pr.Verify()
	return ok
}

// record runs f and returns the differences that were compared.
func record(g *vh.TGroup, f func()) []*vh.TElem {
	rec := &vh.Recorder{}
	g.Rec = rec
	defer func() {
		g.Rec = nil
		g.Unprobe()
	}()
	f()
	return rec.Diffs
}

func disguise(g *vh.TGroup, sym string, as group.Element) *vh.TElem {
	return g.Probe(sym, as)
}

func emptyIPP(g *vh.TGroup, p setupParams, c *big.Int) bulletproofs.InnerProductProof {
	out := bulletproofs.InnerProductProof{P: g.Identity(), Cc: c, A: vh.I(0), B: vh.I(0)}
	for n := p.N; n > 1; n /= 2 {
		out.L = append(out.L, g.Identity())
		out.R = append(out.R, g.Identity())
	}
	out.Params = bulletproofs.InnerProductParams{Gg: p.Gg, Hh: p.Hh, Uu: g.Sym("probe-u"), GP: g}
	return out
}

// symbolOf returns the only symbol of a generator.
func symbolOf(e group.Element) string {
	s := vh.T(e).Symbols()
	if len(s) != 1 {
		return ""
	}
	return s[0]
}

// challenges asks the verifier for the challenges of a statement. It fails
// when the verifier does not work in the way assumed.
func challenges(g *vh.TGroup, p setupParams, agg bool, s stmt) (ch chals, ok bool) {
	defer func() {
		if recover() != nil {
			g.Rec = nil
			g.Unprobe()
			ok = false
		}
	}()
	n := g.N()
	zero := vh.I(0)
	// The polynomial identity.
	diffs := record(g, func() {
		d := s
		d.Vs = make([]group.Element, len(s.Vs))
		for i := range s.Vs {
			d.Vs[i] = disguise(g, "probe-v"+string(rune('a'+i)), s.Vs[i])
		}
		d.T1 = disguise(g, "probe-t1", s.T1)
		d.T2 = disguise(g, "probe-t2", s.T2)
		runVerify(p, agg, d, zero, zero, zero, emptyIPP(g, p, zero))
	})
	var z2 *big.Int
	for _, d := range diffs {
		c1, c2, cv := d.Coef("probe-t1"), d.Coef("probe-t2"), d.Coef("probe-va")
		if c1.Sign() == 0 || c2.Sign() == 0 || cv.Sign() == 0 {
			continue
		}
		ch.x = mod(mul(c2, inv(c1, n)), n)
		k := inv(mod(mul(c1, inv(ch.x, n)), n), n) // overall factor
		for i := range s.Vs {
			ch.w = append(ch.w, mod(mul(d.Coef("probe-v"+string(rune('a'+i))), k), n))
		}
		z2 = ch.w[0]
		ch.delta = mod(mul(d.Coef("G"), k), n)
		break
	}
	if z2 == nil {
		return ch, false
	}
	// The commitment identity; the polynomial identity is made to hold, for
	// the verifier may stop when it does not.
	h := symbolOf(p.H)
	tprime := mod(add(ch.lin(s, "G"), ch.delta), n)
	taux := mod(ch.lin(s, h), n)
	diffs = record(g, func() {
		d := s
		d.A = disguise(g, "probe-a", s.A)
		d.S = disguise(g, "probe-s", s.S)
		runVerify(p, agg, d, taux, zero, tprime, emptyIPP(g, p, tprime))
	})
	for _, d := range diffs {
		ca, cs := d.Coef("probe-a"), d.Coef("probe-s")
		if ca.Sign() == 0 || cs.Sign() == 0 {
			continue
		}
		k := inv(ca, n)
		if mod(mul(cs, k), n).Cmp(ch.x) != 0 {
			continue
		}
		for i := range p.Gg {
			ch.gz = append(ch.gz, mod(mul(d.Coef(symbolOf(p.Gg[i])), k), n))
			ch.hz = append(ch.hz, mod(mul(d.Coef(symbolOf(p.Hh[i])), k), n))
		}
		break
	}
	if ch.gz == nil {
		return ch, false
	}
	ch.z = mod(new(big.Int).Neg(ch.gz[0]), n)
	if !ch.textbook(p, n) && !ch.fold(g, p, agg, s, taux, tprime) {
		return ch, false
	}
	if p.N > 1 {
		ch.y = ch.ys[1]
		return ch, ch.y.Sign() != 0
	}
	return ch, true
}

// textbook reads y off the commitment identity, if that is as in the paper.
func (ch *chals) textbook(p setupParams, n *big.Int) bool {
	share := int(p.N) / len(ch.w)
	var y *big.Int
	for i := range ch.gz {
		w := new(big.Int).Exp(ch.z, vh.I(int64(2+i/share)), n)
		if i%share == 0 && w.Cmp(ch.w[i/share]) != 0 {
			return false
		}
		w.Mul(w, new(big.Int).Lsh(vh.I(1), uint(i%share)))
		v := mod(sub(ch.hz[i], ch.z), n)
		if v.Sign() == 0 || ch.gz[i].Cmp(ch.gz[0]) != 0 {
			return false
		}
		yi := mod(mul(w, inv(v, n)), n)
		if i == 1 {
			y = yi
		}
		want := vh.I(1)
		if i > 0 {
			want.Exp(y, vh.I(int64(i)), n)
		}
		if yi.Cmp(want) != 0 {
			return false
		}
		ch.ys = append(ch.ys, yi)
	}
	return true
}

// fold reads the factors of the second generators off the last check of the
// inner product argument; both identities of the range proof hold.
func (ch *chals) fold(g *vh.TGroup, p setupParams, agg bool, s stmt, taux, tprime *big.Int) bool {
	n := g.N()
	ch.ys = nil
	P := g.Element().Add(s.A, g.Element().Scale(s.S, ch.x))
	for i := range p.Gg {
		P.Add(P, g.Element().Scale(p.Gg[i], ch.gz[i]))
		P.Add(P, g.Element().Scale(p.Hh[i], ch.hz[i]))
	}
	run := func(a int64) []*vh.TElem {
		return record(g, func() {
			ip := emptyIPP(g, p, tprime)
			ip.P, ip.A, ip.B = P, vh.I(a), vh.I(a)
			runVerify(p, agg, s, taux, vh.I(0), tprime, ip)
		})
	}
	d0, d1 := run(0), run(1)
	for i := range d0 {
		if len(d1) != len(d0) {
			return false
		}
		k := factor(d0[i], vh.T(P), n)
		if k == nil {
			continue
		}
		k = mod(mul(k, k), n)
		var ys []*big.Int
		for j := range p.Gg {
			sg, sh := symbolOf(p.Gg[j]), symbolOf(p.Hh[j])
			e := mul(sub(d1[i].Coef(sg), d0[i].Coef(sg)), sub(d1[i].Coef(sh), d0[i].Coef(sh)))
			if e.Mod(e, n); e.Sign() == 0 {
				break
			}
			ys = append(ys, mod(mul(k, inv(e, n)), n))
		}
		if len(ys) == len(p.Gg) {
			ch.ys = ys
			return true
		}
	}
	return false
}

// lin is the known part of the polynomial identity on one symbol.
func (ch chals) lin(s stmt, symbol string) *big.Int {
	out := vh.I(0)
	for i, v := range s.Vs {
		out.Add(out, mul(ch.w[i], vh.T(v).Coef(symbol)))
	}
	out.Add(out, mul(ch.x, vh.T(s.T1).Coef(symbol)))
	return out.Add(out, mul(mul(ch.x, ch.x), vh.T(s.T2).Coef(symbol)))
}

// ipInst is an instance of the inner product argument.
type ipInst struct {
	Gg, Hh []group.Element
	Uu     group.Element
	P      group.Element
	c      *big.Int
	neg    bool // the prover takes products with the other sign
}

func (in ipInst) proof(g *vh.TGroup, L, R []group.Element, a, b *big.Int) bulletproofs.InnerProductProof {
	return bulletproofs.InnerProductProof{P: in.P, Cc: in.c, A: a, B: b, L: L, R: R,
		Params: bulletproofs.InnerProductParams{Gg: in.Gg, Hh: in.Hh, Uu: in.Uu, GP: g}}
}

func padded(g *vh.TGroup, e []group.Element, rounds int) []group.Element {
	out := append([]group.Element{}, e...)
	for len(out) < rounds {
		out = append(out, g.Identity())
	}
	return out
}

func log2(n int) int {
	r := 0
	for n > 1 {
		n /= 2
		r++
	}
	return r
}

// ipBase asks for the challenge that multiplies U.
func ipBase(g *vh.TGroup, in ipInst) (x *big.Int, ok bool) {
	defer func() {
		if recover() != nil {
			g.Rec, ok = nil, false
			g.Unprobe()
		}
	}()
	rounds := log2(len(in.Gg))
	n := g.N()
	probe := in
	diffs := record(g, func() {
		probe.Uu = disguise(g, "probe-u", in.Uu)
		_, _ = probe.proof(g, padded(g, nil, rounds), padded(g, nil, rounds), vh.I(0), vh.I(0)).Verify()
	})
	for _, d := range diffs {
		// k (P + x c U)
		cu := d.Coef("probe-u")
		k := factor(d, vh.T(in.P), n)
		if cu.Sign() == 0 || k == nil {
			continue
		}
		return mod(mul(cu, inv(mod(mul(k, in.c), n), n)), n), true
	}
	return nil, false
}

// factor returns k with d = k e on the first symbol of e.
func factor(d, e *vh.TElem, n *big.Int) *big.Int {
	for _, s := range e.Symbols() {
		if c := d.Coef(s); c.Sign() != 0 {
			return mod(mul(c, inv(e.Coef(s), n)), n)
		}
		return nil
	}
	return nil
}

// ipRound asks for the square of the challenge of the last of the given
// rounds. acc is the commitment before it.
func ipRound(g *vh.TGroup, in ipInst, acc *vh.TElem, L, R []group.Element) (x2 *big.Int, ok bool) {
	defer func() {
		if recover() != nil {
			g.Rec, ok = nil, false
			g.Unprobe()
		}
	}()
	rounds := log2(len(in.Gg))
	i := len(L) - 1
	n := g.N()
	diffs := record(g, func() {
		l := disguise(g, "probe-l", L[i])
		r := disguise(g, "probe-r", R[i])
		LL := append(append([]group.Element{}, L[:i]...), l)
		RR := append(append([]group.Element{}, R[:i]...), r)
		_, _ = in.proof(g, padded(g, LL, rounds), padded(g, RR, rounds), vh.I(0), vh.I(0)).Verify()
	})
	for _, d := range diffs {
		cl, cr := d.Coef("probe-l"), d.Coef("probe-r")
		k := factor(d, acc, n)
		if cl.Sign() == 0 || cr.Sign() == 0 || k == nil {
			continue
		}
		x2 = mod(mul(cl, inv(k, n)), n)
		return x2, mod(mul(cl, cr), n).Cmp(mod(mul(k, k), n)) == 0
	}
	return nil, false
}

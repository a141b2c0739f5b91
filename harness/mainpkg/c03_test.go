package main

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// zzField3 is one proof-bearing field of a ballot.
type zzField3 struct {
	name string
	elem *group.Element
	num  **big.Int
	g    group.Group // group of the element, or of the scalar
	int  bool        // compared as an integer
}

func (f zzField3) value() string {
	if f.elem != nil {
		return zzBin(*f.elem)
	}
	if f.int {
		return (*f.num).String()
	}
	return zzMod(*f.num, f.g.N()).String()
}

// zzCopy copies a ballot so that fields can be replaced.
func zzCopy(bd BallotData) *BallotData {
	out := bd
	for _, p := range []*bulletproofs.BulletProof{&out.BpLower, &out.BpUpper} {
		p.InnerProductProof.L = append([]group.Element{}, p.InnerProductProof.L...)
		p.InnerProductProof.R = append([]group.Element{}, p.InnerProductProof.R...)
	}
	return &out
}

// fields lists the proof-bearing fields of a ballot.
func (cf *zzConf) fields(bd *BallotData) (out []zzField3) {
	e := func(name string, p *group.Element, g group.Group) { out = append(out, zzField3{name: name, elem: p, g: g}) }
	s := func(name string, p **big.Int, g group.Group, i bool) {
		out = append(out, zzField3{name: name, num: p, g: g, int: i})
	}
	e("ballot U", &bd.Ballot.U, cf.ff)
	e("ballot V", &bd.Ballot.V, cf.ff)
	for _, x := range []struct {
		n string
		p *bulletproofs.BulletProof
	}{{"lower ", &bd.BpLower}, {"upper ", &bd.BpUpper}} {
		e(x.n+"V", &x.p.V, cf.ec)
		e(x.n+"A", &x.p.A, cf.ec)
		e(x.n+"S", &x.p.S, cf.ec)
		e(x.n+"T1", &x.p.T1, cf.ec)
		e(x.n+"T2", &x.p.T2, cf.ec)
		s(x.n+"Taux", &x.p.Taux, cf.ec, false)
		s(x.n+"Mu", &x.p.Mu, cf.ec, false)
		s(x.n+"Tprime", &x.p.Tprime, cf.ec, false)
		ip := &x.p.InnerProductProof
		e(x.n+"inner P", &ip.P, cf.ec)
		s(x.n+"inner Cc", &ip.Cc, cf.ec, false)
		s(x.n+"inner a", &ip.A, cf.ec, false)
		s(x.n+"inner b", &ip.B, cf.ec, false)
		for i := range ip.L {
			e(fmt.Sprintf("%sinner L%d", x.n, i), &ip.L[i], cf.ec)
			if i < len(ip.R) {
				e(fmt.Sprintf("%sinner R%d", x.n, i), &ip.R[i], cf.ec)
			}
		}
	}
	v := &bd.VoteProof
	e("W", &v.W, cf.ff)
	e("Kp", &v.Kp, cf.ff)
	e("Kq1", &v.Kq1, cf.ec)
	e("Kq2", &v.Kq2, cf.ec)
	s("challenge", &v.Challenge, cf.ff, true)
	s("Z", &v.Z, cf.ff, true)
	s("Sp", &v.Sp, cf.ff, false)
	s("Sq1", &v.Sq1, cf.ec, false)
	s("Sq2", &v.Sq2, cf.ec, false)
	return out
}

// zzAlter gives a field another value. Parts of the same kind in the pool may
// serve as values.
func zzAlter(rt *rapid.T, cf *zzConf, f zzField3, pool []zzField3) string {
	if f.elem != nil {
		g := f.g
		old := *f.elem
		neg := zzSub(g.N(), vh.I(1))
		h := cf.pp.BPParams.H
		if g == cf.ff {
			h = cf.pp.EGPK
		}
		kind := vh.OneOf(rt, "how", []string{"+G", "-G", "+H", "-H", "negated", "doubled", "identity", "generator", "random", "another field", "another field"})
		var x group.Element
		switch kind {
		case "+G":
			x = g.Element().Add(old, g.Generator())
		case "-G":
			x = g.Element().Add(old, g.Element().BaseScale(neg))
		case "+H":
			x = g.Element().Add(old, h)
		case "-H":
			x = g.Element().Add(old, g.Element().Scale(h, neg))
		case "negated":
			x = g.Element().Scale(old, neg)
		case "doubled":
			x = g.Element().Add(old, old)
		case "identity":
			x = g.Identity()
		case "generator":
			x = g.Generator()
		case "random":
			x = g.Element().BaseScale(vh.DetInt(vh.Seed64(rt, "x"), "x", g.N()))
		default:
			var same []group.Element
			for _, p := range pool {
				if p.elem != nil && p.g == g && p.value() != f.value() {
					same = append(same, *p.elem)
				}
			}
			x = g.Generator()
			if len(same) > 0 {
				x = vh.OneOf(rt, "which", same)
			}
		}
		if zzBin(x) == zzBin(old) {
			x = g.Element().Add(old, g.Generator())
		}
		*f.elem = g.Element().Set(x)
		return kind
	}
	n := f.g.N()
	old := *f.num
	kind := vh.OneOf(rt, "how", []string{"+1", "-1", "bit", "negated", "0", "1", "random", "another field", "+1 bit", "other order", "far", "far", "shifted"})
	var x *big.Int
	switch kind {
	case "+1":
		x = zzAdd(old, vh.I(1))
	case "-1":
		x = zzSub(old, vh.I(1))
	case "bit":
		x = new(big.Int).Xor(old, new(big.Int).Lsh(vh.I(1), uint(vh.Pick(rt, n.BitLen(), "bit"))))
	case "far":
		// Beyond the usual lengths of numbers, on either side.
		x = new(big.Int).Lsh(vh.I(1), uint(vh.OneOf(rt, "far", []int{64, 128, 256, 257, 260, 320, 384, 400, 512, 520, 1024, 2048, 3072, 4096})))
		if rapid.Bool().Draw(rt, "below") {
			x.Neg(x)
		}
		x = zzAdd(old, x)
	case "shifted":
		x = new(big.Int).Lsh(old, uint(1+vh.Pick(rt, 16, "shift")))
	case "negated":
		x = new(big.Int).Neg(old)
	case "0":
		x = vh.I(0)
	case "1":
		x = vh.I(1)
	case "random":
		x = vh.DetInt(vh.Seed64(rt, "x"), "x", n)
	case "+1 bit":
		x = zzAdd(old, new(big.Int).Lsh(vh.I(1), uint(vh.Pick(rt, n.BitLen()+30, "bit"))))
	case "other order":
		// Plus the order of the other group.
		x = zzAdd(old, cf.ff.N())
		if f.g == cf.ff {
			x = zzAdd(old, cf.ec.N())
		}
	default:
		x = zzAdd(old, vh.I(1))
		var same []*big.Int
		for _, p := range pool {
			if p.num != nil {
				same = append(same, *p.num)
			}
		}
		if len(same) > 0 {
			x = new(big.Int).Set(vh.OneOf(rt, "which", same))
		}
	}
	if f.int && x.Cmp(old) == 0 || !f.int && zzMod(x, n).Cmp(zzMod(old, n)) == 0 {
		x = zzAdd(old, vh.I(1))
	}
	*f.num = x
	return kind
}

func (cf *zzConf) mustReject(rt *rapid.T, bd *BallotData, what string) {
	if cf.accepts(*bd) {
		rt.Fatalf("%v: an altered ballot is accepted: %s", cf, what)
	}
	b := zzJSON(rt, *bd)
	if ok, _ := cf.judge(b); ok {
		rt.Fatalf("%v: an altered ballot is accepted as JSON: %s", cf, what)
	}
}

func zzPair(rt *rapid.T, cf *zzConf) (a, b BallotData) {
	ma, mb := cf.candidate(rt, "a"), cf.candidate(rt, "b")
	if vh.Pick(rt, 3, "same") == 0 {
		mb = ma
	}
	s := vh.Seed64(rt, "tape")
	a, _ = cf.castFor(rt, ma, vh.NewTape(s))
	b, _ = cf.castFor(rt, mb, vh.NewTape(s+1))
	if !cf.accepts(a) || !cf.accepts(b) {
		rt.Fatalf("%v: an honest ballot (for %d or %d) is rejected", cf, ma, mb)
	}
	return a, b
}

// zzAltered alters fields of one ballot in turn.
func zzAltered(rt *rapid.T, c *vh.Case, cf *zzConf, rounds int) {
	a, b := zzPair(rt, cf)
	pool := append(cf.fields(zzCopy(a)), cf.fields(zzCopy(b))...)
	for i := 0; i < rounds; i++ {
		x := zzCopy(a)
		if vh.Pick(rt, 8, "relist") == 0 {
			how := zzRelist(rt, cf, x)
			lists := func(bd *BallotData) (out string) {
				for _, l := range [][]group.Element{bd.BpLower.InnerProductProof.L, bd.BpLower.InnerProductProof.R, bd.BpUpper.InnerProductProof.L, bd.BpUpper.InnerProductProof.R} {
					for _, e := range l {
						out += fmt.Sprintf("%x,", zzBin(e))
					}
					out += ";"
				}
				return out
			}
			if lists(&a) == lists(x) {
				c.Vacuous("the same lists")
				continue
			}
			cf.mustReject(rt, x, "folding elements "+how)
			c.NonTrivial(cf.String(), how, zzBin(a.Ballot.U))
			c.Label("lists of folding elements")
			continue
		}
		fs := cf.fields(x)
		// The parts of the ballot in equal shares.
		var f zzField3
		switch vh.Pick(rt, 4, "part") {
		case 0:
			f = fs[vh.Pick(rt, 2, "field")]
		case 1:
			f = fs[len(fs)-9+vh.Pick(rt, 9, "field")]
		default:
			f = fs[2+vh.Pick(rt, len(fs)-11, "field")]
		}
		how := zzAlter(rt, cf, f, pool)
		cf.mustReject(rt, x, f.name+" "+how)
		c.NonTrivial(cf.String(), f.name, how, f.value())
		c.Label(f.name)
	}
}

// zzRelist changes the lists of folding elements.
func zzRelist(rt *rapid.T, cf *zzConf, bd *BallotData) string {
	ip := &bd.BpLower.InnerProductProof
	if rapid.Bool().Draw(rt, "upper") {
		ip = &bd.BpUpper.InnerProductProof
	}
	count := 1 + vh.Pick(rt, 3, "count")
	which := vh.OneOf(rt, "lists", []string{"both", "both", "both", "L", "R"})
	how := vh.OneOf(rt, "how", []string{"appended identities", "appended repetitions", "appended generators", "prepended", "removed", "removed first", "reversed", "rotated", "exchanged"})
	change := func(l []group.Element) []group.Element {
		for i := 0; i < count; i++ {
			switch {
			case how == "appended identities":
				l = append(l, cf.ec.Identity())
			case how == "appended generators" || len(l) == 0:
				l = append(l, cf.ec.Generator())
			case how == "appended repetitions":
				l = append(l, cf.ec.Element().Set(l[vh.Pick(rt, len(l), "which")]))
			case how == "prepended":
				l = append([]group.Element{cf.ec.Element().Set(l[0])}, l...)
			case how == "removed":
				l = l[:len(l)-1]
			case how == "removed first":
				l = l[1:]
			case how == "reversed":
				out := []group.Element{}
				for j := range l {
					out = append(out, l[len(l)-1-j])
				}
				return out
			case how == "rotated":
				return append(append([]group.Element{}, l[1:]...), l[0])
			}
		}
		return l
	}
	if how == "exchanged" {
		ip.L, ip.R = ip.R, ip.L
		return how
	}
	if which != "R" {
		ip.L = change(ip.L)
	}
	if which != "L" {
		ip.R = change(ip.R)
	}
	return how + ", " + which
}

// Single fields, transparent groups.
//vh:shards quick=8 thorough=8
func TestC03_AlteredTransparent(t *testing.T) {
	vh.Check(t, 2400, 60000, "six alterations of a single field of an honest ballot over transparent groups; non-trivial: distinct (configuration, field, alteration, value)",
		func(rt *rapid.T, c *vh.Case) { zzAltered(rt, c, zzDrawT(rt, []int64{1, 2, 4, 8, 16}), 6) })
}

// Single fields, curves.
//vh:shards quick=8 thorough=8
func TestC03_AlteredCurves(t *testing.T) {
	vh.Check(t, 240, 8000, "eight alterations of a single field of an honest ballot on a curve; non-trivial: distinct (configuration, field, alteration, value)",
		func(rt *rapid.T, c *vh.Case) {
			fields := []int{400, 400, 400, 520}
			if vh.Pick(rt, 30, "full") == 0 {
				fields = []int{0}
			}
			zzAltered(rt, c, zzDrawReal(rt, fields, []int64{1, 2, 4, 4, 8, 16}), 8)
		})
}

// zzRecombined mixes two ballots.
func zzRecombined(rt *rapid.T, c *vh.Case, cf *zzConf, rounds int) {
	a, b := zzPair(rt, cf)
	fa, fb := cf.fields(zzCopy(a)), cf.fields(zzCopy(b))
	for i := 0; i < rounds; i++ {
		x := zzCopy(a)
		kind := vh.OneOf(rt, "mix", []string{"ciphertext", "lower proof", "upper proof", "range proofs", "vote proof", "lower proof and ciphertext",
			"exchanged bounds", "lower twice", "upper twice", "lower from upper of the other", "inner proof", "inner proof of the other bound", "random fields", "random fields",
			"first message", "responses", "commitments", "commitments and ciphertext"})
		y := zzCopy(b)
		switch kind {
		case "ciphertext":
			x.Ballot = y.Ballot
		case "lower proof":
			x.BpLower = y.BpLower
		case "upper proof":
			x.BpUpper = y.BpUpper
		case "range proofs":
			x.BpLower, x.BpUpper = y.BpLower, y.BpUpper
		case "vote proof":
			x.VoteProof = y.VoteProof
		case "lower proof and ciphertext":
			x.BpLower, x.Ballot = y.BpLower, y.Ballot
		case "exchanged bounds":
			x.BpLower, x.BpUpper = x.BpUpper, x.BpLower
		case "lower twice":
			x.BpUpper = x.BpLower
		case "upper twice":
			x.BpLower = x.BpUpper
		case "lower from upper of the other":
			x.BpLower = y.BpUpper
		case "inner proof":
			x.BpLower.InnerProductProof = y.BpLower.InnerProductProof
		case "inner proof of the other bound":
			x.BpLower.InnerProductProof = x.BpUpper.InnerProductProof
		case "first message":
			x.VoteProof.SigmaCommit, x.VoteProof.Challenge = y.VoteProof.SigmaCommit, y.VoteProof.Challenge
		case "responses":
			x.VoteProof.SigmaResponse = y.VoteProof.SigmaResponse
		case "commitments":
			x.BpLower.V, x.BpUpper.V = y.BpLower.V, y.BpUpper.V
		case "commitments and ciphertext":
			x.BpLower.V, x.BpUpper.V, x.Ballot = y.BpLower.V, y.BpUpper.V, y.Ballot
		case "random fields":
			fx := cf.fields(x)
			k := 1 + vh.Pick(rt, len(fx)-1, "how many")
			for j := 0; j < k; j++ {
				i := vh.Pick(rt, len(fx), "field")
				if fx[i].elem != nil {
					*fx[i].elem = *fb[i].elem
				} else {
					*fx[i].num = *fb[i].num
				}
			}
		}
		fx := cf.fields(x)
		da, db := 0, 0
		for i := range fx {
			if len(fx) != len(fa) || fx[i].value() != fa[i].value() {
				da++
			}
			if len(fx) != len(fb) || fx[i].value() != fb[i].value() {
				db++
			}
		}
		if da == 0 || db == 0 {
			c.Vacuous("nothing changed")
			continue
		}
		cf.mustReject(rt, x, "recombined: "+kind)
		c.NonTrivial(cf.String(), kind, da, db, zzBin(a.Ballot.U))
		c.Label(kind)
	}
}

// Mixtures of ballots, transparent groups.
//vh:shards quick=4 thorough=8
func TestC03_RecombinedTransparent(t *testing.T) {
	vh.Check(t, 1600, 40000, "six mixtures of two honest ballots of one election over transparent groups; non-trivial: distinct mixtures that differ from both ballots",
		func(rt *rapid.T, c *vh.Case) { zzRecombined(rt, c, zzDrawT(rt, []int64{1, 2, 4, 8, 16}), 6) })
}

// Mixtures of ballots, curves.
//vh:shards quick=8 thorough=8
func TestC03_RecombinedCurves(t *testing.T) {
	vh.Check(t, 200, 6000, "eight mixtures of two honest ballots of one election on a curve; non-trivial: distinct mixtures that differ from both ballots",
		func(rt *rapid.T, c *vh.Case) {
			zzRecombined(rt, c, zzDrawReal(rt, []int{400, 400, 400, 520}, []int64{1, 2, 4, 4, 8, 16}), 8)
		})
}

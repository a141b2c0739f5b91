package main

import (
	"encoding/json"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	bpl "github.com/takakv/msc-poc/zzverif/bpl"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// zzOther derives the sender's configuration from the collector's. must tells
// whether ballots cast under it are certainly invalid for the collector.
func zzOther(rt *rapid.T, c *vh.Case, cf *zzConf) (o *zzConf, kind string, must bool) {
	x := *cf
	o = &x
	kind = vh.OneOf(rt, "other", []string{"range", "lower end", "upper end", "key", "shorter challenge", "no challenge", "longer challenge", "curve",
		"field", "secret length", "range proof size", "key and range", "generator", "vector generators", "smaller range proof", "announced smaller range proof"})
	bump := func(v uint16, up bool) uint16 {
		d := uint16(1 + vh.Pick(rt, 5, "by"))
		if up && v <= 65535-d || !up && v < d {
			return v + d
		}
		return v - d
	}
	must = true
	fit := func() {
		if o.lo > o.hi {
			o.lo, o.hi = o.hi, o.lo
		}
		for int(o.hi)-int(o.lo) >= 1<<o.bits {
			o.bits *= 2
		}
	}
	switch kind {
	case "range":
		o.lo, o.hi = bump(o.lo, true), bump(o.hi, true)
		fit()
	case "lower end":
		o.lo = bump(o.lo, rapid.Bool().Draw(rt, "up"))
		fit()
	case "upper end":
		o.hi = bump(o.hi, rapid.Bool().Draw(rt, "up"))
		fit()
	case "key":
		o.sk = zzKey(rt, o.ff.N())
	case "key and range":
		o.sk = zzKey(rt, o.ff.N())
		o.lo = bump(o.lo, true)
		fit()
	case "shorter challenge":
		o.bc = cf.bc - 8*(1+vh.Pick(rt, cf.bc/8, "bc"))
	case "no challenge":
		o.bc = 0
	case "longer challenge":
		o.bc = min(256, cf.bg-2-cf.bx)
		must = o.bc/8 != cf.bc/8
	case "curve":
		for o.ec.Name() == cf.ec.Name() {
			if cf.transparent() {
				o.ec = zzT(vh.OneOf(rt, "curve2", []int{253, 256, 384}))
			} else {
				o.ec = vh.OneOf(rt, "curve2", zzCurves)
			}
		}
		o.bg = min(o.ff.N().BitLen(), o.ec.N().BitLen())
		if o.bg < o.bx+o.bc+2 {
			o.bx, o.bc = 16, 224
		}
	case "field":
		for o.ff.Name() == cf.ff.Name() {
			if cf.transparent() {
				o.ff = zzT(vh.OneOf(rt, "field2", []int{400, 521, 300}))
			} else {
				o.ff = zzField(vh.OneOf(rt, "field2", []int{400, 520}))
			}
		}
		o.sk = zzKey(rt, o.ff.N())
		o.bg = min(o.ff.N().BitLen(), o.ec.N().BitLen())
		if o.bg < o.bx+o.bc+2 {
			o.bx, o.bc = 16, 224
		}
	case "secret length":
		// Another interval for the response: it may or may not fit.
		o.bx = 16
		if cf.bx == 16 {
			o.bx = min(250, cf.bg-2-cf.bc)
		}
		must = false
	case "range proof size":
		if o.bits = cf.bits * 2; cf.bits == 16 {
			o.bits = 8
			o.hi = uint16(min(int(o.hi), int(o.lo)+255))
		}
	case "smaller range proof", "announced smaller range proof":
		if o.bits = cf.bits / 2; cf.bits == 1 {
			o.bits = 2
		}
		o.hi = uint16(min(int(o.hi), int(o.lo)+1<<o.bits-1))
		if kind[0] == 'a' {
			// The ends are the collector's, the candidate is one that both
			// proofs fit.
			o.hi = cf.hi
			if int(o.hi)-int(o.lo) >= 1<<o.bits {
				o.hi = cf.lo + 1<<o.bits - 1
				must = o.hi != cf.hi || o.bits != cf.bits
			}
		}
	case "generator", "vector generators":
		// The second generator of the commitments is another one, or those
		// of the vectors are.
	}
	if o.lo == cf.lo && o.hi == cf.hi && o.sk.Cmp(cf.sk) == 0 && o.bc == cf.bc && o.bx == cf.bx && o.ff.Name() == cf.ff.Name() &&
		o.ec.Name() == cf.ec.Name() && o.bits == cf.bits && kind != "generator" && kind != "vector generators" {
		must = false
	}
	o.build(rt)
	if kind == "generator" {
		// The sender knows the logarithm of the commitment generator.
		h := o.ec.Element().BaseScale(vh.DetInt(vh.Seed64(rt, "h"), "h", o.ec.N()))
		o.pp.BPParams.H = h
		o.pp.ECGroupParams.H = h
		o.pp.RPParams.GEC.H = h
	}
	if kind == "vector generators" {
		seed := vh.Seed64(rt, "gens")
		which := vh.Pick(rt, 3, "vectors")
		other := func(es []group.Element, l string) (out []group.Element) {
			for i := range es {
				e := o.ec.Element().BaseScale(vh.DetInt(seed, l+vh.I(int64(i)).String(), o.ec.N()))
				out = append(out, o.ec.Element().Add(es[i], e))
			}
			return out
		}
		if which != 1 {
			o.pp.BPParams.Gg = other(o.pp.BPParams.Gg, "g")
		}
		if which != 0 {
			o.pp.BPParams.Hh = other(o.pp.BPParams.Hh, "h")
		}
	}
	return o, kind, must
}

func zzElsewhere(rt *rapid.T, c *vh.Case, cf *zzConf) {
	o, kind, must := zzOther(rt, c, cf)
	m := o.candidate(rt, "vote")
	bd, _ := o.castFor(rt, m, vh.NewTape(vh.Seed64(rt, "tape")))
	if kind != "generator" && !o.accepts(bd) {
		rt.Fatalf("%v: an honest ballot for %d is rejected by its own collector", o, m)
	}
	b := zzJSON(rt, bd)
	bd2, err := BallotDataUnmarshalJSON(b, cf.pp)
	if err == nil && cf.accepts(bd2) {
		if must {
			rt.Fatalf("a ballot cast for %v (%s) is accepted under %v", o, kind, cf)
		}
		cf.sound(rt, bd2, "cast elsewhere: "+kind)
		c.Label("accepted, valid here too")
	}
	// In memory: the equality proof carries its own parameters.
	if kind != "curve" && kind != "field" && cf.accepts(zzUnder(bd, cf)) {
		if must {
			rt.Fatalf("a ballot cast for %v (%s) is accepted under %v, handed over directly", o, kind, cf)
		}
		cf.sound(rt, bd, "cast elsewhere: "+kind)
	}
	c.NonTrivial(cf.String(), o.String(), m)
	c.Label(kind)
}

// zzUnder puts the range proofs of a ballot under the collector's parameters,
// as decoding does; the parameters of the equality proof stay.
func zzUnder(bd BallotData, cf *zzConf) BallotData {
	bd.BpLower.Params, bd.BpUpper.Params = cf.pp.BPParams, cf.pp.BPParams
	return bd
}

// Ballots of other elections, transparent groups.
//vh:shards quick=8 thorough=8
func TestC04_ElsewhereTransparent(t *testing.T) {
	vh.Check(t, 12000, 200000, "an honest ballot cast under another configuration (range, key, lengths, group, range proof size, generator), judged under the collector's; non-trivial: distinct pairs of configurations",
		func(rt *rapid.T, c *vh.Case) { zzElsewhere(rt, c, zzDrawT(rt, []int64{1, 2, 4, 8})) })
}

// Ballots of other elections, curves.
//vh:shards quick=8 thorough=8
func TestC04_ElsewhereCurves(t *testing.T) {
	vh.Check(t, 500, 12000, "the same on the curves; non-trivial: distinct pairs of configurations",
		func(rt *rapid.T, c *vh.Case) {
			zzElsewhere(rt, c, zzDrawReal(rt, []int{400, 400, 520}, []int64{1, 2, 4, 4, 8}))
		})
}

// zzSubstitute replaces parameters that travel in a submission. src is the JSON
// tree of a submission made under other parameters.
func zzSubstitute(rt *rapid.T, tree, src any) (what string) {
	dst, _ := zzAt(tree, "voteProof", "Params").(map[string]any)
	from, _ := zzAt(src, "voteProof", "Params").(map[string]any)
	n := 1 + vh.Pick(rt, 4, "substitutions")
	for i := 0; i < n; i++ {
		switch k := vh.Pick(rt, 8, "where"); {
		case k < 3 && dst != nil:
			// A number of the equality proof's parameters.
			key := vh.OneOf(rt, "key", []string{"Bx", "Bc", "Bg", "Bb", "RangeLo", "RangeHi"})
			var v any = vh.OneOf(rt, "value", []any{0, 1, 8, 16, 255, 65535, 224, 101, 2000})
			if x, ok := from[key]; ok && rapid.Bool().Draw(rt, "from") {
				v = x
			}
			if key == "Bx" && v == 65535 || key == "Bx" && v == 2000 {
				v = 255
			}
			dst[key] = v
			what += "equality " + key + "; "
		case k < 5 && dst != nil:
			gk := vh.OneOf(rt, "group", []string{"GFF", "GEC"})
			key := vh.OneOf(rt, "elem", []string{"G", "H", "N", "F", "I"})
			d, _ := dst[gk].(map[string]any)
			f, _ := from[gk].(map[string]any)
			if d != nil && f != nil && f[key] != nil {
				d[key] = f[key]
				what += "equality " + gk + "." + key + "; "
			}
		case k < 6 && dst != nil && from != nil:
			m, _ := tree.(map[string]any)["voteProof"].(map[string]any)
			if m != nil {
				m["Params"] = from
				dst = from
				what += "all of the equality proof; "
			}
		default:
			bp := vh.OneOf(rt, "bound", []string{"lbProof", "ubProof"})
			switch vh.Pick(rt, 3, "level") {
			case 0:
				d, _ := zzAt(tree, bp).(map[string]any)
				if d != nil {
					d["Params"] = zzAt(src, bp, "Params")
					what += bp + " parameters; "
				}
			case 1:
				d, _ := zzAt(tree, bp, "InnerProductProof").(map[string]any)
				if d != nil {
					d["Params"] = zzAt(src, bp, "InnerProductProof", "Params")
					what += bp + " inner product parameters; "
				}
			default:
				d, _ := zzAt(tree, bp, "InnerProductProof", "Params").(map[string]any)
				f, _ := zzAt(src, bp, "InnerProductProof", "Params").(map[string]any)
				key := vh.OneOf(rt, "part", []string{"Gg", "Hh", "Uu"})
				if d != nil && f != nil {
					d[key] = f[key]
					what += bp + " inner product " + key + "; "
				}
			}
		}
	}
	return what
}

func zzAt(v any, path ...string) any {
	for _, k := range path {
		m, ok := v.(map[string]any)
		if !ok {
			return nil
		}
		v = m[k]
	}
	return v
}

// Parameters inside invalid submissions replaced.
//vh:shards quick=8 thorough=8
func TestC04_Embedded(t *testing.T) {
	vh.Check(t, 3000, 40000, "an invalid submission (altered in one field, for a number outside the range, or cast under another configuration) with embedded parameters replaced by chosen or foreign ones; non-trivial: distinct (configuration, invalidity, substitution)",
		func(rt *rapid.T, c *vh.Case) {
			var cf *zzConf
			if vh.Pick(rt, 5, "real") == 0 {
				cf = zzDrawReal(rt, []int{400}, []int64{2, 4})
			} else {
				cf = zzDrawT(rt, []int64{1, 2, 4, 8})
			}
			o, okind, must := zzOther(rt, c, cf)
			seed := vh.Seed64(rt, "tape")
			theirs, _ := o.castFor(rt, o.candidate(rt, "theirs"), vh.NewTape(seed))
			ours, w := cf.castFor(rt, cf.candidate(rt, "ours"), vh.NewTape(seed+1))
			var bad BallotData
			kind := vh.OneOf(rt, "invalid", []string{"theirs", "altered", "outside", "simulated"})
			switch kind {
			case "theirs":
				bad = theirs
				if !must {
					kind = "altered"
				}
			case "outside":
				out, _ := cf.outside(rt, "m")
				if out.Sign() < 0 || out.BitLen() > cf.bx {
					out = vh.I(int64(cf.hi) + 1)
				}
				bad = ours
				bad.Ballot = cf.encrypt(out, w.rp)
				vh.With(vh.NewTape(seed+2), func() {
					bad.VoteProof = voteproof.Prove(out, w.rp, w.rq1, w.rq2, cf.pp.RPParams)
				})
				if cf.inRange(out.Int64()) {
					kind = "altered"
				}
			case "simulated":
				out, _ := cf.outside(rt, "m")
				bad = ours
				bad.Ballot = cf.encrypt(out, w.rp)
				// What passes if the challenge has no length.
				bad.VoteProof = cf.simulate(bad, seed, 0)
			}
			if kind == "altered" {
				x := zzCopy(ours)
				fs := cf.fields(x)
				f := fs[vh.Pick(rt, len(fs), "field")]
				zzAlter(rt, cf, f, cf.fields(zzCopy(ours)))
				bad = *x
				kind = "altered " + f.name
			}
			tree, src := zzParse(zzJSON(rt, bad)), zzParse(zzJSON(rt, theirs))
			what := zzSubstitute(rt, tree, src)
			b, err := json.Marshal(tree)
			if err != nil {
				c.Vacuous("not JSON")
				return
			}
			if ok, decoded := cf.judge(b); ok {
				rt.Fatalf("%v: an invalid submission (%s; sender %s) is accepted with substituted parameters: %s", cf, kind, okind, what)
			} else if decoded {
				c.NonTrivial(cf.String(), kind, what)
			}
			c.Label(kind)
		})
}

// Range proofs made under the prover's own inner product parameters.
//vh:shards quick=4 thorough=8
func TestC04_OwnGenerators(t *testing.T) {
	vh.Check(t, 4000, 60000, "a ballot for a number outside the range whose range proof carries an inner product argument under generators chosen by the sender; non-trivial: distinct (configuration, number, choice)",
		func(rt *rapid.T, c *vh.Case) {
			cf := zzDrawT(rt, []int64{1, 2, 4, 8})
			g := cf.ec.(*vh.TGroup)
			m := int64(cf.hi) + 1 + int64(vh.Pick(rt, 3, "over"))
			if lo := int64(cf.lo) - 1; lo >= 0 && rapid.Bool().Draw(rt, "below") || vh.I(m).BitLen() > cf.bx {
				m = lo
			}
			if m < 0 || cf.inRange(m) {
				c.Vacuous("no number")
				return
			}
			seed := vh.Seed64(rt, "seed")
			mode := vh.OneOf(rt, "mode", []string{"gens", "uu", "short"})
			rp, g1, g2 := cf.scalar(seed, "rp", cf.ff.N()), cf.scalar(seed, "g1", g.N()), cf.scalar(seed, "g2", g.N())
			side := func(v int64, gamma *big.Int, s uint64) []bulletproofs.BulletProof {
				if v >= 0 && v < 1<<cf.bits {
					return bpl.Honest(g, cf.pp.BPParams, vh.I(v), gamma, s)
				}
				p, _ := bpl.Forge(rt, g, cf.pp.BPParams, vh.I(v), gamma, s, mode)
				return p
			}
			los, his := side(m-int64(cf.lo), g1, seed+1), side(int64(cf.hi)-m, g2, seed+2)
			var pr voteproof.SigmaProof
			vh.With(vh.NewTape(seed+3), func() {
				pr = voteproof.Prove(vh.I(m), rp, g1, zzSub(g.N(), g2), cf.pp.RPParams)
			})
			did := false
			for _, a := range los {
				for _, b := range his {
					did = true
					cf.try(rt, BallotData{Ballot: cf.encrypt(vh.I(m), rp), BpLower: a, BpUpper: b, VoteProof: pr}, "own inner product parameters: "+mode)
				}
			}
			if !did {
				c.Vacuous("no forgery")
				return
			}
			c.NonTrivial(cf.String(), m, mode)
			c.Label(mode)
		})
}

// A weak proof system announced in the submission.
//vh:shards quick=4 thorough=8
func TestC04_WeakAnnounced(t *testing.T) {
	vh.Check(t, 6000, 100000, "a ballot for a number outside the range whose equality proof is made under announced parameters that would make it trivial (no challenge, generators with known logarithms, endless interval, another group order); non-trivial: distinct (configuration, number, weakness)",
		func(rt *rapid.T, c *vh.Case) {
			var cf *zzConf
			if vh.Pick(rt, 6, "real") == 0 {
				cf = zzDrawReal(rt, []int{400}, []int64{2, 4})
			} else {
				cf = zzDrawT(rt, []int64{1, 2, 4, 8})
			}
			seed := vh.Seed64(rt, "tape")
			bd, w := cf.castFor(rt, cf.candidate(rt, "vote"), vh.NewTape(seed))
			out, _ := cf.outside(rt, "m")
			rp := cf.scalar(seed, "rp", cf.ff.N())
			bd.Ballot = cf.encrypt(out, rp)
			how := vh.OneOf(rt, "how", []string{"no challenge", "known key", "identity generators", "interval", "range", "everything",
				"commitment generator", "range proof generator", "range proof generator"})
			p := cf.pp.RPParams
			switch how {
			case "no challenge":
				bd.VoteProof = cf.simulate(bd, seed, 0)
				bd.VoteProof.Params.Bc = 0
				bd.VoteProof.Params.Bx = 0
				bd.VoteProof.Params.Bb = cf.bg - 1
			case "known key":
				// Under another key the ciphertext holds a candidate.
				d := zzMul(zzSub(out, w.m), new(big.Int).ModInverse(rp, cf.ff.N()))
				sk := zzMod(zzAdd(cf.sk, d), cf.ff.N())
				p.GFF.H = cf.ff.Element().BaseScale(sk)
				vh.With(vh.NewTape(seed+1), func() { bd.VoteProof = voteproof.Prove(w.m, rp, w.rq1, w.rq2, p) })
			case "identity generators":
				p.GFF.H, p.GEC.H = cf.ff.Identity(), cf.ec.Identity()
				vh.With(vh.NewTape(seed+1), func() { bd.VoteProof = voteproof.Prove(w.m, rp, w.rq1, w.rq2, p) })
			case "interval":
				// The response may be anything: numbers equal modulo one
				// order only.
				m := zzAdd(w.m, zzMul(cf.ec.N(), vh.I(int64(1+vh.Pick(rt, 3, "times")))))
				bd.Ballot = cf.encrypt(m, rp)
				p.Bb = 4 * cf.bg
				if b := cf.ff.N().BitLen(); b > cf.bc+cf.ec.N().BitLen()+8 {
					// As long as the other group allows.
					p.Bb = b - 2 - cf.bx - cf.bc
					how = "interval as long as the other order"
				}
				vh.With(vh.NewTape(seed+1), func() { bd.VoteProof = voteproof.Prove(m, rp, w.rq1, w.rq2, p) })
			case "commitment generator":
				// Under another second generator the commitments hold the
				// number.
				ec, ok := cf.ec.(*vh.TGroup)
				if !ok || out.Sign() < 0 || out.BitLen() > cf.bx {
					c.Vacuous("not here")
					return
				}
				done := false
				for _, x := range bpl.Honest(ec, cf.pp.BPParams, zzSub(vh.I(int64(cf.hi)), w.m), zzSub(ec.N(), w.rq1), seed+3) {
					if v, err := x.Verify(); v && err == nil {
						bd.BpUpper, done = x, true
					}
				}
				if !done {
					c.Vacuous("not here")
					return
				}
				p.GEC.H = ec.Element().Add(ec.Element().BaseScale(zzSub(w.m, out)), ec.Element().Scale(p.GEC.H, w.rq1))
				vh.With(vh.NewTape(seed+1), func() { bd.VoteProof = voteproof.Prove(out, rp, vh.I(1), vh.I(1), p) })
			case "range proof generator":
				// Commitments to the number, which hold a candidate's
				// differences under another second generator. This travels.
				if out.Sign() < 0 || out.BitLen() > cf.bx {
					c.Vacuous("not here")
					return
				}
				n := cf.ec.N()
				side := func(b *bulletproofs.BulletProof, v, want *big.Int, s uint64) *big.Int {
					var g0 *big.Int
					q := cf.pp.BPParams
					vh.With(vh.NewTape(s), func() { _, g0, _ = bulletproofs.Prove(v, q) })
					if g0 == nil || g0.Sign() == 0 {
						return nil
					}
					r := cf.scalar(s, "r", n)
					V := cf.commit(want, r)
					H := cf.ec.Element().Scale(cf.ec.Element().Add(V, cf.ec.Element().BaseScale(zzMod(new(big.Int).Neg(v), n))), new(big.Int).ModInverse(g0, n))
					q.H = H
					vh.With(vh.NewTape(s), func() { *b, _, _ = bulletproofs.Prove(v, q) })
					return r
				}
				r1 := side(&bd.BpLower, zzSub(w.m, vh.I(int64(cf.lo))), zzSub(out, vh.I(int64(cf.lo))), seed+4)
				r2 := side(&bd.BpUpper, zzSub(vh.I(int64(cf.hi)), w.m), zzSub(vh.I(int64(cf.hi)), out), seed+5)
				if r1 == nil || r2 == nil {
					c.Vacuous("not here")
					return
				}
				r2 = zzSub(n, r2)
				vh.With(vh.NewTape(seed+1), func() { bd.VoteProof = voteproof.Prove(out, rp, r1, r2, p) })
				if !cf.accepts(bd) {
					c.Vacuous("the construction does not work")
				}
				if ok, _ := cf.judge(zzJSON(rt, bd)); ok {
					rt.Fatalf("%v: range proofs under an announced generator are accepted for %v", cf, out)
				}
				c.NonTrivial(cf.String(), out, how)
				c.Label(how)
				return
			case "range":
				// Ends under which the commitments hold the number.
				d := zzSub(out, w.m).Int64()
				l, h := int64(cf.lo)+d, int64(cf.hi)+d
				if l >= 0 && h <= 65535 {
					p.RangeLo, p.RangeHi = uint16(l), uint16(h)
				}
				if out.Sign() >= 0 && out.BitLen() <= cf.bx {
					vh.With(vh.NewTape(seed+1), func() { bd.VoteProof = voteproof.Prove(out, rp, w.rq1, w.rq2, p) })
				} else {
					bd.VoteProof.Params = p
				}
			case "everything":
				p.Bc, p.Bx, p.Bb = 0, 0, 4*cf.bg
				p.GFF.H, p.GEC.H = cf.ff.Identity(), cf.ec.Identity()
				vh.With(vh.NewTape(seed+1), func() { bd.VoteProof = voteproof.Prove(w.m, rp, w.rq1, w.rq2, p) })
			}
			if cf.try(rt, bd, "announced parameters: "+how) {
				rt.Fatalf("%v: a proof under announced weak parameters is accepted (%s)", cf, how)
			}
			c.NonTrivial(cf.String(), out, how)
			c.Label(how)
		})
}

var _ group.Group

package main

import (
	"fmt"
	"encoding/json"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	bpl "github.com/takakv/msc-poc/zzverif/bpl"
	"github.com/takakv/msc-poc/zzverif/vh"
	vpl "github.com/takakv/msc-poc/zzverif/vpl"
	"pgregory.net/rapid"
)

// zzTry has a submission judged, directly and as JSON; if it is accepted, it
// must encrypt a candidate.
func (cf *zzConf) try(rt *rapid.T, bd BallotData, what string) (accepted bool) {
	if cf.accepts(bd) {
		accepted = true
		cf.sound(rt, bd, what)
	}
	b, err := json.Marshal(bd)
	if err != nil {
		return accepted
	}
	bd2, err := BallotDataUnmarshalJSON(b, cf.pp)
	if err == nil && cf.accepts(bd2) {
		accepted = true
		cf.sound(rt, bd2, what+", as JSON")
	}
	return accepted
}

// encrypt makes a ciphertext of any number.
func (cf *zzConf) encrypt(m, r *big.Int) ElGamalCiphertext {
	return ElGamalCiphertext{U: cf.ff.Element().BaseScale(r),
		V: cf.ff.Element().Add(cf.ff.Element().BaseScale(m), cf.ff.Element().Scale(cf.pp.EGPK, r))}
}

func (cf *zzConf) commit(m, r *big.Int) group.Element {
	return cf.ec.Element().Add(cf.ec.Element().BaseScale(m), cf.ec.Element().Scale(cf.pp.BPParams.H, r))
}

// statement is what the equality proof of a ballot is about.
func (cf *zzConf) statement(bd BallotData) voteproof.VerCommitments {
	neg := cf.ec.Element().Scale(bd.BpUpper.V, zzSub(cf.ec.N(), vh.I(1)))
	return voteproof.VerCommitments{Y: bd.Ballot.U, Xp: bd.Ballot.V,
		Xq1: cf.ec.Element().Add(cf.ec.Element().BaseScale(vh.I(int64(cf.lo))), bd.BpLower.V),
		Xq2: cf.ec.Element().Add(cf.ec.Element().BaseScale(vh.I(int64(cf.hi))), neg)}
}

// zzOutside draws a number that is no candidate.
func (cf *zzConf) outside(rt *rapid.T, label string) (m *big.Int, kind string) {
	lo, hi := int64(cf.lo), int64(cf.hi)
	var v int64
	switch vh.Pick(rt, 8, label+"Kind") {
	case 0:
		v, kind = lo-1, "just below"
	case 1:
		v, kind = hi+1, "just above"
	case 2:
		v, kind = lo-1-int64(vh.Pick(rt, 2000, label)), "below"
	case 3:
		v, kind = hi+1+int64(vh.Pick(rt, 2000, label)), "above"
	case 4:
		v, kind = lo+int64(vh.Pick(rt, int(hi-lo)+1, label))+1<<cf.bits, "as long as the range proof away"
	case 5:
		v, kind = lo+int64(vh.Pick(rt, int(hi-lo)+1, label))-1<<cf.bits, "as long as the range proof below"
	case 6:
		v, kind = lo+int64(vh.Pick(rt, int(hi-lo)+1, label))+65536, "a candidate modulo 2^16"
	default:
		v, kind = -lo-int64(vh.Pick(rt, int(hi-lo)+1, label)), "a negated candidate"
	}
	if v >= lo && v <= hi {
		v, kind = hi+1, "just above"
	}
	return vh.I(v), kind
}

func (cf *zzConf) scalar(seed uint64, label string, n *big.Int) *big.Int {
	return zzAdd(vh.DetInt(seed, label, zzSub(n, vh.I(1))), vh.I(1))
}

// rangeProof is an honest range proof if the value allows one, otherwise what
// the honest prover makes of it.
func (cf *zzConf) rangeProof(v *big.Int, tape *vh.Tape) (p bulletproofs.BulletProof, gamma *big.Int, ok bool) {
	vh.With(tape, func() {
		var err error
		p, gamma, err = bulletproofs.Prove(v, cf.pp.BPParams)
		ok = err == nil && gamma != nil && p.V != nil
	})
	return
}

// Forged range proofs around an honest equality proof.
//vh:shards quick=8 thorough=8
func TestC02_ForgedRange(t *testing.T) {
	vh.Check(t, 2400, 60000, "a ballot for a number outside the range: consistent ciphertext, commitments and equality proof, and range proofs that satisfy all relations but one (or choose an element after its challenge); non-trivial: the same construction with a candidate is accepted",
		func(rt *rapid.T, c *vh.Case) {
			cf := zzDrawT(rt, []int64{1, 2, 4, 8, 16})
			g := cf.ec.(*vh.TGroup)
			seed := vh.Seed64(rt, "seed")
			make1 := func(m *big.Int, cheat bool, mode string) (out []BallotData, how string) {
				rp, g1, g2 := cf.scalar(seed, "rp", cf.ff.N()), cf.scalar(seed, "g1", g.N()), cf.scalar(seed, "g2", g.N())
				side := func(v, gamma *big.Int, s uint64) []bulletproofs.BulletProof {
					if v.Sign() >= 0 && v.BitLen() <= int(cf.bits) {
						return bpl.Honest(g, cf.pp.BPParams, v, gamma, s)
					}
					var w string
					var ps []bulletproofs.BulletProof
					ps, w = bpl.Forge(rt, g, cf.pp.BPParams, v, gamma, s, mode)
					how += w
					return ps
				}
				los := side(zzSub(m, vh.I(int64(cf.lo))), g1, seed+1)
				his := side(zzSub(vh.I(int64(cf.hi)), m), g2, seed+2)
				var pr voteproof.SigmaProof
				// The equality proof of the system's own prover.
				if m.Sign() >= 0 && m.BitLen() <= cf.bx {
					vh.With(vh.NewTape(seed+3), func() {
						pr = voteproof.Prove(m, rp, g1, zzSub(g.N(), g2), cf.pp.RPParams)
					})
				}
				for _, a := range los {
					for _, b := range his {
						bd := BallotData{Ballot: cf.encrypt(m, rp), BpLower: a, BpUpper: b, VoteProof: pr}
						if pr.Z == nil {
							ff := cf.ff.(*vh.TGroup)
							p2, ok := vpl.NewMaker(ff, g, cf.pp.RPParams).Transcript(cf.statement(bd), m, rp, g1, zzSub(g.N(), g2), seed+4)
							if !ok {
								continue
							}
							bd.VoteProof = p2
						}
						out = append(out, bd)
					}
				}
				return out, how
			}
			m, kind := cf.outside(rt, "m")
			mode := ""
			forged, how := make1(m, true, mode)
			ctl, _ := make1(vh.I(cf.candidate(rt, "control")), false, "")
			live := false
			for _, bd := range ctl {
				live = live || cf.accepts(bd)
			}
			if !live {
				c.Vacuous("the reference voter is not accepted")
			}
			if len(forged) == 0 {
				c.Vacuous("no forgery")
				return
			}
			part := -1
			if rapid.Bool().Draw(rt, "parts of the other proof") {
				part = vh.Pick(rt, 8, "part")
				how += fmt.Sprint(", part ", part, " of the other proof")
			}
			for _, bd := range forged {
				// The proof that cannot be honest takes over something of
				// the honest one.
				from, to := &bd.BpUpper, &bd.BpLower
				if m.Cmp(vh.I(int64(cf.lo))) >= 0 {
					from, to = to, from
				}
				switch part {
				case 0:
					to.A = from.A
				case 1:
					to.S = from.S
				case 2:
					to.T1 = from.T1
				case 3:
					to.T2 = from.T2
				case 4:
					to.A, to.S, to.T1, to.T2 = from.A, from.S, from.T1, from.T2
				case 5:
					to.InnerProductProof = from.InnerProductProof
				case 6:
					to.Taux, to.Mu, to.Tprime = from.Taux, from.Mu, from.Tprime
				case 7:
					v := to.V
					*to = *from
					to.V = v
				}
				cf.try(rt, bd, "encrypts "+m.String()+", forged range proof: "+how)
			}
			if live {
				c.NonTrivial(cf.String(), m, how)
			}
			c.Label(kind)
		})
}

// Honest range proofs for a candidate, and a ciphertext or commitments of
// something else.
//vh:shards quick=8 thorough=8
func TestC02_ForgedEquality(t *testing.T) {
	vh.Check(t, 12000, 200000, "a ballot whose ciphertext holds a number outside the range, with honest range proofs for other numbers and an equality transcript that satisfies all relations but one; non-trivial: the same construction with a candidate is accepted",
		func(rt *rapid.T, c *vh.Case) {
			cf := zzDrawT(rt, []int64{1, 2, 4, 8})
			ff, ec := cf.ff.(*vh.TGroup), cf.ec.(*vh.TGroup)
			n := ec.N()
			seed := vh.Seed64(rt, "seed")
			rp := cf.scalar(seed, "rp", ff.N())
			in := vh.I(cf.candidate(rt, "candidate"))
			out, kind := cf.outside(rt, "m")
			lo, hi := vh.I(int64(cf.lo)), vh.I(int64(cf.hi))
			tape := vh.NewTape(seed)
			maker := vpl.NewMaker(ff, ec, cf.pp.RPParams)
			// Control.
			bl, g1, ok1 := cf.rangeProof(zzSub(in, lo), tape)
			bu, g2, ok2 := cf.rangeProof(zzSub(hi, in), tape)
			if !ok1 || !ok2 {
				rt.Fatalf("%v: no range proofs for the candidate %v", cf, in)
			}
			good := BallotData{Ballot: cf.encrypt(in, rp), BpLower: bl, BpUpper: bu}
			pr, ok := maker.Transcript(cf.statement(good), in, rp, g1, zzSub(n, g2), seed)
			if !ok {
				c.Vacuous("challenge not known")
				return
			}
			good.VoteProof = pr
			live := cf.accepts(good)
			if !live {
				c.Vacuous("the reference voter is not accepted")
			}

			how := vh.OneOf(rt, "how", []string{"ciphertext of another number", "another ciphertext key part", "lower commitment of a candidate",
				"upper commitment of a candidate", "both commitments of a candidate", "late ciphertext", "late lower", "late upper",
				"lower proof twice", "upper proof twice", "proofs exchanged", "honest prover", "opposite commitments", "opposite commitments",
				"no key part", "no message part", "neutral commitment", "simulated"})
			if vh.Pick(rt, 3, "near") > 0 {
				// More of these can be about the number.
				if out, kind = zzAdd(hi, vh.I(1)), "next to the range"; lo.Sign() > 0 && rapid.Bool().Draw(rt, "below") {
					out = zzSub(lo, vh.I(1))
				}
			}
			bd := good
			w := zzWit{in, rp, g1, zzSub(n, g2)}
			late := ""
			switch how {
			case "ciphertext of another number":
				// The transcript is about the candidate.
				bd.Ballot = cf.encrypt(out, rp)
			case "another ciphertext key part":
				// The randomness of the first component is another one, so
				// that it decrypts to the number.
				d := zzMul(zzSub(in, out), new(big.Int).ModInverse(cf.sk, ff.N()))
				bd.Ballot.U = ff.Element().BaseScale(zzAdd(rp, d))
			case "no key part":
				// Not encrypted at all; the transcript is about a key part
				// that would make it a candidate.
				rp = zzMod(zzMul(zzSub(out, in), new(big.Int).ModInverse(cf.sk, ff.N())), ff.N())
				bd.Ballot = ElGamalCiphertext{U: ff.Identity(), V: ff.Element().BaseScale(zzMod(out, ff.N()))}
				w.rp = rp
			case "no message part":
				rp = zzMod(zzMul(new(big.Int).Neg(out), new(big.Int).ModInverse(cf.sk, ff.N())), ff.N())
				bd.Ballot = ElGamalCiphertext{U: ff.Element().BaseScale(rp), V: ff.Identity()}
				w.rp = rp
			case "neutral commitment":
				// The statement about one bound is a neutral element.
				pick := func(ps []bulletproofs.BulletProof) (p bulletproofs.BulletProof, ok bool) {
					for _, x := range ps {
						if v, err := x.Verify(); v && err == nil {
							return x, true
						}
					}
					return p, false
				}
				done := false
				if v := zzSub(out, lo); v.Sign() >= 0 && v.BitLen() <= int(cf.bits) && hi.BitLen() <= int(cf.bits) {
					if p, ok := pick(bpl.Honest(ec, cf.pp.BPParams, hi, vh.I(0), seed+7)); ok {
						bd.BpLower, g1, _ = cf.rangeProof(v, tape)
						bd.BpUpper, done = p, true
						w = zzWit{out, rp, g1, vh.I(0)}
					}
				} else if v := zzSub(hi, out); lo.Sign() == 0 && v.Sign() >= 0 && v.BitLen() <= int(cf.bits) {
					if p, ok := pick(bpl.Honest(ec, cf.pp.BPParams, lo, vh.I(0), seed+7)); ok {
						bd.BpUpper, g2, _ = cf.rangeProof(v, tape)
						bd.BpLower, done = p, true
						w = zzWit{out, rp, vh.I(0), zzSub(n, g2)}
					}
				}
				if !done {
					how = "both commitments of a candidate"
				}
				bd.Ballot = cf.encrypt(out, rp)
				w.m = out
			case "simulated":
				bd.Ballot = cf.encrypt(out, rp)
			case "both commitments of a candidate", "honest prover":
				bd.Ballot = cf.encrypt(out, rp)
				w.m = out
			case "lower commitment of a candidate":
				// As far as possible everything else is about the number.
				bd.Ballot = cf.encrypt(out, rp)
				w.m = out
				if v := zzSub(hi, out); v.Sign() >= 0 && v.BitLen() <= int(cf.bits) {
					bd.BpUpper, g2, _ = cf.rangeProof(v, tape)
					w.rq2 = zzSub(n, g2)
				}
			case "upper commitment of a candidate":
				bd.Ballot = cf.encrypt(out, rp)
				w.m = out
				if v := zzSub(out, lo); v.Sign() >= 0 && v.BitLen() <= int(cf.bits) {
					bd.BpLower, g1, _ = cf.rangeProof(v, tape)
					w.rq1 = g1
				}
			case "late ciphertext", "late lower", "late upper":
				bd.Ballot = cf.encrypt(out, rp)
				late = how[5:]
				if late != "ciphertext" {
					w.m = out
					if v := zzSub(hi, out); late == "lower" && v.Sign() >= 0 && v.BitLen() <= int(cf.bits) {
						bd.BpUpper, g2, _ = cf.rangeProof(v, tape)
						w.rq2 = zzSub(n, g2)
					}
					if v := zzSub(out, lo); late == "upper" && v.Sign() >= 0 && v.BitLen() <= int(cf.bits) {
						bd.BpLower, g1, _ = cf.rangeProof(v, tape)
						w.rq1 = g1
					}
				}
			case "lower proof twice":
				// Above the range: only the lower bound is shown, twice.
				if v := zzSub(out, lo); v.Sign() >= 0 && v.BitLen() <= int(cf.bits) {
					bd.Ballot = cf.encrypt(out, rp)
					bd.BpLower, g1, _ = cf.rangeProof(v, tape)
					bd.BpUpper = bd.BpLower
					w = zzWit{out, rp, g1, zzSub(n, g1)}
				}
			case "upper proof twice":
				if v := zzSub(hi, out); v.Sign() >= 0 && v.BitLen() <= int(cf.bits) {
					bd.Ballot = cf.encrypt(out, rp)
					bd.BpUpper, g2, _ = cf.rangeProof(v, tape)
					bd.BpLower = bd.BpUpper
					w = zzWit{out, rp, g2, zzSub(n, g2)}
				}
			case "opposite commitments":
				// Both in their ranges, and as far above the number as below
				// it.
				d := zzSub(lo, out)
				if e := zzSub(out, hi); e.Cmp(d) > 0 {
					d = e
				}
				d = zzAdd(d, vh.I(int64(vh.Pick(rt, 2, "d"))))
				u, v := zzSub(zzAdd(out, d), lo), zzSub(hi, zzSub(out, d))
				bd.Ballot = cf.encrypt(out, rp)
				w.m = out
				if u.BitLen() <= int(cf.bits) && v.BitLen() <= int(cf.bits) {
					bd.BpLower, g1, _ = cf.rangeProof(u, tape)
					bd.BpUpper, g2, _ = cf.rangeProof(v, tape)
					w.rq1, w.rq2 = g1, zzSub(n, g2)
				} else {
					how = "both commitments of a candidate"
				}
			case "proofs exchanged":
				// lo + hi - m: a reflected number.
				bd.BpLower, bd.BpUpper = bu, bl
				out = zzSub(zzAdd(lo, hi), in)
				bd.Ballot = cf.encrypt(in, rp)
				w = zzWit{in, rp, g2, zzSub(n, g1)}
			}
			st := cf.statement(bd)
			if how == "honest prover" {
				vh.With(vh.NewTape(seed+9), func() {
					if w.m.Sign() >= 0 && w.m.BitLen() <= cf.bx {
						bd.VoteProof = voteproof.Prove(w.m, w.rp, w.rq1, w.rq2, cf.pp.RPParams)
					}
				})
				cf.try(rt, bd, how)
			} else if how == "simulated" {
				bd.VoteProof = maker.Simulated(st, rp, seed+8, rapid.Bool().Draw(rt, "neutral"))
				cf.try(rt, bd, how)
			} else if late == "" {
				way, special := "", ""
				if rapid.Bool().Draw(rt, "special") {
					way = vh.OneOf(rt, "way", vpl.Ways)
				}
				if bd.VoteProof, special, ok = maker.Special(st, w.m, w.rp, w.rq1, w.rq2, seed+5, way); ok {
					cf.try(rt, bd, how+"; "+special)
					c.Label("special: %s", special)
				} else {
					c.Vacuous("challenge not known")
				}
			} else {
				// The challenge is that of the consistent statement.
				shown := st
				switch late {
				case "ciphertext":
					shown.Y, shown.Xp = good.Ballot.U, good.Ballot.V
				case "lower":
					shown.Xq1 = cf.commit(w.m, w.rq1)
				case "upper":
					shown.Xq2 = cf.commit(w.m, w.rq2)
				}
				for _, x := range []voteproof.VerCommitments{shown, st} {
					if bd.VoteProof, ok = maker.Late(st, x, w.m, w.rp, w.rq1, w.rq2, late, seed+6); ok {
						cf.try(rt, bd, how)
					} else {
						c.Vacuous("challenge not known")
					}
				}
			}
			if live {
				c.NonTrivial(cf.String(), how, in, out)
			}
			c.Label(how)
			c.Label(kind)
		})
}

// Ballots of voters who run the honest code on numbers that are no candidates,
// or for another range.
//vh:shards quick=8 thorough=8
func TestC02_Curves(t *testing.T) {
	vh.Check(t, 600, 15000, "a ballot made on a curve by honest code run on a number outside the range, on the range shifted or widened, with the sign or a low-order component of a ciphertext part flipped, or simulated; non-trivial: distinct (configuration, kind, number)",
		func(rt *rapid.T, c *vh.Case) {
			cf := zzDrawReal(rt, []int{400, 400, 400, 520}, []int64{2, 4, 4, 8})
			if vh.Pick(rt, 12, "full") == 0 {
				cf.ff = zzField(0)
				cf.build(rt)
			}
			seed := vh.Seed64(rt, "seed")
			n := cf.ec.N()
			tape := vh.NewTape(seed)
			lo, hi := vh.I(int64(cf.lo)), vh.I(int64(cf.hi))
			in := vh.I(cf.candidate(rt, "candidate"))
			out, _ := cf.outside(rt, "m")
			how := vh.OneOf(rt, "how", []string{"out of range", "wrapped difference", "commitment shifted", "both commitments shifted", "sign flipped ciphertext",
				"negated commitments", "simulated", "candidate's proofs", "wider range", "shifted range", "zero parts", "low order"})
			rp := cf.scalar(seed, "rp", cf.ff.N())
			bd, w := cf.castFor(rt, in.Int64(), tape)
			if !cf.accepts(bd) {
				rt.Fatalf("%v: an honest ballot for %v is rejected", cf, in)
			}
			prove := func() {
				if w.m.Sign() < 0 || w.m.BitLen() > cf.bx {
					w.m = in
				}
				vh.With(tape, func() { bd.VoteProof = voteproof.Prove(w.m, w.rp, w.rq1, w.rq2, cf.pp.RPParams) })
			}
			switch how {
			case "out of range", "wrapped difference":
				// What the prover makes of differences outside its range.
				w.m, w.rp = out, rp
				bd.Ballot = cf.encrypt(out, rp)
				a, b := zzSub(out, lo), zzSub(hi, out)
				if how == "wrapped difference" {
					a, b = zzMod(a, vh.I(65536)), zzMod(b, vh.I(65536))
				}
				if p, g, ok := cf.rangeProof(a, tape); ok {
					bd.BpLower, w.rq1 = p, g
				}
				if p, g, ok := cf.rangeProof(b, tape); ok {
					bd.BpUpper, w.rq2 = p, zzSub(n, g)
				}
				prove()
			case "commitment shifted", "both commitments shifted":
				// The commitment is moved to where it fits the number.
				w.m, w.rp = out, rp
				bd.Ballot = cf.encrypt(out, rp)
				d := cf.ec.Element().BaseScale(zzMod(zzSub(out, in), n))
				bd.BpLower.V = cf.ec.Element().Add(bd.BpLower.V, d)
				if how == "both commitments shifted" {
					bd.BpUpper.V = cf.ec.Element().Add(bd.BpUpper.V, cf.ec.Element().Scale(d, zzSub(n, vh.I(1))))
				}
				prove()
			case "sign flipped ciphertext":
				if rapid.Bool().Draw(rt, "inverse") {
					bd.Ballot.V = cf.ff.Element().Scale(bd.Ballot.V, zzSub(cf.ff.N(), vh.I(1)))
				} else {
					bd.Ballot.U = cf.ff.Element().Scale(bd.Ballot.U, zzSub(cf.ff.N(), vh.I(1)))
				}
			case "negated commitments":
				w.rq1, w.rq2 = zzSub(n, w.rq1), zzSub(n, w.rq2)
				bd.BpLower.V = cf.ec.Element().Scale(bd.BpLower.V, zzSub(n, vh.I(1)))
				bd.BpUpper.V = cf.ec.Element().Scale(bd.BpUpper.V, zzSub(n, vh.I(1)))
				w.m = zzSub(zzMul(vh.I(2), lo), in)
				bd.Ballot = cf.encrypt(w.m, w.rp)
				prove()
			case "simulated":
				bd.Ballot = cf.encrypt(out, rp)
				bd.VoteProof = cf.simulate(bd, seed, vh.OneOf(rt, "challenge", []int64{0, 1, -1}))
			case "candidate's proofs":
				// Everything of the honest ballot but the ciphertext, with
				// an equality proof for the other number.
				bd.Ballot = cf.encrypt(out, rp)
				w.rp = rp
				if rapid.Bool().Draw(rt, "other") {
					w.m = out
				}
				prove()
			case "wider range", "shifted range":
				o := *cf
				if how == "wider range" {
					o.lo, o.hi = uint16(max(0, int(cf.lo)-1-vh.Pick(rt, 3, "lower"))), uint16(min(65535, int(cf.hi)+1+vh.Pick(rt, 3, "higher")))
					for int(o.hi)-int(o.lo) >= 1<<o.bits {
						o.bits *= 2
					}
				} else {
					d := 1 + vh.Pick(rt, 40, "shift")
					if int(cf.hi)+d > 65535 {
						d = -min(int(cf.lo), 40)
					}
					o.lo, o.hi = uint16(int(cf.lo)+d), uint16(int(cf.hi)+d)
				}
				o.build(rt)
				m := vh.OneOf(rt, "end", []int64{int64(o.lo), int64(o.hi)})
				bd, w = o.castFor(rt, m, tape)
				out = w.m
			case "zero parts":
				bd.Ballot = ElGamalCiphertext{U: cf.ff.Identity(), V: cf.ff.Element().BaseScale(zzMod(out, cf.ff.N()))}
				w.m, w.rp = out, vh.I(0)
				prove()
			case "low order":
				// p - x instead of x: not in the group. Only as JSON.
				b := zzJSON(rt, bd)
				var tree map[string]any
				dec := json.NewDecoder(zzReader(b))
				dec.UseNumber()
				if dec.Decode(&tree) != nil {
					c.Vacuous("not JSON")
					return
				}
				vp, _ := tree["voteProof"].(map[string]any)
				bal, _ := tree["ballot"].(map[string]any)
				did := 0
				for _, x := range []struct {
					m map[string]any
					k string
				}{{bal, "u"}, {bal, "v"}, {vp, "W"}, {vp, "Kp"}} {
					if rapid.Bool().Draw(rt, "flip "+x.k) && x.m != nil {
						if v, ok := zzFlip(x.m[x.k], cf.ff.P()); ok {
							x.m[x.k] = v
							did++
						}
					}
				}
				if did == 0 {
					c.Vacuous("nothing flipped")
					return
				}
				b = zzJSON(rt, tree)
				if ok, _ := cf.judge(b); ok {
					rt.Fatalf("%v: a submission with elements outside the group is accepted: %s", cf, b)
				}
			}
			cf.try(rt, bd, how)
			c.NonTrivial(cf.String(), how, in, out)
			c.Label(how)
			c.Label(cf.ec.Name())
		})
}

// simulate makes a transcript that satisfies the four relations with a chosen
// challenge (negative: a random one).
func (cf *zzConf) simulate(bd BallotData, seed uint64, ch int64) (pr voteproof.SigmaProof) {
	p := cf.pp.RPParams
	st := cf.statement(bd)
	pr.Params = p
	pr.Challenge = vh.I(ch)
	if ch < 0 {
		pr.Challenge = vh.DetInt(seed, "c", new(big.Int).Lsh(vh.I(1), uint(cf.bc)))
	}
	zlo, zhi := new(big.Int).Lsh(vh.I(1), uint(cf.bx+cf.bc)), new(big.Int).Lsh(vh.I(1), uint(cf.bg-1))
	pr.Z = zzAdd(zlo, vh.DetInt(seed, "z", zzSub(zhi, zlo)))
	pr.Sp, pr.Sq1, pr.Sq2 = vh.DetInt(seed, "sp", cf.ff.N()), vh.DetInt(seed, "sq1", cf.ec.N()), vh.DetInt(seed, "sq2", cf.ec.N())
	fit := func(g group.Group, z, s *big.Int, h, x group.Element) group.Element {
		e := g.Element().BaseScale(s)
		if h != nil {
			e = g.Element().Add(g.Element().BaseScale(z), g.Element().Scale(h, s))
		}
		return g.Element().Add(e, g.Element().Scale(x, zzMod(new(big.Int).Neg(pr.Challenge), g.N())))
	}
	pr.W = fit(cf.ff, nil, pr.Sp, nil, st.Y)
	pr.Kp = fit(cf.ff, pr.Z, pr.Sp, p.GFF.H, st.Xp)
	pr.Kq1 = fit(cf.ec, pr.Z, pr.Sq1, p.GEC.H, st.Xq1)
	pr.Kq2 = fit(cf.ec, pr.Z, pr.Sq2, p.GEC.H, st.Xq2)
	return pr
}

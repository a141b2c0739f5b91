package vp

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// drawOffset draws a non-zero residue modulo n.
func drawOffset(rt *rapid.T, n *big.Int, label string) *big.Int {
	var d *big.Int
	switch vh.Pick(rt, 4, label+"Kind") {
	case 0:
		d = vh.I(1)
	case 1:
		d = sub(n, vh.I(1))
	case 2:
		d = pow2(vh.Pick(rt, n.BitLen()-1, label))
	default:
		d = vh.DetInt(vh.Seed64(rt, label), "d", n)
	}
	if d = mod(d, n); d.Sign() == 0 {
		d = vh.I(1)
	}
	return d
}

// Transcripts that satisfy all relations but one, with the challenge the
// verifier expects.
//vh:shards quick=4 thorough=8
func TestC13_OneRelationBroken(t *testing.T) {
	vh.Check(t, 60000, 500000, "a transcript by a prover who knows openings of all commitments and satisfies all relations but one, with the hash-derived challenge; non-trivial: the same prover is accepted when it is honest",
		func(rt *rapid.T, c *vh.Case) {
			ff, ec, p := drawT(rt, 253, vh.OneOf(rt, "bc", []int{96, 128, 200}))
			a := newAsker(ff, ec, p)
			w := drawWitness(rt, p)
			ms := drawMasks(vh.Seed64(rt, "masks"), p)
			lo, hi := bounds(p)
			// The mask is kept away from the ends, the response is in the
			// interval whatever the challenge.
			width := sub(hi, lo)
			width.Sub(width, lo)
			if width.Sign() <= 0 {
				c.Vacuous("no room")
				return
			}
			k := add(lo, mod(ms.kp, width))
			ms.kp, ms.kq1, ms.kq2 = k, k, k
			special := coincide(rt, &w, &ms)
			cm := w.comm(p)
			f := ms.first(p)
			ch, ok := a.challenge(cm, f)
			if !ok {
				c.Vacuous("challenge not known")
				return
			}
			good := respond(f, ch, w, ms, add(k, mul(ch, w.m)), p)
			if !good.Verify(cm) {
				c.Vacuous("the reference prover is rejected")
				return
			}
			// Break one relation in the statement or in the first message.
			kind := vh.OneOf(rt, "break", []string{"ciphertext message", "first commitment message", "second commitment message",
				"both commitments message", "ciphertext randomness", "first commitment randomness", "second commitment randomness",
				"ciphertext mask", "first commitment mask", "second commitment mask", "randomness mask",
				"responses only", "response to ciphertext", "response to first commitment", "response to second commitment",
				"first component", "message response", "first component negated", "ciphertext randomness negated",
				"one element", "one element", "one element", "one element", "one response", "one response"})
			df, de := drawOffset(rt, ff.N(), "df"), drawOffset(rt, ec.N(), "de")
			w2, m2 := w, ms
			wp, wq1, wq2 := w, w, w
			early := true
			bent := 0
			name := kind
			switch kind {
			case "one element":
				bent = 1 + vh.Pick(rt, bends, "bend")
			case "ciphertext message":
				wp.m = add(w.m, df)
			case "first commitment message":
				wq1.m = add(w.m, de)
			case "second commitment message":
				wq2.m = add(w.m, de)
			case "both commitments message":
				wq1.m = add(w.m, de)
				wq2.m = wq1.m
			case "ciphertext randomness", "first component":
				wp.rp = add(w.rp, df)
			case "first commitment randomness":
				wq1.rq1 = add(w.rq1, de)
			case "second commitment randomness":
				wq2.rq2 = add(w.rq2, de)
			case "ciphertext mask":
				m2.kp = add(ms.kp, df)
			case "first commitment mask":
				m2.kq1 = add(ms.kq1, de)
			case "second commitment mask":
				m2.kq2 = add(ms.kq2, de)
			case "randomness mask":
				m2.tw = add(ms.tw, df)
			case "first component negated", "ciphertext randomness negated":
				if w.rp.Sign() == 0 {
					c.Vacuous("no change")
					return
				}
			default:
				early = false
			}
			x := good
			cm2 := cm
			if early {
				cm2 = voteproof.VerCommitments{Y: cm.Y, Xp: commit(wp.m, wp.rp, p.GFF), Xq1: commit(wq1.m, wq1.rq1, p.GEC), Xq2: commit(wq2.m, wq2.rq2, p.GEC)}
				if kind == "first component" {
					cm2.Xp = cm.Xp
					cm2.Y = ff.Element().BaseScale(wp.rp)
				}
				f2 := m2.first(p)
				switch kind {
				case "first component negated":
					cm2.Y, f2.W = ff.Element().Negate(cm.Y), ff.Element().Negate(f2.W)
				case "ciphertext randomness negated":
					cm2.Xp, f2.Kp = commit(w.m, new(big.Int).Neg(w.rp), p.GFF), commit(m2.kp, new(big.Int).Neg(m2.tp), p.GFF)
				}
				if bent > 0 {
					b := bend(bent-1, &cm2, &f2, p)
					if b == "" {
						c.Vacuous("no change")
						return
					}
					name = b
				}
				ch2, ok := a.challenge(cm2, f2)
				if !ok {
					c.Vacuous("challenge not known")
					return
				}
				x = respond(f2, ch2, w2, m2, add(k, mul(ch2, w.m)), p)
				if kind == "first component negated" || kind == "ciphertext randomness negated" {
					if w.m.Sign() == 0 && mod(x.Sp, ff.N()).Sign() == 0 {
						c.Vacuous("no change")
						return
					}
					switch vh.Pick(rt, 4, "written") {
					case 0:
						x.Sp = sub(x.Sp, ff.N())
					case 1:
						x.Sp = new(big.Int).Neg(x.Sp)
					case 2:
						x.Sp = sub(ff.N(), x.Sp)
					}
				}
			} else {
				switch kind {
				case "responses only":
					x.Sp, x.Sq1, x.Sq2 = add(x.Sp, df), add(x.Sq1, de), add(x.Sq2, de)
				case "response to ciphertext":
					x.Sp = add(x.Sp, df)
				case "response to first commitment":
					x.Sq1 = add(x.Sq1, de)
				case "response to second commitment":
					x.Sq2 = add(x.Sq2, de)
				case "one response":
					all := []**big.Int{&x.Sp, &x.Sq1, &x.Sq2}
					orders := []*big.Int{ff.N(), ec.N(), ec.N()}
					i := vh.Pick(rt, 3, "response")
					to := vh.Pick(rt, 6, "becomes")
					v := []*big.Int{x.Sp, x.Sq1, x.Sq2, vh.I(0), x.Z, ch}[to]
					if mod(sub(v, *all[i]), orders[i]).Sign() == 0 {
						c.Vacuous("no change")
						return
					}
					*all[i] = v
					name = []string{"Sp", "Sq1", "Sq2"}[i] + " is " + []string{"Sp", "Sq1", "Sq2", "zero", "Z", "the challenge"}[to]
				case "message response":
					x.Z = add(x.Z, vh.I(int64(1+vh.Pick(rt, 5, "dz"))))
				}
			}
			if x.Verify(cm2) {
				rt.Fatalf("%s: a transcript with a broken relation is accepted (%s; %s)", desc(p), name, special)
			}
			c.NonTrivial(shape(p), name, special, w.m, df, de)
			c.Label(name)
			c.Label(special)
		})
}

// Responses around the ends of the safe interval.
//vh:shards quick=4 thorough=8
func TestC13_IntervalEnds(t *testing.T) {
	vh.Check(t, 12000, 100000, "a transcript that satisfies all relations with a response at, inside or outside an end of the safe interval; non-trivial: distinct (lengths, secret, position)",
		func(rt *rapid.T, c *vh.Case) {
			zeroSecret := vh.Pick(rt, 3, "zero") > 0
			bc := 8
			if zeroSecret {
				bc = vh.OneOf(rt, "bc", []int{0, 8, 40, 128, 200})
			}
			ff, ec, p := drawT(rt, 253, bc)
			a := newAsker(ff, ec, p)
			w := drawWitness(rt, p)
			if zeroSecret {
				w.m = vh.I(0)
			}
			lo, hi := bounds(p)
			type pos struct {
				name string
				z    *big.Int
				ok   bool
			}
			ps := []pos{{"just below the lower end", sub(lo, vh.I(1)), false}, {"lower end", lo, true}, {"just below the upper end", sub(hi, vh.I(1)), true},
				{"upper end", hi, false}, {"zero", vh.I(0), false}, {"negative", new(big.Int).Neg(lo), false}, {"far above", add(hi, mul(ff.N(), ec.N())), false},
				{"negative, same residues", sub(lo, mul(ff.N(), ec.N())), false}, {"half the lower end", new(big.Int).Rsh(lo, 1), false},
				{"twice the upper end", new(big.Int).Lsh(hi, 1), false}, {"just above the upper end", add(hi, vh.I(1)), false},
				{"middle", new(big.Int).Rsh(add(lo, hi), 1), true}, {"minus one", vh.I(-1), false}, {"one", vh.I(1), false}}
			at := ps[vh.Pick(rt, len(ps), "position")]
			if !at.ok && at.z.Cmp(lo) >= 0 && at.z.Cmp(hi) < 0 {
				at.ok = true // e.g. 1 when the interval starts there
			}
			cm := w.comm(p)
			ms := drawMasks(vh.Seed64(rt, "masks"), p)
			tries := 1
			if !zeroSecret {
				tries = 256
			}
			for i := 0; i < tries; i++ {
				guess := vh.I(int64(i))
				k := sub(at.z, mul(guess, w.m))
				ms.kp, ms.kq1, ms.kq2 = k, k, k
				f := ms.first(p)
				ch, ok := a.challenge(cm, f)
				if !ok {
					c.Vacuous("challenge not known")
					return
				}
				if !zeroSecret && ch.Cmp(guess) != 0 {
					continue
				}
				pr := respond(f, ch, w, ms, at.z, p)
				if got := pr.Verify(cm); got != at.ok {
					rt.Fatalf("%s: the response %v (%s of [%v, %v)) gives verdict %v", desc(p), at.z, at.name, lo, hi, got)
				}
				c.NonTrivial(shape(p), w.m, at.name)
				c.Label(at.name)
				return
			}
			c.Vacuous("no mask leads there")
		})
}

// Secrets that are equal in one group only because they wrap around.
//vh:shards quick=4 thorough=8
func TestC13_OversizedSecrets(t *testing.T) {
	vh.Check(t, 36000, 300000, "a prover whose ciphertext and commitments hide numbers that agree only modulo one group order, or that are too long or negative, responding with any representative; non-trivial: distinct (lengths, kind, secret)",
		func(rt *rapid.T, c *vh.Case) {
			ff, ec, p := drawT(rt, 253, vh.OneOf(rt, "bc", []int{96, 128, 200}))
			// Over groups of one order, numbers equal modulo that order are
			// the same secret.
			if ff.N().Cmp(ec.N()) == 0 {
				c.Vacuous("same orders")
				return
			}
			a := newAsker(ff, ec, p)
			w := drawWitness(rt, p)
			kind := vh.OneOf(rt, "kind", []string{"plus curve order", "minus curve order", "plus field order", "multiple", "negative", "too long", "uniform"})
			m := w.m // the integer that is used
			switch kind {
			case "plus curve order":
				m = add(m, ec.N())
			case "minus curve order":
				m = sub(m, ec.N())
			case "plus field order":
				m = add(m, ff.N())
			case "multiple":
				m = add(m, mul(ec.N(), vh.I(int64(2+vh.Pick(rt, 50, "times")))))
			case "negative":
				m = sub(new(big.Int).Neg(m), vh.I(1))
			case "too long":
				// So long that the response cannot fit.
				m = add(m, pow2(int(p.Bg)+8))
			case "uniform":
				m = add(vh.DetInt(vh.Seed64(rt, "big"), "m", mul(ff.N(), ec.N())), pow2(int(p.Bg)+8))
			}
			w.m = m
			cm := w.comm(p) // reduced in each group
			ms := drawMasks(vh.Seed64(rt, "masks"), p)
			switch vh.Pick(rt, 3, "mask") {
			case 0:
				k := vh.DetInt(vh.Seed64(rt, "wide"), "k", mul(ff.N(), ec.N()))
				ms.kp, ms.kq1, ms.kq2 = k, k, k
			case 1:
				ms.kp, ms.kq1, ms.kq2 = vh.I(0), vh.I(0), vh.I(0)
			}
			f := ms.first(p)
			ch, ok := a.challenge(cm, f)
			if !ok {
				c.Vacuous("challenge not known")
				return
			}
			if ch.BitLen() < 64 {
				c.Vacuous("short challenge")
				return
			}
			z := add(ms.kp, mul(ch, m))
			lo, hi := bounds(p)
			var zs []*big.Int
			for _, v := range []*big.Int{z, mod(z, ff.N()), mod(z, ec.N()), add(mod(z, ec.N()), ec.N()), mod(z, mul(ff.N(), ec.N())),
				add(lo, mod(sub(z, lo), ec.N())), add(lo, mod(sub(z, lo), ff.N())), new(big.Int).Abs(z)} {
				zs = append(zs, v)
			}
			for _, v := range zs {
				pr := respond(f, ch, w, ms, v, p)
				if !pr.Verify(cm) {
					continue
				}
				// One number in all groups, whose response fits: the proof
				// only bounds it up to that slack.
				if v.Cmp(z) == 0 && z.Cmp(lo) >= 0 && z.Cmp(hi) < 0 {
					c.Vacuous("within the slack")
					continue
				}
				rt.Fatalf("%s: a transcript for the number %v is accepted with response %v (%s)", desc(p), m, v, kind)
			}
			c.NonTrivial(shape(p), kind, m)
			c.Label(kind)
		})
}

// The zero-knowledge simulator, with the challenge it chose, the one of the
// hash, or others.
//vh:shards quick=4 thorough=8
func TestC13_Simulated(t *testing.T) {
	vh.Check(t, 36000, 300000, "a transcript made by the simulator for commitments that need not hide the same secret; non-trivial: distinct (lengths, seed)",
		func(rt *rapid.T, c *vh.Case) {
			ff, ec, p := drawT(rt, 253, vh.OneOf(rt, "bc", []int{96, 128, 200}))
			a := newAsker(ff, ec, p)
			seed := vh.Seed64(rt, "seed")
			w := drawWitness(rt, p)
			cm := w.comm(p)
			false_ := rapid.Bool().Draw(rt, "false")
			if false_ {
				cm.Xp = ff.Element().Add(cm.Xp, ff.Element().BaseScale(drawOffset(rt, ff.N(), "d")))
			} else if w.rp.Sign() == 0 && w.m.Sign() == 0 && w.rq1.Sign() == 0 && w.rq2.Sign() == 0 {
				// Neutral elements only: the responses do not depend on the
				// challenge, the simulator is the honest prover.
				c.Vacuous("neutral statement")
				return
			}
			lo, hi := bounds(p)
			var pr voteproof.SigmaProof
			pr.Params = p
			pr.Challenge = vh.DetInt(seed, "c", pow2(int(p.Bc)))
			switch vh.Pick(rt, 4, "c") {
			case 0:
				pr.Challenge = vh.I(0)
			case 1:
				pr.Challenge = vh.I(1)
			}
			pr.Z = add(lo, vh.DetInt(seed, "z", sub(hi, lo)))
			pr.Sp, pr.Sq1, pr.Sq2 = vh.DetInt(seed, "sp", ff.N()), vh.DetInt(seed, "sq1", ec.N()), vh.DetInt(seed, "sq2", ec.N())
			neg := new(big.Int).Neg(pr.Challenge)
			fit := func(l, x group.Element, g group.Group) group.Element { return g.Element().Add(l, g.Element().Scale(x, neg)) }
			pr.W = fit(ff.Element().BaseScale(pr.Sp), cm.Y, ff)
			pr.Kp = fit(commit(pr.Z, pr.Sp, p.GFF), cm.Xp, ff)
			pr.Kq1 = fit(commit(pr.Z, pr.Sq1, p.GEC), cm.Xq1, ec)
			pr.Kq2 = fit(commit(pr.Z, pr.Sq2, p.GEC), cm.Xq2, ec)
			chosen := pr.Challenge
			if pr.Verify(cm) {
				rt.Fatalf("%s: a simulated transcript is accepted (challenge %v)", desc(p), chosen)
			}
			if ch, ok := a.challenge(cm, pr.SigmaCommit); ok {
				pr.Challenge = ch
				if pr.Verify(cm) {
					rt.Fatalf("%s: a simulated transcript is accepted with the hashed challenge %v in place of %v", desc(p), ch, chosen)
				}
			} else {
				c.Vacuous("challenge not known")
			}
			for _, o := range []*big.Int{add(chosen, pow2(int(p.Bc))), new(big.Int).Neg(chosen), mod(neg, ff.N())} {
				pr.Challenge = o
				if pr.Verify(cm) {
					rt.Fatalf("%s: a simulated transcript is accepted with challenge %v", desc(p), o)
				}
			}
			c.NonTrivial(shape(p), seed)
			c.Label("false statement %v", false_)
		})
}

// alter13 changes one component of an accepted proof or of its statement.
func alter13(rt *rapid.T, p params, pr *voteproof.SigmaProof, cm *voteproof.VerCommitments) string {
	el := func(e group.Element, gp voteproof.GroupParameters, pool ...group.Element) (group.Element, string) {
		g := gp.I
		var x group.Element
		kind := ""
		switch vh.Pick(rt, 6, "change") {
		case 0:
			x, kind = g.Element().Add(e, gp.G), "+G"
		case 1:
			x, kind = g.Element().Add(e, gp.H), "+H"
		case 2:
			x, kind = g.Element().Negate(e), "negated"
		case 3:
			x, kind = g.Identity(), "identity"
		case 4:
			x, kind = g.Element().Add(e, e), "doubled"
		default:
			x, kind = pool[vh.Pick(rt, len(pool), "pool")], "replaced"
		}
		if x.IsEqual(e) {
			x, kind = g.Element().Add(e, gp.G), "+G"
		}
		return x, kind
	}
	sc := func(s, n *big.Int) (*big.Int, string) {
		var x *big.Int
		kind := ""
		switch vh.Pick(rt, 7, "change") {
		case 5:
			x, kind = new(big.Int).Neg(s), "opposite"
		case 6:
			x, kind = add(s, pow2(vh.OneOf(rt, "far", []int{64, 128, 256, 257, 320, 384, 512, 521, 1024, 4096}))), "far above"
		case 0:
			x, kind = add(s, vh.I(1)), "+1"
		case 1:
			x, kind = sub(s, vh.I(1)), "-1"
		case 2:
			x, kind = vh.I(0), "0"
		case 3:
			x, kind = sub(n, s), "negated"
		default:
			x, kind = new(big.Int).Xor(s, pow2(vh.Pick(rt, n.BitLen()-1, "bit"))), "bit flipped"
		}
		if mod(sub(x, s), n).Sign() == 0 {
			x, kind = add(s, vh.I(1)), "+1"
		}
		return x, kind
	}
	name, k := "", vh.Pick(rt, 14, "part")
	switch k {
	case 0:
		cm.Y, name = el(cm.Y, p.GFF, cm.Xp, pr.W, pr.Kp)
		name = "Y " + name
	case 1:
		cm.Xp, name = el(cm.Xp, p.GFF, cm.Y, pr.W, pr.Kp)
		name = "Xp " + name
	case 2:
		cm.Xq1, name = el(cm.Xq1, p.GEC, cm.Xq2, pr.Kq1, pr.Kq2)
		name = "Xq1 " + name
	case 3:
		cm.Xq2, name = el(cm.Xq2, p.GEC, cm.Xq1, pr.Kq1, pr.Kq2)
		name = "Xq2 " + name
	case 4:
		pr.W, name = el(pr.W, p.GFF, cm.Y, cm.Xp, pr.Kp)
		name = "W " + name
	case 5:
		pr.Kp, name = el(pr.Kp, p.GFF, cm.Y, cm.Xp, pr.W)
		name = "Kp " + name
	case 6:
		pr.Kq1, name = el(pr.Kq1, p.GEC, cm.Xq1, cm.Xq2, pr.Kq2)
		name = "Kq1 " + name
	case 7:
		pr.Kq2, name = el(pr.Kq2, p.GEC, cm.Xq1, cm.Xq2, pr.Kq1)
		name = "Kq2 " + name
	case 8:
		pr.Challenge, name = sc(pr.Challenge, pow2(int(p.Bc)+1))
		name = "challenge " + name
	case 9:
		pr.Z, name = sc(pr.Z, p.GEC.N)
		name = "Z " + name
	case 10:
		pr.Sp, name = sc(pr.Sp, p.GFF.N)
		name = "Sp " + name
	case 11:
		pr.Sq1, name = sc(pr.Sq1, p.GEC.N)
		name = "Sq1 " + name
	case 12:
		pr.Sq2, name = sc(pr.Sq2, p.GEC.N)
		name = "Sq2 " + name
	default:
		pr.Challenge, name = add(pr.Challenge, []*big.Int{p.GFF.N, p.GEC.N, pow2(int(p.Bc)), pow2(256)}[vh.Pick(rt, 4, "by")]), "challenge +order"
	}
	return name
}

// Accepted proofs with one component or commitment altered.
//vh:shards quick=6 thorough=8
func TestC13_Altered(t *testing.T) {
	vh.Check(t, 42000, 300000, "an accepted proof, one component of which or one commitment of its statement is changed, over transparent groups and curves; non-trivial: the original is accepted",
		func(rt *rapid.T, c *vh.Case) {
			var p params
			if vh.Pick(rt, 24, "real") == 0 {
				p = drawReal(rt)
				if p.Bc < 96 {
					p = mustSetup(rt, 16, 224, int(p.Bg), 1, 2, p.GFF, p.GEC)
				}
			} else {
				_, _, p = drawT(rt, 253, vh.OneOf(rt, "bc", []int{96, 128, 200}))
			}
			w := drawWitness(rt, p)
			pr := prove(w, p, vh.NewTape(vh.Seed64(rt, "tape")))
			cm := w.comm(p)
			if !pr.Verify(cm) {
				c.Vacuous("honest proof rejected")
				return
			}
			var name string
			if vh.Pick(rt, 8, "other") == 0 {
				// Commitments of another witness.
				o := drawWitness(rt, p)
				o.rq1 = add(o.rq1, vh.I(1))
				oc := o.comm(p)
				switch vh.Pick(rt, 5, "which") {
				case 0:
					cm, name = oc, "another statement"
				case 1:
					cm.Y, cm.Xp, name = oc.Y, oc.Xp, "another ciphertext"
				case 2:
					cm.Xq1, name = oc.Xq1, "another first commitment"
				case 3:
					cm.Xq2, name = oc.Xq2, "another second commitment"
				default:
					cm.Xq1, cm.Xq2, name = cm.Xq2, cm.Xq1, "commitments exchanged"
				}
				v := w.comm(p)
				if cm.Y.IsEqual(v.Y) && cm.Xp.IsEqual(v.Xp) && cm.Xq1.IsEqual(v.Xq1) && cm.Xq2.IsEqual(v.Xq2) {
					c.Vacuous("the same statement")
					return
				}
			} else {
				name = alter13(rt, p, &pr, &cm)
			}
			if pr.Verify(cm) {
				rt.Fatalf("%s: an altered proof is accepted (%s)", desc(p), name)
			}
			c.NonTrivial(shape(p), w.m, name)
			c.Label(name)
		})
}

// Transcripts that satisfy all relations with a challenge that is not the
// hash-derived one.
//vh:shards quick=2 thorough=8
func TestC13_ForeignChallenge(t *testing.T) {
	vh.Check(t, 36000, 300000, "a transcript whose relations all hold for the challenge it contains, which is not the hash-derived one but related to it; non-trivial: the same prover is accepted with the hash-derived challenge",
		func(rt *rapid.T, c *vh.Case) {
			ff, ec, p := drawT(rt, 253, vh.OneOf(rt, "bc", []int{96, 128, 200}))
			a := newAsker(ff, ec, p)
			w := drawWitness(rt, p)
			switch vh.Pick(rt, 3, "small") {
			case 0:
				w.m = vh.I(0)
			case 1:
				w.m = mod(w.m, vh.I(2))
			}
			if w.m.BitLen() > int(p.Bx) {
				w.m = vh.I(0)
			}
			lo, hi := bounds(p)
			width := sub(sub(hi, lo), lo)
			if width.Sign() <= 0 {
				c.Vacuous("no room")
				return
			}
			ms := drawMasks(vh.Seed64(rt, "masks"), p)
			k := add(add(lo, new(big.Int).Rsh(width, 1)), mod(ms.kp, add(vh.I(1), new(big.Int).Rsh(width, 2))))
			ms.kp, ms.kq1, ms.kq2 = k, k, k
			special := coincide(rt, &w, &ms)
			cm := w.comm(p)
			f := ms.first(p)
			ch, ok := a.challenge(cm, f)
			if !ok {
				c.Vacuous("challenge not known")
				return
			}
			z := add(k, mul(ch, w.m))
			if good := respond(f, ch, w, ms, z, p); z.Cmp(hi) >= 0 || !good.Verify(cm) {
				c.Vacuous("the reference prover is rejected")
				return
			}
			both := mul(ff.N(), ec.N())
			neg := func(v *big.Int) *big.Int { return new(big.Int).Neg(v) }
			rev := func(v *big.Int) *big.Int {
				b := v.FillBytes(make([]byte, 32))
				for i, j := 0, 31; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
				return new(big.Int).SetBytes(b)
			}
			bit := vh.Pick(rt, int(p.Bc), "bit")
			cands := []struct {
				name string
				v    *big.Int
			}{
				{"negated", neg(ch)},
				{"plus one", add(ch, vh.I(1))},
				{"minus one", sub(ch, vh.I(1))},
				{"one bit flipped", new(big.Int).Xor(ch, pow2(bit))},
				{"cut from above", mod(ch, pow2(bit))},
				{"cut from below", new(big.Int).Rsh(ch, uint(1+bit))},
				{"low bits cleared", new(big.Int).Lsh(new(big.Int).Rsh(ch, uint(1+bit)), uint(1+bit))},
				{"one longer", add(ch, pow2(int(p.Bc)))},
				{"much longer", add(ch, pow2(256))},
				{"shifted up", new(big.Int).Lsh(ch, 8)},
				{"zero", vh.I(0)},
				{"one", vh.I(1)},
				{"minus one alone", vh.I(-1)},
				{"bytes reversed", rev(ch)},
				{"complement", sub(sub(pow2(int(p.Bc)), vh.I(1)), ch)},
				{"plus the field group order", add(ch, ff.N())},
				{"plus the curve order", add(ch, ec.N())},
				{"plus both orders", add(ch, both)},
				{"minus both orders", sub(ch, both)},
				{"any", vh.DetInt(vh.Seed64(rt, "any"), "c", pow2(int(p.Bc)))},
			}
			x := cands[vh.Pick(rt, len(cands), "which")]
			if x.v.Cmp(ch) == 0 {
				c.Vacuous("the same challenge")
				return
			}
			z = add(k, mul(x.v, w.m))
			if z.Cmp(lo) < 0 || z.Cmp(hi) >= 0 {
				// The relations only need it modulo the orders.
				z = add(k, mul(ch, w.m))
				if d := mod(mul(sub(x.v, ch), w.m), both); d.Sign() != 0 {
					c.Vacuous("response outside")
					return
				}
			}
			if bad := respond(f, x.v, w, ms, z, p); bad.Verify(cm) {
				rt.Fatalf("%s: a transcript with another challenge is accepted (%s: %v, not %v; %s)", desc(p), x.name, x.v, ch, special)
			}
			c.NonTrivial(shape(p), x.name, w.m, ch)
			c.Label(x.name)
			c.Label(special)
		})
}

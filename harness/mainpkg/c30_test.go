package main

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// What does not change with the randomness does not change with the vote.
//vh:shards quick=6 thorough=8
func TestC30_NothingTellsTheVote(t *testing.T) {
	vh.Check(t, 900, 20000, "three encoded ballots: two for a candidate, one for another: every place that is the same in the first two is the same in the third; non-trivial: distinct (configuration, votes, seed), the votes differ",
		func(rt *rapid.T, c *vh.Case) {
			cf := zzDrawReal(rt, []int{400, 520}, []int64{16, 8, 4, 4, 2, 2, 1, 1})
			v, w := cf.candidate(rt, "vote"), cf.candidate(rt, "other")
			seed := vh.Seed64(rt, "tape")
			if cf.sk.BitLen() < 128 || zzSub(cf.ff.N(), cf.sk).BitLen() < 128 {
				// A key that can be guessed.
				cf.sk = vh.DetInt(seed, "key", cf.ff.N())
				cf.build(rt)
			}
			var enc [3][]byte
			for i, m := range []int64{v, v, w} {
				tape := vh.NewTape(seed + uint64(i))
				tape.Steer = func(j int, buf []byte) {
					if j == 0 {
						vh.SteerBig(buf, vh.I(m-int64(cf.lo)))
					}
				}
				bd := zzCast(cf.pp, tape)
				if got := cf.decrypt(bd.Ballot); got != m {
					// The voter's choice is not the first thing it draws.
					bd, _ = cf.castFor(rt, m, vh.NewTape(seed+uint64(i)))
				}
				enc[i] = zzJSON(rt, bd)
			}
			bad, err := vh.Tells(enc[0], enc[1], enc[2])
			if err != nil {
				rt.Fatalf("%v: an encoded ballot is not JSON: %v", cf, err)
			}
			if bad != "" {
				rt.Fatalf("%v: encoded ballots tell votes for %d and %d apart: %s", cf, v, w, bad)
			}
			if v == w {
				c.Vacuous("the votes are equal")
				return
			}
			c.NonTrivial(cf.String(), v, w, seed)
		})
}

// No secret stands in a ballot.
//vh:shards quick=6 thorough=8
func TestC30_NoSecretInside(t *testing.T) {
	vh.Check(t, 300, 8000, "an encoded ballot, the randomness it was made with, and the numbers that may be made of that: none of them stands in the ballot in decimal, hexadecimal, base64 or as bytes; non-trivial: distinct (configuration, vote, seed)",
		func(rt *rapid.T, c *vh.Case) {
			cf := zzDrawReal(rt, []int{400, 520, 400, 520, 0}, []int64{16, 8, 4, 2, 1})
			if cf.lo == 0 {
				// The response to the secret 0 is the mask itself.
				cf.lo++
				if cf.hi == 0 {
					cf.hi++
				}
				cf.build(rt)
			}
			v := cf.candidate(rt, "vote")
			seed := vh.Seed64(rt, "tape")
			tape := vh.NewTape(seed)
			var rec vh.TapeLog
			tape.Record(&rec)
			var bd BallotData
			var secrets []*big.Int
			if rapid.Bool().Draw(rt, "voter") {
				bd = zzCast(cf.pp, tape)
			} else {
				var w zzWit
				bd, w = cf.castFor(rt, v, tape)
				for _, n := range []*big.Int{cf.ff.N(), cf.ec.N()} {
					for _, x := range []*big.Int{w.rp, w.rq1, w.rq2} {
						secrets = append(secrets, x, zzMod(x, n), zzMod(new(big.Int).Neg(x), n))
					}
				}
			}
			text := vh.NewText(zzJSON(rt, bd))
			secrets = append(secrets, rec.Candidates()...)
			for _, s := range secrets {
				if how := text.Contains(s); how != "" {
					rt.Fatalf("%v: an encoded ballot contains a secret %s: %v", cf, how, s)
				}
			}
			c.NonTrivial(cf.String(), v, seed)
			c.Label("%s", cf.ec.Name())
		})
}

// zzSecrets reads what is secret off a ballot over transparent groups.
func (c *zzConf) secrets(bd BallotData) map[string]*big.Int {
	out := map[string]*big.Int{}
	h := vh.T(c.pp.BPParams.H).Symbols()[0]
	out["vote"] = vh.I(c.decrypt(bd.Ballot))
	out["rp"] = vh.T(bd.Ballot.U).Coef("G")
	for name, p := range map[string]*struct{ V, A, S, T1, T2 *vh.TElem }{
		"lower": {vh.T(bd.BpLower.V), vh.T(bd.BpLower.A), vh.T(bd.BpLower.S), vh.T(bd.BpLower.T1), vh.T(bd.BpLower.T2)},
		"upper": {vh.T(bd.BpUpper.V), vh.T(bd.BpUpper.A), vh.T(bd.BpUpper.S), vh.T(bd.BpUpper.T1), vh.T(bd.BpUpper.T2)},
	} {
		out[name+" gamma"], out[name+" alpha"], out[name+" rho"] = p.V.Coef(h), p.A.Coef(h), p.S.Coef(h)
		out[name+" tau1"], out[name+" tau2"] = p.T1.Coef(h), p.T2.Coef(h)
		for i := range c.pp.BPParams.Gg {
			out[fmt.Sprintf("%s sL%d", name, i)] = p.S.Coef(vh.T(c.pp.BPParams.Gg[i]).Symbols()[0])
			out[fmt.Sprintf("%s sR%d", name, i)] = p.S.Coef(vh.T(c.pp.BPParams.Hh[i]).Symbols()[0])
		}
	}
	vp := bd.VoteProof
	out["k"], out["tp"] = vh.T(vp.Kq1).Coef("G"), vh.T(vp.W).Coef("G")
	out["tq1"], out["tq2"] = vh.T(vp.Kq1).Coef(h), vh.T(vp.Kq2).Coef(h)
	return out
}

// zzDrawRoomy draws parameters under which the voter practically never draws
// anything twice.
func zzDrawRoomy(rt *rapid.T, bits []int64) *zzConf {
	c := &zzConf{}
	c.ff, c.ec = zzT(vh.OneOf(rt, "field", []int{400, 521})), zzT(384)
	c.bits = vh.OneOf(rt, "bits", bits)
	c.lo, c.hi = zzRange(rt, c.bits)
	c.sk = zzKey(rt, c.ff.N())
	c.bx, c.bc, c.bg = 16, 96+8*vh.Pick(rt, 12, "bc8"), 384
	c.build(rt)
	return c
}

// The secrets of a ballot are drawn one by one.
//vh:shards quick=6 thorough=8
func TestC30_OneDrawEach(t *testing.T) {
	vh.Check(t, 60, 1500, "the runs of the voter that differ from a first one in one bit of one read of randomness, for all its reads: at most one of all the secrets of the ballot moves, and every one moves some time; non-trivial: distinct (configuration, seed)",
		func(rt *rapid.T, c *vh.Case) {
			cf := zzDrawRoomy(rt, []int64{1, 1, 2, 2, 4, 8})
			// A power of two of candidates: the choice is drawn once.
			mask := uint16(1)<<vh.Pick(rt, int(cf.bits)+1, "wide") - 1
			cf.lo &^= mask
			cf.hi = cf.lo + mask
			cf.build(rt)
			seed := vh.Seed64(rt, "tape")
			t0 := vh.NewTape(seed)
			base := cf.secrets(zzCast(cf.pp, t0))
			if base["vote"].Sign() < 0 {
				rt.Fatalf("%v: the ballot decrypts to no vote", cf)
			}
			moved := map[string]int{}
			for _, at := range vh.Flips(t0.Lens) {
				ti := vh.FlipTape(seed, at)
				r := cf.secrets(zzCast(cf.pp, ti))
				if ti.Reads() != t0.Reads() {
					// Something was drawn twice; what follows is shifted.
					for k := range base {
						moved[k]++
					}
					continue
				}
				var ch []string
				for k := range base {
					if r[k].Cmp(base[k]) != 0 {
						ch = append(ch, k)
						moved[k]++
					}
				}
				if len(ch) > 1 {
					rt.Fatalf("%v: several secrets of a ballot come from the same randomness: %v", cf, ch)
				}
			}
			for k := range base {
				if moved[k] == 0 && (k != "vote" || cf.lo != cf.hi) {
					rt.Fatalf("%v: the secret %s of a ballot does not depend on the randomness", cf, k)
				}
			}
			c.NonTrivial(cf.String(), seed)
			c.Label("%d reads", t0.Reads())
		})
}

// No secret is used twice, within a ballot or between ballots.
//vh:shards quick=6 thorough=8
func TestC30_NothingTwice(t *testing.T) {
	vh.Check(t, 600, 15000, "a history of ballots of one or two elections on the same groups, in one source of randomness: no secret of a ballot is zero, nor equals or opposes another of any; non-trivial: distinct (configuration, length, seed)",
		func(rt *rapid.T, c *vh.Case) {
			cf := zzDrawRoomy(rt, []int64{1, 2, 4, 8, 16})
			conf := []*zzConf{cf}
			if rapid.Bool().Draw(rt, "two") {
				o := *cf
				o.sk = zzKey(rt, o.ff.N())
				o.lo, o.hi = zzRange(rt, o.bits)
				o.build(rt)
				conf = append(conf, &o)
			}
			seed := vh.Seed64(rt, "tape")
			tape := vh.NewTape(seed)
			k := 2 + vh.Pick(rt, 4, "length")
			seen := map[string]string{}
			for i := 0; i < k; i++ {
				e := conf[vh.Pick(rt, len(conf), "election")]
				s := e.secrets(zzCast(e.pp, tape))
				delete(s, "vote")
				mine := map[string]string{}
				for name, v := range s {
					if v.Sign() == 0 {
						rt.Fatalf("%v: the secret %s of a ballot is zero", e, name)
					}
					n := e.ec.N()
					if name == "rp" || name == "tp" {
						n = e.ff.N()
					}
					for _, x := range []*big.Int{v, zzSub(n, v)} {
						if o, dup := seen[x.Text(62)]; dup {
							rt.Fatalf("%v: the secret %s of ballot %d is (the opposite of) %s", e, name, i, o)
						}
					}
					for o, x := range mine {
						if x == v.Text(62) || x == zzSub(n, v).Text(62) {
							rt.Fatalf("%v: the secrets %s and %s of a ballot are equal or opposite", e, name, o)
						}
					}
					mine[name] = v.Text(62)
				}
				for name, x := range mine {
					seen[x] = fmt.Sprintf("%s of ballot %d", name, i)
				}
			}
			c.NonTrivial(cf.String(), k, seed)
			c.Label("%d elections", len(conf))
		})
}

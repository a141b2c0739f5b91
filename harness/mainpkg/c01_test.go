package main

import (
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// zzHonest casts one ballot and has it judged, directly and as JSON.
func zzHonest(rt *rapid.T, c *vh.Case, cf *zzConf) {
	want := cf.candidate(rt, "vote")
	var bd BallotData
	how := ""
	tape, kind := zzTape(rt, want-int64(cf.lo), cf.ec.N())
	if vh.Pick(rt, 3, "voter") > 0 {
		bd, how = zzCast(cf.pp, tape), "cast"
	} else {
		bd, _ = cf.castFor(rt, want, tape)
		how = "chosen"
	}
	m := cf.decrypt(bd.Ballot)
	if !cf.inRange(m) || (how == "chosen" && m != want) {
		rt.Fatalf("%v: the ballot for a candidate of the range (wanted %d) decrypts to %d", cf, want, m)
	}
	if !cf.accepts(bd) {
		rt.Fatalf("%v: the honest ballot for %d is rejected (%s)", cf, m, how)
	}
	b := zzJSON(rt, bd)
	if ok, decoded := cf.judge(b); !decoded {
		rt.Fatalf("%v: the JSON form of the honest ballot for %d is not understood", cf, m)
	} else if !ok {
		rt.Fatalf("%v: the honest ballot for %d is rejected after a JSON round trip", cf, m)
	}
	switch m {
	case int64(cf.lo):
		c.Label("lowest candidate")
	case int64(cf.hi):
		c.Label("highest candidate")
	}
	c.Label(how + ", " + kind)
	c.Label(cf.ec.Name())
	c.NonTrivial(cf.String(), m)
}

// Curves with smaller field groups.
//vh:shards quick=8 thorough=8
func TestC01_Curves(t *testing.T) {
	vh.Check(t, 1200, 30000, "an honest ballot on one of the four curves over a mod-p group of 400 or 520 bits; non-trivial: distinct (configuration, candidate)",
		func(rt *rapid.T, c *vh.Case) {
			zzHonest(rt, c, zzDrawReal(rt, []int{400, 400, 520}, zzBits))
		})
}

// The full-size field group.
//vh:shards quick=4 thorough=8
func TestC01_FullSize(t *testing.T) {
	vh.Check(t, 80, 2000, "an honest ballot on one of the four curves over the 3072-bit group; non-trivial: distinct (configuration, candidate)",
		func(rt *rapid.T, c *vh.Case) {
			zzHonest(rt, c, zzDrawReal(rt, []int{0}, []int64{16, 8, 4}))
		})
}

// Transparent groups.
//vh:shards quick=4 thorough=8
func TestC01_Transparent(t *testing.T) {
	vh.Check(t, 6000, 200000, "an honest ballot over transparent groups; non-trivial: distinct (configuration, candidate)",
		func(rt *rapid.T, c *vh.Case) {
			cf := zzDrawT(rt, zzBits)
			zzHonest(rt, c, cf)
		})
}

// The system's own setup, at the ends of its range.
//vh:shards quick=4 thorough=8
func TestC01_OwnSetup(t *testing.T) {
	i, n := vh.Shard()
	vh.Check(t, 64, 1600, "an honest ballot under the parameters of the system's own setup, at both ends of its range and inside; non-trivial: distinct (curve, offset)",
		func(rt *rapid.T, c *vh.Case) {
			var mine []group.Group
			for j, g := range zzCurves {
				if j%n == i%len(zzCurves) || n > len(zzCurves) {
					mine = append(mine, g)
				}
			}
			g := vh.OneOf(rt, "curve", mine)
			pp := zzSetup(rt, g)
			if pp.candidateMax < pp.candidateMin {
				rt.Fatalf("%s: the setup has no candidates: [%d, %d]", g.Name(), pp.candidateMin, pp.candidateMax)
			}
			w := int64(pp.candidateMax) - int64(pp.candidateMin)
			off := []int64{0, w, w / 2, min(w, 1), max(w-1, 0), int64(vh.Pick(rt, int(w)+1, "offset"))}[vh.Pick(rt, 6, "at")]
			tape, kind := zzTape(rt, off, g.N())
			bd := zzCast(pp, tape)
			ok, times := verifyVote(bd, pp.RPParams)
			if !ok {
				rt.Fatalf("%s: an honest ballot (offset %d) is rejected", g.Name(), off)
			}
			if len(times) < 2 {
				rt.Fatalf("%s: an accepted ballot comes with %d durations, the caller needs two", g.Name(), len(times))
			}
			bd2, err := BallotDataUnmarshalJSON(zzJSON(rt, bd), pp)
			if err != nil {
				rt.Fatalf("%s: the JSON form of an honest ballot is not understood: %v", g.Name(), err)
			}
			if ok, _ := verifyVote(bd2, pp.RPParams); !ok {
				rt.Fatalf("%s: an honest ballot (offset %d) is rejected after a JSON round trip", g.Name(), off)
			}
			c.NonTrivial(g.Name(), off)
			c.Label(g.Name() + ", " + kind)
		})
}

// Every candidate of a small range, with the system's own voter.
func TestC01_EveryCandidate(t *testing.T) {
	vh.Check(t, 16, 400, "200 ballots of the system's own voter in a range of at most six candidates: all are accepted and every candidate occurs; non-trivial: distinct (range, key)",
		func(rt *rapid.T, c *vh.Case) {
			cf := &zzConf{ff: zzT(400), ec: zzT(256), bits: 4, bx: 16, bc: 224, bg: 256}
			w := vh.Pick(rt, 6, "width")
			from := []int{0, 65535 - w, 101, vh.Pick(rt, 65536-w, "from")}[vh.Pick(rt, 4, "fromKind")]
			cf.lo, cf.hi = uint16(from), uint16(from+w)
			cf.sk = zzKey(rt, cf.ff.N())
			cf.build(rt)
			seen := map[int64]int{}
			vh.With(vh.NewTape(vh.Seed64(rt, "tape")), func() {
				for i := 0; i < 200 && (i < 40 || len(seen) <= w); i++ {
					bd, _ := castVote(cf.pp)
					m := cf.decrypt(bd.Ballot)
					seen[m]++
					if !cf.inRange(m) {
						rt.Fatalf("%v: the voter voted for %d", cf, m)
					}
					if !cf.accepts(bd) {
						rt.Fatalf("%v: the honest ballot for %d is rejected", cf, m)
					}
				}
			})
			if len(seen) != w+1 {
				rt.Fatalf("%v: 200 random votes fall on %d of %d candidates: %v", cf, len(seen), w+1, seen)
			}
			c.NonTrivial(cf.lo, cf.hi, cf.sk)
			c.Label("%d candidates", w+1)
		})
}

// Safe intervals of the equality proof so small that its ends occur.
//vh:shards quick=6 thorough=8
func TestC01_SmallSlack(t *testing.T) {
	vh.Check(t, 9000, 200000, "an honest ballot for one of at most four candidates with short challenges and little slack, so that responses at the ends of the safe interval occur; non-trivial: distinct (configuration, candidate)",
		func(rt *rapid.T, c *vh.Case) {
			cf := &zzConf{ff: zzT(256), ec: zzT(256), sk: vh.I(77)}
			cf.bits = int64(1 + vh.Pick(rt, 2, "bits"))
			w := vh.Pick(rt, 1<<cf.bits, "width")
			cf.bx = 1
			if cf.bits == 2 {
				cf.bx = 2
			}
			from := vh.Pick(rt, 1<<cf.bx-w, "from")
			cf.lo, cf.hi = uint16(from), uint16(from+w)
			cf.bc = 8
			cf.bg = cf.bx + cf.bc + 2 + vh.Pick(rt, 2, "slack")
			cf.build(rt)
			m := cf.candidate(rt, "vote")
			tape, _ := zzTape(rt, m-int64(cf.lo), cf.ec.N())
			bd, _ := cf.castFor(rt, m, tape)
			if !cf.accepts(bd) {
				rt.Fatalf("%v: the honest ballot for %d is rejected", cf, m)
			}
			c.NonTrivial(cf.String(), m)
		})
}

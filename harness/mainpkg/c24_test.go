package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func zzSnapGroup(g voteproof.GroupParameters) string {
	return fmt.Sprint(g.G, g.H, g.N, g.F, g.I.Name(), g.I.N(), g.I.P(), g.I.Generator(), g.I.Identity())
}

func zzSnapRP(p voteproof.ProofParams) string {
	return fmt.Sprint(p.Bx, p.Bc, p.Bg, p.Bb, p.RangeLo, p.RangeHi, zzSnapGroup(p.GFF), zzSnapGroup(p.GEC))
}

func zzSnapBP(p bulletproofs.BulletProofSetupParams) string {
	return fmt.Sprint(p.N, p.G, p.H, p.Gg, p.Hh, p.GP.Name())
}

func (cf *zzConf) snap() string {
	p := cf.pp
	return fmt.Sprint(p.candidateMin, p.candidateMax, p.EGPK, zzSnapGroup(p.FFGroupParams), zzSnapGroup(p.ECGroupParams), zzSnapBP(p.BPParams), zzSnapRP(p.RPParams), cf.sk)
}

func (cf *zzConf) snapBallot(bd *BallotData) string {
	var out []string
	for _, f := range cf.fields(bd) {
		if f.elem != nil {
			out = append(out, f.name+"="+(*f.elem).String())
		} else {
			out = append(out, f.name+"="+(*f.num).String())
		}
	}
	sort.Strings(out)
	for _, p := range []*bulletproofs.BulletProof{&bd.BpLower, &bd.BpUpper} {
		ip := p.InnerProductProof.Params
		out = append(out, zzSnapBP(p.Params), fmt.Sprint(ip.Gg, ip.Hh, ip.Uu))
	}
	return strings.Join(append(out, zzSnapRP(bd.VoteProof.Params)), "\n")
}

// zzItem is a submission, in memory and as JSON.
type zzItem struct {
	bd  BallotData
	b   []byte
	bad bool
}

func zzPool(rt *rapid.T, cf *zzConf, n int) (out []*zzItem) {
	seed := vh.Seed64(rt, "pool")
	before := cf.snap()
	for i := 0; i < n; i++ {
		var it zzItem
		if rapid.Bool().Draw(rt, "cast") {
			it.bd = zzCast(cf.pp, vh.NewTape(seed+uint64(i)))
		} else {
			m := cf.candidate(rt, "vote")
			it.bd, _ = cf.castFor(rt, m, vh.NewTape(seed+uint64(i)))
		}
		if cf.snap() != before {
			rt.Fatalf("%v: casting a vote changes the parameters", cf)
		}
		if k := vh.Pick(rt, 4, "spoil"); k < 3 {
			bd := zzCopy(it.bd)
			fs := cf.fields(bd)
			zzAlter(rt, cf, vh.OneOf(rt, "field", fs), fs)
			if k > 0 {
				// Both: they differ in a single part.
				keep := it
				keep.b = zzJSON(rt, keep.bd)
				out = append(out, &keep)
			}
			it.bd, it.bad = *bd, true
		}
		it.b = zzJSON(rt, it.bd)
		out = append(out, &it)
	}
	return out
}

// other is an election that differs in its key or in a bound.
func (cf *zzConf) other(rt *rapid.T) *zzConf {
	o := *cf
	switch vh.Pick(rt, 3, "other") {
	case 0:
		o.sk = zzAdd(zzMod(cf.sk, zzSub(cf.ff.N(), vh.I(2))), vh.I(1))
	case 1:
		if o.lo > 0 && int64(o.hi-o.lo)+1 < 1<<o.bits {
			o.lo--
		} else {
			o.sk = zzMod(zzAdd(zzMul(cf.sk, vh.I(2)), vh.I(1)), cf.ff.N())
		}
	default:
		if o.hi < 65535 && int64(o.hi-o.lo)+1 < 1<<o.bits {
			o.hi++
		} else {
			o.sk = zzMod(zzAdd(zzMul(cf.sk, vh.I(3)), vh.I(1)), cf.ff.N())
		}
	}
	if o.lo == cf.lo && o.hi == cf.hi && o.sk.Cmp(cf.sk) == 0 {
		o.sk = zzMod(zzAdd(cf.sk, vh.I(1)), cf.ff.N())
	}
	o.build(rt)
	return &o
}

// zzHistory runs a history of casting, decoding and judging.
func zzHistory(rt *rapid.T, c *vh.Case, cf *zzConf, viaJSON bool) {
	pool := zzPool(rt, cf, 2+vh.Pick(rt, 3, "size"))
	before := cf.snap()
	var snap []string
	for _, it := range pool {
		snap = append(snap, cf.snapBallot(&it.bd))
	}
	// A collector of another election, who accepts none of them.
	other := cf.other(rt)
	verdict, both := map[int]bool{}, map[bool]bool{}
	for n := 3 * len(pool); n > 0; n-- {
		i := vh.Pick(rt, len(pool), "which")
		var ok bool
		act := vh.Pick(rt, 7, "act")
		switch {
		case act == 6:
			if ok := other.accepts(pool[i].bd); ok {
				rt.Fatalf("%v: after a history, ballot %d is accepted in another election, %v", cf, i, other)
			}
			if viaJSON {
				if ok, _ := other.judge(append([]byte{}, pool[i].b...)); ok {
					rt.Fatalf("%v: after a history, ballot %d is accepted in another election, %v", cf, i, other)
				}
			}
			continue
		case act == 0:
			zzCast(cf.pp, vh.NewTape(vh.Seed64(rt, "cast")))
			continue
		case act < 3 && viaJSON:
			b := append([]byte{}, pool[i].b...)
			ok, _ = cf.judge(b)
			if string(b) != string(pool[i].b) {
				rt.Fatalf("%v: judging changes the bytes of a submission", cf)
			}
		default:
			ok = cf.accepts(pool[i].bd)
		}
		if was, seen := verdict[i]; seen && was != ok {
			rt.Fatalf("%v: the verdict on ballot %d was %v and is now %v", cf, i, was, ok)
		}
		if ok == pool[i].bad {
			rt.Fatalf("%v: after a history, ballot %d (spoilt: %v) is accepted: %v", cf, i, pool[i].bad, ok)
		}
		verdict[i], both[ok] = ok, true
		for j, it := range pool {
			if cf.snapBallot(&it.bd) != snap[j] {
				rt.Fatalf("%v: judging ballot %d changes ballot %d", cf, i, j)
			}
		}
	}
	if cf.snap() != before {
		rt.Fatalf("%v: judging changes the parameters", cf)
	}
	if len(both) == 2 {
		c.NonTrivial(cf.String(), verdict, snap[0])
	}
	c.Label("both verdicts %v", len(both) == 2)
}

// Histories of a collector.
//vh:shards quick=8 thorough=8
func TestC24_CollectorTransparent(t *testing.T) {
	vh.Check(t, 1200, 30000, "a history of casting and judging valid and spoilt ballots under common parameters; non-trivial: both verdicts occur",
		func(rt *rapid.T, c *vh.Case) { zzHistory(rt, c, zzDrawT(rt, []int64{1, 2, 4, 8, 16}), false) })
}

// Histories of a collector on the curves.
//vh:shards quick=8 thorough=8
func TestC24_CollectorCurves(t *testing.T) {
	vh.Check(t, 120, 4000, "the same on the curves, with submissions as JSON too; non-trivial: both verdicts occur",
		func(rt *rapid.T, c *vh.Case) {
			zzHistory(rt, c, zzDrawReal(rt, []int{400, 520}, []int64{1, 2, 4, 8, 16}), true)
		})
}

func zzConcurrent(rt *rapid.T, c *vh.Case, cf *zzConf, viaJSON bool) {
	pool := zzPool(rt, cf, 3)
	before := cf.snap()
	var snap []string
	for _, it := range pool {
		snap = append(snap, cf.snapBallot(&it.bd))
	}
	const workers = 6
	bad := make([]string, workers)
	made := make([]BallotData, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[w] = fmt.Sprint("panic: ", r)
				}
			}()
			if w < 2 {
				made[w], _ = castVote(cf.pp)
			}
			for k := 0; k < len(pool); k++ {
				i := (w + k) % len(pool)
				var ok bool
				if viaJSON && w%2 == 1 {
					ok, _ = cf.judge(pool[i].b)
				} else {
					ok = cf.accepts(pool[i].bd)
				}
				if ok == pool[i].bad {
					bad[w] = fmt.Sprintf("ballot %d (spoilt: %v) is judged %v concurrently", i, pool[i].bad, ok)
				}
			}
		}(w)
	}
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			rt.Fatalf("%v: %s", cf, b)
		}
	}
	for w := 0; w < 2; w++ {
		if !cf.accepts(made[w]) {
			rt.Fatalf("%v: a ballot cast concurrently with others is rejected", cf)
		}
	}
	for i, it := range pool {
		if cf.snapBallot(&it.bd) != snap[i] {
			rt.Fatalf("%v: judging concurrently changes ballot %d", cf, i)
		}
	}
	if cf.snap() != before {
		rt.Fatalf("%v: judging concurrently changes the parameters", cf)
	}
	c.NonTrivial(cf.String(), snap[0])
	c.Label("%s", cf.ec.Name())
}

// Concurrent judging on the curves.
//vh:shards quick=3 thorough=6
//vh:procs quick=4 thorough=4
func TestC24_CollectorConcurrent(t *testing.T) {
	vh.Check(t, 90, 2500, "6 goroutines decoding, judging and casting under shared parameters; non-trivial: distinct cases",
		func(rt *rapid.T, c *vh.Case) {
			zzConcurrent(rt, c, zzDrawReal(rt, []int{400, 520}, []int64{1, 2, 4, 8}), true)
		})
}

// The same under the race detector, in groups whose arithmetic is free of
// races in the libraries.
//vh:shards quick=2 thorough=4
//vh:race quick=1 thorough=1
//vh:procs quick=4 thorough=4
func TestC24_CollectorRace(t *testing.T) {
	vh.Check(t, 16, 300, "the same watched by the race detector; non-trivial: distinct cases",
		func(rt *rapid.T, c *vh.Case) {
			if rapid.Bool().Draw(rt, "real") {
				cf := &zzConf{ff: zzField(400), ec: zzCurves[3], bits: vh.OneOf(rt, "bits", []int64{2, 4}), sk: big.NewInt(13)}
				cf.lo, cf.hi = zzRange(rt, cf.bits)
				cf.zzLengths(rt)
				cf.build(rt)
				zzConcurrent(rt, c, cf, true)
				return
			}
			zzConcurrent(rt, c, zzDrawT(rt, []int64{2, 4}), false)
		})
}

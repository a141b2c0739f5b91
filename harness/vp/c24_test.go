package vp

import (
	"fmt"
	"sync"
	"testing"

	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func snapGroup(g voteproof.GroupParameters) string {
	return fmt.Sprint(g.G, g.H, g.N, g.F, g.I.Name(), g.I.N(), g.I.P(), g.I.Generator(), g.I.Identity())
}

func snapParams(p params) string {
	return fmt.Sprint(p.Bx, p.Bc, p.Bg, p.Bb, p.RangeLo, p.RangeHi, snapGroup(p.GFF), snapGroup(p.GEC), voteproof.BigTwo)
}

func snapProof(p *voteproof.SigmaProof, c voteproof.VerCommitments) string {
	return fmt.Sprint(p.W, p.Kp, p.Kq1, p.Kq2, p.Challenge, p.Z, p.Sp, p.Sq1, p.Sq2, c.Y, c.Xp, c.Xq1, c.Xq2, snapParams(p.Params))
}

func drawAny24(rt *rapid.T, transparent int) params {
	if vh.Pick(rt, transparent+1, "group") > 0 {
		_, _, p := drawT(rt, 253, vh.OneOf(rt, "bc", []int{96, 128, 200}))
		return p
	}
	p := drawReal(rt)
	if p.Bc < 96 {
		p = mustSetup(rt, 16, 224, int(p.Bg), 1, 2, p.GFF, p.GEC)
	}
	return p
}

// item24 is a proof with its statement; the spoilt ones must be rejected.
type item24 struct {
	pr  *voteproof.SigmaProof
	cm  voteproof.VerCommitments
	bad bool
}

func (it item24) verdict(rt *rapid.T, p params) bool {
	ok := it.pr.Verify(it.cm)
	if ok == it.bad {
		rt.Fatalf("%s: after other verifications, a proof (spoilt: %v) is accepted: %v", desc(p), it.bad, ok)
	}
	return ok
}

func drawPool24(rt *rapid.T, p params, n int) (out []item24) {
	seed := vh.Seed64(rt, "pool")
	for i := 0; i < n; i++ {
		w := drawWitness(rt, p)
		was := fmt.Sprint(w)
		pr := prove(w, p, vh.NewTape(seed+uint64(i)))
		if fmt.Sprint(w) != was {
			rt.Fatalf("%s: proving changes the secret or the randomness", desc(p))
		}
		it := item24{&pr, w.comm(p), false}
		switch vh.Pick(rt, 4, "spoil") {
		case 0:
			alter13(rt, p, it.pr, &it.cm)
			it.bad = true
		case 1, 2:
			// Both: the spoilt one differs in a single part.
			x := pr
			twin := item24{&x, it.cm, true}
			if k := vh.Pick(rt, 6, "twin"); k == 0 {
				x.Params.GFF.H = p.GFF.I.Element().Add(p.GFF.H, p.GFF.G)
			} else if k == 1 {
				x.Params.GEC.H = p.GEC.I.Element().Add(p.GEC.H, p.GEC.G)
			} else {
				alter13(rt, p, twin.pr, &twin.cm)
			}
			out = append(out, twin)
		}
		out = append(out, it)
	}
	return out
}

// Proving and verifying leave their inputs alone; verdicts do not depend on
// what was verified before.
//vh:shards quick=4 thorough=8
func TestC24_EqualityProofs(t *testing.T) {
	vh.Check(t, 3000, 80000, "a history of proving and verifying over a pool of valid and spoilt equality proofs under common parameters; non-trivial: both verdicts occur",
		func(rt *rapid.T, c *vh.Case) {
			p := drawAny24(rt, 20)
			before := snapParams(p)
			pool := drawPool24(rt, p, 2+vh.Pick(rt, 3, "size"))
			if snapParams(p) != before {
				rt.Fatalf("%s: proving changes the parameters", desc(p))
			}
			snap := make([]string, len(pool))
			for i, it := range pool {
				snap[i] = snapProof(it.pr, it.cm)
			}
			verdict, both := map[int]bool{}, map[bool]bool{}
			for n := 2 * len(pool); n > 0; n-- {
				i := vh.Pick(rt, len(pool), "which")
				ok := pool[i].verdict(rt, p)
				if was, seen := verdict[i]; seen && was != ok {
					rt.Fatalf("%s: the verdict on proof %d was %v and is now %v", desc(p), i, was, ok)
				}
				verdict[i], both[ok] = ok, true
				if ok && vh.Pick(rt, 3, "changed") == 0 {
					// The same object with another content is another proof.
					saved, cm := *pool[i].pr, pool[i].cm
					alter13(rt, p, pool[i].pr, &cm)
					if pool[i].pr.Verify(cm) {
						rt.Fatalf("%s: a verified proof is still accepted after it was changed", desc(p))
					}
					*pool[i].pr = saved
					if !pool[i].pr.Verify(pool[i].cm) {
						rt.Fatalf("%s: a verified proof is no longer accepted after a change to it was undone", desc(p))
					}
				}
				for j, it := range pool {
					if snapProof(it.pr, it.cm) != snap[j] {
						rt.Fatalf("%s: verifying proof %d changes proof %d", desc(p), i, j)
					}
				}
			}
			if snapParams(p) != before {
				rt.Fatalf("%s: verifying changes the parameters", desc(p))
			}
			if len(both) == 2 {
				c.NonTrivial(shape(p), verdict, snap[0])
			}
		})
}

func concurrent24(rt *rapid.T, c *vh.Case, p params) {
	pool := drawPool24(rt, p, 3)
	var want []bool
	var snap []string
	for _, it := range pool {
		want = append(want, it.verdict(rt, p))
		snap = append(snap, snapProof(it.pr, it.cm))
	}
	const workers = 6
	bad := make([]string, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[w] = fmt.Sprint("panic: ", r)
				}
			}()
			for k := 0; k < 2*len(pool); k++ {
				i := (w + k) % len(pool)
				if pool[i].pr.Verify(pool[i].cm) != want[i] {
					bad[w] = fmt.Sprintf("the verdict on proof %d is %v alone and %v concurrently", i, want[i], !want[i])
				}
			}
			if w == 0 {
				voteproof.Prove(vh.I(0), vh.I(5), vh.I(6), vh.I(7), p)
			}
		}(w)
	}
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			rt.Fatalf("%s: %s", desc(p), b)
		}
	}
	for i, it := range pool {
		if snapProof(it.pr, it.cm) != snap[i] {
			rt.Fatalf("%s: verifying concurrently changes proof %d", desc(p), i)
		}
	}
	c.NonTrivial(shape(p), p.GEC.I.Name(), want, snap[0])
}

// Concurrent verification of equality proofs on the curves.
//vh:shards quick=2 thorough=6
//vh:procs quick=4 thorough=4
func TestC24_EqualityConcurrent(t *testing.T) {
	vh.Check(t, 120, 2500, "6 goroutines verifying and proving under shared parameters; non-trivial: distinct cases",
		func(rt *rapid.T, c *vh.Case) { concurrent24(rt, c, drawReal(rt)) })
}

// The same under the race detector.
//vh:shards quick=1 thorough=4
//vh:race quick=1 thorough=1
//vh:procs quick=4 thorough=4
func TestC24_EqualityRace(t *testing.T) {
	vh.Check(t, 40, 800, "6 goroutines verifying and proving under shared parameters, watched by the race detector; non-trivial: distinct cases",
		func(rt *rapid.T, c *vh.Case) {
			if rapid.Bool().Draw(rt, "real") {
				ec, ff := curves[3], vh.SmallModP(400)
				h, _ := ec.Element().MapToGroup("another generator")
				concurrent24(rt, c, mustSetup(rt, 16, 224, ec.N().BitLen(), 101, 2000, groupParams(ff, ff.Element().BaseScale(vh.I(13))), groupParams(ec, h)))
				return
			}
			_, _, p := drawT(rt, 253, 128)
			concurrent24(rt, c, p)
		})
}

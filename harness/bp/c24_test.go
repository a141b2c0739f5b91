package bp

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func snapParams(p setupParams) string {
	var s strings.Builder
	fmt.Fprintln(&s, p.N, p.G, p.H, p.GP.Name(), p.GP.N(), p.GP.P(), p.GP.Generator(), p.GP.Identity())
	for _, e := range p.Gg {
		fmt.Fprintln(&s, e)
	}
	for _, e := range p.Hh {
		fmt.Fprintln(&s, e)
	}
	return s.String()
}

func snapProof(p *bulletproofs.BulletProof) string {
	el, sc, lens := parts(p)
	var out []string
	for k, e := range el {
		out = append(out, k+"="+e.String())
	}
	for k, v := range sc {
		out = append(out, k+"="+v.String())
	}
	sort.Strings(out)
	return lens + strings.Join(out, "\n")
}

func snapMulti(p *bulletproofs.MultiBulletProof) string {
	x := bulletproofs.BulletProof{V: p.Vs[0], A: p.A, S: p.S, T1: p.T1, T2: p.T2, Taux: p.Taux, Mu: p.Mu, Tprime: p.Tprime,
		InnerProductProof: p.InnerProductProof, Params: p.Params}
	return fmt.Sprint(p.Vs) + snapProof(&x)
}

// pool24 is a collection of proofs, good and bad, under common parameters.
type pool24 struct {
	single []*bulletproofs.BulletProof
	multi  []*bulletproofs.MultiBulletProof
	bad    map[any]bool // the spoilt ones
}

func (p *pool24) verify(i int) bool {
	if i < len(p.single) {
		ok, _ := p.single[i].Verify()
		return ok
	}
	ok, _ := p.multi[i-len(p.single)].Verify()
	return ok
}

func (p *pool24) spoilt(i int) bool {
	if i < len(p.single) {
		return p.bad[p.single[i]]
	}
	return p.bad[p.multi[i-len(p.single)]]
}

func (p *pool24) verdict(rt *rapid.T, i int) bool {
	ok := p.verify(i)
	if ok == p.spoilt(i) {
		rt.Fatalf("after other verifications, proof %d (spoilt: %v) is accepted: %v", i, p.spoilt(i), ok)
	}
	return ok
}

// spoil24 changes one part of a proof; it tells whether it did.
func spoil24(rt *rapid.T, p setupParams, pr *bulletproofs.BulletProof) bool {
	g := p.GP
	ip := &pr.InnerProductProof
	one := vh.I(1)
	switch vh.Pick(rt, 18, "spoil") {
	case 0:
		pr.Taux = add(pr.Taux, one)
	case 1:
		pr.Mu = add(pr.Mu, one)
	case 2:
		pr.Tprime = add(pr.Tprime, one)
	case 3:
		pr.V = g.Element().Add(pr.V, p.G)
	case 4:
		pr.A = g.Element().Add(pr.A, p.G)
	case 5:
		pr.S = g.Element().Add(pr.S, p.G)
	case 6:
		pr.T1 = g.Element().Add(pr.T1, p.G)
	case 7:
		pr.T2 = g.Element().Add(pr.T2, p.G)
	case 8:
		ip.A = add(ip.A, one)
	case 9:
		ip.B = add(ip.B, one)
	case 10:
		ip.Cc = add(ip.Cc, one)
	case 11:
		ip.P = g.Element().Add(ip.P, p.G)
	case 12:
		if len(ip.L) == 0 {
			return false
		}
		ip.L = append([]group.Element{}, ip.L[1:]...)
	case 13:
		if len(ip.R) == 0 {
			return false
		}
		ip.R = append([]group.Element{}, ip.R...)
		ip.R[len(ip.R)-1] = g.Element().Add(ip.R[len(ip.R)-1], p.G)
	case 14, 15:
		// The same proof under the generators in another order.
		if len(p.Hh) < 2 {
			return false
		}
		pr.Params.Hh = append(append([]group.Element{}, p.Hh[1:]...), p.Hh[0])
	case 16:
		if len(p.Gg) < 2 {
			return false
		}
		pr.Params.Gg = append(append([]group.Element{}, p.Gg[1:]...), p.Gg[0])
	default:
		// The same proof under another second generator.
		pr.Params.H = g.Element().Add(p.H, p.G)
	}
	return true
}

func (p *pool24) size() int { return len(p.single) + len(p.multi) }

func (p *pool24) snap() []string {
	var out []string
	for _, x := range p.single {
		out = append(out, snapProof(x))
	}
	for _, x := range p.multi {
		out = append(out, snapMulti(x))
	}
	return out
}

func drawPool24(rt *rapid.T, p setupParams, n int) *pool24 {
	out := &pool24{bad: map[any]bool{}}
	seed := vh.Seed64(rt, "tape")
	for i := 0; i < n; i++ {
		tape := vh.NewTape(seed + uint64(i))
		// The valid one, a spoilt one, or both of them.
		which := vh.Pick(rt, 4, "which")
		if rapid.Bool().Draw(rt, "aggregated") {
			m := drawShare(rt, p.N)
			pr, _ := proveMulti(rt, drawValues(rt, m, p.N/int64(m)), p, tape)
			x := pr
			if vh.Pick(rt, 4, "values") == 0 {
				j := vh.Pick(rt, m, "value")
				x.Vs = append([]group.Element{}, pr.Vs...)
				x.Vs[j] = p.GP.Element().Add(pr.Vs[j], p.G)
			} else {
				s := bulletproofs.BulletProof{V: pr.Vs[0], A: pr.A, S: pr.S, T1: pr.T1, T2: pr.T2, Taux: pr.Taux, Mu: pr.Mu, Tprime: pr.Tprime,
					InnerProductProof: pr.InnerProductProof, Params: pr.Params}
				if !spoil24(rt, p, &s) {
					which = 0
				}
				x = bulletproofs.MultiBulletProof{Vs: append([]group.Element{s.V}, pr.Vs[1:]...), A: s.A, S: s.S, T1: s.T1, T2: s.T2, Taux: s.Taux, Mu: s.Mu,
					Tprime: s.Tprime, InnerProductProof: s.InnerProductProof, Params: s.Params}
			}
			if which != 1 {
				out.multi = append(out.multi, &pr)
			}
			if which > 0 {
				out.multi = append(out.multi, &x)
				out.bad[&x] = true
			}
			continue
		}
		pr, _ := proveHonest(rt, drawValue(rt, p.N, "v"), p, tape)
		x := pr
		if !spoil24(rt, p, &x) {
			which = 0
		}
		if which != 1 {
			out.single = append(out.single, &pr)
		}
		if which > 0 {
			out.single = append(out.single, &x)
			out.bad[&x] = true
		}
	}
	return out
}

// change spoils an accepted proof in place, and undoes it.
func (p *pool24) change(rt *rapid.T, sp setupParams, i int) string {
	undo := func() {}
	if i < len(p.single) {
		pr := p.single[i]
		saved := *pr
		if !spoil24(rt, sp, pr) {
			return ""
		}
		undo = func() { *pr = saved }
	} else {
		pr := p.multi[i-len(p.single)]
		j := vh.Pick(rt, len(pr.Vs), "value")
		old := pr.Vs[j]
		pr.Vs[j] = sp.GP.Element().Add(old, sp.G)
		undo = func() { pr.Vs[j] = old }
	}
	if p.verify(i) {
		return "a verified proof is still accepted after it was changed"
	}
	undo()
	if !p.verify(i) {
		return "a verified proof is no longer accepted after a change to it was undone"
	}
	return ""
}

// roomy moves the lists of some proofs to the front of longer ones, and returns
// what is behind them.
func (p *pool24) roomy(rt *rapid.T, sp setupParams) (tails [][]group.Element) {
	move := func(l *[]group.Element) {
		if len(*l) == 0 || vh.Pick(rt, 2, "roomy") == 0 {
			return
		}
		n := len(*l)
		all := append(append(make([]group.Element, 0, n+6), *l...), sp.G, sp.G, sp.G, sp.G, sp.G, sp.G)
		*l = all[:n]
		tails = append(tails, all[n:])
	}
	ip := func(x *bulletproofs.InnerProductProof) {
		if rapid.Bool().Draw(rt, "one list") && len(x.L) == len(x.R) && len(x.L) > 0 {
			// One list behind the other.
			n := len(x.L)
			all := append(append([]group.Element{}, x.L...), x.R...)
			x.L, x.R = all[:n], all[n:]
			return
		}
		move(&x.L)
		move(&x.R)
		move(&x.Params.Gg)
		move(&x.Params.Hh)
	}
	for _, x := range p.single {
		ip(&x.InnerProductProof)
	}
	for _, x := range p.multi {
		move(&x.Vs)
		ip(&x.InnerProductProof)
	}
	return tails
}

func drawAny24(rt *rapid.T, transparent int) setupParams {
	if vh.Pick(rt, transparent+1, "group") > 0 {
		_, p := drawT(rt, exps)
		return p
	}
	return drawReal(rt, []int64{1, 2, 4, 8})
}

// Proving leaves its inputs alone, verifying leaves everything alone, and the
// verdict does not depend on what was verified before.
//vh:shards quick=6 thorough=8
func TestC24_RangeProofs(t *testing.T) {
	vh.Check(t, 900, 24000, "a history of proving and verifying over a pool of valid and spoilt range proofs under common parameters; non-trivial: both verdicts occur",
		func(rt *rapid.T, c *vh.Case) {
			p := drawAny24(rt, 5)
			before := snapParams(p)
			// Proving.
			m := drawShare(rt, p.N)
			vs := drawValues(rt, m, p.N/int64(m))
			was := fmtInts(vs)
			tape := vh.NewTape(vh.Seed64(rt, "first"))
			if m == 1 {
				proveHonest(rt, vs[0], p, tape)
			} else {
				proveMulti(rt, vs, p, tape)
			}
			if fmtInts(vs) != was {
				rt.Fatalf("%s, %d bits: proving changes the secret from %s to %s", p.GP.Name(), p.N, was, fmtInts(vs))
			}
			if snapParams(p) != before {
				rt.Fatalf("%s, %d bits: proving changes the parameters", p.GP.Name(), p.N)
			}
			pool := drawPool24(rt, p, 2+vh.Pick(rt, 3, "size"))
			if snapParams(p) != before {
				rt.Fatalf("%s, %d bits: proving changes the parameters", p.GP.Name(), p.N)
			}
			tails := pool.roomy(rt, p)
			snap := pool.snap()
			// Two proofs must not share what one of them can change.
			verdict := map[int]bool{}
			both := map[bool]bool{}
			for n := 2 * pool.size(); n > 0; n-- {
				i := vh.Pick(rt, pool.size(), "which")
				ok := pool.verdict(rt, i)
				if w, seen := verdict[i]; seen && w != ok {
					rt.Fatalf("%s, %d bits: the verdict on proof %d was %v and is now %v", p.GP.Name(), p.N, i, w, ok)
				}
				verdict[i], both[ok] = ok, true
				if ok && vh.Pick(rt, 3, "changed") == 0 {
					// The same object with another content is another proof.
					if changed := pool.change(rt, p, i); changed != "" {
						rt.Fatalf("%s, %d bits: %s", p.GP.Name(), p.N, changed)
					}
				}
				if i < len(pool.single) && rapid.Bool().Draw(rt, "inner") {
					a, _ := pool.single[i].InnerProductProof.Verify()
					b, _ := pool.single[i].InnerProductProof.Verify()
					if a != b {
						rt.Fatalf("%s, %d bits: the verdict on an inner product proof changes", p.GP.Name(), p.N)
					}
				}
				for j, s := range pool.snap() {
					if s != snap[j] {
						rt.Fatalf("%s, %d bits: verifying proof %d changes proof %d", p.GP.Name(), p.N, i, j)
					}
				}
			}
			if snapParams(p) != before {
				rt.Fatalf("%s, %d bits: verifying changes the parameters", p.GP.Name(), p.N)
			}
			for _, tail := range tails {
				for k := range tail {
					if tail[k] != p.G {
						rt.Fatalf("%s, %d bits: verifying writes behind the end of a list of the proof", p.GP.Name(), p.N)
					}
				}
			}
			if len(both) == 2 {
				c.NonTrivial(p.GP.Name(), p.N, verdict)
			}
			c.Label("%s", strings.SplitN(p.GP.Name(), "-", 2)[0])
		})
}

func concurrent24(rt *rapid.T, c *vh.Case, p setupParams) {
	pool := drawPool24(rt, p, 3)
	snap := pool.snap()
	before := snapParams(p)
	want := make([]bool, pool.size())
	for i := range want {
		want[i] = pool.verdict(rt, i)
	}
	const workers = 6
	bad := make([]string, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[w] = fmt.Sprint("panic: ", r)
				}
			}()
			for k := 0; k < 2*len(want); k++ {
				i := (w + k) % len(want)
				if pool.verify(i) != want[i] {
					bad[w] = fmt.Sprintf("verdict on proof %d is %v alone and %v concurrently", i, want[i], !want[i])
				}
			}
			if w == 0 {
				if _, _, err := bulletproofs.Prove(vh.I(1), p); err != nil {
					bad[w] = err.Error()
				}
			}
		}(w)
	}
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			rt.Fatalf("%s, %d bits: %s", p.GP.Name(), p.N, b)
		}
	}
	for j, s := range pool.snap() {
		if s != snap[j] {
			rt.Fatalf("%s, %d bits: verifying concurrently changes proof %d", p.GP.Name(), p.N, j)
		}
	}
	if snapParams(p) != before {
		rt.Fatalf("%s, %d bits: verifying concurrently changes the parameters", p.GP.Name(), p.N)
	}
	c.NonTrivial(p.GP.Name(), p.N, want, fmt.Sprint(len(snap[0])))
	c.Label("%s", strings.SplitN(p.GP.Name(), "-", 2)[0])
}

// Concurrent verification on the curves.
//vh:shards quick=3 thorough=6
//vh:procs quick=4 thorough=4
func TestC24_Concurrent(t *testing.T) {
	vh.Check(t, 90, 2000, "6 goroutines verifying and proving under shared parameters, compared with the verdicts of a single one; non-trivial: distinct (curve, size, verdicts)",
		func(rt *rapid.T, c *vh.Case) {
			concurrent24(rt, c, drawReal(rt, []int64{2, 4, 8}))
		})
}

// The same under the race detector, in groups whose arithmetic is ours or the
// repository's own.
//vh:shards quick=2 thorough=4
//vh:race quick=1 thorough=1
//vh:procs quick=4 thorough=4
func TestC24_Race(t *testing.T) {
	vh.Check(t, 24, 400, "6 goroutines verifying and proving under shared parameters, watched by the race detector; non-trivial: distinct (group, size, verdicts)",
		func(rt *rapid.T, c *vh.Case) {
			if vh.Pick(rt, 3, "group") == 0 {
				concurrent24(rt, c, realSetup(rt, group.Ristretto255(), vh.OneOf(rt, "bits", []int64{2, 4})))
				return
			}
			_, p := drawT(rt, []int64{2, 4, 8})
			concurrent24(rt, c, p)
		})
}

// The verdict does not change in the long run.
//vh:shards quick=4 thorough=8
func TestC24_LongRun(t *testing.T) {
	vh.Check(t, 8, 120, "4000 verifications of a pool of valid and spoilt range proofs over transparent groups, with proving in between; non-trivial: distinct (size, seed), both verdicts occur",
		func(rt *rapid.T, c *vh.Case) {
			_, p := drawT(rt, []int64{1, 2, 4})
			pool := drawPool24(rt, p, 6)
			seed := vh.Seed64(rt, "order")
			both := map[bool]bool{}
			for k := 0; k < 4000; k++ {
				i := int(vh.DetInt(seed, fmt.Sprint(k), vh.I(int64(pool.size()))).Int64())
				both[pool.verdict(rt, i)] = true
				if k%50 == 0 {
					pr, _ := proveHonest(rt, vh.I(1), p, vh.NewTape(seed+uint64(k)))
					if !verify(pr) {
						rt.Fatalf("%d bits: after %d verifications an honest proof is rejected", p.N, k)
					}
				}
			}
			if len(both) == 2 {
				c.NonTrivial(p.N, seed)
			}
		})
}

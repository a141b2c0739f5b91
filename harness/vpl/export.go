// Package vp is the equality transcript maker of the equality proof checks,
// for use by the ballot checks: it is compiled from the same files.
package vp

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
)

// Maker makes transcripts for any statement.
type Maker struct {
	a *asker
	p params
}

func NewMaker(ff, ec *vh.TGroup, p params) *Maker { return &Maker{newAsker(ff, ec, p), p} }

// Transcript follows the protocol with a witness that need not fit the
// statement. It fails when the challenge could not be learnt.
func (k *Maker) Transcript(c voteproof.VerCommitments, m, rp, rq1, rq2 *big.Int, seed uint64) (voteproof.SigmaProof, bool) {
	pr, _, ok := k.Special(c, m, rp, rq1, rq2, seed, "")
	return pr, ok
}

// Ways in which parts of a transcript coincide or vanish.
var Ways = []string{"masks", "masks", "element", "element", "response"}

// Special is Transcript, with parts that coincide or vanish.
func (k *Maker) Special(c voteproof.VerCommitments, m, rp, rq1, rq2 *big.Int, seed uint64, way string) (pr voteproof.SigmaProof, how string, ok bool) {
	w := witness{m, rp, rq1, rq2}
	lo, hi := bounds(k.p)
	for i := 0; i < 30; i++ {
		ms := drawMasks(seed+uint64(i), k.p)
		if way == "masks" {
			// The statement stays what it is.
			w2 := w
			how = coincidence([]int{0, 3, 6}[seed%3], &w2, &ms)
		}
		f := ms.first(k.p)
		if way == "element" {
			// The elements of the first message: the second half of each
			// side.
			x := int(seed % bends)
			x = x/8*8 + 4 + x%4
			c2 := c
			how = bend(x, &c2, &f, k.p)
		}
		ch, ok := k.a.challenge(c, f)
		if !ok {
			return pr, how, false
		}
		if z := add(ms.kp, mul(ch, m)); z.Cmp(lo) >= 0 && z.Cmp(hi) < 0 {
			pr = respond(f, ch, w, ms, z, k.p)
			if way == "response" {
				all := []**big.Int{&pr.Sp, &pr.Sq1, &pr.Sq2}
				vs := []*big.Int{pr.Sp, pr.Sq1, pr.Sq2, vh.I(0), pr.Z, ch}
				*all[seed%3] = vs[seed/3%6]
				how = fmt.Sprint("response ", seed%3, " is ", seed/3%6)
			}
			return pr, how, true
		}
	}
	return pr, how, false
}

// Simulated makes a transcript for a challenge of its own, which the relations
// fit; the first element is neutral if asked for.
func (k *Maker) Simulated(c voteproof.VerCommitments, rp *big.Int, seed uint64, neutral bool) (pr voteproof.SigmaProof) {
	p := k.p
	lo, hi := bounds(p)
	pr.Params = p
	pr.Challenge = vh.DetInt(seed, "c", pow2(int(p.Bc)))
	pr.Z = add(lo, vh.DetInt(seed, "z", sub(hi, lo)))
	pr.Sp, pr.Sq1, pr.Sq2 = vh.DetInt(seed, "sp", p.GFF.N), vh.DetInt(seed, "sq1", p.GEC.N), vh.DetInt(seed, "sq2", p.GEC.N)
	if neutral {
		pr.Sp = mod(mul(pr.Challenge, rp), p.GFF.N)
	}
	neg := new(big.Int).Neg(pr.Challenge)
	fit := func(l, x group.Element, g group.Group) group.Element { return g.Element().Add(l, g.Element().Scale(x, neg)) }
	pr.W = fit(p.GFF.I.Element().BaseScale(pr.Sp), c.Y, p.GFF.I)
	pr.Kp = fit(commit(pr.Z, pr.Sp, p.GFF), c.Xp, p.GFF.I)
	pr.Kq1 = fit(commit(pr.Z, pr.Sq1, p.GEC), c.Xq1, p.GEC.I)
	pr.Kq2 = fit(commit(pr.Z, pr.Sq2, p.GEC), c.Xq2, p.GEC.I)
	return pr
}

// Late makes a transcript whose first message fits the statement but is
// completed only after the challenge was fixed for another one: the named
// elements are replaced last.
func (k *Maker) Late(c, shown voteproof.VerCommitments, m, rp, rq1, rq2 *big.Int, late string, seed uint64) (voteproof.SigmaProof, bool) {
	p := k.p
	pr, ok := k.Transcript(shown, m, rp, rq1, rq2, seed)
	if !ok {
		return pr, false
	}
	neg := new(big.Int).Neg(pr.Challenge)
	switch late {
	case "ciphertext":
		pr.W = p.GFF.I.Element().Add(p.GFF.I.Element().BaseScale(pr.Sp), p.GFF.I.Element().Scale(c.Y, neg))
		pr.Kp = p.GFF.I.Element().Add(commit(pr.Z, pr.Sp, p.GFF), p.GFF.I.Element().Scale(c.Xp, neg))
	case "lower":
		pr.Kq1 = p.GEC.I.Element().Add(commit(pr.Z, pr.Sq1, p.GEC), p.GEC.I.Element().Scale(c.Xq1, neg))
	case "upper":
		pr.Kq2 = p.GEC.I.Element().Add(commit(pr.Z, pr.Sq2, p.GEC), p.GEC.I.Element().Scale(c.Xq2, neg))
	default:
		panic(fmt.Sprint("harness: ", late))
	}
	return pr, true
}

package vp

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

type params = voteproof.ProofParams

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func mod(a, n *big.Int) *big.Int { return new(big.Int).Mod(a, n) }
func pow2(n int) *big.Int        { return new(big.Int).Lsh(vh.I(1), uint(n)) }

// groupParams describes a group in the way the system does; h is the second
// generator.
func groupParams(g group.Group, h group.Element) voteproof.GroupParameters {
	return voteproof.GroupParameters{G: g.Generator(), H: h, N: g.N(), F: g.P(), I: g}
}

func mustSetup(rt interface{ Fatalf(string, ...any) }, bx, bc, bg int, lo, hi uint16, ff, ec voteproof.GroupParameters) params {
	p, err := voteproof.Setup(uint8(bx), uint16(bc), uint16(bg), lo, hi, voteproof.AlgebraicParameters{GFF: ff, GEC: ec})
	if err != nil {
		rt.Fatalf("setup for secrets of %d, challenges of %d and orders of %d bits fails: %v", bx, bc, bg, err)
	}
	return p
}

var tBits = []int{16, 24, 40, 64, 130, 200, 253, 256, 300, 384, 400, 521}

// drawT draws transparent groups of at least the given size and parameters
// over them. fixedBc >= 0 sets the challenge length.
func drawT(rt *rapid.T, minBits, fixedBc int) (ff, ec *vh.TGroup, p params) {
	var sizes []int
	for _, b := range tBits {
		if b >= minBits {
			sizes = append(sizes, b)
		}
	}
	bf, be := vh.OneOf(rt, "field", sizes), vh.OneOf(rt, "curve", sizes)
	ff, ec = vh.NewT(bf), vh.NewT(be)
	bg := bf
	if be < bf {
		bg = be
	}
	// Now and then less than the groups allow.
	if vh.Pick(rt, 6, "shorter") == 0 {
		bg -= vh.Pick(rt, bg-max(11, fixedBc+1), "bg")
	}
	var bx, bc int
	if fixedBc >= 0 {
		bc = fixedBc
		bx = vh.Pick(rt, min(bg-2-bc, 255)+1, "bx")
	} else {
		switch vh.Pick(rt, 4, "lengths") {
		case 0: // no slack
			bx = vh.Pick(rt, min(bg-2, 255)+1, "bx")
			bc = min(bg-2-bx, 256)
		case 1: // the system's own
			bx = min(16, bg-2)
			bc = min(224, bg-2-bx)
		default:
			bx = vh.Pick(rt, min(bg-2, 255)+1, "bx")
			bc = vh.Pick(rt, min(bg-2-bx, 256)+1, "bc")
		}
	}
	p = mustSetup(rt, bx, bc, bg, 1, 2, groupParams(ff, ff.Sym("ff-H")), groupParams(ec, ec.Sym("ec-H")))
	return ff, ec, p
}

var realMu sync.Mutex
var realH = map[string]group.Element{}

var curves = []group.Group{group.P256(), group.P384(), group.SecP256k1(), group.Ristretto255()}

// drawReal draws a curve and a field group. The lengths are the system's own
// or others.
func drawReal(rt *rapid.T) params {
	ec := curves[vh.OneOf(rt, "curve", []int{0, 0, 1, 2, 2, 3, 3})]
	realMu.Lock()
	h := realH[ec.Name()]
	if h == nil {
		h, _ = ec.Element().MapToGroup("another generator")
		realH[ec.Name()] = h
	}
	realMu.Unlock()
	ff := vh.SmallModP(vh.OneOf(rt, "field", []int{400, 400, 520}))
	if vh.Pick(rt, 24, "full") == 0 {
		ff = vh.NewRFC3526()
	}
	bg := min(ec.N().BitLen(), ff.N().BitLen())
	bx, bc := 16, 224
	if vh.Pick(rt, 3, "lengths") == 0 {
		bx = vh.Pick(rt, min(bg-2, 255)+1, "bx")
		bc = vh.Pick(rt, min(bg-2-bx, 256)+1, "bc")
	}
	sk := vh.DetInt(vh.Seed64(rt, "key"), "key", ff.N())
	return mustSetup(rt, bx, bc, bg, 101, 2000, groupParams(ff, ff.Element().BaseScale(sk)), groupParams(ec, h))
}

// bounds of the safe interval: inclusive and exclusive.
func bounds(p params) (lo, hi *big.Int) {
	return pow2(int(p.Bx) + int(p.Bc)), pow2(int(p.Bg) - 1)
}

// drawSecret draws a secret of the configured length, with weight on extremes.
func drawSecret(rt *rapid.T, p params, label string) *big.Int {
	top := pow2(int(p.Bx))
	switch vh.Pick(rt, 5, label+"Kind") {
	case 0:
		return mod(vh.I(int64(vh.Pick(rt, 3, label))), top)
	case 1:
		return sub(top, vh.I(1))
	case 2:
		return new(big.Int).Rsh(top, 1)
	default:
		return vh.DetInt(vh.Seed64(rt, label), "s", top)
	}
}

func drawRnd(rt *rapid.T, n *big.Int, label string) *big.Int {
	switch vh.Pick(rt, 6, label+"Kind") {
	case 0:
		return vh.I(int64(vh.Pick(rt, 2, label)))
	case 1:
		return sub(n, vh.I(1))
	default:
		return vh.DetInt(vh.Seed64(rt, label), "r", n)
	}
}

func commit(m, r *big.Int, gp voteproof.GroupParameters) group.Element {
	return gp.I.Element().Add(gp.I.Element().BaseScale(m), gp.I.Element().Scale(gp.H, r))
}

// witness is a secret with all its randomness.
type witness struct{ m, rp, rq1, rq2 *big.Int }

// drawWitness draws a witness, now and then with the same object in two places.
func drawWitness(rt *rapid.T, p params) witness {
	w := witness{drawSecret(rt, p, "m"), drawRnd(rt, p.GFF.N, "rp"), drawRnd(rt, p.GEC.N, "rq1"), drawRnd(rt, p.GEC.N, "rq2")}
	switch vh.Pick(rt, 12, "alias") {
	case 1:
		w.rq2 = w.rq1
	case 2:
		if w.rp.Cmp(p.GEC.N) < 0 {
			w.rq1 = w.rp
		}
	case 3:
		if w.m.Cmp(p.GEC.N) < 0 && w.m.Cmp(p.GFF.N) < 0 {
			w.rp, w.rq2 = w.m, w.m
		}
	}
	return w
}

func (w witness) comm(p params) voteproof.VerCommitments {
	return voteproof.VerCommitments{Y: p.GFF.I.Element().BaseScale(w.rp), Xp: commit(w.m, w.rp, p.GFF),
		Xq1: commit(w.m, w.rq1, p.GEC), Xq2: commit(w.m, w.rq2, p.GEC)}
}

func prove(w witness, p params, tape *vh.Tape) (pr voteproof.SigmaProof) {
	vh.With(tape, func() { pr = voteproof.Prove(w.m, w.rp, w.rq1, w.rq2, p) })
	return pr
}

// drawTape draws a tape, now and then with reads set to extreme values.
func drawTape(rt *rapid.T) (*vh.Tape, string) {
	t := vh.NewTape(vh.Seed64(rt, "tape"))
	kind := "uniform"
	if k := vh.Pick(rt, 3, "steer"); k == 0 {
		every := []int{2, 3, 4, 1}[vh.Pick(rt, 4, "every")]
		phase := vh.Pick(rt, every, "phase")
		edge := vh.Pick(rt, 4, "edgeKind")
		var value *big.Int
		if edge == 3 {
			value = vh.Edge(rt, pow2(8*(1+vh.Pick(rt, 64, "edgeSize"))))
		}
		kind = "extreme"
		t.Steer = func(i int, buf []byte) {
			if i%every == phase && i < 80 {
				if edge == 3 {
					vh.SteerBig(buf, value)
					return
				}
				for j := range buf {
					buf[j] = []byte{0, 0xff, 0}[edge]
				}
				if edge == 2 {
					buf[len(buf)-1] = 1
				}
			}
		}
	}
	return t, kind
}

func desc(p params) string {
	return fmt.Sprintf("Bx=%d Bc=%d Bg=%d Bb=%d over %d and %d bits", p.Bx, p.Bc, p.Bg, p.Bb, p.GFF.N.BitLen(), p.GEC.N.BitLen())
}

func shape(p params) string { return fmt.Sprint(p.Bx, "/", p.Bc, "/", p.Bg, "/", p.GFF.N.BitLen(), "/", p.GEC.N.BitLen()) }

// asker learns the challenge of any statement and first message from the
// honest prover: the elements it computes are made to answer with the string
// forms of the given ones. The proven secret is zero, so that its response does
// not depend on the challenge.
type asker struct {
	ff, ec *vh.TGroup
	p      params
	w      witness
	seed   uint64
	ref    voteproof.SigmaProof
}

func newAsker(ff, ec *vh.TGroup, p params) *asker {
	a := &asker{ff: ff, ec: ec, p: p, seed: 77}
	a.w = witness{vh.I(0), vh.DetInt(1, "rp", ff.N()), vh.DetInt(1, "rq1", ec.N()), vh.DetInt(1, "rq2", ec.N())}
	a.ref = prove(a.w, p, vh.NewTape(a.seed))
	return a
}

type first = voteproof.SigmaCommit

func (a *asker) challenge(c voteproof.VerCommitments, f first) (ch *big.Int, ok bool) {
	defer func() {
		a.ff.Reveal()
		a.ec.Reveal()
		if recover() != nil {
			ok = false
		}
	}()
	own := a.w.comm(a.p)
	pairs := [][2]group.Element{{own.Y, c.Y}, {own.Xp, c.Xp}, {a.ref.W, f.W}, {a.ref.Kp, f.Kp}}
	qairs := [][2]group.Element{{own.Xq1, c.Xq1}, {own.Xq2, c.Xq2}, {a.ref.Kq1, f.Kq1}, {a.ref.Kq2, f.Kq2}}
	for _, x := range pairs {
		a.ff.Disguise(vh.T(x[0]), x[1])
	}
	for _, x := range qairs {
		a.ec.Disguise(vh.T(x[0]), x[1])
	}
	if len(a.ff.Alias) != 4 || len(a.ec.Alias) != 4 {
		return nil, false
	}
	pr := prove(a.w, a.p, vh.NewTape(a.seed))
	if !vh.T(pr.W).Same(a.ref.W) || !vh.T(pr.Kp).Same(a.ref.Kp) || !vh.T(pr.Kq1).Same(a.ref.Kq1) || !vh.T(pr.Kq2).Same(a.ref.Kq2) {
		return nil, false
	}
	return pr.Challenge, true
}

// masks of a prover, possibly different in the three groups.
type masks struct{ kp, kq1, kq2, tp, tw, tq1, tq2 *big.Int }

func drawMasks(seed uint64, p params) masks {
	_, hi := bounds(p)
	k := vh.DetInt(seed, "k", hi)
	t := vh.DetInt(seed, "tp", p.GFF.N)
	return masks{k, k, k, t, t, vh.DetInt(seed, "tq1", p.GEC.N), vh.DetInt(seed, "tq2", p.GEC.N)}
}

func (m masks) first(p params) first {
	return first{W: p.GFF.I.Element().BaseScale(m.tw), Kp: commit(m.kp, m.tp, p.GFF), Kq1: commit(m.kq1, m.tq1, p.GEC), Kq2: commit(m.kq2, m.tq2, p.GEC)}
}

// respond is the honest response with the integer z.
func respond(f first, c *big.Int, w witness, m masks, z *big.Int, p params) voteproof.SigmaProof {
	var pr voteproof.SigmaProof
	pr.SigmaCommit = f
	pr.Challenge = c
	pr.Z = z
	pr.Sp = mod(add(m.tp, mul(c, w.rp)), p.GFF.N)
	pr.Sq1 = mod(add(m.tq1, mul(c, w.rq1)), p.GEC.N)
	pr.Sq2 = mod(add(m.tq2, mul(c, w.rq2)), p.GEC.N)
	pr.Params = p
	return pr
}

// coincide lets parts of a prover's witness and masks vanish or agree, now and
// then.
func coincide(rt *rapid.T, w *witness, m *masks) string {
	if rapid.Bool().Draw(rt, "generic") {
		return "generic"
	}
	return coincidence(vh.Pick(rt, 12, "coincidence"), w, m)
}

func coincidence(k int, w *witness, m *masks) string {
	zero := vh.I(0)
	switch k {
	case 0:
		m.tq2 = m.tq1
		return "equal masks of the commitments"
	case 1:
		w.rq2 = w.rq1
		return "equal commitments"
	case 2:
		w.rq2, m.tq2 = w.rq1, m.tq1
		return "equal commitments and masks"
	case 3:
		m.tp, m.tw = zero, zero
		return "no ciphertext mask"
	case 4:
		w.rp = zero
		return "no ciphertext randomness"
	case 5:
		w.rp, m.tp, m.tw = zero, zero, zero
		return "no ciphertext randomness and mask"
	case 6:
		m.tq1, m.tq2 = zero, zero
		return "no commitment masks"
	case 7:
		w.rq1, w.rq2 = zero, zero
		return "no commitment randomness"
	case 8:
		w.rq1, w.rq2, m.tq1, m.tq2 = zero, zero, zero, zero
		return "no commitment randomness and masks"
	case 9:
		w.m, w.rp = zero, zero
		return "neutral ciphertext"
	case 10:
		w.m, w.rq2 = zero, zero
		return "neutral commitment"
	default:
		w.m = zero
		return "zero"
	}
}

// bend replaces one element of a statement or first message by a neutral
// element or another element; it gives the name, or nothing if that changes
// nothing.
func bend(k int, c *voteproof.VerCommitments, f *first, p params) string {
	ff, ec := p.GFF.I, p.GEC.I
	type el struct {
		name string
		at   *group.Element
	}
	fe := []el{{"Y", &c.Y}, {"Xp", &c.Xp}, {"W", &f.W}, {"Kp", &f.Kp}}
	ce := []el{{"Xq1", &c.Xq1}, {"Xq2", &c.Xq2}, {"Kq1", &f.Kq1}, {"Kq2", &f.Kq2}}
	side, g, h := fe, ff, p.GFF.H
	if k%2 == 1 {
		side, g, h = ce, ec, p.GEC.H
	}
	k /= 2
	x, k := side[k%4], k/4
	old := *x.at
	what := ""
	switch k = k % 8; {
	case k < 4 && side[k].at != x.at:
		*x.at, what = g.Element().Set(*side[k].at), side[k].name
	case k == 4:
		*x.at, what = g.Generator(), "G"
	case k == 5:
		*x.at, what = g.Element().Set(h), "H"
	case k == 6:
		*x.at, what = g.Element().Negate(old), "its inverse"
	default:
		*x.at, what = g.Identity(), "neutral"
	}
	if vh.T(old).Same(*x.at) {
		return ""
	}
	return x.name + " is " + what
}

// bends is the number of ways.
const bends = 2 * 4 * 8

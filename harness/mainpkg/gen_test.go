package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sync"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// All names start with zz: the package under test may grow its own.

func zzAdd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func zzSub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func zzMul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func zzMod(a, n *big.Int) *big.Int { return new(big.Int).Mod(a, n) }

var zzCurves = []group.Group{group.P256(), group.P384(), group.SecP256k1(), group.Ristretto255()}

var zzMu sync.Mutex
var zzBase = map[string]PublicParameters{}
var zzBP = map[string]bulletproofs.BulletProofSetupParams{}
var zzFields = map[int]group.Group{}

// zzSetup is the system's own setup; it is remembered.
func zzSetup(rt interface{ Fatalf(string, ...any) }, g group.Group) PublicParameters {
	zzMu.Lock()
	defer zzMu.Unlock()
	pp, ok := zzBase[g.Name()]
	if !ok {
		var err error
		pp, err = setup(g)
		if err != nil {
			rt.Fatalf("setup for %s fails: %v", g.Name(), err)
		}
		zzBase[g.Name()] = pp
	}
	return pp
}

func zzBPSetup(rt interface{ Fatalf(string, ...any) }, g group.Group, bits int64) bulletproofs.BulletProofSetupParams {
	zzMu.Lock()
	defer zzMu.Unlock()
	k := fmt.Sprint(g.Name(), bits)
	p, ok := zzBP[k]
	if !ok {
		var err error
		p, err = bulletproofs.Setup(int64(1)<<bits, g)
		if err != nil {
			rt.Fatalf("range proof setup for %s, %d bits, fails: %v", g.Name(), bits, err)
		}
		zzBP[k] = p
	}
	return p
}

// zzField returns a mod-p group; 0 is the system's own.
func zzField(bits int) group.Group {
	zzMu.Lock()
	defer zzMu.Unlock()
	g, ok := zzFields[bits]
	if !ok {
		if bits == 0 {
			g = vh.NewRFC3526()
		} else {
			g = vh.SmallModP(bits)
		}
		zzFields[bits] = g
	}
	return g
}

var zzTs = map[int]*vh.TGroup{}

// zzT returns the transparent group of the given size; there is one instance,
// for remembered parameters belong to it.
func zzT(bits int) *vh.TGroup {
	zzMu.Lock()
	defer zzMu.Unlock()
	if zzTs[bits] == nil {
		zzTs[bits] = vh.NewT(bits)
	}
	return zzTs[bits]
}

// zzConf is a configuration of an election.
type zzConf struct {
	ff, ec     group.Group
	sk         *big.Int
	lo, hi     uint16
	bits       int64
	bx, bc, bg int
	pp         PublicParameters
}

func (c *zzConf) String() string {
	return fmt.Sprintf("%s/%s [%d,%d] key %s bits %d Bx=%d Bc=%d Bg=%d", c.ec.Name(), c.ff.Name(), c.lo, c.hi, c.sk, c.bits, c.bx, c.bc, c.bg)
}

func (c *zzConf) transparent() bool { _, ok := c.ec.(*vh.TGroup); return ok }

// build makes the public parameters of the configuration, starting with those
// of the system's own setup.
func (c *zzConf) build(rt interface{ Fatalf(string, ...any) }) {
	var base PublicParameters
	if c.transparent() {
		base = PublicParameters{}
	} else {
		base = zzSetup(rt, c.ec)
	}
	pp := base
	if c.bits == 16 && !c.transparent() {
		pp.BPParams = base.BPParams
	} else {
		pp.BPParams = zzBPSetup(rt, c.ec, c.bits)
	}
	pp.FFGroupParams = voteproof.GroupParameters{I: c.ff, F: c.ff.P(), N: c.ff.N(), G: c.ff.Generator(), H: c.ff.Element().BaseScale(c.sk)}
	pp.ECGroupParams = voteproof.GroupParameters{I: c.ec, F: c.ec.P(), N: c.ec.N(), G: c.ec.Generator(), H: pp.BPParams.H}
	pp.EGPK = pp.FFGroupParams.H
	pp.candidateMin, pp.candidateMax = c.lo, c.hi
	var err error
	pp.RPParams, err = voteproof.Setup(uint8(c.bx), uint16(c.bc), uint16(c.bg), c.lo, c.hi,
		voteproof.AlgebraicParameters{GFF: pp.FFGroupParams, GEC: pp.ECGroupParams})
	if err != nil {
		rt.Fatalf("%v: setup fails: %v", c, err)
	}
	c.pp = pp
}

// zzRange draws a candidate range of at most 2^bits candidates.
func zzRange(rt *rapid.T, bits int64) (lo, hi uint16) {
	width := 1<<bits - 1
	switch vh.Pick(rt, 8, "rangeKind") {
	case 0:
		width = vh.Pick(rt, 3, "width")
		if width > 1<<bits-1 {
			width = 1<<bits - 1
		}
	case 1: // as many as the range proof allows
	case 2, 3:
		width = min(width, 1899)
		return 101, 101 + uint16(width)
	default:
		width = vh.Pick(rt, width+1, "width")
	}
	from := 0
	switch vh.Pick(rt, 6, "fromKind") {
	case 0:
	case 1:
		from = 65535 - width
	case 2: // a bound next to a boundary of the number's representation
		from = vh.OneOf(rt, "edge", zzEdges) - width*vh.Pick(rt, 2, "bound")
		from = min(max(from, 0), 65535-width)
	default:
		from = vh.Pick(rt, 65536-width, "from")
	}
	return uint16(from), uint16(from + width)
}

// zzEdges are candidate numbers next to powers of two.
var zzEdges = []int{1, 127, 128, 255, 256, 257, 32767, 32768, 32768, 32769, 65279, 65280}

func zzKey(rt *rapid.T, n *big.Int) *big.Int {
	switch vh.Pick(rt, 5, "keyKind") {
	case 0:
		return vh.I(int64(1 + vh.Pick(rt, 20, "key")))
	case 1:
		return zzSub(n, vh.I(1+int64(vh.Pick(rt, 2, "key"))))
	default:
		return zzAdd(vh.DetInt(vh.Seed64(rt, "key"), "sk", zzSub(n, vh.I(1))), vh.I(1))
	}
}

// zzLengths draws the lengths of secret and challenge.
func (c *zzConf) zzLengths(rt *rapid.T) {
	c.bg = min(c.ff.N().BitLen(), c.ec.N().BitLen())
	c.bx, c.bc = 16, 224
	switch vh.Pick(rt, 4, "lengths") {
	case 0:
		c.bc = 96 + vh.Pick(rt, min(c.bg-2-16, 256)-96+1, "bc")
	case 1:
		c.bx = 16 + vh.Pick(rt, min(c.bg-2-c.bc, 200)-16+1, "bx")
	}
}

var zzBits = []int64{16, 16, 16, 8, 4, 2, 1}

// zzDrawT draws a configuration over transparent groups.
func zzDrawT(rt *rapid.T, bits []int64) *zzConf {
	c := &zzConf{}
	c.ff = zzT(vh.OneOf(rt, "field", []int{400, 521, 300}))
	c.ec = zzT(vh.OneOf(rt, "curve", []int{253, 256, 384}))
	c.bits = vh.OneOf(rt, "bits", bits)
	c.lo, c.hi = zzRange(rt, c.bits)
	c.sk = zzKey(rt, c.ff.N())
	c.zzLengths(rt)
	c.build(rt)
	return c
}

// zzDrawReal draws a configuration over a curve and a mod-p group.
func zzDrawReal(rt *rapid.T, fields []int, bits []int64) *zzConf {
	c := &zzConf{}
	c.ff = zzField(vh.OneOf(rt, "field", fields))
	c.ec = zzCurves[vh.OneOf(rt, "curve", []int{0, 0, 1, 2, 2, 3, 3})]
	c.bits = vh.OneOf(rt, "bits", bits)
	c.lo, c.hi = zzRange(rt, c.bits)
	c.sk = zzKey(rt, c.ff.N())
	c.zzLengths(rt)
	c.build(rt)
	return c
}

// zzCandidate draws a candidate, with weight on the ends.
func (c *zzConf) candidate(rt *rapid.T, label string) int64 {
	w := int(c.hi) - int(c.lo)
	switch vh.Pick(rt, 6, label+"Kind") {
	case 0:
		return int64(c.lo)
	case 1:
		return int64(c.hi)
	case 2:
		return int64(c.lo) + int64(min(w, 1))
	case 3:
		return int64(c.hi) - int64(min(w, 1))
	default:
		return int64(c.lo) + int64(vh.Pick(rt, w+1, label))
	}
}

// zzTape draws a tape. When pick is not negative, its first read makes the
// honest voter pick that offset.
func zzTape(rt *rapid.T, pick int64, n *big.Int) (*vh.Tape, string) {
	t := vh.NewTape(vh.Seed64(rt, "tape"))
	kind := "uniform"
	var more func(i int, buf []byte)
	if vh.Pick(rt, 3, "steer") == 0 {
		every := []int{2, 3, 5, 7}[vh.Pick(rt, 4, "every")]
		phase := vh.Pick(rt, every, "phase")
		edge := vh.Edge(rt, n)
		kind = "extreme"
		more = func(i int, buf []byte) {
			if i%every == phase && i < 240 {
				vh.SteerBig(buf, edge)
			}
		}
	}
	t.Steer = func(i int, buf []byte) {
		if i == 0 && pick >= 0 {
			vh.SteerBig(buf, vh.I(pick))
			return
		}
		if more != nil {
			more(i, buf)
		}
	}
	return t, kind
}

// zzCast runs the honest voter.
func zzCast(pp PublicParameters, t *vh.Tape) (bd BallotData) {
	vh.With(t, func() { bd, _ = castVote(pp) })
	return bd
}

// zzCastFor makes the honest ballot for a given candidate (which the system's
// own voter picks at random), and returns the randomness.
func (c *zzConf) castFor(rt *rapid.T, m int64, t *vh.Tape) (bd BallotData, w zzWit) {
	vh.With(t, func() {
		w.m = vh.I(m)
		bd.Ballot, w.rp = encryptVote(uint16(m), c.pp.EGPK, c.pp.FFGroupParams.I)
		var err error
		bd.BpLower, w.rq1, err = bulletproofs.Prove(vh.I(m-int64(c.lo)), c.pp.BPParams)
		if err != nil {
			rt.Fatalf("%v: the lower range proof for %d fails: %v", c, m, err)
		}
		bd.BpUpper, w.rq2, err = bulletproofs.Prove(vh.I(int64(c.hi)-m), c.pp.BPParams)
		if err != nil {
			rt.Fatalf("%v: the upper range proof for %d fails: %v", c, m, err)
		}
		w.rq2 = zzMod(new(big.Int).Neg(w.rq2), c.ec.N())
		bd.VoteProof = voteproof.Prove(w.m, w.rp, w.rq1, w.rq2, c.pp.RPParams)
	})
	return bd, w
}

// zzWit is the secret of a ballot with the randomness of the ciphertext and
// the two shifted commitments.
type zzWit struct{ m, rp, rq1, rq2 *big.Int }

// accepts is the verdict on a ballot handed over directly.
func (c *zzConf) accepts(bd BallotData) bool {
	ok, _ := verifyVote(bd, c.pp.RPParams)
	return ok
}

// judge is the verdict on a submission: decoded tells whether it was
// understood.
func (c *zzConf) judge(b []byte) (ok, decoded bool) {
	bd, err := BallotDataUnmarshalJSON(b, c.pp)
	if err != nil {
		return false, false
	}
	return c.accepts(bd), true
}

func zzJSON(rt interface{ Fatalf(string, ...any) }, v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		rt.Fatalf("encoding as JSON fails: %v", err)
	}
	return b
}

// zzLogs are tables of small multiples of the generator.
var zzLogs = map[string]map[string]int64{}

// decrypt opens a ciphertext with the key. It returns -1 for what is no number
// in the searched interval.
func (c *zzConf) decrypt(ct ElGamalCiphertext) int64 {
	d := c.ff.Element().Add(ct.V, c.ff.Element().Scale(ct.U, zzSub(c.ff.N(), c.sk)))
	if t, ok := d.(*vh.TElem); ok {
		for _, s := range t.Symbols() {
			if s != "G" {
				return -1
			}
		}
		v := t.Coef("G")
		if v.BitLen() > 40 {
			return -1
		}
		return v.Int64()
	}
	zzMu.Lock()
	defer zzMu.Unlock()
	lo, hi := int64(0), int64(65535)
	if c.ff.N().BitLen() > 1000 {
		lo, hi = int64(c.lo), int64(c.hi) // the large group
	}
	k := fmt.Sprint(c.ff.Name(), lo, hi)
	tab, ok := zzLogs[k]
	if !ok {
		tab = map[string]int64{}
		e := c.ff.Element().BaseScale(vh.I(lo))
		g := c.ff.Generator()
		for i := lo; i <= hi; i++ {
			tab[zzBin(e)] = i
			e = c.ff.Element().Add(e, g)
		}
		zzLogs[k] = tab
	}
	if v, ok := tab[zzBin(d)]; ok {
		return v
	}
	return -1
}

func zzBin(e group.Element) string {
	b, err := e.MarshalBinary()
	if err != nil {
		return e.String()
	}
	return string(b)
}

func (c *zzConf) inRange(m int64) bool { return m >= int64(c.lo) && m <= int64(c.hi) }

// sound fails when an accepted ballot does not encrypt a candidate.
func (c *zzConf) sound(rt *rapid.T, bd BallotData, what string) {
	if m := c.decrypt(bd.Ballot); !c.inRange(m) {
		rt.Fatalf("%v: an accepted ballot decrypts to %d (-1: to no small number): %s", c, m, what)
	}
}

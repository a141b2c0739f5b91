package bp

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sync"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

type setupParams = bulletproofs.BulletProofSetupParams

// exps are the supported bit lengths.
var exps = []int64{1, 2, 4, 8, 16, 32}

// bigOrders are orders for which nothing holds by accident.
var bigOrders = []int{253, 256, 300, 384, 521}

func mustSetup(rt interface{ Fatalf(string, ...any) }, n int64, g group.Group) setupParams {
	p, err := bulletproofs.Setup(int64(1)<<n, g)
	if err != nil {
		rt.Fatalf("setup for 2^%d fails: %v", n, err)
	}
	if p.N != n || int64(len(p.Gg)) != n || int64(len(p.Hh)) != n {
		rt.Fatalf("setup for 2^%d gives N=%d with %d and %d generators", n, p.N, len(p.Gg), len(p.Hh))
	}
	return p
}

// drawT draws a transparent group and parameters over it.
func drawT(rt *rapid.T, sizes []int64) (*vh.TGroup, setupParams) {
	g := vh.NewT(vh.OneOf(rt, "order", bigOrders))
	return g, mustSetup(rt, vh.OneOf(rt, "bits", sizes), g)
}

// drawTS is drawT, now and then with elements written like those of a curve.
func drawTS(rt *rapid.T, sizes []int64) (*vh.TGroup, setupParams, string) {
	if vh.Pick(rt, 6, "written") != 0 {
		g, p := drawT(rt, sizes)
		return g, p, ""
	}
	real := curves[vh.Pick(rt, len(curves), "curve")]
	g := vh.NewShadow(real)
	return g, mustSetup(rt, vh.OneOf(rt, "bits", []int64{1, 2, 4}), g), real.Name()
}

var realMu sync.Mutex
var realParams = map[string]setupParams{}

var curves = []group.Group{group.P256(), group.P384(), group.SecP256k1(), group.Ristretto255()}

// drawReal draws a curve and parameters over it. Parameters are remembered, a
// setup takes a while.
func drawReal(rt *rapid.T, sizes []int64) setupParams {
	g := curves[vh.OneOf(rt, "curve", []int{0, 0, 1, 2, 2, 3, 3})]
	return realSetup(rt, g, vh.OneOf(rt, "bits", sizes))
}

func realSetup(rt *rapid.T, g group.Group, n int64) setupParams {
	realMu.Lock()
	defer realMu.Unlock()
	k := fmt.Sprint(g.Name(), n)
	p, ok := realParams[k]
	if !ok {
		p = mustSetup(rt, n, g)
		realParams[k] = p
	}
	return p
}

// drawValue draws a value below 2^bits, with weight on the edges.
func drawValue(rt *rapid.T, bits int64, label string) *big.Int {
	top := new(big.Int).Lsh(vh.I(1), uint(bits))
	var v *big.Int
	switch vh.Pick(rt, 6, label+"Kind") {
	case 0:
		v = vh.I(int64(vh.Pick(rt, 3, label+"Low")))
	case 1:
		v = new(big.Int).Sub(top, vh.I(int64(1+vh.Pick(rt, 3, label+"High"))))
	case 2:
		v = new(big.Int).Lsh(vh.I(1), uint(vh.Pick(rt, int(bits), label+"Bit")))
	case 3:
		v = new(big.Int).Rsh(top, 1)
		v.Add(v, vh.I(int64(vh.Pick(rt, 3, label+"Half")-1)))
	default:
		v = new(big.Int).SetUint64(rapid.Uint64().Draw(rt, label))
	}
	return v.Mod(v, top)
}

// drawTape draws a randomness tape, now and then with some reads set to
// extreme values.
func drawTape(rt *rapid.T, n *big.Int) (*vh.Tape, string) {
	t := vh.NewTape(vh.Seed64(rt, "tape"))
	kind := "uniform"
	if k := vh.Pick(rt, 4, "steer"); k < 2 {
		every := []int{2, 3, 5, 1}[vh.Pick(rt, 4, "every")]
		phase := vh.Pick(rt, every, "phase")
		edge := vh.Edge(rt, n)
		kind = "extreme"
		t.Steer = func(i int, buf []byte) {
			// Whoever rejects the value gets other bytes soon.
			if i%every == phase && i < 200 {
				vh.SteerBig(buf, edge)
			}
		}
	}
	return t, kind
}

func verify(p bulletproofs.BulletProof) bool {
	ok, err := p.Verify()
	return ok && err == nil
}

// accepted is the verdict on a proof that may be refused with an error; either
// refusal counts as a rejection.
func accepted(p bulletproofs.BulletProof) bool {
	ok, _ := p.Verify()
	return ok
}

func acceptedMulti(p bulletproofs.MultiBulletProof) bool {
	ok, _ := p.Verify()
	return ok
}

// opens tells whether V is the commitment to v with blinding factor gamma.
func opens(V group.Element, v, gamma *big.Int, p setupParams) bool {
	e := p.GP.Element().Add(p.GP.Element().BaseScale(v), p.GP.Element().Scale(p.H, gamma))
	return V.IsEqual(e)
}

func mustJSON(rt *rapid.T, v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		rt.Fatalf("encoding as JSON fails: %v", err)
	}
	return string(b)
}

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func mod(a, n *big.Int) *big.Int { return new(big.Int).Mod(a, n) }
func inv(a, n *big.Int) *big.Int { return new(big.Int).ModInverse(a, n) }

func fmtInts(v []*big.Int) string { return fmt.Sprint(v) }

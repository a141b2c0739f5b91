// Package bp is the range proof forger of the range proof checks, for use by
// the ballot checks: it is compiled from the same files.
package bp

import (
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// Modes are the ways to forge.
var Modes = forgeModes

// Forge makes candidate range proofs for a committed value that is not in the
// range; mode "" draws one.
func Forge(rt *rapid.T, g *vh.TGroup, p bulletproofs.BulletProofSetupParams, v, gamma *big.Int, seed uint64, mode string) (out []bulletproofs.BulletProof, how string) {
	f := &forger{g: g, p: p, seed: seed, vs: []*big.Int{mod(v, g.N())}, gammas: []*big.Int{gamma}}
	if mode == "" {
		mode = drawMode(rt)
		f.deg = drawDegenerate(rt)
	}
	y0, z0 := f.learn(1)
	f.aL, f.aR, how = cheatVectors(rt, g.N(), int(p.N), v, y0, z0)
	return f.proofs(mode), mode + ", " + f.deg + ", " + how
}

// Honest makes candidates with an honest witness, one of which is accepted.
func Honest(g *vh.TGroup, p bulletproofs.BulletProofSetupParams, v, gamma *big.Int, seed uint64) []bulletproofs.BulletProof {
	f := &forger{g: g, p: p, seed: seed, vs: []*big.Int{v}, gammas: []*big.Int{gamma}}
	f.aL, f.aR = bitsOf(v, int(p.N))
	return f.proofs("plain")
}

func (f *forger) proofs(mode string) (out []bulletproofs.BulletProof) {
	for _, c := range f.forge(mode) {
		out = append(out, bulletproofs.BulletProof{V: c.s.Vs[0], A: c.s.A, S: c.s.S, T1: c.s.T1, T2: c.s.T2, Taux: c.taux, Mu: c.mu,
			Tprime: c.tprime, InnerProductProof: c.ip, Params: f.p})
	}
	return out
}

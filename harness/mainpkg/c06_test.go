package main

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func zzChoice(rt *rapid.T, label string) uint16 {
	switch vh.Pick(rt, 5, label+"Kind") {
	case 0:
		return uint16(vh.Pick(rt, 3, label))
	case 1:
		return uint16(65535 - vh.Pick(rt, 3, label))
	case 2:
		return uint16(1) << vh.Pick(rt, 16, label)
	case 3:
		return uint16(101 + vh.Pick(rt, 1900, label))
	default:
		return uint16(vh.Pick(rt, 65536, label))
	}
}

// zzCheckCT compares a ciphertext with the definition.
func zzCheckCT(rt *rapid.T, ff group.Group, pk group.Element, sk *big.Int, m uint16, ct ElGamalCiphertext, r *big.Int) {
	n := ff.N()
	if r.Sign() <= 0 || r.Cmp(n) >= 0 {
		rt.Fatalf("%s: the randomness %v is not in [1, order)", ff.Name(), r)
	}
	if !ct.U.IsEqual(ff.Element().BaseScale(r)) {
		rt.Fatalf("%s: the first component of the ciphertext of %d is not G^r for the returned r = %v", ff.Name(), m, r)
	}
	lifted := ff.Element().BaseScale(vh.I(int64(m)))
	if !ct.V.IsEqual(ff.Element().Add(lifted, ff.Element().Scale(pk, r))) {
		rt.Fatalf("%s: the second component of the ciphertext of %d is not G^m H^r for the returned r = %v", ff.Name(), m, r)
	}
	d := ff.Element().Add(ct.V, ff.Element().Scale(ct.U, zzSub(n, sk)))
	if !d.IsEqual(lifted) {
		rt.Fatalf("%s: the ciphertext of %d decrypts to something else", ff.Name(), m)
	}
}

// Histories of encryptions under one key.
//vh:shards quick=4 thorough=8
func TestC06_Histories(t *testing.T) {
	vh.Check(t, 1200, 30000, "a history of encryptions under one key (choices, repeated ones included, under uniform or extreme randomness): each decrypts, the product decrypts to the sum, randomness is fresh; non-trivial: distinct (group, key, choices)",
		func(rt *rapid.T, c *vh.Case) {
			var ff group.Group
			switch k := vh.Pick(rt, 12, "field"); {
			case k == 0:
				ff = zzField(0)
			case k < 6:
				ff = zzField(vh.OneOf(rt, "bits", []int{64, 128, 272, 400, 520}))
			default:
				ff = vh.NewT(vh.OneOf(rt, "bits", []int{130, 256, 521}))
			}
			n := ff.N()
			sk := zzKey(rt, n)
			pk := ff.Element().BaseScale(sk)
			snap := zzBin(pk)
			k := 2 + vh.Pick(rt, 12, "length")
			tape := vh.NewTape(vh.Seed64(rt, "tape"))
			edge := -1
			if vh.Pick(rt, 3, "steer") == 0 {
				// One encryption gets extreme bytes.
				edge = vh.Pick(rt, k, "edge")
			}
			value := vh.OneOf(rt, "value", []*big.Int{vh.I(0), vh.I(1), zzSub(n, vh.I(2)), zzSub(n, vh.I(1)), n})
			reads := -1
			tape.Steer = func(i int, buf []byte) {
				if i == reads {
					vh.SteerBig(buf, value)
				}
			}
			same := rapid.Bool().Draw(rt, "same")
			var choices []uint16
			sumU, sumV := ff.Identity(), ff.Identity()
			total := int64(0)
			var first = map[string]int{}
			var rs = map[string]int{}
			var kept []ElGamalCiphertext
			var keptR []*big.Int
			for i := 0; i < k; i++ {
				m := zzChoice(rt, "choice")
				if same && i > 0 {
					m = choices[0]
				}
				choices = append(choices, m)
				if i == edge {
					reads = tape.Reads()
				}
				var ct ElGamalCiphertext
				var r *big.Int
				vh.With(tape, func() { ct, r = encryptVote(m, pk, ff) })
				zzCheckCT(rt, ff, pk, sk, m, ct, r)
				if j, ok := rs[r.String()]; ok && i != edge && j != edge {
					rt.Fatalf("%s: encryptions %d and %d use the same randomness %v", ff.Name(), j, i, r)
				}
				rs[r.String()] = i
				if j, ok := first[zzBin(ct.U)]; ok && i != edge && j != edge {
					rt.Fatalf("%s: encryptions %d and %d have the same first component", ff.Name(), j, i)
				}
				first[zzBin(ct.U)] = i
				sumU, sumV = ff.Element().Add(sumU, ct.U), ff.Element().Add(sumV, ct.V)
				total += int64(m)
				kept, keptR = append(kept, ct), append(keptR, r)
			}
			for i := range kept {
				// Later encryptions leave earlier ones alone.
				zzCheckCT(rt, ff, pk, sk, choices[i], kept[i], keptR[i])
			}
			d := ff.Element().Add(sumV, ff.Element().Scale(sumU, zzSub(n, sk)))
			if !d.IsEqual(ff.Element().BaseScale(vh.I(total))) {
				rt.Fatalf("%s: the product of the ciphertexts of %v does not decrypt to the sum", ff.Name(), choices)
			}
			if zzBin(pk) != snap {
				rt.Fatalf("%s: encryption changed the public key", ff.Name())
			}
			c.NonTrivial(ff.Name(), sk, choices)
			c.Label(ff.Name())
			if edge >= 0 {
				c.Label("extreme randomness")
			}
		})
}

// Every randomness of tiny groups occurs, and only those.
func TestC06_TinyGroups(t *testing.T) {
	vh.Check(t, 24, 400, "encryptions in a group of order 11 until every non-zero randomness has occurred; non-trivial: distinct (key, choice)",
		func(rt *rapid.T, c *vh.Case) {
			ff := zzField(5)
			n := int(ff.N().Int64())
			sk := vh.I(int64(1 + vh.Pick(rt, n-1, "key")))
			pk := ff.Element().BaseScale(sk)
			m := zzChoice(rt, "choice")
			seen := map[int64]int{}
			vh.With(vh.NewTape(vh.Seed64(rt, "tape")), func() {
				for i := 0; i < 800; i++ {
					ct, r := encryptVote(m, pk, ff)
					zzCheckCT(rt, ff, pk, sk, m, ct, r)
					seen[r.Int64()]++
				}
			})
			if len(seen) != n-1 {
				rt.Fatalf("800 encryptions in a group of order %d used the randomness %v only", n, seen)
			}
			for r, k := range seen {
				// 80 expected; 10 or 250 are more than seven deviations away.
				if k < 10 || k > 250 {
					rt.Fatalf("800 encryptions in a group of order %d used the randomness %d %d times", n, r, k)
				}
			}
			c.NonTrivial(sk, m)
		})
}

// The randomness spans the group order in large groups.
func TestC06_WholeOrder(t *testing.T) {
	vh.Check(t, 12, 200, "400 encryptions of one choice: each bit of the randomness takes both values, all are distinct, and all reach into every eighth of the order; non-trivial: distinct (group, seed)",
		func(rt *rapid.T, c *vh.Case) {
			bits := vh.OneOf(rt, "field", []int{0, 400, 520, 272, 128})
			var ff group.Group
			if bits == 0 {
				// The same order, transparently: exponentiation is slow.
				ff = vh.NewTGroup(zzField(0).N())
			} else {
				ff = zzField(bits)
			}
			n := ff.N()
			sk := zzKey(rt, n)
			pk := ff.Element().BaseScale(sk)
			seed := vh.Seed64(rt, "tape")
			ones := make([]int, n.BitLen())
			eighth := make([]int, 8)
			seen := map[string]bool{}
			m := zzChoice(rt, "choice")
			const runs = 400
			vh.With(vh.NewTape(seed), func() {
				for i := 0; i < runs; i++ {
					ct, r := encryptVote(m, pk, ff)
					if i < 5 {
						zzCheckCT(rt, ff, pk, sk, m, ct, r)
					}
					if seen[r.String()] {
						rt.Fatalf("%s: the randomness %v is used twice", ff.Name(), r)
					}
					seen[r.String()] = true
					if r.Sign() <= 0 || r.Cmp(n) >= 0 {
						rt.Fatalf("%s: the randomness %v is not in [1, order)", ff.Name(), r)
					}
					for b := range ones {
						ones[b] += int(r.Bit(b))
					}
					e := new(big.Int).Mul(r, vh.I(8))
					eighth[e.Div(e, n).Int64()]++
				}
			})
			for b, k := range ones {
				if k == 0 || k == runs {
					rt.Fatalf("%s: bit %d of the randomness is constant over %d encryptions", ff.Name(), b, runs)
				}
			}
			for i, k := range eighth {
				// 50 expected.
				if k == 0 || k > 150 {
					rt.Fatalf("%s: %d of %d randomness values lie in eighth %d of the order", ff.Name(), k, runs, i)
				}
			}
			c.NonTrivial(ff.Name(), seed)
			c.Label("%d bits", n.BitLen())
		})
}

// Ballots of the system's own voter.
//vh:shards quick=4 thorough=8
func TestC06_Ballots(t *testing.T) {
	vh.Check(t, 240, 6000, "a history of ballots of the system's own voter in a range of few candidates: each decrypts to a candidate, no ciphertext component repeats, the product decrypts to the sum; non-trivial: distinct (configuration, votes)",
		func(rt *rapid.T, c *vh.Case) {
			var cf *zzConf
			if vh.Pick(rt, 8, "real") == 0 {
				cf = zzDrawReal(rt, []int{400}, []int64{1, 2})
			} else {
				cf = zzDrawT(rt, []int64{1, 2, 4})
			}
			k := 2 + vh.Pick(rt, 6, "length")
			seen := map[string]int{}
			sumU, sumV := cf.ff.Identity(), cf.ff.Identity()
			total := int64(0)
			var votes []int64
			tape := vh.NewTape(vh.Seed64(rt, "tape"))
			for i := 0; i < k; i++ {
				bd := zzCast(cf.pp, tape)
				m := cf.decrypt(bd.Ballot)
				if !cf.inRange(m) {
					rt.Fatalf("%v: a ballot decrypts to %d", cf, m)
				}
				for _, e := range []group.Element{bd.Ballot.U, bd.Ballot.V} {
					if j, ok := seen[zzBin(e)]; ok {
						rt.Fatalf("%v: ballots %d and %d share a ciphertext component", cf, j, i)
					}
					seen[zzBin(e)] = i
				}
				votes = append(votes, m)
				total += m
				sumU, sumV = cf.ff.Element().Add(sumU, bd.Ballot.U), cf.ff.Element().Add(sumV, bd.Ballot.V)
			}
			d := cf.ff.Element().Add(sumV, cf.ff.Element().Scale(sumU, zzSub(cf.ff.N(), cf.sk)))
			if !d.IsEqual(cf.ff.Element().BaseScale(vh.I(total))) {
				rt.Fatalf("%v: the product of the ballots for %v does not decrypt to the sum", cf, votes)
			}
			c.NonTrivial(cf.String(), votes)
		})
}

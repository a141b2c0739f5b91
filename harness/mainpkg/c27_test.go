package main

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// Voting on failing randomness.
//vh:shards quick=4 thorough=8
func TestC27_Voting(t *testing.T) {
	vh.Check(t, 1600, 40000, "a ballot cast on a source of randomness that delivers its bytes in pieces, and on one that fails for good after any number of bytes: pieces make no difference, a failure never yields another ballot; non-trivial: distinct (configuration, seed, point of failure)",
		func(rt *rapid.T, c *vh.Case) {
			var cf *zzConf
			if vh.Pick(rt, 16, "real") == 0 {
				cf = zzDrawReal(rt, []int{400, 272}, []int64{1, 2})
			} else {
				cf = zzDrawT(rt, []int64{1, 2, 4, 8, 16})
			}
			vh.Faults(rt, c, "casting a vote, "+cf.String()+",", func() vh.Output {
				bd, _ := castVote(cf.pp)
				b, err := cf.encode(bd)
				return vh.Output{Value: b, OK: err == nil}
			})
		})
}

// Encryption on failing randomness.
//vh:shards quick=2 thorough=8
func TestC27_Encryption(t *testing.T) {
	vh.Check(t, 3000, 100000, "an encryption on a source of randomness that delivers its bytes in pieces, and on one that fails for good after any number of bytes; non-trivial: distinct (group, seed, point of failure)",
		func(rt *rapid.T, c *vh.Case) {
			ff := zzField(vh.OneOf(rt, "field", []int{64, 128, 272, 400, 520}))
			pk := ff.Element().BaseScale(zzKey(rt, ff.N()))
			m := zzChoice(rt, "choice")
			vh.Faults(rt, c, "encrypting in "+ff.Name(), func() vh.Output {
				ct, r := encryptVote(m, pk, ff)
				return vh.Output{Value: fmt.Sprintf("%x %x %v", zzBin(ct.U), zzBin(ct.V), r), OK: true}
			})
		})
}

// encode encodes a ballot, if it is complete.
func (cf *zzConf) encode(bd BallotData) (string, error) {
	for _, f := range cf.fields(&bd) {
		if f.elem != nil && *f.elem == nil || f.num != nil && *f.num == nil {
			return "", fmt.Errorf("incomplete")
		}
	}
	b, err := json.Marshal(bd)
	return string(b), err
}

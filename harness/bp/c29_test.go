package bp

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// TestArchive_Make makes the archive anew; it is no check.
func TestArchive_Make(t *testing.T) {
	if os.Getenv("VERIF_ARCHIVE") != "make" {
		t.Skip()
	}
	var out []vh.Archived
	for _, g := range curves {
		for i := 0; i < 25; i++ {
			n := []int64{1, 2, 4, 8, 16, 32}[i%6]
			p := mustSetup(t, n, g)
			v := []int64{0, 1<<uint(n) - 1, vh.DetInt(uint64(i), g.Name(), vh.I(1<<uint(n))).Int64()}[i%3]
			var pr bulletproofs.BulletProof
			a := vh.Archived{Curve: g.Name(), Bits: n, Vote: fmt.Sprint(v)}
			vh.With(vh.NewTape(uint64(i)), func() {
				q, gamma, err := bulletproofs.Prove(vh.I(v), p)
				if err != nil {
					t.Fatal(err)
				}
				pr, a.Secret = q, gamma.String()
			})
			b, err := json.Marshal(pr)
			if err != nil || !verify(pr) {
				t.Fatal(err)
			}
			a.Data = b
			out = append(out, a)
		}
	}
	if err := vh.WriteArchive("rangeproofs.json.gz", out); err != nil {
		t.Fatal(err)
	}
}

// Archived range proofs stay valid.
//vh:shards quick=4 thorough=8
func TestC29_RangeProofs(t *testing.T) {
	var archive []vh.Archived
	if err := vh.ReadArchive("rangeproofs.json.gz", &archive); err != nil || len(archive) == 0 {
		t.Fatalf("harness: no archive: %v", err)
	}
	vh.Check(t, 400, 8000, "a range proof made by an earlier build (any curve and size), as archived or with its JSON written differently: decoded, accepted, opened with the archived blinding factor and encoded again as archived; non-trivial: distinct (proof, way of writing)",
		func(rt *rapid.T, c *vh.Case) {
			i := vh.Pick(rt, len(archive), "proof")
			a := archive[i]
			var p setupParams
			for _, g := range curves {
				if g.Name() == a.Curve {
					p = realSetup(rt, g, a.Bits)
				}
			}
			if p.GP == nil {
				rt.Fatalf("there is no curve %q any more", a.Curve)
			}
			b, how := vh.Rewrite(rt, a.Data)
			pr, err := bulletproofs.BulletProofUnmarshalJSON(b, p)
			if err != nil {
				rt.Fatalf("%s, %d bits, archived range proof %d (%s) is not understood any more: %v", a.Curve, a.Bits, i, how, err)
			}
			if !accepted(pr) {
				rt.Fatalf("%s, %d bits, archived range proof %d (%s) is not accepted any more", a.Curve, a.Bits, i, how)
			}
			if !opens(pr.V, vh.Dec(a.Vote), vh.Dec(a.Secret), p) {
				rt.Fatalf("%s, %d bits, the commitment of archived range proof %d does not open any more", a.Curve, a.Bits, i)
			}
			if s := mustJSON(rt, pr); vh.Lists(s) != vh.Lists(string(a.Data)) {
				rt.Fatalf("%s, archived range proof %d is encoded differently now:\n%.600s\n%.600s", a.Curve, i, s, a.Data)
			}
			c.NonTrivial(i, how)
			c.Label("%s %d", a.Curve, a.Bits)
			c.Label("%s", how)
		})
}

package main

import (
	"fmt"
	"os"
	"sync"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

func zzCurve(name string) group.Group {
	for _, g := range zzCurves {
		if g.Name() == name {
			return g
		}
	}
	return nil
}

// zzArchivedConf makes the collector's configuration of an archived ballot.
func zzArchivedConf(rt interface{ Fatalf(string, ...any) }, a vh.Archived) *zzConf {
	c := &zzConf{ec: zzCurve(a.Curve), ff: zzField(a.Field), lo: a.Lo, hi: a.Hi, bits: a.Bits, bx: a.Bx, bc: a.Bc}
	if c.ec == nil {
		rt.Fatalf("there is no curve %q any more", a.Curve)
	}
	c.sk = vh.Dec(a.Key)
	c.bg = min(c.ff.N().BitLen(), c.ec.N().BitLen())
	c.build(rt)
	return c
}

// TestArchive_Make makes the archive anew; it is no check.
func TestArchive_Make(t *testing.T) {
	if os.Getenv("VERIF_ARCHIVE") != "make" {
		t.Skip()
	}
	var out []vh.Archived
	seed := uint64(7)
	for _, g := range zzCurves {
		for i := 0; i < 26; i++ {
			seed++
			a := vh.Archived{Curve: g.Name(), Field: 400, Bits: []int64{1, 2, 4, 8, 16}[i%5], Bx: 16, Bc: 224}
			d := func(l string, n int64) int64 { return vh.DetInt(seed, l, vh.I(n)).Int64() }
			if i%4 == 3 {
				a.Field = 520
			}
			w := d("w", 1<<uint(a.Bits))
			a.Lo = uint16(d("lo", 65536-w))
			a.Hi = a.Lo + uint16(w)
			a.Key = zzAdd(vh.I(1), vh.DetInt(seed, "sk", zzSub(zzField(a.Field).N(), vh.I(1)))).String()
			if i%3 == 0 {
				a.Bc = 8 * int(12+d("bc", 16))
			}
			if i >= 20 {
				// The system's own configuration.
				w = 1899
				a = vh.Archived{Curve: g.Name(), Key: "13", Lo: 101, Hi: 2000, Bits: 16, Bx: 16, Bc: 224}
			}
			c := zzArchivedConf(t, a)
			pick := []int64{0, w, d("pick", w+1)}[i%3]
			a.Vote = fmt.Sprint(int64(a.Lo) + pick)
			tape := vh.NewTape(seed)
			tape.Steer = func(i int, buf []byte) {
				if i == 0 {
					vh.SteerBig(buf, vh.I(pick))
				}
			}
			bd := zzCast(c.pp, tape)
			if !c.accepts(bd) || fmt.Sprint(c.decrypt(bd.Ballot)) != a.Vote {
				t.Fatalf("%v %s", c, a.Vote)
			}
			a.Data = zzJSON(t, bd)
			out = append(out, a)
		}
	}
	if err := vh.WriteArchive("ballots.json.gz", out); err != nil {
		t.Fatal(err)
	}
}

var zzArchiveOnce sync.Once
var zzArchive []vh.Archived
var zzArchiveErr error

// Archived ballots stay valid.
//vh:shards quick=6 thorough=8
func TestC29_Ballots(t *testing.T) {
	zzArchiveOnce.Do(func() { zzArchiveErr = vh.ReadArchive("ballots.json.gz", &zzArchive) })
	if zzArchiveErr != nil || len(zzArchive) == 0 {
		t.Fatalf("harness: no archive: %v", zzArchiveErr)
	}
	vh.Check(t, 300, 6000, "a ballot made by an earlier build (any curve, range, key and challenge length), as archived or with its JSON written differently: decoded, accepted, decrypted to the vote and encoded again as archived; now and then submitted to another archived election, which rejects it; non-trivial: distinct (ballot, way of writing)",
		func(rt *rapid.T, c *vh.Case) {
			i := vh.Pick(rt, len(zzArchive), "ballot")
			a := zzArchive[i]
			cf := zzArchivedConf(rt, a)
			b, how := vh.Rewrite(rt, a.Data)
			bd, err := BallotDataUnmarshalJSON(b, cf.pp)
			if err != nil {
				rt.Fatalf("%s, [%d,%d], archived ballot %d (%s) is not understood any more: %v", a.Curve, a.Lo, a.Hi, i, how, err)
			}
			if !cf.accepts(bd) {
				rt.Fatalf("%s, [%d,%d], archived ballot %d (%s) is not accepted any more", a.Curve, a.Lo, a.Hi, i, how)
			}
			if m := cf.decrypt(bd.Ballot); fmt.Sprint(m) != a.Vote {
				rt.Fatalf("%s, [%d,%d], archived ballot %d (%s) decrypts to %d, not to %s", a.Curve, a.Lo, a.Hi, i, how, m, a.Vote)
			}
			if s := string(zzJSON(rt, bd)); vh.Lists(s) != vh.Lists(string(a.Data)) {
				rt.Fatalf("%s, archived ballot %d is encoded differently now:\n%.600s\n%.600s", a.Curve, i, s, a.Data)
			}
			j := vh.Pick(rt, len(zzArchive), "election")
			if o := zzArchive[j]; j != i && (o.Lo != a.Lo || o.Hi != a.Hi || o.Key != a.Key || o.Curve != a.Curve) {
				co := zzArchivedConf(rt, o)
				if ok, _ := co.judge(b); ok {
					rt.Fatalf("archived ballot %d (%s) is accepted in the election of ballot %d", i, a.Curve, j)
				}
			}
			c.NonTrivial(i, how)
			c.Label("%s", a.Curve)
			c.Label("%s", how)
		})
}

package grp

import (
	"io"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// Histories of random elements.
//vh:shards quick=4 thorough=8
func TestC28_Histories(t *testing.T) {
	vh.Check(t, 1000, 40000, "a history of random elements, now and then from extreme bytes, each altered by its owner afterwards: all are members, those of the large groups differ, and later draws leave earlier ones alone; non-trivial: distinct (group, seed)",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			g := r.G()
			seed := vh.Seed64(rt, "tape")
			tape := vh.NewTape(seed)
			edge := -1
			if vh.Pick(rt, 4, "steer") == 0 {
				edge = vh.Pick(rt, 4, "edge")
				fillWith := vh.OneOf(rt, "bytes", []byte{0, 0xff, 1, 0x80})
				tape.Steer = func(i int, b []byte) {
					if i == edge {
						for j := range b {
							b[j] = fillWith
						}
					}
				}
			}
			n := 2 + vh.Pick(rt, 6, "length")
			var es []group.Element
			var vals []vh.RVal
			seen := map[string]int{}
			for i := 0; i < n; i++ {
				var e group.Element
				vh.With(tape, func() { e = g.Random() })
				v, err := member(r, e)
				if err != nil {
					rt.Fatalf("%s: random element %d (%v) is no member: %v", r.Name(), i, e, err)
				}
				if !g.Element().Scale(e, r.N()).IsIdentity() {
					rt.Fatalf("%s: random element %d (%v) is not in the group of prime order", r.Name(), i, e)
				}
				if r.N().BitLen() > 100 && edge < 0 {
					if e.IsIdentity() || e.IsEqual(g.Generator()) {
						rt.Fatalf("%s: random element %d is the identity or the generator", r.Name(), i)
					}
					if j, ok := seen[string(vh.Enc(e))]; ok {
						rt.Fatalf("%s: random elements %d and %d are equal", r.Name(), j, i)
					}
					seen[string(vh.Enc(e))] = i
				}
				es, vals = append(es, e), append(vals, v)
				if rapid.Bool().Draw(rt, "alter") {
					// The element belongs to whoever asked for it.
					e.Add(e, g.Generator())
					vals[i] = r.Add(v, r.Base())
				}
				for j := range es {
					if !vh.Matches(r, es[j], vals[j]) {
						rt.Fatalf("%s: random element %d changed after draw %d", r.Name(), j, i)
					}
				}
			}
			if !vh.Matches(r, g.Generator(), r.Base()) || !vh.Matches(r, g.Identity(), r.Zero()) {
				rt.Fatalf("%s: generator or identity changed", r.Name())
			}
			c.NonTrivial(r.Name(), seed, n)
			c.Label("%s", r.Name())
		})
}

// All elements of small groups occur about equally often.
func TestC28_Uniform(t *testing.T) {
	vh.Check(t, 12, 300, "60 draws per element of a small group: each element occurs, and not too often; non-trivial: distinct (group, seed)",
		func(rt *rapid.T, c *vh.Case) {
			r := refs[5+vh.Pick(rt, 2, "group")]
			n := int(r.N().Int64())
			seed := vh.Seed64(rt, "tape")
			count := map[string]int{}
			tape := vh.NewTape(seed)
			tape.Limit = 1000 * n
			vh.With(tape, func() {
				for i := 0; i < 60*n; i++ {
					count[string(vh.Enc(r.G().Random()))]++
				}
			})
			if len(count) != n {
				rt.Fatalf("%s: %d of %d elements occur among %d random ones", r.Name(), len(count), n, 60*n)
			}
			for e, k := range count {
				// 60 expected, deviation 7.7.
				if k < 8 || k > 160 {
					rt.Fatalf("%s: element %x occurs %d times among %d random ones", r.Name(), e, k, 60*n)
				}
			}
			c.NonTrivial(r.Name(), seed)
		})
}

// flipped is a source with one byte changed.
type flipped struct {
	io.Reader
	at, pos int
}

func (f *flipped) Read(p []byte) (int, error) {
	n, err := f.Reader.Read(p)
	if f.at >= f.pos && f.at < f.pos+n {
		p[f.at-f.pos] ^= 1
	}
	f.pos += n
	return n, err
}

// Random elements of large groups have as much entropy as the group.
//vh:shards quick=4 thorough=8
func TestC28_Entropy(t *testing.T) {
	vh.Check(t, 200, 4000, "a random element drawn again with each single byte of the randomness changed: enough bytes for the group's order matter, and no two changes give the same element; non-trivial: distinct (group, seed)",
		func(rt *rapid.T, c *vh.Case) {
			r := refs[vh.OneOf(rt, "group", []int{0, 1, 2, 3, 7, 8, 0, 1, 2, 3, 7, 8, 4})]
			seed := vh.Seed64(rt, "stream")
			draw := func(at int) (string, int) {
				s := vh.NewStream(seed)
				var e group.Element
				vh.With(&flipped{Reader: s, at: at}, func() { e = r.G().Random() })
				return string(vh.Enc(e)), s.Used()
			}
			base, used := draw(-1)
			if again, _ := draw(-1); again != base {
				c.Vacuous("not deterministic")
				return
			}
			seen := map[string]int{base: -1}
			step := 1
			if used > 300 {
				step = 1 + vh.Pick(rt, 7, "step") // the large group is slow
			}
			matter, tried := 0, 0
			for at := 0; at < used; at += step {
				tried++
				e, u := draw(at)
				if e == base {
					continue
				}
				matter++
				if u != used {
					continue // other bytes were refused
				}
				if j, ok := seen[e]; ok {
					rt.Fatalf("%s: changing byte %d or byte %d of the randomness gives the same random element", r.Name(), j, at)
				}
				seen[e] = at
			}
			if need := (r.N().BitLen() - 8) / 8; matter*used < (need-1)*tried {
				rt.Fatalf("%s: %d of %d tried bytes (of %d) of the randomness matter for a random element; the order has %d bits", r.Name(), matter, tried, used, r.N().BitLen())
			}
			c.NonTrivial(r.Name(), seed)
			c.Label("%s, %d bytes", r.Name(), used)
		})
}

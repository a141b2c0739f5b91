package grp

import (
	"bytes"
	"encoding/json"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

type encoding struct {
	bin, js []byte
	str     string
}

func encode(rt *rapid.T, name string, e group.Element) encoding {
	b, err := e.MarshalBinary()
	if err != nil {
		rt.Fatalf("%s: MarshalBinary: %v", name, err)
	}
	j, err := e.MarshalJSON()
	if err != nil {
		rt.Fatalf("%s: MarshalJSON: %v", name, err)
	}
	if !json.Valid(j) {
		rt.Fatalf("%s: MarshalJSON gives invalid JSON: %q", name, j)
	}
	return encoding{bytes.Clone(b), bytes.Clone(j), e.String()}
}

// Encodings of one element, computed in several ways, agree and round-trip.
//vh:shards quick=4 thorough=8
func TestC18_RoundTripAndCanonical(t *testing.T) {
	vh.Check(t, 3000, 80000, "an element reached by two drawn computations, encoded and decoded; non-trivial: the two computations differ, or the element is the identity or has leading zero bytes",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			g := r.G()
			k, kind := drawLog(rt, r, "k")
			nr := len(routes)
			i := vh.Pick(rt, nr, "route1")
			j := vh.Pick(rt, nr, "route2")
			off := vh.I(int64(rapid.IntRange(1, 9).Draw(rt, "offset")))
			a := routes[i].f(r, k, off)
			b := routes[j].f(r, k, off)
			if kind == "identity" && rapid.Bool().Draw(rt, "useIdentity") {
				a = g.Identity()
			}
			ea, eb := encode(rt, g.Name(), a), encode(rt, g.Name(), b)
			if !bytes.Equal(ea.bin, eb.bin) || !bytes.Equal(ea.js, eb.js) || ea.str != eb.str {
				rt.Fatalf("%s: %v*G computed as %q and %q has different encodings:\n%x\n%x\n%s\n%s\n%q\n%q", g.Name(), k,
					routes[i].name, routes[j].name, ea.bin, eb.bin, ea.js, eb.js, ea.str, eb.str)
			}
			recv := func(label string) group.Element {
				switch vh.Pick(rt, 4, label) {
				case 0:
					return g.Element()
				case 1:
					return g.Identity()
				case 2:
					return g.Generator()
				default:
					return g.Element().BaseScale(vh.I(77))
				}
			}
			d := recv("recvBin")
			if err := d.UnmarshalBinary(bytes.Clone(ea.bin)); err != nil || !d.IsEqual(a) || !a.IsEqual(d) {
				rt.Fatalf("%s: binary round trip of %v*G fails: %v", g.Name(), k, err)
			}
			ed := encode(rt, g.Name(), d)
			d2 := recv("recvJSON")
			if err := d2.UnmarshalJSON(bytes.Clone(ea.js)); err != nil || !d2.IsEqual(a) || !a.IsEqual(d2) {
				rt.Fatalf("%s: JSON round trip of %v*G fails: %v (%s)", g.Name(), k, err, ea.js)
			}
			ed2 := encode(rt, g.Name(), d2)
			d3 := recv("recvSet").SetBytes(bytes.Clone(ea.bin))
			if !d3.IsEqual(a) {
				rt.Fatalf("%s: SetBytes of the encoding of %v*G is not equal to it", g.Name(), k)
			}
			// Inside a document, as proofs carry them.
			doc, err := json.Marshal(map[string]group.Element{"e": a})
			if err != nil {
				rt.Fatalf("%s: marshalling a document: %v", g.Name(), err)
			}
			var raw map[string]json.RawMessage
			if err := json.Unmarshal(doc, &raw); err != nil {
				rt.Fatalf("%s: %v", g.Name(), err)
			}
			d4 := recv("recvDoc")
			if err := d4.UnmarshalJSON(raw["e"]); err != nil || !d4.IsEqual(a) {
				rt.Fatalf("%s: %v*G does not survive a JSON document: %v", g.Name(), k, err)
			}
			for _, x := range []encoding{ed, ed2, encode(rt, g.Name(), d3), encode(rt, g.Name(), d4)} {
				if !bytes.Equal(x.bin, ea.bin) || !bytes.Equal(x.js, ea.js) || x.str != ea.str {
					rt.Fatalf("%s: re-encoding decoded %v*G gives another encoding", g.Name(), k)
				}
			}
			// A decoded element is as good as the original in arithmetic.
			if !g.Element().Add(d, d2).IsEqual(g.Element().Add(a, a)) || !g.Element().Scale(d2, off).IsEqual(g.Element().Scale(a, off)) {
				rt.Fatalf("%s: arithmetic with decoded %v*G differs", g.Name(), k)
			}
			c.Label("%s", g.Name())
			c.Label("%s", kind)
			if i != j || kind == "identity" || kind == "leading zeros" {
				c.NonTrivial(g.Name(), k, routes[i].name, routes[j].name)
			}
		})
}

// Different elements have different encodings.
//vh:shards quick=2 thorough=8
func TestC18_Injective(t *testing.T) {
	vh.Check(t, 400, 8000, "a set of about twenty different elements, mutual opposites included; non-trivial: at least six of them",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			g := r.G()
			logs := map[string]*big.Int{}
			put := func(v *big.Int) {
				m := new(big.Int).Mod(v, r.N())
				logs[m.String()] = m
			}
			put(vh.I(0))
			put(vh.I(1))
			n := rapid.IntRange(2, 8).Draw(rt, "count")
			var last *big.Int
			for i := 0; i < n; i++ {
				k, _ := drawLog(rt, r, "k")
				put(k)
				put(new(big.Int).Neg(k))
				last = k
			}
			put(new(big.Int).Add(last, vh.I(1)))
			seenB, seenJ, seenS := map[string]string{}, map[string]string{}, map[string]string{}
			for name, k := range logs {
				e := g.Element().BaseScale(k)
				x := encode(rt, g.Name(), e)
				for kind, m := range map[string]map[string]string{"binary": seenB, "JSON": seenJ, "string": seenS} {
					v := map[string]string{"binary": string(x.bin), "JSON": string(x.js), "string": x.str}[kind]
					if o, ok := m[v]; ok {
						rt.Fatalf("%s: %s*G and %s*G have the same %s form %q", g.Name(), name, o, kind, v)
					}
					m[v] = name
				}
			}
			c.Label("%s", g.Name())
			if len(logs) >= 6 {
				c.NonTrivial(g.Name(), last, len(logs))
			}
		})
}

// Elements out of reach of computations from the generator.
//vh:shards quick=2 thorough=8
func TestC18_SpecialElements(t *testing.T) {
	vh.Check(t, 4000, 80000, "a member with a special coordinate or residue (zero, small, sparse, just below the field order), given by its encoding: it decodes, re-encodes to the same, and stays itself in arithmetic; non-trivial: distinct (group, element)",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			g := r.G()
			v, kind := drawSpecial(rt, r, "v")
			a, b := g.Generator(), g.Generator()
			if err := a.UnmarshalBinary(r.Bin(v)); err != nil {
				rt.Fatalf("%s: the binary encoding of a member (%s) is refused: %v: %x", g.Name(), vh.RString(v), err, r.Bin(v))
			}
			if err := b.UnmarshalJSON(r.JSON(v)); err != nil {
				rt.Fatalf("%s: the JSON encoding of a member (%s) is refused: %v: %s", g.Name(), vh.RString(v), err, r.JSON(v))
			}
			d := g.Generator().SetBytes(r.Bin(v))
			// The same element by a detour.
			e := g.Element().Subtract(g.Element().Add(a, g.Generator()), g.Generator())
			f := g.Element().Negate(g.Element().Negate(b))
			h := g.Element().Set(a)
			want := encode(rt, g.Name(), a)
			for i, x := range []group.Element{b, d, e, f, h, g.Element().Scale(a, vh.I(1))} {
				got := encode(rt, g.Name(), x)
				if !x.IsEqual(a) || !a.IsEqual(x) || !bytes.Equal(got.bin, want.bin) || !bytes.Equal(got.js, want.js) || got.str != want.str {
					rt.Fatalf("%s: the member %s (%s), obtained in two ways (%d), has different encodings or is not equal to itself: %q %q", g.Name(), vh.RString(v), kind, i, got.str, want.str)
				}
			}
			if !bytes.Equal(want.bin, r.Bin(v)) {
				rt.Fatalf("%s: the member %s (%s) re-encodes differently: %x, was %x", g.Name(), vh.RString(v), kind, want.bin, r.Bin(v))
			}
			// It is told from its neighbours.
			for _, o := range []group.Element{g.Element().Negate(a), g.Element().Add(a, g.Generator()), g.Identity()} {
				ov, err := r.Of(o)
				if err != nil || vh.REq(ov, v) {
					continue
				}
				x := encode(rt, g.Name(), o)
				if o.IsEqual(a) || bytes.Equal(x.bin, want.bin) || bytes.Equal(x.js, want.js) || x.str == want.str {
					rt.Fatalf("%s: the member %s (%s) is taken for %v", g.Name(), vh.RString(v), kind, o)
				}
			}
			c.Label("%s", kind)
			c.NonTrivial(g.Name(), vh.RString(v))
		})
}

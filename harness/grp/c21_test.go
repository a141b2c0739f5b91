package grp

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// fresh returns a new instance of the group behind a reference.
func fresh(r vh.Ref) group.Group {
	switch r.G().Name() {
	case group.P256().Name():
		return group.P256()
	case group.P384().Name():
		return group.P384()
	case group.SecP256k1().Name():
		return group.SecP256k1()
	case group.Ristretto255().Name():
		return group.Ristretto255()
	}
	return r.G()
}

func hashTo(rt *rapid.T, e group.Element, s string) group.Element {
	m, err := e.MapToGroup(s)
	if err != nil {
		rt.Fatalf("hashing %q to the group fails: %v", s, err)
	}
	return m
}

func drawString(rt *rapid.T, label string) string {
	const seed = "BulletproofsDoesNotNeedTrustedSetupH"
	switch vh.Pick(rt, 8, label+"Kind") {
	case 0:
		return ""
	case 1:
		return seed
	case 2:
		return seed + vh.OneOf(rt, label+"GH", []string{"g", "h"}) + fmt.Sprint(vh.Pick(rt, 70, label+"Idx"))
	case 3:
		return strings.Repeat(string(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(rt, label+"Unit")), 1+vh.Pick(rt, 600, label+"Times"))
	case 4:
		return rapid.String().Draw(rt, label)
	case 5:
		return rapid.StringMatching(`[0-9]{1,8}[a-z]?`).Draw(rt, label)
	default:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(rt, label))
	}
}

// neighbour returns a string that differs from s.
func neighbour(rt *rapid.T, s string) string {
	b := []byte(s)
	switch k := vh.Pick(rt, 8, "neighbour"); {
	case k == 0:
		return s + "\x00"
	case k == 1:
		return "\x00" + s
	case k == 2 && len(b) > 0:
		return s[:len(s)-1]
	case k == 3 && len(b) > 0:
		return s[1:]
	case k == 4 && len(b) > 0:
		b[vh.Pick(rt, len(b), "pos")] ^= 1 << vh.Pick(rt, 8, "bit")
		return string(b)
	case k == 5 && len(b) > 0:
		b[len(b)-1] ^= 1 << vh.Pick(rt, 8, "bit")
		return string(b)
	case k == 6:
		return fmt.Sprint(vh.Pick(rt, 300, "digits")) + s
	case k == 7 && strings.ToLower(s) != s:
		return strings.ToLower(s)
	default:
		return s + s + "1"
	}
}

// guesses are scalars an implementation might have derived from s.
func guesses(s string) []*big.Int {
	b := []byte(s)
	h2, h5, h3 := sha256.Sum256(b), sha512.Sum512(b), sha512.Sum384(b)
	out := []*big.Int{new(big.Int).SetBytes(b), new(big.Int).SetBytes(h2[:]), new(big.Int).SetBytes(h5[:]), new(big.Int).SetBytes(h3[:]),
		new(big.Int).SetBytes(h2[:16])}
	rev := func(x []byte) []byte {
		y := bytes.Clone(x)
		for i, j := 0, len(y)-1; i < j; i, j = i+1, j-1 {
			y[i], y[j] = y[j], y[i]
		}
		return y
	}
	out = append(out, new(big.Int).SetBytes(rev(h2[:])), new(big.Int).SetBytes(rev(h5[:])))
	sum := int64(0)
	for _, c := range b {
		sum += int64(c)
	}
	out = append(out, vh.I(int64(len(b))), vh.I(sum))
	for i := int64(0); i <= 16; i++ {
		out = append(out, vh.I(i))
	}
	return out
}

// Hashing to a group is a function into the non-identity members whose
// results have no evident discrete logarithm.
//vh:shards quick=4 thorough=8
func TestC21_MapToGroup(t *testing.T) {
	vh.Check(t, 1500, 40000, "a string hashed through several receivers and instances, and a neighbouring string; non-trivial: all",
		func(rt *rapid.T, c *vh.Case) {
			r := drawCurve(rt)
			g := r.G()
			s := drawString(rt, "s")
			s2 := neighbour(rt, s)
			if s == s2 {
				s2 = s + "x"
			}
			recv := func(label string) group.Element {
				switch vh.Pick(rt, 5, label) {
				case 0:
					return fresh(r).Element()
				case 1:
					return g.Identity()
				case 2:
					return g.Generator()
				case 3:
					return hashTo(rt, g.Element(), "something else")
				default:
					return g.Element().BaseScale(vh.I(12345))
				}
			}
			a := hashTo(rt, recv("recv1"), s)
			other := hashTo(rt, recv("recv3"), s2)
			b := hashTo(rt, recv("recv2"), s)
			if !a.IsEqual(b) || !b.IsEqual(a) {
				rt.Fatalf("%s: hashing %q twice gives different elements", g.Name(), s)
			}
			v, err := r.Of(a)
			if err != nil {
				if v, err = r.OfJSON(a); err != nil {
					rt.Fatalf("%s: hashing %q does not give a member: %v", g.Name(), s, err)
				}
			}
			if w, err := r.Of(b); err == nil && !REqSafe(v, w) {
				rt.Fatalf("%s: hashing %q twice gives different values", g.Name(), s)
			}
			if REqSafe(v, r.Zero()) || a.IsIdentity() {
				rt.Fatalf("%s: hashing %q gives the identity", g.Name(), s)
			}
			if a.IsEqual(other) || a.IsEqual(g.Element().Negate(other)) {
				rt.Fatalf("%s: %q and %q hash to the same element up to sign", g.Name(), s, s2)
			}
			for _, k := range guesses(s) {
				e := g.Element().BaseScale(k)
				if a.IsEqual(e) || a.IsEqual(g.Element().Negate(e)) {
					rt.Fatalf("%s: the discrete logarithm of the hash of %q is %v", g.Name(), s, k)
				}
			}
			// An additive or scaling structure would give known relations.
			d := g.Element().Subtract(a, other)
			for _, k := range guesses(s)[9:] {
				e := g.Element().BaseScale(k)
				if d.IsEqual(e) || d.IsEqual(g.Element().Negate(e)) {
					rt.Fatalf("%s: the hashes of %q and %q differ by %v*G", g.Name(), s, s2, k)
				}
				if a.IsEqual(g.Element().Scale(other, k)) {
					rt.Fatalf("%s: the hash of %q is %v times that of %q", g.Name(), s, k, s2)
				}
			}
			c.NonTrivial(g.Name(), s, s2)
			c.Label(g.Name())
			for i, f := range []string{"", "a", "BulletproofsDoesNotNeedTrustedSetupH", "BulletproofsDoesNotNeedTrustedSetupHg0", "\xff\x00"} {
				e := hashTo(rt, g.Element(), f)
				bin, _ := e.MarshalBinary()
				c.Digest(fmt.Sprintf("hash %d in %s", i, g.Name()), fmt.Sprintf("%x", bin))
			}
		})
}

// REqSafe compares values by the way they are written.
func REqSafe(a, b vh.RVal) bool { return vh.RString(a) == vh.RString(b) }

// Sets of strings that are close to each other: prefixed with digits (some
// hash-to-curve methods prefix a counter), extended, truncated, re-cased.
//vh:shards quick=4 thorough=8
func TestC21_NoCollisionsInFamilies(t *testing.T) {
	vh.Check(t, 40, 800, "a family of some hundred to some thousand strings closed under prefixing a digit, truncation and extension, all hashed; non-trivial: all",
		func(rt *rapid.T, c *vh.Case) {
			r := curves[vh.OneOf(rt, "curve", []int{0, 1, 2, 2, 2, 3})]
			g := r.G()
			n := 150
			if g.Name() == group.SecP256k1().Name() {
				n = 1500
			}
			base := rapid.StringMatching(`[a-zA-Z]{0,6}`).Draw(rt, "base")
			start := vh.Pick(rt, 1<<20, "start")
			seen := make(map[string]string, 4*n)
			add := func(s string) {
				e := hashTo(rt, g.Element(), s)
				b, err := e.MarshalBinary()
				if err != nil {
					rt.Fatalf("%s: %v", g.Name(), err)
				}
				if p, ok := seen[string(b)]; ok && p != s {
					rt.Fatalf("%s: %q and %q hash to the same element", g.Name(), p, s)
				}
				seen[string(b)] = s
			}
			for i := 0; i < n; i++ {
				m := fmt.Sprintf("%s%d", base, start+i)
				add(m)
				add("0" + m)
				add("1" + m)
			}
			long := strings.Repeat(base+"x", 60)
			for _, l := range []int{1, 15, 16, 31, 32, 33, 48, 55, 56, 63, 64, 65, 100, 119, 127, 128, 129} {
				if l <= len(long) {
					add(long[:l])
				}
			}
			c.NonTrivial(g.Name(), base, start)
			c.Label(g.Name())
		})
}

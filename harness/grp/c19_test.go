package grp

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// offer decodes an input into a receiver with a known value and judges the
// outcome: error and unchanged receiver, or a member with the value the input
// denotes. canonical inputs, which are those the system itself produces, must
// be accepted.
func offer(rt *rapid.T, r vh.Ref, input []byte, isJSON, canonical bool, what string) (accepted bool) {
	g := r.G()
	if !isJSON {
		offerSet(rt, r, input, what)
	}
	k, _ := drawLog(rt, r, "receiver")
	e := g.Element().BaseScale(k)
	before := encode(rt, g.Name(), e)
	in := bytes.Clone(input)
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				rt.Fatalf("%s: decoding %s %q panics: %v", g.Name(), what, input, p)
			}
		}()
		if isJSON {
			err = e.UnmarshalJSON(in)
		} else {
			err = e.UnmarshalBinary(in)
		}
	}()
	if !bytes.Equal(in, input) {
		rt.Fatalf("%s: decoding %s modifies its input", g.Name(), what)
	}
	if err != nil {
		if canonical {
			rt.Fatalf("%s: canonical encoding refused (%s %q): %v", g.Name(), what, input, err)
		}
		after := encode(rt, g.Name(), e)
		if !bytes.Equal(after.bin, before.bin) || !bytes.Equal(after.js, before.js) || after.str != before.str ||
			!e.IsEqual(g.Element().BaseScale(k)) || e.IsEqual(g.Element().BaseScale(new(big.Int).Add(k, vh.I(1)))) {
			rt.Fatalf("%s: a failed decoding of %s %q changed the receiver", g.Name(), what, input)
		}
		// The receiver must remain usable.
		if !g.Element().Add(e, g.Generator()).IsEqual(g.Element().BaseScale(new(big.Int).Add(k, vh.I(1)))) {
			rt.Fatalf("%s: a failed decoding of %s %q broke the receiver", g.Name(), what, input)
		}
		return false
	}
	var want vh.RVal
	var perr error
	if isJSON {
		want, perr = r.ParseJSON(input)
	} else {
		want, perr = r.Parse(input)
	}
	if perr != nil {
		rt.Fatalf("%s: decoding accepts %s %q, which does not denote a group member: got %v", g.Name(), what, input, e)
	}
	got, gerr := r.Of(e)
	gotJ, gjerr := r.OfJSON(e)
	if gerr != nil || gjerr != nil || !vh.REq(got, want) || !vh.REq(gotJ, want) {
		rt.Fatalf("%s: decoding %s %q yields %v (%v, %v), want %s", g.Name(), what, input, e, gerr, gjerr, vh.RString(want))
	}
	return true
}

// offerSet gives the input to SetBytes, which cannot report an error: whatever
// the input, the receiver must end up holding a member, and the one the input
// denotes if it is one that decoding accepts.
func offerSet(rt *rapid.T, r vh.Ref, input []byte, what string) {
	g := r.G()
	var e group.Element
	func() {
		defer func() {
			if p := recover(); p != nil {
				rt.Fatalf("%s: SetBytes of %s %q panics: %v", g.Name(), what, input, p)
			}
		}()
		e = g.Generator().SetBytes(bytes.Clone(input))
	}()
	got, err := r.Of(e)
	gotJ, errJ := r.OfJSON(e)
	if err != nil || errJ != nil || !vh.REq(got, gotJ) {
		rt.Fatalf("%s: SetBytes of %s %q leaves %v, not a member (%v, %v)", g.Name(), what, input, e, err, errJ)
	}
	if want, perr := r.Parse(input); perr == nil && g.Element().UnmarshalBinary(bytes.Clone(input)) == nil && !vh.REq(got, want) {
		rt.Fatalf("%s: SetBytes of %s %q leaves %v, want %s", g.Name(), what, input, e, vh.RString(want))
	}
	if !g.Element().Subtract(g.Element().Add(e, g.Generator()), g.Generator()).IsEqual(e) {
		rt.Fatalf("%s: SetBytes of %s %q leaves a broken element", g.Name(), what, input)
	}
}

// drawPoint draws a coordinate pair and says what it is.
func drawCoords(rt *rapid.T, w *vh.Weierstrass) (x, y *big.Int, what string, canonical bool) {
	k, _ := drawLog(rt, w, "point")
	v := refMul(w, k)
	x, y = vh.I(0), vh.I(0)
	if !v.Inf {
		x, y = new(big.Int).Set(v.X), new(big.Int).Set(v.Y)
	}
	p := w.P()
	switch vh.Pick(rt, 14, "family") {
	case 0:
		return x, y, "a member", true
	case 1: // a neighbour
		y.Add(y, vh.I(int64(rapid.IntRange(1, 5).Draw(rt, "dy"))))
		return x, y, "a point beside the curve", false
	case 2:
		x.Add(x, vh.I(int64(rapid.IntRange(1, 5).Draw(rt, "dx"))))
		return x, y, "a point beside the curve", false
	case 3:
		return y, x, "swapped coordinates", false
	case 4: // on a twist: same x^3+ax, other b
		x = drawWide(rt, p.BitLen(), "x")
		y = drawWide(rt, p.BitLen(), "y")
		return x.Mod(x, p), y.Mod(y, p), "random coordinates", false
	case 5: // x beyond the field, denoting a point modulo p
		room := new(big.Int).Lsh(vh.I(1), uint(8*w.Size()))
		room.Sub(room, p)
		x = drawWide(rt, room.BitLen()+64, "xs")
		x.Mod(x, room)
		for i := 0; i < 64; i++ {
			if pt, ok := w.LiftX(x); ok {
				return x.Add(x, p), pt.Y, "x beyond the field order", false
			}
			if x.Add(x, vh.I(1)).Cmp(room) >= 0 {
				x.SetInt64(0)
			}
		}
		return x.Add(x, p), y, "x beyond the field order", false
	case 6:
		return x.Add(x, p), y, "x plus field order", false
	case 7:
		return x, y.Add(y, p), "y plus field order", false
	case 8:
		return x.Neg(x), y, "negative x", false
	case 9:
		return x, y.Neg(y), "negative y", false
	case 10:
		return vh.I(0), y, "zero x", false
	case 11:
		return x, vh.I(0), "zero y", false
	case 12: // a point of another curve
		o := refMul(curves[vh.Pick(rt, 3, "otherCurve")], vh.I(int64(rapid.IntRange(1, 30).Draw(rt, "otherLog"))))
		return o.X, o.Y, "a point of a curve", false
	default:
		if !v.Inf {
			y.Sub(p, y)
		}
		return x, y, "an opposite member", true
	}
}

func fits(w *vh.Weierstrass, vs ...*big.Int) bool {
	for _, v := range vs {
		if v.Sign() < 0 || v.BitLen() > 8*w.Size() {
			return false
		}
	}
	return true
}

// Binary decoding of curve points.
//vh:shards quick=3 thorough=8
func TestC19_PointBinary(t *testing.T) {
	vh.Check(t, 6000, 200000, "a byte string built from coordinates on, beside or off the curve with valid and invalid prefixes and lengths; non-trivial: it is not the canonical encoding of a member",
		func(rt *rapid.T, c *vh.Case) {
			w := refs[vh.Pick(rt, 3, "curve")].(*vh.Weierstrass)
			x, y, what, canonical := drawCoords(rt, w)
			var in []byte
			if fits(w, x, y) {
				buf := make([]byte, 2*w.Size())
				x.FillBytes(buf[:w.Size()])
				y.FillBytes(buf[w.Size():])
				in = buf
				if w.SEC1() {
					in = append([]byte{4}, buf...)
				}
				if x.Sign() == 0 && y.Sign() == 0 && w.SEC1() {
					canonical = false
				}
			} else {
				in = append(x.Bytes(), y.Bytes()...)
				if w.SEC1() {
					in = append([]byte{4}, in...)
				}
				canonical = false
			}
			switch form := vh.Pick(rt, 10, "form"); form {
			case 0, 1, 2, 3:
			case 4: // other prefixes
				if len(in) > 0 {
					in[0] = byte(vh.Pick(rt, 256, "prefix"))
					what, canonical = what+" with another first byte", false
				}
			case 5: // compressed and hybrid forms
				if fits(w, x, y) && w.SEC1() {
					pre := byte(vh.OneOf(rt, "prefix", []int{2, 3, 6, 7, 5, 0}))
					if pre == 2 || pre == 3 || rapid.Bool().Draw(rt, "short") {
						in = append([]byte{pre}, in[1:1+w.Size()]...)
					} else {
						in[0] = pre
					}
					what, canonical = what+" in compressed or hybrid form", false
				}
			case 6: // wrong lengths
				n := rapid.IntRange(0, len(in)+3).Draw(rt, "len")
				if n <= len(in) {
					canonical = canonical && n == len(in)
					in = in[:n]
				} else {
					in, canonical = append(in, make([]byte, n-len(in))...), false
				}
				what += " with another length"
			case 7:
				in, canonical = append([]byte{0}, in...), false
				what += " with a leading zero byte"
			case 8: // the identity and its look-alikes
				in, canonical = make([]byte, rapid.IntRange(0, 2*w.Size()+2).Draw(rt, "zeros")), false
				what = "zero bytes"
			case 9:
				in, canonical = rapid.SliceOfN(rapid.Byte(), 0, 2*w.Size()+2).Draw(rt, "bytes"), false
				what = "random bytes"
			}
			ok := offer(rt, w, in, false, canonical, what)
			c.Label("%s: accepted=%v", what, ok)
			if !canonical {
				c.NonTrivial(w.Name(), fmt.Sprintf("%x", in))
			}
		})
}

// jsonNumber writes a number in a drawn syntax.
func jsonNumber(rt *rapid.T, v *big.Int, label string) (string, bool) {
	switch vh.Pick(rt, 30, label+"Syntax") {
	case 0:
		return `"` + v.String() + `"`, false
	case 1:
		return v.String() + ".0", false
	case 2:
		return v.String() + "e1", false
	case 3:
		return "null", false
	case 4:
		return "[" + v.String() + "]", false
	case 5:
		return "true", false
	case 6:
		return "{}", false
	default:
		return v.String(), true
	}
}

// JSON decoding of curve points.
//vh:shards quick=3 thorough=8
func TestC19_PointJSON(t *testing.T) {
	vh.Check(t, 6000, 200000, "a JSON text with coordinates on, beside or off the curve, in valid and invalid syntax; non-trivial: it is not the canonical encoding of a member",
		func(rt *rapid.T, c *vh.Case) {
			w := refs[vh.Pick(rt, 3, "curve")].(*vh.Weierstrass)
			x, y, what, canonical := drawCoords(rt, w)
			if vh.Pick(rt, 20, "huge") == 0 {
				x = new(big.Int).Lsh(vh.I(3), uint(rapid.IntRange(250, 5000).Draw(rt, "shift")))
				what, canonical = "a huge coordinate", false
			}
			sx, okx := jsonNumber(rt, x, "x")
			sy, oky := jsonNumber(rt, y, "y")
			canonical = canonical && okx && oky
			if !okx || !oky {
				what += " in odd syntax"
			}
			in := fmt.Sprintf(`{"x":%s,"y":%s}`, sx, sy)
			switch vh.Pick(rt, 16, "shape") {
			case 0:
				in, canonical = fmt.Sprintf(`{"x":%s}`, sx), false
			case 1:
				in, canonical = fmt.Sprintf(`{"y":%s}`, sy), false
			case 2:
				in, canonical = rapid.SampledFrom([]string{"", "null", "{}", "[]", "0", `""`, "{", `{"x":`, "true", `"AAAA"`, "  ", "[1,2]"}).Draw(rt, "text"), false
			case 3:
				n := rapid.IntRange(0, len(in)).Draw(rt, "cut")
				canonical = canonical && n == len(in)
				in = in[:n]
			case 4:
				in, canonical = in+rapid.SampledFrom([]string{"}", " 1", ",", "x", "\x00"}).Draw(rt, "tail"), false
			case 5:
				b := []byte(in)
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "pos")] = rapid.Byte().Draw(rt, "byte")
				in, canonical = string(b), false
			}
			ok := offer(rt, w, []byte(in), true, canonical, what)
			c.Label("%s: accepted=%v", what, ok)
			if !canonical {
				c.NonTrivial(w.Name(), in)
			}
		})
}

// Ristretto strings.
//vh:shards quick=2 thorough=8
func TestC19_Ristretto(t *testing.T) {
	vh.Check(t, 5000, 200000, "a 32-byte string near or far from a canonical ristretto255 encoding, or a string of another length, in binary and JSON form; non-trivial: not canonical",
		func(rt *rapid.T, c *vh.Case) {
			r := refs[3].(*vh.Ristretto)
			k, _ := drawLog(rt, r, "point")
			v := refMul(r, k)
			in := r.Bin(v)
			canonical := false
			what := ""
			le := func(n *big.Int) []byte {
				b := make([]byte, 32)
				n.FillBytes(b)
				for i := 0; i < 16; i++ {
					b[i], b[31-i] = b[31-i], b[i]
				}
				return b
			}
			value := func() *big.Int {
				b := bytes.Clone(in)
				for i := 0; i < 16; i++ {
					b[i], b[31-i] = b[31-i], b[i]
				}
				return new(big.Int).SetBytes(b)
			}
			switch vh.Pick(rt, 10, "family") {
			case 0:
				what, canonical = "a member", true
			case 1:
				s := value()
				in, what = le(s.Sub(r.P(), s).Mod(s, new(big.Int).Lsh(vh.I(1), 256))), "a negative representative"
			case 2:
				s := value()
				in, what = le(s.Add(s, r.P())), "a representative beyond the field order"
			case 3:
				in[31] |= 0x80
				what = "high bit set"
			case 4:
				in[vh.Pick(rt, 32, "pos")] ^= 1 << vh.Pick(rt, 8, "bit")
				what = "a flipped bit"
			case 5:
				in, what = rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "bytes"), "random bytes"
			case 6:
				in, what = rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(rt, "bytes"), "random bytes of any length"
			case 7:
				n := vh.Pick(rt, 41, "len")
				for len(in) < n {
					in = append(in, 0)
				}
				in, what = in[:n], "another length"
			case 8:
				in, what = le(vh.I(int64(vh.Pick(rt, 601, "small")))), "a small number"
			case 9:
				in, what = le(new(big.Int).Sub(r.P(), vh.I(int64(rapid.IntRange(-18, 300).Draw(rt, "small"))))), "a number near the field order"
			}
			asJSON := rapid.Bool().Draw(rt, "json")
			data := in
			if asJSON {
				data, _ = json.Marshal(in)
				switch vh.Pick(rt, 10, "shape") {
				case 0:
					data, canonical = data[:rapid.IntRange(0, len(data)-1).Draw(rt, "cut")], false
				case 1:
					data, canonical = []byte(vh.OneOf(rt, "text", []string{"", "null", "{}", "[]", "0", `""`, `"`, "true", `"AAAA"`, `{"x":0,"y":0}`, `"===="`, "[1,2,3]"})), false
				case 2:
					data, canonical = []byte(`"`+base64.RawURLEncoding.EncodeToString(in)+`"`), false
				case 3:
					data, canonical = []byte(fmt.Sprintf("%q", string(in))), false
				case 4:
					data[rapid.IntRange(0, len(data)-1).Draw(rt, "pos")] = rapid.Byte().Draw(rt, "byte")
					canonical = false
				}
			}
			ok := offer(rt, r, data, asJSON, canonical, what)
			c.Label("%s: accepted=%v", what, ok)
			if !canonical {
				c.NonTrivial(fmt.Sprintf("%x", data))
			}
		})
}

// Residues.
//vh:shards quick=2 thorough=8
func TestC19_ModP(t *testing.T) {
	vh.Check(t, 5000, 200000, "a number that is or is not a canonical square modulo p, in binary and JSON form; non-trivial: not canonical",
		func(rt *rapid.T, c *vh.Case) {
			m := refs[vh.OneOf(rt, "group", []int{4, 5, 5, 6, 6, 7, 8})].(*vh.ModPRef)
			k, _ := drawLog(rt, m, "member")
			v := new(big.Int).Set(refMul(m, k).X)
			what, canonical := "", false
			switch vh.Pick(rt, 11, "family") {
			case 0:
				what, canonical = "a member", true
			case 1:
				v.Sub(m.P(), v)
				what = "a non-square"
			case 2:
				v.Add(v, m.P())
				what = "a member plus p"
			case 3:
				v.Neg(v)
				what = "a negative number"
			case 4:
				v.SetInt64(0)
				what = "zero"
			case 5:
				v.Set(m.P())
				what = "p"
			case 6:
				v.Sub(m.P(), vh.I(int64(rapid.IntRange(1, 4).Draw(rt, "below"))))
				what = "just below p"
			case 7:
				v = drawWide(rt, m.P().BitLen()+8, "v")
				what = "any number"
			case 8:
				v.Lsh(v, uint(rapid.IntRange(1, 4000).Draw(rt, "shift")))
				what = "a shifted member"
			case 9:
				v.Sub(v, m.P())
				what = "a member minus p"
			case 10:
				v.Add(v, new(big.Int).Mul(m.P(), vh.I(int64(rapid.IntRange(2, 1000).Draw(rt, "times")))))
				what = "a member plus a multiple of p"
			}
			asJSON := rapid.Bool().Draw(rt, "json")
			var data []byte
			if asJSON {
				s, ok := jsonNumber(rt, v, "v")
				canonical = canonical && ok
				data = []byte(s)
				switch vh.Pick(rt, 10, "shape") {
				case 0:
					data, canonical = []byte(vh.OneOf(rt, "text", []string{"", "null", "{}", "[]", `""`, `"`, "true", `{"x":1,"y":1}`, "-", "-1", "1.5", "1e3", "0x4", "+4", " 4", "4 ", "٤", "4_0"})), false
				case 1:
					data = append(data, '0')
					canonical = false
				case 2:
					data = append([]byte("0"), data...)
					canonical = false
				}
				// What an unusual syntax denotes is up to the decoder; that
				// it is a member is checked all the same.
				if _, err := m.ParseJSON(data); err != nil {
					lenient(rt, m, data, what)
					c.Label("%s: odd syntax", what)
					c.NonTrivial(m.Name(), string(data))
					return
				}
			} else {
				data = v.Bytes()
				if v.Sign() < 0 {
					canonical = false
				}
				if vh.Pick(rt, 6, "pad") == 0 {
					data, canonical = append([]byte{0, 0}, data...), false
				}
			}
			ok := offer(rt, m, data, asJSON, canonical, what)
			c.Label("%s: accepted=%v", what, ok)
			if !canonical {
				c.NonTrivial(m.Name(), fmt.Sprintf("%x", data))
			}
		})
}

// lenient judges a text whose meaning the reference does not define: an error
// with the receiver unchanged, or a member.
func lenient(rt *rapid.T, r vh.Ref, data []byte, what string) {
	g := r.G()
	e := g.Element().BaseScale(vh.I(3))
	before := encode(rt, g.Name(), e)
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				rt.Fatalf("%s: decoding %q panics: %v", g.Name(), data, p)
			}
		}()
		err = e.UnmarshalJSON(bytes.Clone(data))
	}()
	if err != nil {
		after := encode(rt, g.Name(), e)
		if !bytes.Equal(after.bin, before.bin) || !bytes.Equal(after.js, before.js) {
			rt.Fatalf("%s: a failed decoding of %q changed the receiver", g.Name(), data)
		}
		return
	}
	if _, err := r.Of(e); err != nil {
		rt.Fatalf("%s: decoding %s %q yields a non-member %v", g.Name(), what, data, e)
	}
}

// Purely random input, for every group.
//vh:shards quick=1 thorough=4
func TestC19_Garbage(t *testing.T) {
	vh.Check(t, 4000, 100000, "random bytes or text decoded into an element of any group; always non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			var data []byte
			isJSON := rapid.Bool().Draw(rt, "json")
			if isJSON {
				data = []byte(rapid.StringN(0, 60, 200).Draw(rt, "text"))
				if m, ok := r.(*vh.ModPRef); ok {
					if _, err := m.ParseJSON(data); err != nil {
						lenient(rt, r, data, "garbage")
						c.NonTrivial(r.Name(), string(data))
						return
					}
				}
			} else {
				data = rapid.SliceOfN(rapid.Byte(), 0, 140).Draw(rt, "bytes")
			}
			ok := offer(rt, r, data, isJSON, false, "garbage")
			c.Label("accepted=%v", ok)
			c.NonTrivial(r.Name(), isJSON, fmt.Sprintf("%x", data))
		})
}

var _ group.Element

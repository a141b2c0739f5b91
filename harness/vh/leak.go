package vh

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"index/suffixarray"
	"math/big"
	"sort"
	"strings"
)

// Leaves flattens JSON to its paths and what stands there.
func Leaves(b []byte) (map[string]string, error) {
	var v any
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	out := map[string]string{}
	var walk func(path string, v any)
	walk = func(path string, v any) {
		switch x := v.(type) {
		case map[string]any:
			out[path+"{}"] = ""
			for k, y := range x {
				walk(path+"."+k, y)
			}
		case []any:
			out[path+"[]"] = fmt.Sprint(len(x))
			for i, y := range x {
				walk(fmt.Sprintf("%s[%d]", path, i), y)
			}
		default:
			out[path] = fmt.Sprintf("%T %v", v, v)
		}
	}
	walk("", v)
	return out, nil
}

// Tells compares three encodings: a and b of one secret under different
// randomness, c of another secret. What does not change with the randomness
// must not change with the secret. It returns what gives the secret away, or
// nothing.
func Tells(a, b, c []byte) (string, error) {
	var l [3]map[string]string
	for i, x := range [][]byte{a, b, c} {
		var err error
		if l[i], err = Leaves(x); err != nil {
			return "", err
		}
	}
	var bad []string
	paths := map[string]bool{}
	for i := range l {
		for p := range l[i] {
			paths[p] = true
		}
	}
	for p := range paths {
		x, okx := l[0][p]
		y, oky := l[1][p]
		z, okz := l[2][p]
		if okx == oky && x == y && (okx != okz || x != z) {
			bad = append(bad, fmt.Sprintf("%s: %q twice, and %q for another secret", p, short(x), short(z)))
		}
	}
	if len(bad) == 0 {
		// Nor may it show in which places are equal.
		for i := 1; i < 3; i++ {
			if x, y := equalPlaces(l[0], l[i]), equalPlaces(l[i], l[0]); x != "" || y != "" {
				return "places are equal in one and differ in the other: " + x + " " + y, nil
			}
		}
		return "", nil
	}
	sort.Strings(bad)
	return fmt.Sprintf("%d places, the first: %s", len(bad), bad[0]), nil
}

// equalPlaces finds two places that hold the same long value in a and different
// ones in b.
func equalPlaces(a, b map[string]string) string {
	first := map[string]string{}
	var paths []string
	for p := range a {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		v := a[p]
		if len(v) < 24 {
			continue
		}
		if q, ok := first[v]; ok && b[p] != b[q] {
			return q + ", " + p
		} else if !ok {
			first[v] = p
		}
	}
	return ""
}

func short(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

// TapeLog keeps what a tape gave.
type TapeLog struct{ Reads [][]byte }

// Record makes the tape tell r what it gives, after any steering.
func (t *Tape) Record(r *TapeLog) {
	prev := t.Steer
	t.Steer = func(i int, buf []byte) {
		if prev != nil {
			prev(i, buf)
		}
		r.Reads = append(r.Reads, append([]byte(nil), buf...))
	}
}

// Candidates are the numbers that a prover may have made of the reads: the
// bytes of a read with any number of its top bits cleared, and the same plus
// one.
func (r *TapeLog) Candidates() []*big.Int {
	var out []*big.Int
	for _, b := range r.Reads {
		if len(b) < 12 {
			continue
		}
		last := ""
		for bit := 0; bit < 8; bit++ {
			c := append([]byte(nil), b...)
			c[0] &= 0xff >> uint(bit)
			if s := string(c); s != last {
				last = s
				v := new(big.Int).SetBytes(c)
				out = append(out, v, new(big.Int).Add(v, I(1)))
			}
		}
	}
	return out
}

// Text is a text to look for numbers in.
type Text struct{ as, lower *suffixarray.Index }

func NewText(b []byte) *Text {
	return &Text{suffixarray.New(b), suffixarray.New(bytes.ToLower(b))}
}

// Contains looks for a number: in decimal, in hexadecimal, as base64 of its
// bytes or as a list of them. Numbers of less than 64 bits are not looked for.
func (t *Text) Contains(v *big.Int) string {
	if v.BitLen() < 64 {
		return ""
	}
	has := func(x *suffixarray.Index, s string) bool { return len(x.Lookup([]byte(s), 1)) > 0 }
	if has(t.as, v.String()) {
		return "in decimal"
	}
	if has(t.lower, v.Text(16)) {
		return "in hexadecimal"
	}
	for _, raw := range [][]byte{v.Bytes(), reversed(v.Bytes())} {
		if has(t.lower, hex.EncodeToString(raw)) {
			return "in hexadecimal"
		}
		for _, enc := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
			e := enc.EncodeToString(raw)
			if has(t.as, e[:len(e)-1]) {
				return "in base64"
			}
		}
		var arr strings.Builder
		for i, x := range raw {
			if i > 0 {
				arr.WriteByte(',')
			}
			fmt.Fprint(&arr, x)
		}
		if has(t.as, arr.String()) {
			return "as bytes"
		}
	}
	return ""
}

func reversed(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// Flips lists the places to perturb in reads of the given lengths: the last
// byte of each, and more of the long ones, for these may feed several draws.
func Flips(lens []int) (out [][2]int) {
	for i, n := range lens {
		if n == 0 {
			continue
		}
		if n > 100 {
			for b := 15; b < n-1; b += 16 {
				out = append(out, [2]int{i, b})
			}
		}
		out = append(out, [2]int{i, n - 1})
	}
	return out
}

// FlipTape is the tape of the seed with one bit of one byte of one read
// changed.
func FlipTape(seed uint64, at [2]int) *Tape {
	t := NewTape(seed)
	t.Steer = func(j int, b []byte) {
		if j == at[0] && at[1] < len(b) {
			b[at[1]] ^= 1
		}
	}
	return t
}

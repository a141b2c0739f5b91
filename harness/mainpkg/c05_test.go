package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// The JSON tree keeps the order of keys and allows repeated ones.
type zzNode struct {
	kind byte // '{', '[' or 'v'
	raw  string
	keys []string
	kids []*zzNode
}

func zzTree(b []byte) *zzNode {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var read func() *zzNode
	read = func() *zzNode {
		t, err := dec.Token()
		if err != nil {
			return nil
		}
		switch x := t.(type) {
		case json.Delim:
			n := &zzNode{kind: byte(x)}
			for dec.More() {
				if x == '{' {
					k, _ := dec.Token()
					s, _ := k.(string)
					n.keys = append(n.keys, s)
				}
				n.kids = append(n.kids, read())
			}
			_, _ = dec.Token()
			return n
		default:
			s, _ := json.Marshal(x)
			return &zzNode{kind: 'v', raw: string(s)}
		}
	}
	return read()
}

func (n *zzNode) write(b *strings.Builder) {
	switch n.kind {
	case 'v':
		b.WriteString(n.raw)
	case '[':
		b.WriteByte('[')
		for i, k := range n.kids {
			if i > 0 {
				b.WriteByte(',')
			}
			k.write(b)
		}
		b.WriteByte(']')
	default:
		b.WriteByte('{')
		for i, k := range n.kids {
			if i > 0 {
				b.WriteByte(',')
			}
			s, _ := json.Marshal(n.keys[i])
			b.Write(s)
			b.WriteByte(':')
			k.write(b)
		}
		b.WriteByte('}')
	}
}

func (n *zzNode) bytes() []byte {
	var b strings.Builder
	n.write(&b)
	return []byte(b.String())
}

func (n *zzNode) copy() *zzNode {
	out := &zzNode{kind: n.kind, raw: n.raw, keys: append([]string{}, n.keys...)}
	for _, k := range n.kids {
		out.kids = append(out.kids, k.copy())
	}
	return out
}

func (n *zzNode) get(path ...string) *zzNode {
	for _, p := range path {
		var next *zzNode
		for i, k := range n.keys {
			if k == p {
				next = n.kids[i]
			}
		}
		if next == nil {
			return nil
		}
		n = next
	}
	return n
}

// zzSpot is a place in a tree.
type zzSpot struct {
	parent *zzNode
	i      int
	path   string
	depth  int
}

func (n *zzNode) spots(path string, depth int, out *[]zzSpot) {
	for i, k := range n.kids {
		p := fmt.Sprintf("%s/%d", path, i)
		if n.kind == '{' {
			p = path + "/" + n.keys[i]
		}
		*out = append(*out, zzSpot{n, i, p, depth})
		k.spots(p, depth+1, out)
	}
}

// zzRequired are the parts without which a submission is not complete: the
// parts of the ballot and its proofs, not the embedded parameters.
func zzRequired(path string) bool {
	if strings.Contains(path, "/Params") {
		return false
	}
	p := strings.Split(strings.TrimPrefix(path, "/"), "/")
	switch {
	case len(p) <= 2:
		return true
	case len(p) == 3 && p[1] == "InnerProductProof":
		return true
	case len(p) == 4 && p[1] == "InnerProductProof":
		return true // entries of the lists
	}
	return false
}

// zzParamElement tells whether the part is an element among the embedded
// parameters that are decoded with a proof. What they are does not matter, for
// the collector has its own, but without them the submission is not complete.
func zzParamElement(path string) bool {
	p := strings.Split(strings.TrimPrefix(path, "/"), "/")
	switch {
	case len(p) == 4 && p[0] == "voteProof" && p[1] == "Params":
		return p[3] == "G" || p[3] == "H"
	case len(p) == 4 && p[1] == "InnerProductProof" && p[2] == "Params":
		return p[3] == "Uu"
	case len(p) == 5 && p[1] == "InnerProductProof" && p[2] == "Params":
		return p[3] == "Gg" || p[3] == "Hh"
	}
	return false
}

// zzSubs are values to be put anywhere.
func zzJunk(rt *rapid.T) (*zzNode, string) {
	v := vh.OneOf(rt, "junk", []string{"null", "true", "false", "0", "1", "-1", "1.5", "1e3", "1e400", `""`, `"0"`, `"x"`, `"AAAA"`, "[]", "{}", "[null]", "[[]]",
		`[0,0]`, `{"x":0,"y":0}`, `{"X":"0","Y":"0"}`, `{"x":null,"y":null}`, `{"":0}`, `"\u0000"`, `"-5"`, `"0x10"`, `[1,2,3]`, `["1","2"]`, "18446744073709551616",
		"BIG", "BIGNEG", "BIGSTR", "NEST", "LONG", "NESTOBJ"})
	switch v {
	case "BIG":
		v = "1" + strings.Repeat("0", 50+vh.Pick(rt, 3000, "digits"))
	case "BIGNEG":
		v = "-" + strings.Repeat("9", 50+vh.Pick(rt, 3000, "digits"))
	case "BIGSTR":
		v = `"` + strings.Repeat("9", 50+vh.Pick(rt, 3000, "digits")) + `"`
	case "NEST":
		k := 1 + vh.Pick(rt, 12000, "nesting")
		v = strings.Repeat("[", k) + strings.Repeat("]", k)
	case "NESTOBJ":
		k := 1 + vh.Pick(rt, 3000, "nesting")
		v = strings.Repeat(`{"x":`, k) + "0" + strings.Repeat("}", k)
	case "LONG":
		k := 1 + vh.Pick(rt, 3000, "length")
		v = "[" + strings.Repeat("1,", k) + "1]"
	}
	name := v
	if len(name) > 24 {
		name = name[:24] + "..."
	}
	return &zzNode{kind: 'v', raw: v}, name
}

// zzMutate changes one place. definite: the result is no complete well-typed
// submission any more.
func zzMutate(rt *rapid.T, root *zzNode, donors []*zzNode) (what string, definite bool) {
	var all []zzSpot
	root.spots("", 0, &all)
	// Shallow places and proof-bearing ones are rarer than generators.
	var shallow []zzSpot
	for _, s := range all {
		if zzRequired(s.path) || s.depth <= 2 {
			shallow = append(shallow, s)
		}
	}
	from := all
	if vh.Pick(rt, 4, "where") > 0 {
		from = shallow
	}
	if len(from) == 0 {
		return "nothing left", false
	}
	s := from[vh.Pick(rt, len(from), "place")]
	n := s.parent.kids[s.i]
	req := zzRequired(s.path)
	drop := func() {
		s.parent.kids = append(append([]*zzNode{}, s.parent.kids[:s.i]...), s.parent.kids[s.i+1:]...)
		if s.parent.kind == '{' {
			s.parent.keys = append(append([]string{}, s.parent.keys[:s.i]...), s.parent.keys[s.i+1:]...)
		}
	}
	switch kind := vh.OneOf(rt, "mutation", []string{"drop", "drop", "null", "junk", "junk", "junk", "empty", "duplicate key", "duplicate entry", "swap", "donor", "donor",
		"number", "number", "number", "rename", "case", "wrap", "unwrap", "truncate list", "string", "grow"}); kind {
	case "grow":
		// The lists of folding elements, or of generators, far too long.
		ip := root.get(vh.OneOf(rt, "bound", []string{"lbProof", "ubProof"}), "InnerProductProof")
		if ip == nil {
			return "", false
		}
		names, at := []string{"L", "R"}, ip
		if vh.Pick(rt, 4, "generators") == 0 {
			names, at = []string{"Gg", "Hh"}, ip.get("Params")
		}
		if at == nil {
			return "", false
		}
		size := vh.OneOf(rt, "size", []int{3, 5, 6, 7, 8, 16, 46, 50, 60, 62, 63, 64, 65, 100, 128, 200, 257})
		both := vh.Pick(rt, 6, "both") > 0
		grown := false
		for _, name := range names {
			l := at.get(name)
			if l == nil || l.kind != '[' || len(l.kids) == 0 {
				continue
			}
			for k := len(l.kids); len(l.kids) < size; {
				l.kids = append(l.kids, l.kids[len(l.kids)%k].copy())
				grown = true
			}
			if !both {
				break
			}
		}
		return fmt.Sprintf("%v grown to %d", names, size), grown && names[0] == "L"
	case "drop":
		drop()
		return "dropped " + s.path, req
	case "null":
		s.parent.kids[s.i] = &zzNode{kind: 'v', raw: "null"}
		return s.path + " is null", req
	case "junk":
		j, name := zzJunk(rt)
		s.parent.kids[s.i] = j
		// Of the wrong type for sure.
		return s.path + " is " + name, req && (name == "true" || name == "false" || name == "1.5" || strings.HasPrefix(name, "[[") || name == "null")
	case "empty":
		s.parent.kids[s.i] = &zzNode{kind: 'v', raw: map[byte]string{'{': "{}", '[': "[]", 'v': `""`}[n.kind]}
		return s.path + " is empty", req && len(n.kids) > 0 || req && n.kind == 'v'
	case "duplicate key":
		if s.parent.kind != '{' {
			return "", false
		}
		j, name := zzJunk(rt)
		if rapid.Bool().Draw(rt, "first") {
			s.parent.keys = append([]string{s.parent.keys[s.i]}, s.parent.keys...)
			s.parent.kids = append([]*zzNode{j}, s.parent.kids...)
		} else {
			s.parent.keys = append(s.parent.keys, s.parent.keys[s.i])
			s.parent.kids = append(s.parent.kids, j)
		}
		return s.path + " also is " + name, false
	case "duplicate entry":
		if s.parent.kind != '[' {
			return "", false
		}
		k := 1 + vh.Pick(rt, 5, "copies")
		for ; k > 0; k-- {
			s.parent.kids = append(s.parent.kids, n.copy())
		}
		return s.path + " repeated", false
	case "swap":
		o := all[vh.Pick(rt, len(all), "other")]
		s.parent.kids[s.i], o.parent.kids[o.i] = o.parent.kids[o.i].copy(), n.copy()
		return s.path + " exchanged with " + o.path, false
	case "donor":
		var there []zzSpot
		vh.OneOf(rt, "donor", donors).spots("", 0, &there)
		d := there[vh.Pick(rt, len(there), "part")]
		for _, x := range there {
			// Rather the same place of a submission for another curve.
			if x.path == s.path && vh.Pick(rt, 2, "same") == 0 {
				d = x
				break
			}
		}
		s.parent.kids[s.i] = d.parent.kids[d.i].copy()
		return s.path + " from elsewhere " + d.path, false
	case "number":
		if n.kind != 'v' {
			return "", false
		}
		raw := strings.Trim(n.raw, `"`)
		x, ok := new(big.Int).SetString(raw, 10)
		if !ok {
			return "", false
		}
		switch vh.Pick(rt, 7, "change") {
		case 0:
			x.Neg(x)
		case 1:
			x.Add(x, vh.I(1))
		case 2:
			x.Lsh(x, uint(vh.Pick(rt, 600, "shift")))
		case 3:
			x.SetInt64(0)
		case 4:
			x.SetBit(x, vh.Pick(rt, 700, "bit"), 1)
		case 5:
			x.Sub(x, vh.I(1))
		default:
			x.Neg(x).Sub(x, vh.I(1))
		}
		n.raw = x.String()
		if strings.HasPrefix(s.parent.kids[s.i].raw, `"`) {
			n.raw = `"` + n.raw + `"`
		}
		return s.path + " is another number", false
	case "rename":
		if s.parent.kind != '{' {
			return "", false
		}
		s.parent.keys[s.i] += "_"
		return s.path + " renamed", req
	case "case":
		if s.parent.kind != '{' {
			return "", false
		}
		k := s.parent.keys[s.i]
		if k = strings.ToUpper(k); k == s.parent.keys[s.i] {
			k = strings.ToLower(k)
		}
		s.parent.keys[s.i] = k
		return s.path + " in other case", false
	case "wrap":
		w := &zzNode{kind: '[', kids: []*zzNode{n}}
		if rapid.Bool().Draw(rt, "object") {
			w = &zzNode{kind: '{', keys: []string{"x"}, kids: []*zzNode{n}}
		}
		s.parent.kids[s.i] = w
		return s.path + " wrapped", req
	case "unwrap":
		if len(n.kids) == 0 {
			return "", false
		}
		s.parent.kids[s.i] = n.kids[vh.Pick(rt, len(n.kids), "child")]
		return s.path + " unwrapped", false
	case "truncate list":
		if n.kind != '[' || len(n.kids) == 0 {
			return "", false
		}
		n.kids = n.kids[:vh.Pick(rt, len(n.kids), "keep")]
		return s.path + " truncated", req
	default:
		// A number as a string, or the other way round.
		if n.kind != 'v' {
			return "", false
		}
		if strings.HasPrefix(n.raw, `"`) {
			n.raw = strings.Trim(n.raw, `"`)
			if !json.Valid([]byte(n.raw)) {
				n.raw = "12"
			}
		} else {
			n.raw = `"` + n.raw + `"`
		}
		return s.path + " with other quotes", zzRequired(s.path)
	}
}

// zzCases are submissions to start with, one for each curve and size.
var zzSeeds = map[string]struct {
	cf *zzConf
	b  []byte
}{}

func zzSeedFor(rt *rapid.T, curve int, bits int64, field int) (*zzConf, []byte) {
	return zzSeedOf(rt, curve, bits, field, false)
}

// zzBare casts an honest ballot whose random numbers are zero wherever they
// may be: its parts are full of identities and zeros.
func (cf *zzConf) zzBare(rt *rapid.T) (best BallotData) {
	m := vh.I(int64(cf.lo))
	most := -1
	for skip := -1; skip < 6; skip++ {
		t := vh.NewTape(7)
		zero, reads := false, 0
		t.Steer = func(i int, buf []byte) {
			if !zero || reads > 6 {
				return
			}
			if reads != skip {
				vh.SteerBig(buf, vh.I(0))
			}
			if skip >= 0 {
				reads++
			}
		}
		var bd BallotData
		vh.With(t, func() {
			var rp, rq1, rq2 *big.Int
			bd.Ballot, rp = encryptVote(cf.lo, cf.pp.EGPK, cf.pp.FFGroupParams.I)
			s := skip
			zero, skip = true, -1
			bd.BpLower, rq1, _ = bulletproofs.Prove(vh.I(0), cf.pp.BPParams)
			bd.BpUpper, rq2, _ = bulletproofs.Prove(vh.I(0), cf.pp.BPParams)
			skip = s
			zero = skip >= 0
			bd.VoteProof = voteproof.Prove(m, rp, rq1, zzMod(new(big.Int).Neg(rq2), cf.ec.N()), cf.pp.RPParams)
		})
		count := 0
		for _, f := range cf.fields(&bd) {
			if f.num != nil && (*f.num).Sign() == 0 || f.elem != nil && (*f.elem).IsIdentity() {
				count++
			}
		}
		if count > most && cf.accepts(bd) {
			best, most = bd, count
		}
	}
	if most < 8 {
		rt.Fatalf("%v: there is no accepted ballot with zeros as random numbers (%d)", cf, most)
	}
	return best
}

func zzSeedOf(rt *rapid.T, curve int, bits int64, field int, bare bool) (*zzConf, []byte) {
	k := fmt.Sprint(curve, bits, field, bare)
	s, ok := zzSeeds[k]
	if !ok {
		cf := &zzConf{ff: zzField(field), ec: zzCurves[curve], bits: bits, bx: 16, bc: 224, sk: vh.I(13), lo: 101}
		cf.hi = cf.lo + uint16(min(1<<bits-1, 1899))
		if bare {
			cf.hi = cf.lo
		}
		cf.bg = min(cf.ff.N().BitLen(), cf.ec.N().BitLen())
		cf.build(rt)
		var bd BallotData
		if bare {
			bd = cf.zzBare(rt)
		} else {
			bd, _ = cf.castFor(rt, int64(cf.lo)+1, vh.NewTape(uint64(curve)))
		}
		s.cf, s.b = cf, zzJSON(rt, bd)
		if ok, _ := cf.judge(s.b); !ok {
			rt.Fatalf("%v: the JSON form of an honest ballot is rejected", cf)
		}
		zzSeeds[k] = s
	}
	return s.cf, s.b
}

// zzSeedRest are donors.
func zzDonors(rt *rapid.T, bits int64) (out []*zzNode) {
	for i := range zzCurves {
		_, b := zzSeedFor(rt, i, bits, 400)
		out = append(out, zzTree(b))
	}
	return out
}

// zzSubmit judges arbitrary bytes.
func zzSubmit(rt *rapid.T, cf *zzConf, b []byte, what string) (accepted, decoded bool) {
	bd, err := BallotDataUnmarshalJSON(b, cf.pp)
	if err != nil {
		return false, false
	}
	if cf.accepts(bd) {
		cf.sound(rt, bd, what)
		return true, true
	}
	return false, true
}

// Structured mutations of submissions.
//vh:shards quick=8 thorough=8
func TestC05_Structured(t *testing.T) {
	vh.Check(t, 20000, 500000, "one to four structural mutations (dropped, null, mistyped, oversized, negative, duplicated, renamed, exchanged, transplanted parts) of a valid submission; non-trivial: distinct submissions",
		func(rt *rapid.T, c *vh.Case) {
			// The lists of an argument for one bit are empty, and may be missing.
			bits := vh.OneOf(rt, "bits", []int64{2, 2, 2, 4})
			cf, b := zzSeedOf(rt, vh.OneOf(rt, "curve", []int{0, 0, 1, 2, 2, 3, 3}), bits, 400, vh.Pick(rt, 4, "bare") == 0)
			donors := zzDonors(rt, bits)
			root := zzTree(b)
			what := ""
			definite := false
			count := 1 + vh.Pick(rt, 10, "mutations")/4
			for i := 0; i < count; i++ {
				w, d := zzMutate(rt, root, donors)
				what += w + "; "
				// One mutation may undo another.
				definite = d && count == 1
			}
			in := root.bytes()
			ok, decoded := zzSubmit(rt, cf, in, what)
			if ok && definite {
				rt.Fatalf("%v: an incomplete submission is accepted: %s", cf, what)
			}
			switch {
			case ok:
				c.Label("accepted")
			case decoded:
				c.Label("rejected")
			default:
				c.Label("not decoded")
			}
			c.NonTrivial(string(in))
		})
}

// Every required part, removed or of a wrong type.
//vh:shards quick=4 thorough=8
func TestC05_EveryPart(t *testing.T) {
	sh, shards := vh.Shard()
	vh.Check(t, 64, 512, "a submission from which each proof-bearing part (an eighth of them per case) in turn is dropped, or replaced by null, a truth value, a string, a list, an object, a negative or oversized number; non-trivial: distinct (curve, size, part, replacement)",
		func(rt *rapid.T, c *vh.Case) {
			curve := (sh + shards*vh.Pick(rt, 4, "curve")) % 4
			bits := vh.OneOf(rt, "bits", []int64{2, 2, 4})
			cf, b := zzSeedOf(rt, curve, bits, 400, rapid.Bool().Draw(rt, "bare"))
			var all []zzSpot
			zzTree(b).spots("", 0, &all)
			phase := vh.Pick(rt, 8, "phase")
			for k, s := range all {
				if k%8 != phase || !zzRequired(s.path) && !zzParamElement(s.path) && s.depth > 3 {
					continue
				}
				for _, r := range []string{"", "null", "true", "quoted", "listed", `"?"`, "[]", "{}", "[null]", "-1", "0", "1" + strings.Repeat("0", 700), `""`, "1.25"} {
					root := zzTree(b)
					var spots []zzSpot
					root.spots("", 0, &spots)
					x := spots[k]
					if r == "" {
						x.parent.kids = append(append([]*zzNode{}, x.parent.kids[:x.i]...), x.parent.kids[x.i+1:]...)
						if x.parent.kind == '{' {
							x.parent.keys = append(append([]string{}, x.parent.keys[:x.i]...), x.parent.keys[x.i+1:]...)
						}
					} else if r == "quoted" {
						old := x.parent.kids[x.i]
						if old.kind != 'v' || strings.HasPrefix(old.raw, `"`) {
							continue
						}
						x.parent.kids[x.i] = &zzNode{kind: 'v', raw: `"` + old.raw + `"`}
					} else if r == "listed" {
						x.parent.kids[x.i] = &zzNode{kind: '[', kids: []*zzNode{x.parent.kids[x.i]}}
					} else {
						x.parent.kids[x.i] = &zzNode{kind: 'v', raw: r}
					}
					ok, _ := zzSubmit(rt, cf, root.bytes(), s.path+" replaced by "+r)
					same := x.i < len(x.parent.kids) && r == string(s.parent.kids[s.i].bytes())
					if ok && zzParamElement(s.path) && (r == "" && s.depth == 3 || r == "null" || r == "true" || r == "1.25" || r == `"?"`) {
						rt.Fatalf("%v: a submission is accepted with the embedded parameter %s replaced by %q", cf, s.path, r)
					}
					if ok && zzRequired(s.path) && !same {
						rt.Fatalf("%v: a submission is accepted with %s replaced by %q", cf, s.path, r)
					}
					c.NonTrivial(cf.ec.Name(), bits, s.path, r)
				}
			}
		})
}

// Byte-level mutations and garbage.
//vh:shards quick=8 thorough=8
func TestC05_Bytes(t *testing.T) {
	vh.Check(t, 30000, 1000000, "truncated, spliced, bit-flipped or random bytes as a submission; non-trivial: distinct byte strings",
		func(rt *rapid.T, c *vh.Case) {
			bits := vh.OneOf(rt, "bits", []int64{1, 2, 4})
			cf, b := zzSeedFor(rt, vh.OneOf(rt, "curve", []int{0, 0, 1, 2, 2, 3, 3}), bits, 400)
			in := append([]byte{}, b...)
			kind := vh.OneOf(rt, "kind", []string{"truncated", "flipped", "flipped", "flipped digits", "spliced", "removed", "inserted", "random", "tokens", "appended"})
			at := func(l string) int { return vh.Pick(rt, len(in), l) }
			// Most places in a submission lie in its parameters.
			if vh.Pick(rt, 3, "slim") > 0 {
				in = zzSlim(b)
			}
			switch kind {
			case "truncated":
				in = in[:at("end")]
			case "flipped":
				for i := 1 + vh.Pick(rt, 3, "flips"); i > 0; i-- {
					in[at("place")] ^= byte(1) << vh.Pick(rt, 8, "bit")
				}
			case "flipped digits":
				for i := 1 + vh.Pick(rt, 3, "flips"); i > 0; i-- {
					k := at("place")
					for j := 0; j < len(in); j++ {
						if x := in[(k+j)%len(in)]; x >= '0' && x <= '9' {
							in[(k+j)%len(in)] = '0' + byte(vh.Pick(rt, 10, "digit"))
							break
						}
					}
				}
			case "spliced":
				_, o := zzSeedFor(rt, vh.Pick(rt, 4, "other"), bits, 400)
				k := at("cut")
				in = append(in[:k:k], o[min(vh.Pick(rt, len(o), "from"), len(o)-1):]...)
			case "removed":
				i, j := at("from"), at("to")
				if i > j {
					i, j = j, i
				}
				in = append(in[:i:i], in[j:]...)
			case "inserted":
				i := at("place")
				ins := vh.OneOf(rt, "what", []string{"null", ",", "{", "}", "[", "]", `"`, "0", "-", "1e9", " ", "\x00", "\xff", "\\u", `"u":null,`, "e"})
				in = append(append(append([]byte{}, in[:i]...), ins...), in[i:]...)
			case "random":
				in = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(rt, "bytes")
			case "tokens":
				in = nil
				for i := vh.Pick(rt, 30, "tokens"); i > 0; i-- {
					in = append(in, vh.OneOf(rt, "token", []string{"{", "}", "[", "]", ":", ",", `"ballot"`, `"lbProof"`, `"ubProof"`, `"voteProof"`, `"u"`, `"v"`, "null", "1", "-1", `"Params"`, "true", `"V"`})...)
				}
			case "appended":
				in = append(in, vh.OneOf(rt, "what", []string{" ", "x", "{}", "null", "\x00", ","})...)
			}
			ok, decoded := zzSubmit(rt, cf, in, kind)
			if ok && kind != "inserted" && !json.Valid(in) {
				rt.Fatalf("%v: bytes that are not JSON are accepted (%s)", cf, kind)
			}
			if ok && (kind == "truncated" || kind == "random" || kind == "tokens") {
				rt.Fatalf("%v: %s bytes are accepted", cf, kind)
			}
			switch {
			case ok:
				c.Label("accepted")
			case decoded:
				c.Label("rejected")
			default:
				c.Label("not decoded")
			}
			c.NonTrivial(string(in))
		})
}

// zzSlim drops the generators of the range proofs, which are not read.
func zzSlim(b []byte) []byte {
	root := zzTree(b)
	for _, p := range []string{"lbProof", "ubProof"} {
		if n := root.get(p); n != nil {
			for i, k := range n.keys {
				if k == "Params" {
					n.kids[i] = &zzNode{kind: 'v', raw: "{}"}
				}
			}
		}
	}
	return root.bytes()
}

// The decoder of ciphertexts alone.
func TestC05_Ciphertexts(t *testing.T) {
	vh.Check(t, 20000, 400000, "arbitrary values as the JSON form of a ciphertext: an error or two elements of the group; non-trivial: distinct inputs",
		func(rt *rapid.T, c *vh.Case) {
			ff := zzField(vh.OneOf(rt, "field", []int{5, 64, 400}))
			part := func(l string) string {
				switch vh.Pick(rt, 4, l) {
				case 0:
					n, _ := zzJunk(rt)
					return n.raw
				case 1:
					return ff.Element().BaseScale(vh.DetInt(vh.Seed64(rt, l+"x"), "x", ff.N())).String()
				case 2:
					return vh.DetInt(vh.Seed64(rt, l+"x"), "x", ff.P()).String()
				default:
					return zzAdd(ff.P(), vh.I(int64(vh.Pick(rt, 5, l+"d")-2))).String()
				}
			}
			in := `{"u":` + part("u") + `,"v":` + part("v") + `}`
			switch vh.Pick(rt, 8, "shape") {
			case 0:
				in = part("whole")
			case 1:
				in = `{"u":` + part("only") + `}`
			case 2:
				in = `{"v":` + part("only") + `}`
			}
			ct, err := BallotUnmarshalJSON([]byte(in), ff)
			if err == nil {
				if ct.U == nil || ct.V == nil {
					rt.Fatalf("a ciphertext with missing parts is decoded from %s", in)
				}
				for _, e := range []interface{ String() string }{ct.U, ct.V} {
					x, ok := new(big.Int).SetString(e.String(), 10)
					if !ok {
						c.Vacuous("string form")
						continue
					}
					if x.Sign() <= 0 || x.Cmp(ff.P()) >= 0 || new(big.Int).Exp(x, ff.N(), ff.P()).Cmp(vh.I(1)) != 0 {
						rt.Fatalf("%s is decoded as a ciphertext with %v, which is not in the group", in, x)
					}
				}
				c.Label("decoded")
			} else {
				c.Label("refused")
			}
			c.NonTrivial(in)
		})
}

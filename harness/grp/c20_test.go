package grp

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vh"
	"pgregory.net/rapid"
)

// model value: coefficients of the base point and of two hashed generators.
type lin [3]*big.Int

func (a lin) key() string { return a[0].Text(62) + "/" + a[1].Text(62) + "/" + a[2].Text(62) }

type live struct {
	e group.Element
	v lin
}

type world struct {
	r     vh.Ref
	g     group.Group
	hashy bool
	pool  []*live
	// scalars handed to operations, with copies of their values.
	scalars []*big.Int
	copies  []*big.Int
	n, p    *big.Int // the group's own constants, as first seen
	seen    map[string]encoding
	steps   int
	log     []string
}

func (w *world) lin(a, b, c int64) lin {
	m := func(x int64) *big.Int { return new(big.Int).Mod(vh.I(x), w.r.N()) }
	return lin{m(a), m(b), m(c)}
}

func (w *world) comb(a, b lin, s, t *big.Int) lin {
	var out lin
	for i := range out {
		v := new(big.Int).Mul(a[i], s)
		v.Add(v, new(big.Int).Mul(b[i], t))
		out[i] = v.Mod(v, w.r.N())
	}
	return out
}

var one, zero, minusOne = vh.I(1), vh.I(0), vh.I(-1)

// want computes the encodings of a model value from scratch, in fresh
// elements, and remembers them.
func (w *world) want(rt *rapid.T, v lin) encoding {
	if x, ok := w.seen[v.key()]; ok {
		return x
	}
	acc := w.g.Element().BaseScale(new(big.Int).Set(v[0]))
	for i, s := range []string{"first", "second"} {
		if v[i+1].Sign() == 0 {
			continue
		}
		h, err := w.g.Element().MapToGroup(s)
		if err != nil {
			rt.Fatalf("%s: MapToGroup: %v", w.g.Name(), err)
		}
		t := w.g.Element().Scale(h, new(big.Int).Set(v[i+1]))
		acc = w.g.Element().Add(acc, t)
	}
	x := encode(rt, w.g.Name(), acc)
	w.seen[v.key()] = x
	return x
}

func (w *world) checkAll(rt *rapid.T, op string) {
	for i, l := range w.pool {
		x, y := w.want(rt, l.v), encode(rt, w.g.Name(), l.e)
		if !bytes.Equal(x.bin, y.bin) || !bytes.Equal(x.js, y.js) || x.str != y.str {
			rt.Fatalf("%s: after %s element %d should be %v (%s) and is %s\nhistory: %v", w.g.Name(), op, i, l.v, x.js, y.js, w.log)
		}
	}
	for i, s := range w.scalars {
		if s.Cmp(w.copies[i]) != 0 {
			rt.Fatalf("%s: %s changed the scalar %v to %v\nhistory: %v", w.g.Name(), op, w.copies[i], s, w.log)
		}
	}
	if w.g.N().Cmp(w.r.N()) != 0 || w.g.P().Cmp(w.r.P()) != 0 || w.n.Cmp(w.r.N()) != 0 || w.p.Cmp(w.r.P()) != 0 {
		rt.Fatalf("%s: %s changed the group's orders\nhistory: %v", w.g.Name(), op, w.log)
	}
	for _, f := range []struct {
		what string
		e    group.Element
		v    lin
	}{{"Generator()", w.g.Generator(), w.lin(1, 0, 0)}, {"Identity()", w.g.Identity(), w.lin(0, 0, 0)}} {
		x, y := w.want(rt, f.v), encode(rt, w.g.Name(), f.e)
		if !bytes.Equal(x.bin, y.bin) || !bytes.Equal(x.js, y.js) {
			rt.Fatalf("%s: after %s, %s is %s instead of %s\nhistory: %v", w.g.Name(), op, f.what, y.js, x.js, w.log)
		}
	}
}

//vh:shards quick=6 thorough=16
func TestC20_Histories(t *testing.T) {
	vh.Check(t, 2520, 16000, "a history of 4 to 40 operations on a pool of shared and aliased elements, all of which are compared with an immutable model after every step; non-trivial: at least one step had its receiver among the operands or wrote to an element others were derived from",
		func(rt *rapid.T, c *vh.Case) {
			r := refs[vh.OneOf(rt, "group", []int{0, 0, 1, 2, 2, 3, 3, 4, 5, 8})]
			w := &world{r: r, g: r.G(), seen: map[string]encoding{}}
			_, isModP := r.(*vh.ModPRef)
			w.hashy = !isModP
			w.n, w.p = w.g.N(), w.g.P()
			// The expected constants are fixed before the history starts.
			w.want(rt, w.lin(1, 0, 0))
			w.want(rt, w.lin(0, 0, 0))
			w.pool = []*live{{w.g.Generator(), w.lin(1, 0, 0)}, {w.g.Identity(), w.lin(0, 0, 0)}, {w.g.Generator(), w.lin(1, 0, 0)}}
			if w.hashy {
				for i, s := range []string{"first", "second"} {
					h, _ := w.g.Element().MapToGroup(s)
					v := w.lin(0, 0, 0)
					v[i+1] = vh.I(1)
					w.pool = append(w.pool, &live{h, v})
				}
			}
			n := 4 + vh.Pick(rt, 37, "steps")
			aliased := 0
			for i := 0; i < n; i++ {
				op, al := w.step(rt)
				w.log = append(w.log, op)
				if al {
					aliased++
				}
				w.checkAll(rt, op)
			}
			c.Label("%s", w.g.Name())
			if aliased > 0 {
				c.NonTrivial(w.g.Name(), w.log)
			}
		})
}

// step performs one drawn operation on the implementation and the model.
func (w *world) step(rt *rapid.T) (string, bool) {
	at := func(label string) int { return vh.Pick(rt, len(w.pool), label) }
	// The receiver is an element of the pool or a new one.
	ri := -1
	var recv group.Element
	if vh.Pick(rt, 4, "fresh") > 0 {
		ri = at("receiver")
		recv = w.pool[ri].e
	} else {
		recv = w.g.Element()
	}
	set := func(res group.Element, v lin) {
		if ri >= 0 {
			w.pool[ri].v = v
			if res != recv {
				// The result need not be the receiver itself (hashing), then
				// it takes its place.
				w.pool[ri].e = res
			}
			return
		}
		l := &live{res, v}
		if len(w.pool) >= 9 {
			w.pool[3+vh.Pick(rt, len(w.pool)-3, "slot")] = l
		} else {
			w.pool = append(w.pool, l)
		}
	}
	i, j := at("x"), at("y")
	x, y := w.pool[i], w.pool[j]
	scalar := func() *big.Int {
		var s *big.Int
		switch vh.Pick(rt, 6, "scalarKind") {
		case 0: // an earlier scalar object again
			if len(w.scalars) > 0 {
				return w.scalars[vh.Pick(rt, len(w.scalars), "old")]
			}
			s = vh.I(2)
		case 1: // the group's own order object
			return w.g.N()
		case 2: // for which the result might be an operand, or a constant
			s = vh.I(vh.OneOf(rt, "unit", []int64{1, 1, 1, 0, -1, 2}))
			if vh.Pick(rt, 4, "plusOrder") == 0 {
				s.Add(s, w.r.N())
			}
		default:
			s, _ = drawScalar(rt, w.r.N(), "s")
		}
		w.scalars = append(w.scalars, s)
		w.copies = append(w.copies, new(big.Int).Set(s))
		return s
	}
	name := func(op string, args ...any) string { return fmt.Sprintf("r%d=%s%v", ri, op, args) }
	aliased := ri >= 0 && (ri == i || ri == j)
	switch vh.Pick(rt, 16, "op") {
	case 0, 1:
		v := w.comb(x.v, y.v, one, one)
		set(recv.Add(x.e, y.e), v)
		return name("Add", i, j), aliased
	case 2:
		v := w.comb(x.v, y.v, one, minusOne)
		set(recv.Subtract(x.e, y.e), v)
		return name("Subtract", i, j), aliased
	case 3:
		v := w.comb(x.v, x.v, minusOne, zero)
		set(recv.Negate(x.e), v)
		return name("Negate", i), ri == i
	case 4, 5:
		s := scalar()
		v := w.comb(x.v, x.v, s, zero)
		set(recv.Scale(x.e, s), v)
		return name("Scale", i, s), ri == i
	case 6:
		s := scalar()
		v := w.comb(w.lin(1, 0, 0), w.lin(0, 0, 0), s, zero)
		set(recv.BaseScale(s), v)
		return name("BaseScale", s), ri >= 0
	case 7:
		set(recv.Set(x.e), x.v)
		return name("Set", i), ri == i
	case 8: // decode the encoding of x, then scribble over the buffer
		b := vh.Enc(x.e)
		v := x.v
		if err := recv.UnmarshalBinary(b); err != nil {
			rt.Fatalf("%s: own encoding refused: %v", w.g.Name(), err)
		}
		for k := range b {
			b[k] ^= 0xa5
		}
		set(recv, v)
		return name("UnmarshalBinary", i), ri >= 0
	case 9:
		b, err := x.e.MarshalJSON()
		if err != nil {
			rt.Fatalf("%s: %v", w.g.Name(), err)
		}
		v := x.v
		if err := recv.UnmarshalJSON(b); err != nil {
			rt.Fatalf("%s: own encoding refused: %v", w.g.Name(), err)
		}
		for k := range b {
			b[k] ^= 0xa5
		}
		set(recv, v)
		return name("UnmarshalJSON", i), ri >= 0
	case 10: // scribble over an encoding that was handed out
		b, _ := x.e.MarshalBinary()
		for k := range b {
			b[k] ^= 0x5a
		}
		j, _ := x.e.MarshalJSON()
		for k := range j {
			j[k] ^= 0x5a
		}
		return name("Marshal", i), false
	case 11: // a decoding that fails
		_ = recv.UnmarshalBinary([]byte{9, 9, 9, 9})
		if ri >= 0 && !isModP(w.r) {
			return name("failing UnmarshalBinary"), true
		}
		_ = recv.UnmarshalJSON([]byte(`{"x":1,"y":1`))
		if isModP(w.r) && ri >= 0 {
			// Any square is a valid residue: go by what it says now.
			_ = recv.Set(w.g.Generator())
			w.pool[ri].v = w.lin(1, 0, 0)
		}
		return name("failing decode"), ri >= 0
	case 12:
		if w.hashy {
			k := vh.Pick(rt, 2, "string")
			h, err := recv.MapToGroup([]string{"first", "second"}[k])
			if err != nil {
				rt.Fatalf("%s: MapToGroup: %v", w.g.Name(), err)
			}
			v := w.lin(0, 0, 0)
			v[k+1] = vh.I(1)
			if ri >= 0 && h != recv {
				// The receiver is not involved: the result is a new element.
				x, y := encode(rt, w.g.Name(), recv), w.want(rt, w.pool[ri].v)
				if !bytes.Equal(x.bin, y.bin) && !bytes.Equal(x.bin, w.want(rt, v).bin) {
					rt.Fatalf("%s: MapToGroup leaves its receiver neither unchanged nor set", w.g.Name())
				}
			}
			set(h, v)
			return name("MapToGroup", k), ri >= 0
		}
		set(recv.Set(x.e), x.v)
		return name("Set", i), ri == i
	case 13:
		b := vh.Enc(x.e)
		v := x.v
		res := recv.SetBytes(b)
		for k := range b {
			b[k] ^= 0x33
		}
		set(res, v)
		return name("SetBytes", i), ri >= 0
	case 14: // read-only operations
		_ = x.e.IsEqual(y.e)
		_ = x.e.IsIdentity()
		_ = x.e.String()
		_ = x.e.GroupOrder()
		_ = x.e.FieldOrder()
		return name("compare", i, j), false
	default: // new constants, then used as receivers
		if vh.Pick(rt, 2, "which") == 0 {
			ri = -1
			set(w.g.Generator(), w.lin(1, 0, 0))
			return name("Generator"), false
		}
		ri = -1
		set(w.g.Identity(), w.lin(0, 0, 0))
		return name("Identity"), false
	}
}

func isModP(r vh.Ref) bool { _, ok := r.(*vh.ModPRef); return ok }

// Scalars may be changed by their owner after an operation used them.
//vh:shards quick=1 thorough=4
func TestC20_ScalarsNotRetained(t *testing.T) {
	vh.Check(t, 9000, 40000, "an operation whose scalar is overwritten afterwards, and elements shared between two groups' instances; non-trivial: the result is not the identity",
		func(rt *rapid.T, c *vh.Case) {
			r := drawRef(rt)
			g := r.G()
			x, kx, _ := drawElem(rt, r, "x")
			s, _ := drawScalar(rt, r.N(), "s")
			orig := new(big.Int).Set(s)
			res := []group.Element{g.Element().Scale(x, s), g.Element().BaseScale(s), g.Element().Set(x)}
			before := []encoding{encode(rt, g.Name(), res[0]), encode(rt, g.Name(), res[1]), encode(rt, g.Name(), res[2])}
			if s.Cmp(orig) != 0 {
				rt.Fatalf("%s: scaling changed its scalar from %v to %v", g.Name(), orig, s)
			}
			s.SetInt64(int64(rapid.IntRange(-3, 9).Draw(rt, "overwrite")))
			x.Add(x, g.Generator()) // the source of the copy moves on
			for i := range res {
				a := encode(rt, g.Name(), res[i])
				if !bytes.Equal(a.bin, before[i].bin) || !bytes.Equal(a.js, before[i].js) {
					rt.Fatalf("%s: result %d changed when its scalar or source was overwritten: x=%v s=%v", g.Name(), i, kx, orig)
				}
			}
			// The copy moves on, the source stays.
			y := g.Element().Set(x)
			bx := encode(rt, g.Name(), x)
			y.Add(y, x)
			y.Negate(y)
			y.UnmarshalJSON(before[0].js)
			if ax := encode(rt, g.Name(), x); !bytes.Equal(ax.bin, bx.bin) {
				rt.Fatalf("%s: changing a copy changed its source", g.Name())
			}
			if !res[0].IsIdentity() {
				c.NonTrivial(g.Name(), kx, orig)
			}
		})
}

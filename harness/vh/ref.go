package vh

import (
	"bytes"
	"encoding/json"
	"errors"
	"math/big"

	"github.com/takakv/msc-poc/group"
)

// Ref is independent textbook arithmetic for one of the system's groups. A
// reference value is a string that is equal exactly for equal elements.
type Ref interface {
	Name() string
	G() group.Group
	N() *big.Int
	P() *big.Int
	Zero() RVal
	Base() RVal
	Add(a, b RVal) RVal
	Neg(a RVal) RVal
	Mul(a RVal, s *big.Int) RVal
	// Of reads the value of an element off its binary encoding, and OfJSON
	// off its JSON encoding; they fail for what is not a member.
	Of(e group.Element) (RVal, error)
	OfJSON(e group.Element) (RVal, error)
	// Bin and JSON are the encodings the system uses.
	Bin(a RVal) []byte
	JSON(a RVal) []byte
	// Parse says which value a binary encoding denotes.
	Parse(b []byte) (RVal, error)
	// ParseJSON says which value a JSON encoding denotes.
	ParseJSON(b []byte) (RVal, error)
}

// RVal is a reference value: affine coordinates, or a residue, or an Edwards
// point. The zero X means the identity for curves.
type RVal struct {
	Inf  bool
	X, Y *big.Int
}

// REq compares reference values of groups with unique coordinates.
func REq(a, b RVal) bool {
	if a.Inf || b.Inf {
		return a.Inf == b.Inf
	}
	return a.X.Cmp(b.X) == 0 && (a.Y == nil && b.Y == nil || a.Y != nil && b.Y != nil && a.Y.Cmp(b.Y) == 0)
}

// RString writes a reference value out.
func RString(a RVal) string {
	if a.Inf {
		return "O"
	}
	if a.Y == nil {
		return a.X.Text(16)
	}
	return a.X.Text(16) + "," + a.Y.Text(16)
}

// Matches tells whether an element has the reference value v, going by either
// of its encodings.
func Matches(r Ref, e group.Element, v RVal) bool {
	if got, err := r.Of(e); err == nil && REq(got, v) {
		return true
	}
	got, err := r.OfJSON(e)
	return err == nil && REq(got, v)
}

// ---------------------------------------------------------------------------

// Weierstrass is y^2 = x^3 + ax + b over GF(p).
type Weierstrass struct {
	name       string
	g          group.Group
	p, n, a, b *big.Int
	gx, gy     *big.Int
	size       int
	sec1       bool // SEC1 encodings, otherwise bare x||y
}

func NewP256Ref() *Weierstrass {
	p := Hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff")
	return &Weierstrass{"P-256", group.P256(), p,
		Hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"), new(big.Int).Sub(p, I(3)),
		Hex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
		Hex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
		Hex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"), 32, true}
}

func NewP384Ref() *Weierstrass {
	p := Hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff")
	return &Weierstrass{"P-384", group.P384(), p,
		Hex("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"), new(big.Int).Sub(p, I(3)),
		Hex("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
		Hex("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
		Hex("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"), 48, true}
}

func NewSecpRef() *Weierstrass {
	return &Weierstrass{"secp256k1", group.SecP256k1(),
		Hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
		Hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), I(0), I(7),
		Hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
		Hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"), 32, false}
}

func (w *Weierstrass) Name() string   { return w.name }
func (w *Weierstrass) G() group.Group { return w.g }
func (w *Weierstrass) N() *big.Int    { return w.n }
func (w *Weierstrass) P() *big.Int    { return w.p }
func (w *Weierstrass) Size() int      { return w.size }
func (w *Weierstrass) SEC1() bool     { return w.sec1 }
func (w *Weierstrass) Zero() RVal     { return RVal{Inf: true} }
func (w *Weierstrass) Base() RVal     { return RVal{X: w.gx, Y: w.gy} }

// RHS returns x^3 + ax + b.
func (w *Weierstrass) RHS(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Add(r, w.a)
	r.Mul(r, x)
	r.Add(r, w.b)
	return r.Mod(r, w.p)
}

func (w *Weierstrass) OnCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(w.p) >= 0 || y.Cmp(w.p) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	return l.Mod(l, w.p).Cmp(w.RHS(x)) == 0
}

// LiftX returns a point with the given x, if there is one.
func (w *Weierstrass) LiftX(x *big.Int) (RVal, bool) {
	y := new(big.Int).ModSqrt(w.RHS(x), w.p)
	if y == nil {
		return RVal{}, false
	}
	return RVal{X: new(big.Int).Set(x), Y: y}, true
}

func (w *Weierstrass) Neg(a RVal) RVal {
	if a.Inf {
		return a
	}
	y := new(big.Int).Sub(w.p, a.Y)
	return RVal{X: a.X, Y: y.Mod(y, w.p)}
}

func (w *Weierstrass) Add(a, b RVal) RVal {
	switch {
	case a.Inf:
		return b
	case b.Inf:
		return a
	}
	var l *big.Int
	if a.X.Cmp(b.X) == 0 {
		s := new(big.Int).Add(a.Y, b.Y)
		if s.Mod(s, w.p).Sign() == 0 {
			return w.Zero()
		}
		l = new(big.Int).Mul(a.X, a.X)
		l.Mul(l, I(3))
		l.Add(l, w.a)
		d := new(big.Int).Lsh(a.Y, 1)
		l.Mul(l, d.ModInverse(d, w.p))
	} else {
		l = new(big.Int).Sub(b.Y, a.Y)
		d := new(big.Int).Sub(b.X, a.X)
		d.Mod(d, w.p)
		l.Mul(l, d.ModInverse(d, w.p))
	}
	l.Mod(l, w.p)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.X)
	x.Sub(x, b.X)
	x.Mod(x, w.p)
	y := new(big.Int).Sub(a.X, x)
	y.Mul(y, l)
	y.Sub(y, a.Y)
	return RVal{X: x, Y: y.Mod(y, w.p)}
}

// Mul is double-and-add in Jacobian coordinates, on the scalar reduced to the
// order.
func (w *Weierstrass) Mul(a RVal, s *big.Int) RVal {
	k := new(big.Int).Mod(s, w.n)
	if a.Inf || k.Sign() == 0 {
		return w.Zero()
	}
	m := func(x, y *big.Int) *big.Int { t := new(big.Int).Mul(x, y); return t.Mod(t, w.p) }
	sub := func(x, y *big.Int) *big.Int { t := new(big.Int).Sub(x, y); return t.Mod(t, w.p) }
	var X, Y, Z *big.Int // nil Z: infinity
	dbl := func() {
		if Z == nil || Y.Sign() == 0 {
			Z = nil
			return
		}
		yy := m(Y, Y)
		S := m(I(4), m(X, yy))
		zz := m(Z, Z)
		M := new(big.Int).Add(m(I(3), m(X, X)), m(w.a, m(zz, zz)))
		M.Mod(M, w.p)
		nx := sub(m(M, M), new(big.Int).Lsh(S, 1))
		ny := sub(m(M, sub(S, nx)), m(I(8), m(yy, yy)))
		nz := m(I(2), m(Y, Z))
		X, Y, Z = nx, ny, nz
	}
	add := func() {
		if Z == nil {
			X, Y, Z = a.X, a.Y, I(1)
			return
		}
		zz := m(Z, Z)
		U2 := m(a.X, zz)
		S2 := m(a.Y, m(zz, Z))
		H := sub(U2, X)
		R := sub(S2, Y)
		if H.Sign() == 0 {
			if R.Sign() == 0 {
				dbl()
			} else {
				Z = nil
			}
			return
		}
		hh := m(H, H)
		hhh := m(hh, H)
		v := m(X, hh)
		nx := sub(sub(m(R, R), hhh), new(big.Int).Lsh(v, 1))
		ny := sub(m(R, sub(v, nx)), m(Y, hhh))
		X, Y, Z = nx, ny, m(Z, H)
	}
	for i := k.BitLen() - 1; i >= 0; i-- {
		dbl()
		if k.Bit(i) == 1 {
			add()
		}
	}
	if Z == nil {
		return w.Zero()
	}
	zi := new(big.Int).ModInverse(Z, w.p)
	zi2 := m(zi, zi)
	return RVal{X: m(X, zi2), Y: m(Y, m(zi2, zi))}
}

func (w *Weierstrass) Bin(a RVal) []byte {
	if w.sec1 {
		if a.Inf {
			return []byte{0}
		}
		out := make([]byte, 1+2*w.size)
		out[0] = 4
		a.X.FillBytes(out[1 : 1+w.size])
		a.Y.FillBytes(out[1+w.size:])
		return out
	}
	out := make([]byte, 2*w.size)
	if !a.Inf {
		a.X.FillBytes(out[:w.size])
		a.Y.FillBytes(out[w.size:])
	}
	return out
}

func (w *Weierstrass) JSON(a RVal) []byte {
	pt := group.ECPoint{X: I(0), Y: I(0)}
	if !a.Inf {
		pt = group.ECPoint{X: a.X, Y: a.Y}
	}
	b, _ := json.Marshal(&pt)
	return b
}

var errNotMember = errors.New("not a member")

func (w *Weierstrass) point(x, y *big.Int) (RVal, error) {
	if !w.OnCurve(x, y) {
		return RVal{}, errNotMember
	}
	return RVal{X: x, Y: y}, nil
}

func (w *Weierstrass) Parse(b []byte) (RVal, error) {
	if !w.sec1 {
		if len(b) != 2*w.size {
			return RVal{}, errNotMember
		}
		x, y := new(big.Int).SetBytes(b[:w.size]), new(big.Int).SetBytes(b[w.size:])
		if x.Sign() == 0 && y.Sign() == 0 {
			return w.Zero(), nil
		}
		return w.point(x, y)
	}
	switch {
	case len(b) == 0:
		return RVal{}, errNotMember
	case len(b) == 1 && b[0] == 0:
		return w.Zero(), nil
	case b[0] == 4 && len(b) == 1+2*w.size:
		return w.point(new(big.Int).SetBytes(b[1:1+w.size]), new(big.Int).SetBytes(b[1+w.size:]))
	case (b[0] == 2 || b[0] == 3) && len(b) == 1+w.size:
		x := new(big.Int).SetBytes(b[1:])
		if x.Cmp(w.p) >= 0 {
			return RVal{}, errNotMember
		}
		v, ok := w.LiftX(x)
		if !ok {
			return RVal{}, errNotMember
		}
		if v.Y.Bit(0) != uint(b[0]&1) {
			v = w.Neg(v)
		}
		return v, nil
	}
	return RVal{}, errNotMember
}

func (w *Weierstrass) ParseJSON(b []byte) (RVal, error) {
	pt := group.ECPoint{}
	if err := json.Unmarshal(b, &pt); err != nil {
		return RVal{}, err
	}
	if pt.X == nil || pt.Y == nil {
		return RVal{}, errNotMember
	}
	if pt.X.Sign() == 0 && pt.Y.Sign() == 0 {
		return w.Zero(), nil
	}
	return w.point(pt.X, pt.Y)
}

func (w *Weierstrass) Of(e group.Element) (RVal, error)     { return ofBin(w, e) }
func (w *Weierstrass) OfJSON(e group.Element) (RVal, error) { return ofJSON(w, e) }

func ofBin(r Ref, e group.Element) (RVal, error) {
	b, err := e.MarshalBinary()
	if err != nil {
		return RVal{}, err
	}
	return r.Parse(b)
}

func ofJSON(r Ref, e group.Element) (RVal, error) {
	b, err := e.MarshalJSON()
	if err != nil {
		return RVal{}, err
	}
	return r.ParseJSON(b)
}

// ---------------------------------------------------------------------------

// ModPRef is the subgroup of squares modulo a safe prime.
type ModPRef struct {
	name    string
	g       group.Group
	p, n, b *big.Int
}

func NewModPRef(g group.Group, p, gen *big.Int) *ModPRef {
	n := new(big.Int).Rsh(p, 1)
	return &ModPRef{g.Name(), g, p, n, gen}
}

func (m *ModPRef) Name() string   { return m.name }
func (m *ModPRef) G() group.Group { return m.g }
func (m *ModPRef) N() *big.Int    { return m.n }
func (m *ModPRef) P() *big.Int    { return m.p }
func (m *ModPRef) Zero() RVal     { return RVal{X: I(1)} }
func (m *ModPRef) Base() RVal     { return RVal{X: m.b} }
func (m *ModPRef) Add(a, b RVal) RVal {
	t := new(big.Int).Mul(a.X, b.X)
	return RVal{X: t.Mod(t, m.p)}
}
func (m *ModPRef) Neg(a RVal) RVal {
	return RVal{X: new(big.Int).Exp(a.X, new(big.Int).Sub(m.p, I(2)), m.p)}
}
func (m *ModPRef) Mul(a RVal, s *big.Int) RVal {
	return RVal{X: new(big.Int).Exp(a.X, new(big.Int).Mod(s, m.n), m.p)}
}
func (m *ModPRef) Member(v *big.Int) bool {
	return v.Sign() > 0 && v.Cmp(m.p) < 0 && new(big.Int).Exp(v, m.n, m.p).Cmp(I(1)) == 0
}
func (m *ModPRef) val(v *big.Int) (RVal, error) {
	if !m.Member(v) {
		return RVal{}, errNotMember
	}
	return RVal{X: v}, nil
}
func (m *ModPRef) Bin(a RVal) []byte                    { return a.X.Bytes() }
func (m *ModPRef) JSON(a RVal) []byte                   { return []byte(a.X.String()) }
func (m *ModPRef) Parse(b []byte) (RVal, error)         { return m.val(new(big.Int).SetBytes(b)) }
func (m *ModPRef) Of(e group.Element) (RVal, error)     { return ofBin(m, e) }
func (m *ModPRef) OfJSON(e group.Element) (RVal, error) { return ofJSON(m, e) }
func (m *ModPRef) ParseJSON(b []byte) (RVal, error) {
	var v *big.Int
	if err := json.Unmarshal(b, &v); err != nil {
		// The system accepts a quoted number as well.
		s := ""
		if json.Unmarshal(b, &s) != nil {
			return RVal{}, err
		}
		t, ok := new(big.Int).SetString(s, 10)
		if !ok {
			return RVal{}, err
		}
		v = t
	}
	if v == nil {
		return RVal{}, errNotMember
	}
	return m.val(v)
}

// ---------------------------------------------------------------------------

// Ristretto is ristretto255 as in RFC 9496, over affine Edwards points. Its
// reference values are decoded canonical encodings held in X (as a 256-bit
// little-endian number), so that they are unique.
type Ristretto struct {
	g                          group.Group
	p, n, d, sqrtM1, invSqrtAD *big.Int
}

func NewRistrettoRef() *Ristretto {
	p := Hex("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed")
	r := &Ristretto{g: group.Ristretto255(), p: p,
		n: Hex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"),
		d: Dec("37095705934669439343138083508754565189542113879843219016388785533085940283555")}
	r.sqrtM1 = Dec("19681161376707505956807079304988542015446066515923890162744021073123829784752")
	r.invSqrtAD = Dec("54469307008909316920995813868745141605393597292927456921205312896311721017578")
	return r
}

func (r *Ristretto) m(xs ...*big.Int) *big.Int {
	t := new(big.Int).Set(xs[0])
	for _, x := range xs[1:] {
		t.Mul(t, x)
		t.Mod(t, r.p)
	}
	return t.Mod(t, r.p)
}
func (r *Ristretto) sub(a, b *big.Int) *big.Int {
	t := new(big.Int).Sub(a, b)
	return t.Mod(t, r.p)
}
func (r *Ristretto) add(a, b *big.Int) *big.Int {
	t := new(big.Int).Add(a, b)
	return t.Mod(t, r.p)
}
func (r *Ristretto) isNeg(a *big.Int) bool { return a.Bit(0) == 1 }
func (r *Ristretto) abs(a *big.Int) *big.Int {
	if r.isNeg(a) {
		return r.sub(I(0), a)
	}
	return a
}

// sqrtRatio is SQRT_RATIO_M1 of RFC 9496.
func (r *Ristretto) sqrtRatio(u, v *big.Int) (bool, *big.Int) {
	v3 := r.m(v, v, v)
	v7 := r.m(v3, v3, v)
	e := new(big.Int).Sub(r.p, I(5))
	e.Rsh(e, 3)
	x := r.m(u, v3, new(big.Int).Exp(r.m(u, v7), e, r.p))
	check := r.m(v, x, x)
	um := r.sub(I(0), u)
	correct := check.Cmp(r.m(u)) == 0
	flipped := check.Cmp(um) == 0
	flippedI := check.Cmp(r.m(um, r.sqrtM1)) == 0
	if flipped || flippedI {
		x = r.m(x, r.sqrtM1)
	}
	return correct || flipped, r.abs(x)
}

type edPoint struct{ x, y *big.Int }

func (r *Ristretto) decode(b []byte) (edPoint, bool) {
	if len(b) != 32 {
		return edPoint{}, false
	}
	be := make([]byte, 32)
	for i := range b {
		be[31-i] = b[i]
	}
	s := new(big.Int).SetBytes(be)
	if s.Cmp(r.p) >= 0 || r.isNeg(s) {
		return edPoint{}, false
	}
	ss := r.m(s, s)
	u1 := r.sub(I(1), ss)
	u2 := r.add(I(1), ss)
	u2s := r.m(u2, u2)
	v := r.sub(r.sub(I(0), r.m(r.d, u1, u1)), u2s)
	ok, inv := r.sqrtRatio(I(1), r.m(v, u2s))
	dx := r.m(inv, u2)
	dy := r.m(inv, dx, v)
	x := r.abs(r.m(I(2), s, dx))
	y := r.m(u1, dy)
	t := r.m(x, y)
	if !ok || r.isNeg(t) || y.Sign() == 0 {
		return edPoint{}, false
	}
	return edPoint{x, y}, true
}

func (r *Ristretto) encode(P edPoint) []byte {
	x0, y0, z0, t0 := P.x, P.y, I(1), r.m(P.x, P.y)
	u1 := r.m(r.add(z0, y0), r.sub(z0, y0))
	u2 := r.m(x0, y0)
	_, inv := r.sqrtRatio(I(1), r.m(u1, u2, u2))
	den1 := r.m(inv, u1)
	den2 := r.m(inv, u2)
	zinv := r.m(den1, den2, t0)
	x, y, den := x0, y0, den2
	if r.isNeg(r.m(t0, zinv)) {
		x, y, den = r.m(y0, r.sqrtM1), r.m(x0, r.sqrtM1), r.m(den1, r.invSqrtAD)
	}
	if r.isNeg(r.m(x, zinv)) {
		y = r.sub(I(0), y)
	}
	s := r.abs(r.m(den, r.sub(z0, y)))
	be := make([]byte, 32)
	s.FillBytes(be)
	out := make([]byte, 32)
	for i := range be {
		out[i] = be[31-i]
	}
	return out
}

func (r *Ristretto) edAdd(a, b edPoint) edPoint {
	xx, yy := r.m(a.x, b.x), r.m(a.y, b.y)
	k := r.m(r.d, xx, yy)
	nx := r.add(r.m(a.x, b.y), r.m(a.y, b.x))
	ny := r.add(yy, xx) // a = -1
	dx := r.add(I(1), k)
	dy := r.sub(I(1), k)
	return edPoint{r.m(nx, dx.ModInverse(dx, r.p)), r.m(ny, dy.ModInverse(dy, r.p))}
}

// edMul works in extended coordinates with the complete addition law.
func (r *Ristretto) edMul(a edPoint, k *big.Int) edPoint {
	type ext struct{ X, Y, Z, T *big.Int }
	add := func(p, q ext) ext {
		A := r.m(r.sub(p.Y, p.X), r.sub(q.Y, q.X))
		B := r.m(r.add(p.Y, p.X), r.add(q.Y, q.X))
		C := r.m(p.T, I(2), r.d, q.T)
		D := r.m(p.Z, I(2), q.Z)
		E, F, G, H := r.sub(B, A), r.sub(D, C), r.add(D, C), r.add(B, A)
		return ext{r.m(E, F), r.m(G, H), r.m(F, G), r.m(E, H)}
	}
	acc := ext{I(0), I(1), I(1), I(0)}
	base := ext{a.x, a.y, I(1), r.m(a.x, a.y)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = add(acc, acc)
		if k.Bit(i) == 1 {
			acc = add(acc, base)
		}
	}
	zi := new(big.Int).ModInverse(acc.Z, r.p)
	return edPoint{r.m(acc.X, zi), r.m(acc.Y, zi)}
}

func (r *Ristretto) Name() string   { return "ristretto255" }
func (r *Ristretto) G() group.Group { return r.g }
func (r *Ristretto) N() *big.Int    { return r.n }
func (r *Ristretto) P() *big.Int    { return r.p }
func (r *Ristretto) toVal(P edPoint) RVal {
	return RVal{X: new(big.Int).SetBytes(r.encode(P))}
}
func (r *Ristretto) ofVal(v RVal) edPoint {
	P, ok := r.decode(r.Bin(v))
	if !ok {
		panic("harness: bad ristretto reference value")
	}
	return P
}
func (r *Ristretto) Zero() RVal { return RVal{X: I(0)} }
func (r *Ristretto) Base() RVal {
	return RVal{X: Hex("e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76")}
}
func (r *Ristretto) Add(a, b RVal) RVal { return r.toVal(r.edAdd(r.ofVal(a), r.ofVal(b))) }
func (r *Ristretto) Neg(a RVal) RVal {
	P := r.ofVal(a)
	return r.toVal(edPoint{r.sub(I(0), P.x), P.y})
}
func (r *Ristretto) Mul(a RVal, s *big.Int) RVal {
	return r.toVal(r.edMul(r.ofVal(a), new(big.Int).Mod(s, r.n)))
}
func (r *Ristretto) Bin(a RVal) []byte {
	out := make([]byte, 32)
	return a.X.FillBytes(out)
}
func (r *Ristretto) JSON(a RVal) []byte {
	b, _ := json.Marshal(r.Bin(a))
	return b
}
func (r *Ristretto) Parse(b []byte) (RVal, error) {
	if _, ok := r.decode(b); !ok {
		return RVal{}, errNotMember
	}
	return RVal{X: new(big.Int).SetBytes(b)}, nil
}
func (r *Ristretto) ParseJSON(b []byte) (RVal, error) {
	var raw []byte
	if err := json.Unmarshal(b, &raw); err != nil {
		return RVal{}, err
	}
	return r.Parse(raw)
}
func (r *Ristretto) Of(e group.Element) (RVal, error)     { return ofBin(r, e) }
func (r *Ristretto) OfJSON(e group.Element) (RVal, error) { return ofJSON(r, e) }

// ---------------------------------------------------------------------------

// AllRefs returns the references of all the system's groups, and of small
// mod-p groups.
func AllRefs() []Ref {
	return append(CurveRefs(),
		NewModPRef(NewRFC3526(), NewRFC3526().P(), I(2)),
		NewModPRef(SmallModP(5), Hex(SafePrimes[5]), I(4)),
		NewModPRef(SmallModP(12), Hex(SafePrimes[12]), I(4)),
		NewModPRef(SmallModP(128), Hex(SafePrimes[128]), I(4)),
		NewModPRef(SmallModP(400), Hex(SafePrimes[400]), I(4)))
}

func CurveRefs() []Ref {
	return []Ref{NewP256Ref(), NewP384Ref(), NewSecpRef(), NewRistrettoRef()}
}

// Enc returns the binary encoding, which must not fail.
func Enc(e group.Element) []byte {
	b, err := e.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return bytes.Clone(b)
}

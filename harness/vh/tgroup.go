package vh

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/takakv/msc-poc/group"
)

// TGroup is a transparent prime-order group: an element is a formal linear
// combination of independent generators (the base point and every string
// hashed to the group), so that discrete logarithms can be read off. Code that
// is generic in the group behaves in it as in a group where no relation
// between generators is known, and equations hold in it only if they hold as
// identities.
type TGroup struct {
	name string
	n, p *big.Int
	// Alias maps a canonical string form to the one that is handed out.
	Alias map[string]string
	// Stand maps a canonical string form to the element in whose place it
	// stands: it answers comparisons as that one does.
	Stand map[string]*TElem
	// probes maps symbols to what they stand for, in every combination.
	probes map[int]*TElem
	// Rec, when set, receives every comparison made in the group.
	Rec *Recorder
	// Shadow, when set, is a real group of the same order whose string and
	// binary forms the elements have: the image of an element under a fixed
	// homomorphism.
	Shadow group.Group
}

// Recorder collects the differences that were compared with the identity.
type Recorder struct {
	mu    sync.Mutex
	Diffs []*TElem
}

var symMu sync.Mutex
var symIdx = map[string]int{"G": 0}
var symName = []string{"G"}

func sym(s string) int {
	symMu.Lock()
	defer symMu.Unlock()
	i, ok := symIdx[s]
	if !ok {
		i = len(symName)
		symIdx[s] = i
		symName = append(symName, s)
	}
	return i
}

func symStr(i int) string {
	symMu.Lock()
	defer symMu.Unlock()
	return symName[i]
}

// NewTGroup makes a transparent group of prime order n. All instances of the
// same order are the same group.
func NewTGroup(n *big.Int) *TGroup {
	// The field has another size, as on curves.
	p := new(big.Int).Add(n, new(big.Int).Lsh(big.NewInt(1), uint(n.BitLen()/2)))
	p.Or(p, big.NewInt(1))
	return &TGroup{name: "transparent-" + n.Text(62), n: new(big.Int).Set(n), p: p, Alias: map[string]string{}}
}

// NewShadow makes a transparent group whose elements are written like those of
// the real group.
func NewShadow(real group.Group) *TGroup {
	g := NewTGroup(real.N())
	g.Shadow = real
	return g
}

func (e *TElem) image() group.Element {
	s := new(big.Int)
	for i, v := range e.c {
		if v == nil || v.Sign() == 0 {
			continue
		}
		l := big.NewInt(1)
		if i > 0 {
			l = DetInt(1, "logarithm of "+symStr(i), e.g.n)
		}
		s.Add(s, l.Mul(l, v))
	}
	return e.g.Shadow.Element().BaseScale(s.Mod(s, e.g.n))
}

// TElem is an element of a transparent group. The embedded interface is nil;
// it only keeps the type assignable should the interface grow.
type TElem struct {
	group.Element
	g *TGroup
	c []*big.Int // c[i]: coefficient of symbol i, in [0,n); nil means 0
}

// Disguise lets e answer with the string form of the other element, and to
// comparisons as that one.
func (g *TGroup) Disguise(e *TElem, as group.Element) {
	k := e.Canon()
	if o, ok := as.(*TElem); ok {
		g.Alias[k] = o.plain()
		if g.Stand == nil {
			g.Stand = map[string]*TElem{}
		}
		g.Stand[k] = o
		return
	}
	g.Alias[k] = as.String()
}

// Probe lets a fresh generator behave as the given element, alone and in all
// combinations, but for the records of comparisons.
func (g *TGroup) Probe(name string, as group.Element) *TElem {
	if g.probes == nil {
		g.probes = map[int]*TElem{}
	}
	g.probes[sym(name)] = as.(*TElem).face()
	return g.Sym(name)
}

// Unprobe ends all probes.
func (g *TGroup) Unprobe() { g.probes = nil }

// Reveal ends all disguises.
func (g *TGroup) Reveal() { g.Alias, g.Stand, g.probes = map[string]string{}, nil, nil }

// face is e with the probes replaced by what they stand for.
func (e *TElem) face() *TElem {
	var out *TElem
	for i, as := range e.g.probes {
		v := at(e.c, i)
		if v == nil || v.Sign() == 0 {
			continue
		}
		if out == nil {
			out = &TElem{g: e.g, c: append([]*big.Int(nil), e.c...)}
		}
		out.c[i] = nil
		t := &TElem{g: e.g}
		t.Scale(as, v)
		out.Add(out, t)
	}
	if out == nil {
		return e
	}
	return out
}

func (g *TGroup) Name() string                 { return g.name }
func (g *TGroup) Element() group.Element       { return &TElem{g: g} }
func (g *TGroup) Identity() group.Element      { return &TElem{g: g} }
func (g *TGroup) Generator() group.Element     { return g.Sym("G") }
func (g *TGroup) P() *big.Int                  { return g.p }
func (g *TGroup) N() *big.Int                  { return g.n }
func (g *TGroup) MarshalJSON() ([]byte, error) { return json.Marshal(&group.GroupId{Name: g.name}) }
func (g *TGroup) Random() group.Element        { return g.Sym("G") }

// Sym returns the generator named s.
func (g *TGroup) Sym(s string) *TElem {
	i := sym(s)
	c := make([]*big.Int, i+1)
	c[i] = big.NewInt(1)
	return &TElem{g: g, c: c}
}

// Lin returns the sum of coefficient times symbol over pairs.
func (g *TGroup) Lin(pairs map[string]*big.Int) *TElem {
	e := &TElem{g: g}
	for s, v := range pairs {
		e.Add(e, g.Element().Scale(g.Sym(s), v))
	}
	return e
}

func (e *TElem) chk(x group.Element) *TElem {
	t, ok := x.(*TElem)
	if !ok {
		panic("incompatible group element type")
	}
	if e.g.n.Cmp(t.g.n) != 0 {
		panic("incompatible groups")
	}
	return t
}

// Coef returns the coefficient of symbol s.
func (e *TElem) Coef(s string) *big.Int {
	i := sym(s)
	if i < len(e.c) && e.c[i] != nil {
		return new(big.Int).Set(e.c[i])
	}
	return new(big.Int)
}

// Symbols returns the names of the symbols with non-zero coefficient, sorted.
func (e *TElem) Symbols() []string {
	var out []string
	for i, v := range e.c {
		if v != nil && v.Sign() != 0 {
			out = append(out, symStr(i))
		}
	}
	sort.Strings(out)
	return out
}

func at(c []*big.Int, i int) *big.Int {
	if i < len(c) {
		return c[i]
	}
	return nil
}

func (e *TElem) Add(x, y group.Element) group.Element {
	a, b := e.chk(x), e.chk(y)
	l := len(a.c)
	if len(b.c) > l {
		l = len(b.c)
	}
	out := make([]*big.Int, l)
	for i := range out {
		u, v := at(a.c, i), at(b.c, i)
		switch {
		case u == nil:
			out[i] = v
		case v == nil:
			out[i] = u
		default:
			s := new(big.Int).Add(u, v)
			if s.Cmp(e.g.n) >= 0 {
				s.Sub(s, e.g.n)
			}
			if s.Sign() != 0 {
				out[i] = s
			}
		}
	}
	e.c = out
	return e
}

func (e *TElem) Negate(x group.Element) group.Element {
	a := e.chk(x)
	out := make([]*big.Int, len(a.c))
	for i, v := range a.c {
		if v != nil {
			out[i] = new(big.Int).Sub(e.g.n, v)
		}
	}
	e.c = out
	return e
}

func (e *TElem) Subtract(x, y group.Element) group.Element {
	t := &TElem{g: e.g}
	t.Negate(y)
	return e.Add(x, t)
}

func (e *TElem) Scale(x group.Element, s *big.Int) group.Element {
	a := e.chk(x)
	k := new(big.Int).Mod(s, e.g.n)
	if k.Sign() == 0 {
		e.c = nil
		return e
	}
	out := make([]*big.Int, len(a.c))
	for i, v := range a.c {
		if v != nil {
			t := new(big.Int).Mul(v, k)
			out[i] = t.Mod(t, e.g.n)
		}
	}
	e.c = out
	return e
}

func (e *TElem) BaseScale(s *big.Int) group.Element {
	k := new(big.Int).Mod(s, e.g.n)
	if k.Sign() == 0 {
		e.c = nil
	} else {
		e.c = []*big.Int{k}
	}
	return e
}

func (e *TElem) Set(x group.Element) group.Element {
	a := e.chk(x)
	e.c = append([]*big.Int(nil), a.c...)
	return e
}

func (e *TElem) MapToGroup(s string) (group.Element, error) {
	e.c = e.g.Sym("#" + s).c
	return e, nil
}

func (e *TElem) isZero() bool {
	for _, v := range e.c {
		if v != nil && v.Sign() != 0 {
			return false
		}
	}
	return true
}

func (e *TElem) IsEqual(x group.Element) bool {
	d := &TElem{g: e.g}
	d.Subtract(e, x)
	e.record(d)
	if len(e.g.Stand)+len(e.g.probes) > 0 {
		d.Subtract(e.stand(), e.chk(x).stand())
	}
	return d.isZero()
}

func (e *TElem) IsIdentity() bool {
	e.record(e)
	return e.stand().isZero()
}

func (e *TElem) stand() *TElem {
	e = e.face()
	if len(e.g.Stand) > 0 {
		if o := e.g.Stand[e.Canon()]; o != nil {
			return o
		}
	}
	return e
}

func (e *TElem) record(d *TElem) {
	if r := e.g.Rec; r != nil {
		r.mu.Lock()
		r.Diffs = append(r.Diffs, &TElem{g: e.g, c: append([]*big.Int(nil), d.c...)})
		r.mu.Unlock()
	}
}

// Same compares without being recorded.
func (e *TElem) Same(x group.Element) bool {
	d := &TElem{g: e.g}
	d.Subtract(e, x)
	return d.isZero()
}

func (e *TElem) GroupOrder() *big.Int { return e.g.n }
func (e *TElem) FieldOrder() *big.Int { return e.g.p }

// Canon is the canonical string form, ignoring aliases.
func (e *TElem) Canon() string {
	var parts []string
	for i, v := range e.c {
		if v != nil && v.Sign() != 0 {
			parts = append(parts, symStr(i)+"*"+v.Text(62))
		}
	}
	sort.Strings(parts)
	return "T(" + strings.Join(parts, "+") + ")"
}

func (e *TElem) String() string {
	e = e.face()
	if a, ok := e.g.Alias[e.Canon()]; ok {
		return a
	}
	return e.plain()
}

// plain is the string form without disguise.
func (e *TElem) plain() string {
	if e.g.Shadow != nil {
		return e.image().String()
	}
	// A short fixed-length digest, as a curve point encoding would be.
	h := sha256.Sum256([]byte(e.Canon()))
	return string(h[:])
}

func (e *TElem) MarshalBinary() ([]byte, error) {
	e = e.face()
	if _, ok := e.g.Alias[e.Canon()]; e.g.Shadow != nil && !ok {
		return e.image().MarshalBinary()
	}
	return []byte(e.String()), nil
}

func (e *TElem) UnmarshalBinary([]byte) error { return errors.New("not supported") }

func (e *TElem) SetBytes([]byte) group.Element { return e }

func (e *TElem) MarshalJSON() ([]byte, error) {
	e = e.face()
	m := map[string]*big.Int{}
	for i, v := range e.c {
		if v != nil && v.Sign() != 0 {
			m[symStr(i)] = v
		}
	}
	return json.Marshal(m)
}

func (e *TElem) UnmarshalJSON(b []byte) error {
	var m map[string]*big.Int
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	if m == nil {
		return errors.New("missing element")
	}
	out := &TElem{g: e.g}
	for s, v := range m {
		if v == nil || v.Sign() < 0 || v.Cmp(e.g.n) >= 0 {
			return fmt.Errorf("bad coefficient")
		}
		out.Add(out, (&TElem{g: e.g}).Scale(e.g.Sym(s), v))
	}
	e.c = out.c
	return nil
}

// T returns the transparent element behind x.
func T(x group.Element) *TElem { return x.(*TElem) }

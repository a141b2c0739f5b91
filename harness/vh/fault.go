package vh

import (
	"bytes"
	"runtime"

	"pgregory.net/rapid"
)

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	return string(bytes.Fields(b[:n])[1])
}

// Output is what an operation gave: ok is false when it reported an error.
type Output struct {
	Value string
	OK    bool
}

// Faults runs an operation on a source of randomness that delivers its bytes
// in pieces, and on one that fails somewhere. Pieces must make no difference;
// an operation whose source fails must not deliver anything but what it would
// have delivered on the complete source.
func Faults(rt *rapid.T, c *Case, what string, run func() Output) {
	seed := Seed64(rt, "stream")
	good := NewStream(seed)
	var a, b, d Output
	With(good, func() { a = run() })
	if !a.OK {
		rt.Fatalf("%s fails on a good source of randomness", what)
	}
	if good.Used() == 0 {
		c.Vacuous("no randomness used")
		return
	}
	again := NewStream(seed)
	With(again, func() { b = run() })
	if a != b {
		// Not a function of the bytes (several goroutines may draw).
		c.Vacuous("not deterministic")
		return
	}
	var chunk func(int) int
	kind := "whole reads"
	switch Pick(rt, 5, "pieces") {
	case 0:
		kind, chunk = "single bytes", func(int) int { return 1 }
	case 1:
		k := 2 + Pick(rt, 40, "piece")
		kind, chunk = "fixed pieces", func(int) int { return k }
	case 2, 3:
		s := Seed64(rt, "sizes")
		kind, chunk = "pieces of any size", func(i int) int {
			var q [1]byte
			fill(q[:], s, uint64(i))
			return 1 + int(q[0]%48)
		}
	}
	if chunk != nil {
		st := NewStream(seed)
		st.Chunk = chunk
		With(st, func() { d = run() })
		if d != a {
			rt.Fatalf("%s gives another result when its randomness is delivered in %s:\n%.300s\n%.300s", what, kind, a.Value, d.Value)
		}
	}
	if good.Foreign || again.Foreign {
		// A panic there could not be caught.
		c.Vacuous("randomness is drawn on several goroutines")
		return
	}
	if good.Fatal {
		// A failure ends the whole program, this one included.
		c.Label("ends the program")
		c.NonTrivial(what, seed, kind)
		return
	}
	at := 0
	switch Pick(rt, 4, "failKind") {
	case 0:
		at = Pick(rt, min(good.Used(), 70), "failAt")
	case 1:
		at = good.Used() - 1 - Pick(rt, min(good.Used(), 70), "failAt")
	default:
		at = Pick(rt, good.Used(), "failAt")
	}
	bad := NewStream(seed)
	bad.FailAt, bad.Chunk, bad.Late = at, chunk, rapid.Bool().Draw(rt, "late")
	var e Output
	p := Caught(func() { With(bad, func() { e = run() }) })
	switch {
	case p != nil:
		c.Label("stops by panicking")
	case !e.OK:
		c.Label("stops with an error")
	case e == a:
		c.Label("same result")
	default:
		rt.Fatalf("%s gives a result although its randomness failed after %d of %d bytes (%s, %d failed reads):\n%.400s", what, at, good.Used(), kind, bad.Failures, e.Value)
	}
	c.Label("%s", kind)
	c.NonTrivial(what, seed, at, kind)
}

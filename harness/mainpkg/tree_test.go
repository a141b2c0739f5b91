package main

import (
	"bytes"
	"encoding/json"
	"io"
	"math/big"
	"strings"
)

func zzReader(b []byte) io.Reader { return bytes.NewReader(b) }

func zzParse(b []byte) any {
	var v any
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	if dec.Decode(&v) != nil {
		return nil
	}
	return v
}

// zzFlip replaces the only number (or numeric string) in an encoded mod-p
// element by its negative modulo p.
func zzFlip(v any, p *big.Int) (any, bool) {
	flip := func(s string) (string, bool) {
		base := 10
		if strings.HasPrefix(s, "0x") {
			s, base = s[2:], 16
		}
		x, ok := new(big.Int).SetString(s, base)
		if !ok || x.Sign() <= 0 || x.Cmp(p) >= 0 {
			return "", false
		}
		x.Sub(p, x)
		if base == 16 {
			return "0x" + x.Text(16), true
		}
		return x.String(), true
	}
	switch x := v.(type) {
	case json.Number:
		s, ok := flip(string(x))
		return json.Number(s), ok
	case string:
		s, ok := flip(x)
		return s, ok
	case map[string]any:
		out := map[string]any{}
		n := 0
		for k, y := range x {
			z, ok := zzFlip(y, p)
			if ok {
				n++
				out[k] = z
			} else {
				out[k] = y
			}
		}
		return out, n == 1
	}
	return nil, false
}

// Package rr stands between the code under test and the system's randomness.
// It is initialised before any package of the repository, so that code which
// keeps its own reference to rand.Reader reads from the tapes as well.
package rr

import (
	"crypto/rand"
	"io"
	"sync"
)

var (
	mu      sync.RWMutex
	system  = rand.Reader
	current io.Reader
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	mu.RLock()
	r := current
	mu.RUnlock()
	if r == nil {
		r = system
	}
	return r.Read(p)
}

func init() { rand.Reader = reader{} }

// Use makes r the source of randomness and returns what undoes it.
func Use(r io.Reader) func() {
	mu.Lock()
	old := current
	current = r
	mu.Unlock()
	return func() {
		mu.Lock()
		current = old
		mu.Unlock()
	}
}

// Package vh holds the helpers of the verification harness. It is compiled
// into the module under test through a go build overlay; nothing of it lives
// in the repository.
package vh

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"sync"

	"github.com/takakv/msc-poc/zzverif/rr"
	"pgregory.net/rapid"
)

// Tape is a deterministic replacement for the system's randomness. The i-th
// Read returns bytes that depend on the seed and on i only, so one read can be
// steered or perturbed without disturbing the others.
type Tape struct {
	mu    sync.Mutex
	seed  uint64
	n     int
	Bytes int
	// Limit is the number of reads after which the tape panics: the caller
	// does not terminate.
	Limit int
	// Steer, when set, may replace the content of the i-th read.
	Steer func(i int, buf []byte)
	// Lens are the lengths of the reads so far.
	Lens []int
}

// TapeLimit is the panic value of an exhausted tape.
type TapeLimit struct{ Reads int }

func (l TapeLimit) String() string {
	return fmt.Sprintf("more than %d reads of randomness: the operation does not terminate", l.Reads)
}

func NewTape(seed uint64) *Tape { return &Tape{seed: seed, Limit: 20000} }

func (t *Tape) Read(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.n >= t.Limit {
		panic(TapeLimit{t.Limit})
	}
	fill(p, t.seed, uint64(t.n))
	if t.Steer != nil {
		t.Steer(t.n, p)
	}
	t.n++
	t.Bytes += len(p)
	t.Lens = append(t.Lens, len(p))
	return len(p), nil
}

// Reads returns how many reads were made.
func (t *Tape) Reads() int { return t.n }

func fill(p []byte, seed, i uint64) {
	var in [24]byte
	binary.BigEndian.PutUint64(in[0:], seed)
	binary.BigEndian.PutUint64(in[8:], i)
	for blk := uint64(0); len(p) > 0; blk++ {
		binary.BigEndian.PutUint64(in[16:], blk)
		h := sha256.Sum256(in[:])
		k := copy(p, h[:])
		p = p[k:]
	}
}

var readerMu sync.Mutex

// With runs f with the system's randomness replaced by r.
func With(r io.Reader, f func()) {
	readerMu.Lock()
	defer readerMu.Unlock()
	defer rr.Use(r)()
	f()
}

// WithSeed runs f on a fresh uniform tape and returns the tape.
func WithSeed(seed uint64, f func()) *Tape {
	t := NewTape(seed)
	With(t, f)
	return t
}

// SteerBig writes v, big-endian, into a read of any length (modulo its size).
func SteerBig(buf []byte, v *big.Int) {
	m := new(big.Int).Lsh(big.NewInt(1), uint(8*len(buf)))
	m.Mod(v, m)
	m.FillBytes(buf)
}

// DetInt derives a number below max from a seed and a label.
func DetInt(seed uint64, label string, max *big.Int) *big.Int {
	n := max.BitLen()/8 + 17
	out := make([]byte, 0, n+32)
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", seed, label, i)))
		out = append(out, h[:]...)
	}
	v := new(big.Int).SetBytes(out[:n])
	return v.Mod(v, max)
}

// Stream is a source of randomness that is a fixed sequence of bytes, handed
// out in pieces as a real source may do, and that may fail for good at some
// point.
type Stream struct {
	mu   sync.Mutex
	seed uint64
	pos  int
	n    int
	// FailAt is the number of bytes after which the source fails; negative
	// for never.
	FailAt int
	// Chunk, when set, is the largest number of bytes the i-th read gives.
	Chunk func(i int) int
	// Failures counts the failed reads.
	Failures int
	// Foreign is set when a read came from another goroutine than the one
	// that made the source.
	Foreign bool
	owner   string
	// Fatal is set when a read was made through rand.Read, which ends the
	// program when the source fails.
	Fatal bool
	// Late makes the source report its failure together with the last bytes.
	Late bool
}

// StreamFailed is what a failed source reports.
var StreamFailed = errors.New("the source of randomness failed")

func NewStream(seed uint64) *Stream { return &Stream{seed: seed, FailAt: -1, owner: goid()} }

func (s *Stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.n > 200000 || s.Failures > 2000 {
		panic(TapeLimit{s.n})
	}
	if len(p) == 0 {
		return 0, nil
	}
	if !s.Foreign && goid() != s.owner {
		s.Foreign = true
	}
	if !s.Fatal {
		s.Fatal = underRandRead()
	}
	k := len(p)
	if s.Chunk != nil {
		k = min(k, max(1, s.Chunk(s.n)))
	}
	s.n++
	if s.FailAt >= 0 && s.pos+k >= s.FailAt {
		k = s.FailAt - s.pos
		if k == 0 {
			s.Failures++
			return 0, StreamFailed
		}
	}
	var blk [32]byte
	for i := 0; i < k; i++ {
		at := s.pos + i
		if i == 0 || at%32 == 0 {
			fill(blk[:], s.seed, uint64(at/32))
		}
		p[i] = blk[at%32]
	}
	s.pos += k
	if s.Late && s.pos == s.FailAt {
		s.Failures++
		return k, StreamFailed
	}
	return k, nil
}

// Used is the number of bytes handed out.
func (s *Stream) Used() int { return s.pos }

// Caught runs f and tells what it panicked with, if it did.
func Caught(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func underRandRead() bool {
	var pc [24]uintptr
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc[:])])
	for {
		f, more := fr.Next()
		if f.Function == "crypto/rand.Read" {
			return true
		}
		if !more {
			return false
		}
	}
}

// Edge draws a value that is special as a scalar or as a string of bytes: an
// end of the range below n, a power of two or its neighbours, a value with
// leading zero bytes or with a run of equal bytes.
func Edge(rt *rapid.T, n *big.Int) *big.Int {
	bits := n.BitLen()
	switch Pick(rt, 6, "edge") {
	case 0:
		return I(0)
	case 1:
		return I(1)
	case 2:
		return new(big.Int).Sub(n, I(1))
	case 3:
		v := new(big.Int).Lsh(I(1), uint(Pick(rt, bits, "edgeBit")))
		return v.Add(v, I(int64(Pick(rt, 3, "edgeBy")-1)))
	case 4:
		return new(big.Int).Rsh(n, uint(8*(1+Pick(rt, bits/8, "edgeBytes"))))
	default:
		v := new(big.Int).Sub(n, I(2))
		return v.Rsh(v, 1)
	}
}

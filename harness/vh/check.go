package vh

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Evidence is what one test process covered.
type Evidence struct {
	Test        string            `json:"test"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Labels      map[string]int    `json:"labels"`
	Vacuous     map[string]int    `json:"vacuous"`
	Digests     map[string]string `json:"digests"`
	Samples     []string          `json:"samples"`
	Hashes      []string          `json:"hashes"`
	MaxCaseCPU  float64           `json:"max_case_cpu"`

	mu     sync.Mutex
	hashes map[uint64]struct{}
	shard  int
}

// Case is one generated case.
type Case struct{ ev *Evidence }

// Label counts cases by kind.
func (c *Case) Label(format string, a ...any) {
	c.ev.mu.Lock()
	c.ev.Labels[fmt.Sprintf(format, a...)]++
	c.ev.mu.Unlock()
}

// Vacuous records that a check could not be applied to a case.
func (c *Case) Vacuous(format string, a ...any) {
	c.ev.mu.Lock()
	c.ev.Vacuous[fmt.Sprintf(format, a...)]++
	c.ev.mu.Unlock()
}

// NonTrivial records a case that is non-trivial by the test's rule; the key
// identifies it, so that repetitions are not counted.
func (c *Case) NonTrivial(key ...any) {
	h := sha256.Sum256([]byte(c.ev.Test + fmt.Sprintln(key...)))
	c.ev.mu.Lock()
	defer c.ev.mu.Unlock()
	c.ev.hashes[binary.BigEndian.Uint64(h[:8])] = struct{}{}
	if n := len(c.ev.hashes); len(c.ev.Samples) < 3 && (n == 1 || n == 7 || n == 40) {
		s := strings.TrimSpace(fmt.Sprintln(key...))
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.ev.Samples = append(c.ev.Samples, s)
	}
}

// Digest records a value that every process of this run must agree on.
func (c *Case) Digest(name, value string) {
	c.ev.mu.Lock()
	c.ev.Digests[name] = value
	c.ev.mu.Unlock()
}

func (e *Evidence) flush() {
	dir := os.Getenv("VERIF_EV")
	if dir == "" {
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.Hashes = e.Hashes[:0]
	for h := range e.hashes {
		e.Hashes = append(e.Hashes, strconv.FormatUint(h, 36))
	}
	sort.Strings(e.Hashes)
	b, _ := json.Marshal(e)
	_ = os.WriteFile(filepath.Join(dir, fmt.Sprintf("%s-%d.json", e.Test, e.shard)), b, 0o644)
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Thorough tells whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Tier picks a number by tier.
func Tier(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Seed is the seed of this process: it depends on VERIF_SEED, the test and
// the shard.
func Seed(test string) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%s/%d", os.Getenv("VERIF_SEED"), test, envInt("VERIF_SHARD", 0))))
	return binary.BigEndian.Uint64(h[:8])>>1 | 1
}

// Shard returns the index of this process among those running the same test,
// and their number.
func Shard() (int, int) {
	n := envInt("VERIF_SHARDS", 1)
	if n < 1 {
		n = 1
	}
	return envInt("VERIF_SHARD", 0), n
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// caseCPULimit bounds one case, in seconds of processor time of the whole
// process (garbage collection included); the slowest cases need about five.
const caseCPULimit = 120

func newEvidence(t *testing.T, rule string) (*Evidence, func() func()) {
	shard, _ := Shard()
	ev := &Evidence{Test: t.Name(), Rule: rule, Labels: map[string]int{}, Vacuous: map[string]int{},
		Digests: map[string]string{}, hashes: map[uint64]struct{}{}, shard: shard}
	t.Cleanup(ev.flush)
	var mu sync.Mutex
	started := -1.0
	done := make(chan struct{})
	t.Cleanup(func() { close(done) })
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
			}
			mu.Lock()
			s := started
			mu.Unlock()
			if s >= 0 && cpuSeconds()-s > caseCPULimit {
				ev.flush()
				fmt.Printf("WATCHDOG: a case of %s has used %d s of processor time: the operation does not terminate\n", ev.Test, caseCPULimit)
				os.Exit(3)
			}
		}
	}()
	return ev, func() func() {
		mu.Lock()
		started = cpuSeconds()
		mu.Unlock()
		return func() {
			mu.Lock()
			d := cpuSeconds() - started
			started = -1
			mu.Unlock()
			ev.mu.Lock()
			ev.MaxCaseCPU = max(ev.MaxCaseCPU, d)
			ev.mu.Unlock()
		}
	}
}

// Check runs a property over generated cases. The counts are totals over all
// shards.
func Check(t *testing.T, quick, thorough int, rule string, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	_, shards := Shard()
	total := Tier(quick, thorough)
	if pct := envInt("VERIF_SCALE_PCT", 100); pct != 100 {
		total = total*pct/100 + 1
	}
	checks := (total + shards - 1) / shards
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			t.Fatalf("harness: %v", err)
		}
	}
	set("rapid.checks", strconv.Itoa(checks))
	set("rapid.seed", strconv.FormatUint(Seed(t.Name()), 10))
	set("rapid.shrinktime", os.Getenv("VERIF_SHRINK"))
	ev, enter := newEvidence(t, rule)
	c := &Case{ev}
	rapid.Check(t, func(rt *rapid.T) {
		leave := enter()
		defer leave()
		prop(rt, c)
		ev.mu.Lock()
		ev.Evaluations++
		ev.mu.Unlock()
	})
}

// Seed64 draws the seed of a randomness tape. It does not shrink towards
// special values, it is only a name for a tape.
func Seed64(rt *rapid.T, label string) uint64 {
	return rapid.Uint64().Draw(rt, label)
}

// Pick draws a uniform index below n (the library's own integer generators
// favour small numbers). It shrinks towards 0.
func Pick(rt *rapid.T, n int, label string) int {
	bits := 6
	for 1<<bits < 32*n {
		bits++
	}
	return rapid.Custom(func(t *rapid.T) int {
		v := 0
		for i := 0; i < bits; i++ {
			v <<= 1
			if rapid.Bool().Draw(t, "bit") {
				v |= 1
			}
		}
		return v % n
	}).Draw(rt, label)
}

// OneOf draws one of the items uniformly.
func OneOf[T any](rt *rapid.T, label string, items []T) T {
	return items[Pick(rt, len(items), label)]
}

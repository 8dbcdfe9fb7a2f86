// Package zzhlib is the reporting side of the bounded harnesses (laid over the tree, never committed there).
package zzhlib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"time"

	"reduction.dev/reduction/zzyield"
)

type R struct {
	t        *testing.T
	mu       sync.Mutex
	f        *os.File
	Rng      *rand.Rand
	deadline time.Time
	Thorough bool
	n        int
	seen     map[uint64]bool
	samples  int
	fails    map[string]int
	cur      string
	hang     *time.Timer
	drng     *rand.Rand
}

// Delays lets every later case delay goroutines of the code under test (where delay points are laid over the tree).
func (r *R) Delays() { r.drng = rand.New(rand.NewSource(r.Rng.Int63())) }


func Start(t *testing.T) *R {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	b, err := strconv.ParseFloat(os.Getenv("GVC_BUDGET"), 64)
	if err != nil {
		b = 10
	}
	r := &R{t: t, Rng: rand.New(rand.NewSource(seed*1000003 + 17)), deadline: time.Now().Add(time.Duration(b * float64(time.Second))),
		Thorough: os.Getenv("GVC_TIER") == "thorough", seen: map[uint64]bool{}, fails: map[string]int{}}
	if p := os.Getenv("GVC_OUT"); p != "" {
		r.f, _ = os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	}
	return r
}

// Share divides the remaining budget: Sub(2) gives half of it.
func (r *R) Sub(n int) time.Time { return time.Now().Add(time.Until(r.deadline) / time.Duration(n)) }
func (r *R) Left() bool          { return time.Now().Before(r.deadline) && r.nfail() < 6 }
func (r *R) nfail() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, k := range r.fails {
		n += k
	}
	return n
}
func (r *R) emit(m map[string]any) {
	b, _ := json.Marshal(m)
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.f != nil {
		r.f.Write(append(b, '\n'))
	} else if m["t"] != "case" {
		fmt.Println(string(b))
	}
}

// Case announces the case about to run (so a crash can be attributed) and counts it.
func (r *R) Case(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if r.drng != nil {
		s += "; " + zzyield.Plan(r.drng)
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	r.mu.Lock()
	r.cur = s
	r.n++
	r.seen[h.Sum64()] = true
	smp := r.samples < 3
	if smp {
		r.samples++
	}
	r.mu.Unlock()
	if smp {
		x := s
		if len(x) > 400 {
			x = x[:400] + "..."
		}
		r.emit(map[string]any{"t": "sample", "v": x})
	}
}

// Fail reports that the property does not hold for the current case.
func (r *R) Fail(key, format string, a ...any) {
	r.mu.Lock()
	r.fails[key]++
	n := r.fails[key]
	c := r.cur
	r.mu.Unlock()
	if n > 2 {
		return
	}
	if len(c) > 4000 {
		c = c[:4000]
	}
	r.emit(map[string]any{"t": "violation", "key": key, "what": fmt.Sprintf(format, a...), "case": c})
	r.t.Fail()
}
func (r *R) Failed() bool { return r.nfail() > 0 }

// Try runs f and returns what it panicked with.
func Try(f func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	f()
	return nil
}

// Guard runs f; a panic of the code under test is a failure of the current case.
func (r *R) Guard(key string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if len(st) > 2500 {
				st = st[:2500]
			}
			r.Fail(key, "panic: %v\n%s", p, st)
			ok = false
		}
	}()
	f()
	return true
}

// Within runs f in a goroutine and reports a failure when it does not finish in d.
func (r *R) Within(key string, d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		r.Guard(key, f)
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		r.Fail(key, "no progress within %v", d)
		return false
	}
}
func (r *R) Done() {
	r.emit(map[string]any{"t": "count", "n": r.n, "distinct": len(r.seen)})
	r.emit(map[string]any{"t": "done"})
}

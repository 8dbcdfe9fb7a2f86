package zzverif

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"sync"
	"testing"
	"time"

	"reduction.dev/reduction/batching"
	hl "reduction.dev/reduction/zzhlib"
)

// capTimer hands the callbacks to the harness, which fires them when it likes (also late ones).
type capTimer struct {
	mu    sync.Mutex
	cbs   []func()
	live  func()
	stops int
}

func (t *capTimer) Set(d time.Duration, do func()) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.cbs = append(t.cbs, do)
	t.live = do
}
func (t *capTimer) Stop() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.live = nil
	t.stops++
}
func (t *capTimer) last() func() {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.live
}
func (t *capTimer) any(i int) func() {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.cbs) == 0 {
		return nil
	}
	return t.cbs[i%len(t.cbs)]
}

func TestVerifBatching(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	parts := []func(*hl.R, time.Time){batcherSeq, batcherConc, fetcherStale, fetcherErr, fetcherSys, fetcherRace}
	for i, f := range parts {
		if i == 1 {
			r.Delays()
		}
		f(r, r.Sub(len(parts)-i))
	}
}

// one goroutine: every operation against a model
func batcherSeq(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		max := 1 + r.Rng.Intn(5)
		delay := time.Duration(0)
		if r.Rng.Intn(3) > 0 {
			delay = time.Second
		}
		ctx, cancel := context.WithCancel(context.Background())
		tm := &capTimer{}
		b := batching.NewEventBatcher[int](ctx, batching.EventBatcherParams{MaxDelay: delay, MaxSize: max, Timer: tm})
		type tok struct {
			t   batching.BatchToken
			gen int
		}
		var toks []tok
		gen, next := 0, 0
		var cur, out []int
		var ops []string
		cbGen := map[int]int{}
		ncb := 0
		check := func(got []int, want []int, what string) {
			if !slices.Equal(got, want) {
				r.Fail("batcher", "%s returned %v want %v after %v", what, got, want, ops)
			}
			out = append(out, got...)
		}
		r.Case("batcher max %d delay %v, history %d", max, delay, r.Rng.Int())
		r.Within("batcher", 20*time.Second, func() {
			for i, n := 0, 1+r.Rng.Intn(40); i < n && !r.Failed(); i++ {
				switch r.Rng.Intn(6) {
				case 0, 1, 2:
					b.Add(next)
					ops = append(ops, fmt.Sprint("add ", next))
					if len(cur) == 0 {
						tm.mu.Lock()
						if len(tm.cbs) > ncb {
							ncb = len(tm.cbs)
							cbGen[ncb-1] = gen
						} else if delay > 0 {
							r.Fail("batcher", "no time-out armed for a new batch after %v", ops)
						}
						tm.mu.Unlock()
					}
					cur = append(cur, next)
					next++
				case 3: // fire some callback, keep the token
					if ncb == 0 {
						continue
					}
					k := r.Rng.Intn(ncb)
					go tm.cbs[k]()
					tk := <-b.BatchTimedOut
					toks = append(toks, tok{tk, cbGen[k]})
					ops = append(ops, fmt.Sprint("token of batch ", cbGen[k]))
				case 4:
					ops = append(ops, "flush")
					check(b.Flush(batching.CurrentBatch), cur, "Flush(current)")
					if len(cur) > 0 {
						gen++
					}
					cur = nil
				case 5:
					if len(toks) == 0 {
						continue
					}
					tk := toks[r.Rng.Intn(len(toks))]
					ops = append(ops, fmt.Sprint("flush token of batch ", tk.gen))
					if tk.gen == gen {
						check(b.Flush(tk.t), cur, "Flush(token)")
						if len(cur) > 0 {
							gen++
						}
						cur = nil
					} else {
						check(b.Flush(tk.t), nil, "Flush(stale token)")
					}
				}
				if f := b.IsFull(); f != (len(cur) >= max) {
					r.Fail("batcher", "IsFull=%v with %d of %d after %v", f, len(cur), max, ops)
				}
			}
			out = append(out, b.Flush(batching.CurrentBatch)...)
			if len(out) != next || !slices.IsSorted(out) {
				r.Fail("batcher", "batches concatenate to %v, added 0..%d; %v", out, next-1, ops)
			}
		})
		cancel()
	}
}

// adder and flushers on different goroutines
func batcherConc(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		n := 200 + r.Rng.Intn(400)
		max := 1 + r.Rng.Intn(4)
		ctx, cancel := context.WithCancel(context.Background())
		b := batching.NewEventBatcher[int](ctx, batching.EventBatcherParams{MaxDelay: time.Duration(1+r.Rng.Intn(40)) * time.Microsecond, MaxSize: max})
		r.Case("concurrent batcher n=%d max=%d %d", n, max, r.Rng.Int())
		var mu sync.Mutex
		var out []int // appended under the same lock as the flush, as callers that keep order must
		flush := func(t batching.BatchToken) {
			mu.Lock()
			out = append(out, b.Flush(t)...)
			mu.Unlock()
		}
		done := make(chan struct{})
		go func() {
			for {
				select {
				case t := <-b.BatchTimedOut:
					flush(t)
				case <-done:
					return
				}
			}
		}()
		ok := r.Within("batcher-concurrent", 20*time.Second, func() {
			for i := 0; i < n; i++ {
				b.Add(i)
				if b.IsFull() {
					flush(batching.CurrentBatch)
				}
				if i%17 == 0 {
					time.Sleep(30 * time.Microsecond)
				}
			}
		})
		flush(batching.CurrentBatch)
		close(done)
		cancel()
		if !ok {
			return
		}
		mu.Lock()
		if len(out) != n || !slices.IsSorted(out) {
			r.Fail("batcher-concurrent", "%d items out for %d in, sorted %v", len(out), n, slices.IsSorted(out))
		}
		mu.Unlock()
	}
}

// a time-out of a batch already flushed must leave the next batch alone
func fetcherStale(r *hl.R, until time.Time) {
	for i := 0; i < 12 && time.Now().Before(until) && r.Left(); i++ {
		ctx, cancel := context.WithCancel(context.Background())
		tm := &capTimer{}
		r.Case("stale time-out %d", i)
		var mu sync.Mutex
		var fetched [][]int
		rf := batching.NewReorderFetcher(ctx, batching.NewReorderFetcherParams[int, int]{
			Batcher: batching.NewEventBatcher[int](ctx, batching.EventBatcherParams{MaxDelay: time.Hour, MaxSize: 2, Timer: tm}),
			FetchBatch: func(_ context.Context, e []int) ([]int, error) {
				mu.Lock()
				fetched = append(fetched, slices.Clone(e))
				mu.Unlock()
				return e, nil
			},
			BufferSize: 4, ErrChan: make(chan error, 8)})
		r.Within("fetcher-stale", 20*time.Second, func() {
			rf.Add(ctx, 0)
			stale := tm.any(0)
			if stale == nil {
				r.Fail("fetcher-stale", "no time-out armed")
				return
			}
			rf.Add(ctx, 1) // full: flushed by size
			<-rf.Output
			<-rf.Output
			rf.Add(ctx, 2)
			stale() // the late callback of the first batch
			select {
			case v := <-rf.Output:
				r.Fail("fetcher-stale", "the time-out of the flushed first batch flushed %d of the next batch", v)
			case <-time.After(15 * time.Millisecond):
			}
			if l := tm.last(); l != nil {
				l()
				if v := <-rf.Output; v != 2 {
					r.Fail("fetcher-stale", "got %d want 2", v)
				}
			}
		})
		cancel()
	}
}

// nothing is emitted in place of the results of a failed fetch
func fetcherErr(r *hl.R, until time.Time) {
	for i := 0; i < 40 && time.Now().Before(until) && r.Left(); i++ {
		ctx, cancel := context.WithCancel(context.Background())
		bad := 2 * (1 + r.Rng.Intn(6))
		r.Case("fetch of batch starting at %d fails (%d)", bad, i)
		ec := make(chan error, 32)
		rf := batching.NewReorderFetcher(ctx, batching.NewReorderFetcherParams[int, int]{
			Batcher: batching.NewEventBatcher[int](ctx, batching.EventBatcherParams{MaxDelay: time.Hour, MaxSize: 2}),
			FetchBatch: func(_ context.Context, e []int) ([]int, error) {
				if e[0] == bad {
					return nil, errors.New("fetch failed")
				}
				return e, nil
			},
			BufferSize: 32, ErrChan: ec})
		r.Within("fetcher-error", 20*time.Second, func() {
			for j := 0; j < 20; j++ {
				rf.Add(ctx, j)
			}
			for j := 0; j < bad; j++ {
				if v := <-rf.Output; v != j {
					r.Fail("fetcher-error", "result %d is %d", j, v)
					return
				}
			}
			select {
			case v := <-rf.Output:
				r.Fail("fetcher-error", "result %d emitted in the place of input %d whose fetch failed", v, bad)
			case <-time.After(3 * time.Millisecond):
			}
			if len(ec) != 1 {
				r.Fail("fetcher-error", "%d errors reported", len(ec))
			}
		})
		cancel()
	}
}

func runFetcher(r *hl.R, key string, n, max, buf int, tm *capTimer, delay time.Duration, work func(first int), fire func(done chan struct{})) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	p := batching.EventBatcherParams{MaxDelay: delay, MaxSize: max}
	if tm != nil {
		p.Timer = tm
	}
	rf := batching.NewReorderFetcher(ctx, batching.NewReorderFetcherParams[int, int]{
		Batcher: batching.NewEventBatcher[int](ctx, p),
		FetchBatch: func(_ context.Context, e []int) ([]int, error) {
			work(e[0])
			return e, nil
		},
		BufferSize: buf, ErrChan: make(chan error, 8)})
	done := make(chan struct{})
	if fire != nil {
		go fire(done)
	}
	defer close(done)
	var out []int
	r.Within(key, 20*time.Second, func() {
		fin := make(chan struct{})
		go func() {
			for len(out) < n {
				out = append(out, <-rf.Output)
			}
			close(fin)
		}()
		for i := 0; i < n; i++ {
			rf.Add(ctx, i)
		}
		rf.Flush(ctx)
		<-fin
		if !slices.IsSorted(out) || out[0] != 0 || out[n-1] != n-1 {
			for i, v := range out {
				if v != i {
					r.Fail(key, "output %d is %d (max %d, buffer %d)", i, v, max, buf)
					break
				}
			}
		}
		select {
		case v := <-rf.Output:
			r.Fail(key, "extra result %d", v)
		default:
		}
	})
}

func fetcherSys(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		n, max, buf := 100+r.Rng.Intn(300), 1+r.Rng.Intn(5), r.Rng.Intn(9)
		d := time.Duration(1+r.Rng.Intn(60)) * time.Microsecond
		r.Case("fetcher n=%d max=%d buffer=%d delay=%v #%d", n, max, buf, d, r.Rng.Int())
		m := uint32(r.Rng.Int31())
		runFetcher(r, "fetcher", n, max, buf, nil, d, func(first int) {
			h := (uint32(first) * 2654435761) ^ m
			if h%3 == 0 {
				time.Sleep(time.Duration(h%97) * time.Microsecond)
			} else if h%3 == 1 {
				runtime.Gosched()
			}
		}, nil)
	}
}

// the size flusher and the time-out flusher take consecutive batches at the same time
func fetcherRace(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		n := 20000
		max, buf := 1+r.Rng.Intn(3), 1+r.Rng.Intn(32)
		r.Case("fetcher race n=%d max=%d buffer=%d #%d", n, max, buf, r.Rng.Int())
		tm := &capTimer{}
		runFetcher(r, "fetcher-race", n, max, buf, tm, time.Hour, func(int) {}, func(done chan struct{}) {
			for {
				select {
				case <-done:
					return
				default:
					if l := tm.last(); l != nil {
						l()
					}
				}
			}
		})
	}
}

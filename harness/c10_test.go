package zzverif

import (
	"bytes"
	"fmt"
	"maps"
	"math"
	"math/rand"
	"slices"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/util/binu"
	"reduction.dev/reduction/util/ds"
	"reduction.dev/reduction/workers/operator"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifTimers(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	timeBytes(r, r.Sub(12))
	sortedCache(r, r.Sub(8))
	timerRuns(r, r.Sub(1))
}

// encoded times keep their order and are read back
func timeBytes(r *hl.R, until time.Time) {
	ns := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 62, -(1 << 62), 255, 256, -256, 1e9, -1e9}
	for n := 0; time.Now().Before(until) && r.Left(); n++ {
		a, b := ns[r.Rng.Intn(len(ns))], ns[r.Rng.Intn(len(ns))]
		if n%3 > 0 {
			a, b = int64(r.Rng.Uint64())>>r.Rng.Intn(64), int64(r.Rng.Uint64())>>r.Rng.Intn(64)
		}
		r.Case("times %d %d", a, b)
		var x, y [8]byte
		binu.PutTimeBytes(x[:], time.Unix(0, a))
		binu.PutTimeBytes(y[:], time.Unix(0, b))
		if got := binu.TimeFromBytes(x[:]); got.UnixNano() != a {
			r.Fail("timebytes", "time %d encodes to %x, which reads back as %d", a, x, got.UnixNano())
		}
		if c := bytes.Compare(x[:], y[:]); (c < 0) != (a < b) || (c > 0) != (a > b) {
			r.Fail("timebytes", "times %d and %d encode to %x and %x, which sort differently", a, b, x, y)
		}
	}
}

// the bounded sorted cache is a sorted set whose fullness is the sum of its entries' sizes
func sortedCache(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		rng := r.Rng
		limit := uint64(rng.Intn(40))
		r.Case("sorted cache of %d bytes", limit)
		c := ds.NewSortedCache(limit)
		m := map[string]bool{}
		var hist []string
		r.Guard("cache", func() {
			for range 60 {
				k := hkey(rng, 4)
				sorted := slices.Sorted(maps.Keys(m))
				bad := func(f string, a ...any) {
					r.Fail("cache", "%s; history: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
				}
				switch rng.Intn(8) {
				case 0, 1, 2:
					hist = append(hist, fmt.Sprintf("push %q", k))
					c.Push(k)
					m[string(k)] = true
				case 3:
					hist = append(hist, fmt.Sprintf("delete %q", k))
					c.Delete(k)
					delete(m, string(k))
				case 4:
					hist = append(hist, "pop")
					v, ok := c.Pop()
					if ok != (len(m) > 0) || ok && string(v) != sorted[0] {
						bad("Pop = %q %v, contents %q", v, ok, sorted)
						return
					}
					if ok {
						delete(m, sorted[0])
					}
				case 5:
					hist = append(hist, "popLast")
					v, ok := c.PopLast()
					if ok != (len(m) > 0) || ok && string(v) != sorted[len(sorted)-1] {
						bad("PopLast = %q %v, contents %q", v, ok, sorted)
						return
					}
					if ok {
						delete(m, string(v))
					}
				default:
					v, ok := c.Peek()
					if ok != (len(m) > 0) || ok && string(v) != sorted[0] {
						bad("Peek = %q %v, contents %q", v, ok, sorted)
						return
					}
				}
				var sz uint64
				for k := range m {
					sz += uint64(len(k))
				}
				if c.IsEmpty() != (len(m) == 0) || c.IsFull() != (sz >= limit) {
					bad("IsEmpty %v IsFull %v with %d entries of %d bytes, limit %d", c.IsEmpty(), c.IsFull(), len(m), sz, limit)
					return
				}
			}
		})
	}
}

type timerKey struct {
	t int64
	k string
}

func timerRuns(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		h := newHFS(seed)
		o, desc := dbOpts(rng, h)
		if rng.Intn(2) == 0 {
			o.MemTableSize = 1 << 20
		}
		g := []int{1, 1, 2, 3, 8, 64}[rng.Intn(6)]
		cache := []int{0, 1, 20, 60, 100, 200, 400, 1 << 20}[rng.Intn(8)] * []int{1, g}[rng.Intn(2)]
		srcs := 1 + rng.Intn(3)
		r.Case("timers: %s, %d key groups, cache %d, %d upstreams, seed %d", desc, g, cache, srcs, seed)
		r.Within("timers", hangLimit, func() { timerRun(r, rng, h, o, g, cache, srcs) })
	}
}

// timerRun drives a TimerRegistry against a set of pending timers.
func timerRun(r *hl.R, rng *rand.Rand, h *hfs, o dkv.DBOptions, g, cache, srcs int) {
	ks := partitioning.NewKeySpace(g, 1)
	var ids []string
	for i := range srcs {
		ids = append(ids, fmt.Sprintf("src%d", i))
	}
	keys := genKeys(rng, 1+rng.Intn(8))
	unit := []int64{1, 256, 1e9, 1e15}[rng.Intn(4)]
	// now and then all times are around or before the epoch
	base := []int64{0, 0, 0, -5, -30}[rng.Intn(5)]
	at := func(x int64) int64 { return (base + x) * unit }
	span := int64(2 + rng.Intn(40))

	pending := map[timerKey]bool{}
	wms := map[string]int64{}
	wm := int64(0)
	var hist []string
	hh := func() string {
		if len(hist) > 80 {
			return fmt.Sprintf("(%d earlier) ", len(hist)-80) + strings.Join(hist[len(hist)-80:], "; ")
		}
		return strings.Join(hist, "; ")
	}
	var db *dkv.DB
	var reg *operator.TimerRegistry
	dir := 0
	open := func(from []recovery.CheckpointHandle) {
		dir++
		oo := o
		oo.FileSystem = h.sub(fmt.Sprintf("d%d", dir))
		db = dkv.Open(oo, from)
		reg = operator.NewTimerRegistry(operator.NewTimerStore(db, ks, partitioning.KeyGroupRange{Start: 0, End: g}, uint64(cache)), slices.Clone(ids))
		wms = map[string]int64{}
		for _, s := range ids {
			wms[s] = 0 // the epoch
		}
		wm = 0
	}
	open(nil)
	set := func(k []byte, t int64) {
		hist = append(hist, fmt.Sprintf("set %q@%d", k, t))
		reg.SetTimer(slices.Clone(k), time.Unix(0, t))
		if t > wm {
			pending[timerKey{t, string(k)}] = true
		}
	}
	advance := func(s string, t int64) {
		hist = append(hist, fmt.Sprintf("%s watermark %d", s, t))
		wms[s] = t
		wm = slices.Min(slices.Collect(maps.Values(wms)))
		last := int64(math.MinInt64)
		for k, ft := range reg.AdvanceWatermark(s, &workerpb.Watermark{Timestamp: timestamppb.New(time.Unix(0, t))}) {
			x := timerKey{ft.UnixNano(), string(k)}
			hist = append(hist, fmt.Sprintf("fired %q@%d", k, x.t))
			switch {
			case x.t > wm:
				r.Fail("timers", "timer %q@%d fired, but the minimum watermark is %d (%v); history: %s", k, x.t, wm, wms, hh())
			case !pending[x]:
				r.Fail("timers", "timer %q@%d fired, but it is not pending (never set, already fired, or fired before the checkpoint); history: %s", k, x.t, hh())
			case x.t < last:
				r.Fail("timers", "timer %q@%d fired after one at %d; history: %s", k, x.t, last, hh())
			}
			if r.Failed() {
				return
			}
			last = x.t
			delete(pending, x)
			// handlers set timers while others are still firing
			if rng.Intn(4) == 0 {
				set(keys[rng.Intn(len(keys))], at(rng.Int63n(span)))
			}
		}
		for x := range pending {
			if x.t <= wm {
				r.Fail("timers", "timer %q@%d did not fire when the minimum watermark reached %d; history: %s", x.k, x.t, wm, hh())
				return
			}
		}
	}
	steps := 30 + rng.Intn(200)
	progress := int64(0)
	for s := 0; s < steps && !r.Failed(); s++ {
		switch x := rng.Intn(20); {
		case x < 12:
			k := keys[rng.Intn(len(keys))]
			t := at(progress + rng.Int63n(span))
			for range 1 + rng.Intn(2)*rng.Intn(5) { // the same one again and again
				set(k, t)
			}
		case x < 17:
			if rng.Intn(3) > 0 {
				progress += rng.Int63n(4)
			}
			advance(ids[rng.Intn(len(ids))], at(progress+rng.Int63n(4)))
		case x == 17:
			hist = append(hist, "wait")
			if err := db.WaitOnTasks(); err != nil {
				r.Fail("timers", "background task: %v; history: %s", err, hh())
			}
		case x == 18 && rng.Intn(3) == 0:
			hd, err := db.Checkpoint(uint64(s + 1))()
			if err != nil {
				r.Fail("timers", "checkpoint: %v; history: %s", err, hh())
				return
			}
			hist = append(hist, "checkpoint")
			saved := maps.Clone(pending)
			mark := len(hist)
			for range rng.Intn(4) { // abandoned
				set(keys[rng.Intn(len(keys))], at(progress+rng.Int63n(span)))
				advance(ids[rng.Intn(len(ids))], at(progress+rng.Int63n(4)))
			}
			db.WaitOnTasks()
			pending = saved
			hist = append(hist[:mark:mark], "restore")
			open([]recovery.CheckpointHandle{hd})
		}
	}
	// in the end everything fires
	for _, s := range ids {
		if !r.Failed() {
			advance(s, at(progress+2*span))
		}
	}
}

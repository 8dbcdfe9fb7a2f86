package zzverif

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	hl "reduction.dev/reduction/zzhlib"
)

// A whole job (real Job, Operators, SourceRunners, databases and snapshot store) whose nodes and whose job die,
// stop, and are replaced at random moments while checkpoints run. Whatever happens, in the end the state of every
// key has to be that of every record applied exactly once and in the order of its split.
func TestVerifCluster(t *testing.T) { clusterTest(t, false) }

// The same, always restoring a savepoint with everything else gone.
func TestVerifClusterSavepoint(t *testing.T) { clusterTest(t, true) }

func clusterTest(t *testing.T, savepoint bool) {
	r := hl.Start(t)
	defer r.Done()
	until := r.Sub(1)
	for time.Now().Before(until) && r.Left() {
		var wg sync.WaitGroup
		for range 8 {
			seed := r.Rng.Int63()
			rng := rand.New(rand.NewSource(seed))
			c := clConf{
				workers: 1 + rng.Intn(3), standby: rng.Intn(2), groups: []int{3, 4, 8, 64}[rng.Intn(4)], records: []int{60, 200, 400}[rng.Intn(3)], keys: 1 + rng.Intn(12),
				srBatch: []int{2, 5, 20}[rng.Intn(3)], opBatch: []int{1, 2, 5, 20}[rng.Intn(4)], delay: []time.Duration{300 * time.Microsecond, 3 * time.Millisecond}[rng.Intn(2)],
				kills: rng.Intn(6), jobKills: rng.Intn(2), ackDelay: []int{0, 500, 8000}[rng.Intn(3)], pause: []int{500, 3000}[rng.Intn(2)],
				savepoint: rng.Intn(3) == 0, workers2: 1 + rng.Intn(3), big: []int{1, 20, 200}[rng.Intn(3)],
			}
			if savepoint {
				c.savepoint, c.kills, c.jobKills, c.records = true, rng.Intn(2), 0, []int{60, 200}[rng.Intn(2)]
			}
			c.splits = max(c.workers, c.workers2) + rng.Intn(3)
			r.Case("cluster: %+v seed %d", c, seed)
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Guard("cluster", func() { clusterRun(r, rng, c, seed) })
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		r.Within("cluster", 5*hangLimit, func() { <-done })
	}
}

func clusterRun(r *hl.R, rng *rand.Rand, c clConf, seed int64) {
	w, err := newCluster(r, rand.New(rand.NewSource(seed+1)), c)
	if err != nil {
		r.Fail("cluster", "%v", err)
		return
	}
	defer w.close()
	defer func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.bad) > 0 {
			tr := w.trace
			r.Fail("cluster", "%s\n%+v seed %d\n%s", strings.Join(w.bad, "\n"), c, seed, strings.Join(tr[max(0, len(tr)-50):], "; "))
		}
	}()
	if err := w.startJob(c.workers, ""); err != nil {
		w.fail("starting the job: %v", err)
		return
	}
	w.fill(c.workers)
	w.register()

	// failures at random moments
	kills, jobKills := c.kills, c.jobKills
	for t0 := time.Now(); !w.failed() && time.Since(t0) < 3*time.Second && (!w.allApplied() || kills > 0); {
		time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
		switch x := rng.Intn(10); {
		case x < 4:
			w.checkpoint()
		case x < 6:
			w.fill(c.workers)
			w.register()
		case x < 7:
			w.expire()
		case x < 9 && kills > 0 && rng.Intn(3) == 0:
			kills--
			if ns := w.live(rng.Intn(2) == 0); len(ns) > 0 {
				w.kill(ns[rng.Intn(len(ns))], []string{"kill", "kill", "stop"}[rng.Intn(3)])
			}
		case x == 9 && jobKills > 0 && rng.Intn(4) == 0:
			jobKills--
			w.killJob()
			if rng.Intn(2) == 0 {
				for _, op := range []bool{true, false} {
					for _, n := range w.live(op) {
						w.kill(n, "kill")
					}
				}
			}
			if err := w.startJob(c.workers, ""); err != nil {
				w.fail("restarting the job: %v", err)
				return
			}
			w.fill(c.workers)
			w.register()
		}
	}
	if !w.until("all records are applied", c.workers, w.allApplied, w.checkpoint) {
		return
	}
	// a checkpoint which is published after everything was applied
	from := w.newest()
	if !w.until("a checkpoint completes while nothing fails", c.workers, func() bool { return w.newest() > from }, w.checkpoint) {
		return
	}

	// restart from it, or from a savepoint, with another number of workers
	uri := ""
	if c.savepoint {
		var id uint64
		last := fmt.Errorf("not requested")
		if !w.until("savepoint", c.workers, func() bool { return last == nil }, func() {
			if id == 0 {
				id, last = w.current().HandleCreateSavepoint(context.Background())
				if last != nil {
					id = 0
					return
				}
				last = fmt.Errorf("not finished")
				return
			}
			uri, last = w.current().HandleGetSavepointURI(context.Background(), id)
			if last == nil && uri == "" {
				last = fmt.Errorf("not finished")
			}
			if rng.Intn(4) == 0 {
				w.checkpoint()
			}
		}) {
			w.fail("savepoint %d: %v", id, last)
			return
		}
		w.note("savepoint %d at %s", id, uri)
	}
	for _, op := range []bool{true, false} {
		for _, n := range w.live(op) {
			w.kill(n, "kill")
		}
	}
	w.killJob()
	if uri != "" && w.quiet() { // the savepoint has to be enough
		for range 3 { // killed processes don't delete anything later
			runtime.GC()
			time.Sleep(20 * time.Millisecond)
		}
		for _, d := range []string{"work", "checkpoints"} {
			os.Rename(filepath.Join(w.dir, d), filepath.Join(w.dir, d+".gone"))
		}
	}
	if err := w.startJob(c.workers2, uri); err != nil {
		w.fail("restarting the job with %d workers from %q: %v", c.workers2, uri, err)
		return
	}
	w.probes.Store(true)
	w.until("the state of every key is that of all its records", c.workers2, w.allProbed, w.checkpoint)
}

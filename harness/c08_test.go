package zzverif

import (
	"fmt"
	"maps"
	"math/rand"
	"runtime"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifCheckpoints(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	smallCkpt(r, r.Sub(4))
	r.Delays()
	chains(r, r.Sub(1))
}

// restored is a database opened from the handle; the caller says how it relates to the storage.
func reopen(r *hl.R, fs *hfs, o dkv.DBOptions, c *ckpt, keys [][]byte, hist []string, key string) *dbm {
	o.FileSystem = fs
	d := &dbm{r: r, m: maps.Clone(c.m), key: key, keys: keys, vmax: 12, ops: slices.Clone(hist), fs: fs, base: c}
	d.note("open from checkpoint %d", c.id)
	err := hl.Try(func() { d.db = dkv.Open(o, []recovery.CheckpointHandle{c.h}) })
	if err != nil {
		r.Fail(key, "opening checkpoint %d: %v; history: %s", c.id, err, d.hist())
		return nil
	}
	return d
}

// check opens a checkpoint and compares all of its contents.
func checkCkpt(r *hl.R, fs *hfs, o dkv.DBOptions, c *ckpt, keys [][]byte, hist []string, when string) *dbm {
	d := reopen(r, fs, o, c, keys, hist, "restore")
	if d == nil {
		return nil
	}
	d.all("of the database restored from checkpoint " + fmt.Sprint(c.id) + " " + when)
	return d
}

// all short histories: writes, a checkpoint somewhere, later writes, restore
func smallCkpt(r *hl.R, until time.Time) {
	for n := 1; n <= 5; n++ {
		for c := 0; c < 1<<(2*n) && time.Now().Before(until) && r.Left(); c++ {
			for at := 0; at <= n; at++ {
				fs := newHFS(int64(c))
				if c%5 == 0 {
					fs.delay = 100 * time.Microsecond
				}
				o := dkv.DBOptions{FileSystem: fs, MemTableSize: uint64([]int{1, 35, 1 << 20}[c%3]), TargetFileSize: 30, MaxWALSize: uint64([]int{1 << 20, 20}[n%2]), L0TableNumCompactionTrigger: 1 + c%2, DataOwnership: keepFiles{}}
				d := &dbm{r: r, db: dkv.Open(o, nil), m: map[string]string{}, key: "restore", keys: [][]byte{{'k'}, {'k', 'l'}}, fs: fs}
				r.Case("history %d of length %d, checkpoint before write %d", c, n, at)
				r.Within("restore", hangLimit, func() {
					var ck, ck2 *ckpt
					for i := 0; i <= n; i++ {
						if i == at {
							ck = d.checkpoint(1)
						}
						if i == at+2 {
							ck2 = d.checkpoint(2)
						}
						if i == n {
							break
						}
						k := d.keys[c>>(2*i)&1]
						if c>>(2*i+1)&1 == 0 {
							v := []byte{byte('0' + i)}
							d.db.Put(k, v)
							d.m[string(k)] = string(v)
							d.note("put %q=%x", k, v)
						} else {
							d.db.Delete(k)
							delete(d.m, string(k))
							d.note("del %q", k)
						}
					}
					for _, ck := range []*ckpt{ck, ck2} {
						if ck == nil || !ck.finish(d) {
							continue
						}
						e := checkCkpt(r, fs.crash(), o, ck, d.keys, d.ops, "at once")
						if e == nil {
							continue
						}
						e.step()
						c3 := e.checkpoint(7)
						if c3.finish(e) {
							checkCkpt(r, e.fs.crash(), o, c3, d.keys, e.ops, "after one more write")
						}
					}
					d.wait()
					d.all("of the original database")
					runtime.KeepAlive(d.db)
				})
			}
		}
	}
}

// one world: a storage shared by a chain of databases
type world struct {
	fs   *hfs
	ck   []*ckpt // retained, restorable
	live []*dbm  // databases that may still run
	dirs int
	id   uint64
	mu   sync.Mutex
	snap []capture
	rng  *rand.Rand
	left int
}
type capture struct {
	fs *hfs
	ck []*ckpt
	op string
}

// hook makes copies of the storage right after storage operations.
func (w *world) hook() {
	h := func(op string) func(string) {
		return func(p string) {
			w.mu.Lock()
			defer w.mu.Unlock()
			if len(w.ck) > 0 && w.left > 0 && w.rng.Intn(6) == 0 {
				w.left--
				w.snap = append(w.snap, capture{w.fs.crash(), slices.Clone(w.ck), op + " " + p})
			}
		}
	}
	w.fs.onSave, w.fs.onDel = h("save of"), h("removal of")
}
func (w *world) set(f func()) {
	w.mu.Lock()
	defer w.mu.Unlock()
	f()
}

func chains(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		fs := newHFS(seed)
		fs.delay = time.Duration(rng.Intn(3)) * 150 * time.Microsecond
		fs.rdelay = time.Duration(rng.Intn(2)) * 100 * time.Microsecond
		o, desc := dbOpts(rng, fs)
		if rng.Intn(3) == 0 {
			o.MemTableSize = 1 << 20
			desc += " big memtable"
		}
		w := &world{fs: fs, id: uint64(rng.Intn(3)), rng: rand.New(rand.NewSource(seed + 1)), left: 6}
		w.hook()
		keys := genKeys(rng, 2+rng.Intn(12))
		r.Case("chain: %s, seed %d", desc, seed)
		r.Within("restore", hangLimit, func() {
			d := &dbm{r: r, db: dkv.Open(o, nil), m: map[string]string{}, key: "restore", keys: keys, vmax: 12, fs: fs}
			for depth := 0; depth < 4 && !r.Failed(); depth++ {
				w.life(r, rng, d, o, keys)
				if len(w.ck) == 0 || r.Failed() {
					break
				}
				// the process is abandoned (or the operator is redeployed) and a retained checkpoint is opened
				c := w.ck[rng.Intn(len(w.ck))]
				var next *dbm
				o2 := o
				if rng.Intn(2) == 0 {
					o2, _ = dbOpts(rng, nil)
				}
				switch rng.Intn(3) {
				case 0: // crash, same directory: what is in the storage at this moment is what there is
					nfs := w.fs.crash()
					nfs.delay, nfs.rdelay = fs.delay, fs.rdelay
					d.note("crash")
					w.set(func() { w.fs, w.live = nfs, nil })
					w.hook()
					next = reopen(r, nfs.sub(d.fs.dir), o2, c, keys, d.ops, "restore")
					w.set(func() { w.ck = []*ckpt{c} }) // opening in the same directory forks there
				default: // another directory, the old database still runs
					w.dirs++
					w.live = append(w.live, d)
					nfs := w.fs.sub(fmt.Sprintf("d%d", w.dirs))
					next = reopen(r, nfs, o2, c, keys, d.ops, "restore")
				}
				if next == nil {
					return
				}
				next.all("right after the restore")
				d = next
			}
			// everything retained still restores
			for _, c := range w.ck {
				checkCkpt(r, w.fs.crash().sub("end"), o, c, keys, append(slices.Clone(d.ops), fmt.Sprintf("files %s", strings.Join(w.fs.list(), " "))), "at the end")
			}
			for _, x := range append(w.live, d) {
				x.wait()
				runtime.KeepAlive(x.db)
			}
		})
	}
}

func (w *world) probe(r *hl.R, d *dbm, o dkv.DBOptions, keys [][]byte) {
	var ss []capture
	w.set(func() { ss, w.snap = w.snap, nil })
	for _, s := range ss {
		c := s.ck[r.Rng.Intn(len(s.ck))]
		checkCkpt(r, s.fs.sub("probe"), o, c, keys, d.ops, "from what a crash right after the "+s.op+" leaves")
	}
}

func (w *world) life(r *hl.R, rng *rand.Rand, d *dbm, o dkv.DBOptions, keys [][]byte) {
	var open, mine []*ckpt // mine: in the database's own list
	if d.base != nil {
		mine = append(mine, d.base)
	}
	finish := func(c *ckpt) {
		if c.finish(d) && !c.dropped {
			w.set(func() { w.ck = append(w.ck, c) })
			mine = append(mine, c)
		}
	}
	n := 5 + rng.Intn(60)
	for i := 0; i < n && !r.Failed(); i++ {
		d.step()
		switch rng.Intn(14) {
		case 0, 1:
			w.id++
			open = append(open, d.checkpoint(w.id))
		case 2, 3:
			if len(open) > 0 {
				j := rng.Intn(len(open))
				c := open[j]
				open = slices.Delete(open, j, j+1)
				finish(c)
			}
		case 4:
			// keep one or two finished checkpoints (what the job does); later ones may be under way
			if len(mine) > 0 {
				ids := []uint64{mine[rng.Intn(len(mine))].id}
				if rng.Intn(3) == 0 {
					ids = append(ids, mine[rng.Intn(len(mine))].id)
				}
				newest := slices.Max(ids)
				gone := func(c *ckpt) bool { return !slices.Contains(ids, c.id) && c.id < newest }
				d.note("retain %v", ids)
				w.set(func() {
					w.ck = slices.DeleteFunc(w.ck, func(c *ckpt) bool { return slices.Contains(mine, c) && gone(c) })
				})
				mine = slices.DeleteFunc(mine, gone)
				for _, c := range open {
					c.dropped = c.dropped || gone(c)
				}
				if err := d.db.UpdateRetainedCheckpoints(ids); err != nil {
					r.Fail("retention", "retention update to %v: %v; history: %s", ids, err, d.hist())
				}
			}
		case 5:
			if len(w.ck) > 0 {
				c := w.ck[rng.Intn(len(w.ck))]
				checkCkpt(r, w.fs.crash().sub("probe"), o, c, keys, d.ops, "while the original continues")
			}
		case 6:
			d.probe("while checkpoints are taken")
		case 7:
			if rng.Intn(3) == 0 {
				d.wait()
				d.note("tasks done")
			}
		case 8:
			w.probe(r, d, o, keys)
		}
	}
	for _, c := range open {
		finish(c)
	}
	w.probe(r, d, o, keys)
	d.all("at the end of a life")
}

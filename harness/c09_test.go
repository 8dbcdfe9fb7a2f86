package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"math/rand"
	"runtime"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/storage"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifFiles(t *testing.T) {
	r := hl.Start(t)
	r.Delays()
	defer r.Done()
	oneProcess(r, r.Sub(2))
	sharedTables(r, r.Sub(1))
}

// gc collects and lets the table cleanups run.
func gc() {
	for range 2 {
		runtime.GC()
		time.Sleep(500 * time.Microsecond)
	}
}

// refs are the files a checkpoint document refers to, nil when the document cannot be read this way.
func refs(fs *hfs, c *ckpt) (sst, wal []string) {
	data, err := io.ReadAll(&storage.Cursor{File: fs.Open(c.h.URI)})
	var doc any
	if err != nil || json.Unmarshal(data, &doc) != nil {
		return nil, nil
	}
	var walk func(x any, in bool)
	walk = func(x any, in bool) {
		switch x := x.(type) {
		case []any:
			for _, y := range x {
				walk(y, in)
			}
		case map[string]any:
			if id, ok := x["id"]; ok {
				in = fmt.Sprint(id) == fmt.Sprint(c.id)
			}
			for _, y := range x {
				walk(y, in)
			}
		case string:
			if in && strings.HasSuffix(x, ".sst") {
				sst = append(sst, fs.norm(x))
			}
			if in && strings.HasSuffix(x, ".wal") {
				wal = append(wal, fs.norm(x))
			}
		}
	}
	walk(doc, false)
	return sst, wal
}

// askAll owns a table exclusively when every neighbour says that it does not need it.
type askAll struct {
	mu     sync.Mutex
	others []*dkv.DB
	fail   int // 1 some calls fail, 2 all fail
	rng    *rand.Rand
	slow   time.Duration
	owns   func([]byte) bool
	asked  int
}

func (a *askAll) OwnsKey(k []byte) bool { return a.owns == nil || a.owns(k) }
func (a *askAll) ExclusivelyOwnsTable(uri string, s, e []byte) (bool, error) {
	a.mu.Lock()
	others, fail, slow := slices.Clone(a.others), a.fail == 2 || a.fail == 1 && a.rng.Intn(2) == 0, a.slow
	a.asked++
	a.mu.Unlock()
	time.Sleep(slow)
	if fail {
		return true, errors.New("a neighbour cannot be reached")
	}
	for _, o := range others {
		if o.NeedsTable(uri) {
			return false, nil
		}
	}
	return true, nil
}

// needed checks that the files of retained checkpoints exist and that the checkpoints restore.
func needed(r *hl.R, fs *hfs, o dkv.DBOptions, cks []*ckpt, files map[*ckpt][]string, keys [][]byte, hist []string, when string) {
	for _, c := range cks {
		for _, f := range files[c] {
			if !fs.has(f) {
				r.Fail("file-lost", "%s, which retained checkpoint %d needs, was deleted %s; history: %s", f, c.id, when, strings.Join(hist[max(0, len(hist)-40):], "; "))
				return
			}
		}
	}
	if len(cks) > 0 {
		c := cks[r.Rng.Intn(len(cks))]
		o.DataOwnership = keepFiles{}
		checkCkpt(r, fs.crash().sub("probe"), o, c, keys, hist, when)
	}
}

// one operator: writes, checkpoints, retention updates, garbage collection, and redeployments in the same process
func oneProcess(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		fs := newHFS(seed)
		fs.delay = time.Duration(rng.Intn(2)) * 100 * time.Microsecond
		o, desc := dbOpts(rng, fs)
		own := &askAll{rng: rand.New(rand.NewSource(seed)), fail: rng.Intn(3), slow: time.Duration(rng.Intn(2)) * 100 * time.Microsecond}
		o.DataOwnership = own
		keys := genKeys(rng, 3+rng.Intn(12))
		r.Case("one process: %s, seed %d", desc, seed)
		r.Within("file-lost", hangLimit, func() {
			d := &dbm{r: r, db: dkv.Open(o, nil), m: map[string]string{}, key: "file-lost", keys: keys, vmax: 12, fs: fs}
			var cks []*ckpt
			files := map[*ckpt][]string{}
			wals := map[*ckpt][]string{}
			id := uint64(0)
			n := 40 + rng.Intn(120)
			sub := 0
			for i := 0; i < n && !r.Failed(); i++ {
				d.step()
				switch rng.Intn(16) {
				case 0, 1:
					id++
					c := d.checkpoint(id)
					if rng.Intn(2) == 0 {
						d.step()
						d.step()
					}
					if c.finish(d) {
						s, w := refs(fs, c)
						files[c], wals[c] = append(slices.Clone(s), w...), w
						cks = append(cks, c)
					}
				case 2, 3:
					if len(cks) == 0 {
						break
					}
					keep := cks[len(cks)-1:]
					if rng.Intn(3) == 0 {
						keep = cks[rng.Intn(len(cks)):]
					}
					keep = slices.Clone(keep)
					var ids []uint64
					var kept []string
					for _, c := range keep {
						ids = append(ids, c.id)
						kept = append(kept, wals[c]...)
					}
					dropped := slices.DeleteFunc(slices.Clone(cks), func(c *ckpt) bool { return slices.Contains(keep, c) })
					cks = keep
					d.note("retain %v", ids)
					if err := d.db.UpdateRetainedCheckpoints(ids); err != nil {
						r.Fail("file-lost", "retention update to %v: %v; history: %s", ids, err, d.hist())
						break
					}
					if d.base == nil || slices.Contains(ids, d.base.id) || slices.Contains(dropped, d.base) {
						for _, c := range dropped {
							for _, w := range wals[c] {
								if !slices.Contains(kept, w) && fs.has(w) {
									r.Fail("wal-kept", "%s, used by the dropped checkpoint %d only, is still there after the retention update to %v; history: %s", w, c.id, ids, d.hist())
								}
							}
						}
					}
				case 4, 5:
					gc()
					d.note("garbage collected")
					needed(r, fs, o, cks, files, keys, d.ops, "after garbage collection")
				case 6:
					d.probe("after files may have been deleted")
				case 7:
					if rng.Intn(3) > 0 || len(cks) == 0 {
						break
					}
					// redeployed in the same process: the old database is dropped without being closed
					c := cks[len(cks)-1]
					if rng.Intn(2) == 0 {
						d.wait()
					}
					sub++
					nfs := fs
					if rng.Intn(2) == 0 {
						nfs = fs.sub(fmt.Sprintf("d%d", sub))
					}
					d.db = nil
					nd := reopen(r, nfs, o, c, keys, d.ops, "file-lost")
					if nd == nil {
						return
					}
					d = nd
					cks = []*ckpt{c} // the job restarts from its retained checkpoint
					gc()
					needed(r, fs, o, cks, files, keys, d.ops, "after the operator was redeployed in the same process")
					d.all("after being redeployed")
				case 8:
					if rng.Intn(3) == 0 {
						d.wait()
					}
				}
			}
			d.wait()
			gc()
			d.all("at the end")
			needed(r, fs, o, cks, files, keys, d.ops, "at the end")
			runtime.KeepAlive(d.db)
		})
	}
}

// several operators restored from the same checkpoint share its tables
func sharedTables(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		fs := newHFS(seed)
		o, desc := dbOpts(rng, fs)
		o.MemTableSize = uint64(1 + rng.Intn(60))
		keys := genKeys(rng, 4+rng.Intn(12))
		n := 2 + rng.Intn(3)
		r.Case("shared: %s, %d operators, seed %d", desc, n, seed)
		r.Within("file-lost", hangLimit, func() {
			d := &dbm{r: r, db: dkv.Open(o, nil), m: map[string]string{}, key: "file-lost", keys: keys, vmax: 12, fs: fs}
			for range 10 + rng.Intn(60) {
				d.step()
			}
			if rng.Intn(2) == 0 {
				d.wait()
			}
			c := d.checkpoint(1)
			if !c.finish(d) {
				return
			}
			d.wait()
			old := d.db
			shared, _ := refs(fs, c)
			ops := make([]*dbm, n)
			own := make([]*askAll, n)
			for i := range ops {
				own[i] = &askAll{rng: rand.New(rand.NewSource(seed + int64(i))), fail: rng.Intn(3), slow: time.Duration(rng.Intn(2)) * 200 * time.Microsecond,
					owns: func(k []byte) bool { return ownerOf(k, n) == i }}
				oo := o
				oo.DataOwnership = own[i]
				cc := *c
				cc.m = map[string]string{}
				for k, v := range c.m {
					if ownerOf([]byte(k), n) == i {
						cc.m[k] = v
					}
				}
				var mine [][]byte
				for _, k := range keys {
					if ownerOf(k, n) == i {
						mine = append(mine, k)
					}
				}
				if len(mine) == 0 {
					mine = [][]byte{{byte(i), 1, 1}}
				}
				ops[i] = reopen(r, fs.sub(fmt.Sprintf("op%d", i)), oo, &cc, mine, d.ops, "file-lost")
				if ops[i] == nil {
					return
				}
			}
			for i := range own {
				own[i].mu.Lock()
				for j, x := range ops {
					if i != j {
						own[i].others = append(own[i].others, x.db)
					}
				}
				own[i].mu.Unlock()
			}
			_ = old
			d.db, old = nil, nil
			type state struct {
				ck    *ckpt
				files []string
			}
			last := make([]state, n)
			for i := range last {
				last[i] = state{c, shared}
			}
			for id := uint64(2); id < 7 && !r.Failed(); id++ {
				var open []*ckpt
				for _, x := range ops {
					for range rng.Intn(20) {
						x.step()
					}
					if rng.Intn(3) == 0 {
						x.wait()
					}
					open = append(open, x.checkpoint(id))
					for range rng.Intn(5) {
						x.step()
					}
				}
				for i, x := range ops {
					if !open[i].finish(x) {
						return
					}
				}
				// some operators hear of it late
				for _, i := range rng.Perm(n) {
					if err := ops[i].db.UpdateRetainedCheckpoints([]uint64{id}); err != nil {
						r.Fail("file-lost", "retention update of operator %d to %d: %v; history: %s", i, id, err, ops[i].hist())
						return
					}
					s, w := refs(ops[i].fs, open[i])
					last[i] = state{open[i], append(slices.Clone(s), w...)}
					for _, f := range s {
						for _, uri := range shared {
							if f == uri && !ops[i].db.NeedsTable("hfs://"+uri) {
								r.Fail("needs-table", "operator %d says it does not need %s, which its retained checkpoint %d refers to; history: %s", i, uri, id, ops[i].hist())
							}
						}
					}
					gc()
					for j, s := range last {
						for _, f := range s.files {
							if !fs.has(f) {
								r.Fail("file-lost", "%s, which operator %d's retained checkpoint %d needs, was deleted after operator %d's retention update; history: %s", f, j, s.ck.id, i, ops[i].hist())
								return
							}
						}
					}
				}
				for _, x := range ops {
					x.owned("after retention updates")
				}
			}
			for _, x := range ops {
				x.wait()
				x.owned("at the end")
				runtime.KeepAlive(x.db)
			}
		})
	}
}

func ownerOf(k []byte, n int) int {
	h := 0
	for _, b := range k {
		h = h*31 + int(b)
	}
	return h % n
}

// owned reads only the keys that belong to this operator (a shared table also has others').
func (d *dbm) owned(when string) {
	for _, k := range d.keys {
		d.get(k, when)
	}
	var err error
	got := map[string]string{}
	for e := range d.db.ScanPrefix(nil, &err) {
		if slices.ContainsFunc(d.keys, func(k []byte) bool { return string(k) == string(e.Key()) }) {
			got[string(e.Key())] = string(e.Value())
		}
	}
	if err != nil || !maps.Equal(got, d.m) {
		d.r.Fail(d.key, "scan %s gives %q (err %v), want %q; history: %s", when, got, err, d.m, d.hist())
	}
}

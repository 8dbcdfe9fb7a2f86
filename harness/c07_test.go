package zzverif

import (
	"bytes"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/storage"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifReads(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	dir, err := os.MkdirTemp("", "verif-c07")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	parts := []func(*hl.R, time.Time, string){smallReads, gatedReads, hotReads}
	for i, f := range parts {
		if i == 1 {
			r.Delays()
		}
		f(r, r.Sub(len(parts)-i), dir)
	}
}

// every put/delete history of a length over two keys, each write in its own memtable, read at every moment
func smallReads(r *hl.R, until time.Time, dir string) {
	for n := 1; n <= 6; n++ {
		for c := 0; c < 1<<(2*n) && time.Now().Before(until) && r.Left(); c++ {
			fs := newHFS(int64(c))
			slow := c%3 == 0
			if slow {
				fs.delay = 200 * time.Microsecond
			}
			db := dkv.Open(dkv.DBOptions{FileSystem: fs, MemTableSize: uint64([]int{1, 40, 20}[c%3]), TargetFileSize: 30, L0TableNumCompactionTrigger: 1 + c%2, DataOwnership: keepFiles{}}, nil)
			d := &dbm{r: r, db: db, m: map[string]string{}, key: "read", keys: [][]byte{{'k'}, {'k', 'l'}}}
			r.Case("history %d of length %d", c, n)
			r.Within("read", hangLimit, func() {
				for i := 0; i < n; i++ {
					k := d.keys[c>>(2*i)&1]
					if c>>(2*i+1)&1 == 0 {
						v := []byte{byte('0' + i)}
						db.Put(k, v)
						d.m[string(k)] = string(v)
						d.note("put %q=%x", k, v)
					} else {
						db.Delete(k)
						delete(d.m, string(k))
						d.note("del %q", k)
					}
					d.all("after the write")
					if !slow && i%2 == 0 {
						d.wait()
						d.all("after background tasks")
					}
				}
				d.wait()
				d.all("at the end")
			})
		}
	}
}

// random histories while saves take random time
func gatedReads(r *hl.R, until time.Time, dir string) {
	for time.Now().Before(until) && r.Left() {
		var fs storage.FileSystem
		seed := r.Rng.Int63()
		h := newHFS(seed)
		h.delay = time.Duration(r.Rng.Intn(3)) * 300 * time.Microsecond
		h.rdelay = time.Duration(r.Rng.Intn(2)) * 200 * time.Microsecond
		fs = h
		kind := "hfs"
		switch r.Rng.Intn(12) {
		case 0:
			p, _ := os.MkdirTemp(dir, "d")
			fs, kind = storage.NewLocalFilesystem(p), "local"
		case 1, 2:
			fs, kind = storage.NewMemoryFilesystem(), "memory"
		}
		rng := rand.New(rand.NewSource(seed))
		o, desc := dbOpts(rng, fs)
		d := &dbm{r: r, db: dkv.Open(o, nil), m: map[string]string{}, key: "read", keys: genKeys(rng, 3+rng.Intn(20)), vmax: rng.Intn(30)}
		n := 20 + r.Rng.Intn(150)
		if kind == "local" {
			n = 30
		}
		r.Case("%s on %s, seed %d, %d operations", desc, kind, seed, n)
		r.Within("read", hangLimit, func() {
			for i := 0; i < n && !r.Failed(); i++ {
				d.step()
				d.probe("with tasks running")
				if r.Rng.Intn(25) == 0 {
					d.wait()
					d.note("tasks done")
					d.all("after background tasks")
				}
				if r.Rng.Intn(30) == 0 {
					d.all("with tasks running")
				}
			}
			d.wait()
			d.all("at the end")
		})
	}
}

// readers racing with the flush that takes a key out of the memtables (nobody writes meanwhile)
func hotReads(r *hl.R, until time.Time, dir string) {
	for time.Now().Before(until) && r.Left() {
		fs := newHFS(r.Rng.Int63())
		db := dkv.Open(dkv.DBOptions{FileSystem: fs, MemTableSize: 1, TargetFileSize: 1 << 20, L0TableNumCompactionTrigger: 40, DataOwnership: keepFiles{}}, nil)
		r.Case("hot reads %d", r.Rng.Int())
		r.Within("read-race", hangLimit, func() {
			for i := 0; i < 60 && !r.Failed() && time.Now().Before(until); i++ {
				k := []byte{byte('a' + i%3), byte(i)}
				var stop atomic.Bool
				var wg sync.WaitGroup
				db.Put(k, []byte{byte(i)})
				for g := range 5 {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for !stop.Load() {
							if g == 0 {
								n := 0
								var err error
								for e := range db.ScanPrefix(k, &err) {
									if bytes.Equal(e.Key(), k) && len(e.Value()) == 1 && e.Value()[0] == byte(i) {
										n++
									}
								}
								if n != 1 || err != nil {
									r.Fail("read-race", "ScanPrefix(%q) while the key is being flushed finds it %d times (err %v)", k, n, err)
									return
								}
								continue
							}
							e, err := db.Get(k)
							if err != nil || len(e.Value()) != 1 || e.Value()[0] != byte(i) {
								r.Fail("read-race", "Get(%q) while the key is being flushed: %v", k, err)
								return
							}
						}
					}()
				}
				db.WaitOnTasks()
				stop.Store(true)
				wg.Wait()
			}
		})
	}
}

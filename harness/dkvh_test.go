package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"maps"
	"math/rand"
	"slices"
	"strings"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	hl "reduction.dev/reduction/zzhlib"
)

// dbm drives a database and the map it has to agree with.
type dbm struct {
	r    *hl.R
	db   *dkv.DB
	m    map[string]string
	ops  []string
	key  string // which failure class
	keys [][]byte
	vmax int
	fs   *hfs
	base *ckpt // what it was opened from
}

func dbOpts(r *rand.Rand, fs storage.FileSystem) (dkv.DBOptions, string) {
	o := dkv.DBOptions{
		FileSystem:                  fs,
		MemTableSize:                uint64(1 + r.Intn(200)),
		TargetFileSize:              uint64(1 + r.Intn(300)),
		MaxWALSize:                  uint64(1 + r.Intn(1000)),
		L0TableNumCompactionTrigger: 1 + r.Intn(4),
		NumLevels:                   1 + r.Intn(6),
		DataOwnership:               keepFiles{},
	}
	switch r.Intn(4) {
	case 0:
		o.MemTableSize = 1
	case 1:
		o.MaxWALSize = 1 << 20
	case 2:
		o.L0TableNumCompactionTrigger = 1000
	}
	return o, fmt.Sprintf("mem %d file %d wal %d l0 %d", o.MemTableSize, o.TargetFileSize, o.MaxWALSize, o.L0TableNumCompactionTrigger)
}
func genKeys(r *rand.Rand, n int) [][]byte {
	m := map[string]bool{}
	for range n {
		m[string(hkey(r, 4))] = true
	}
	var ks [][]byte
	for _, k := range slices.Sorted(maps.Keys(m)) {
		ks = append(ks, []byte(k))
	}
	return ks
}
func (d *dbm) note(f string, a ...any) {
	d.ops = append(d.ops, fmt.Sprintf(f, a...))
}
func (d *dbm) hist() string {
	o := d.ops
	if len(o) > 60 {
		o = append([]string{fmt.Sprintf("(%d earlier)", len(o)-60)}, o[len(o)-60:]...)
	}
	return strings.Join(o, "; ")
}
func (d *dbm) step() {
	k := slices.Clone(d.keys[d.r.Rng.Intn(len(d.keys))])
	if d.r.Rng.Intn(3) == 0 {
		d.db.Delete(k)
		delete(d.m, string(k))
		d.note("del %q", k)
		return
	}
	v := make([]byte, d.r.Rng.Intn(d.vmax+1))
	d.r.Rng.Read(v)
	d.db.Put(k, v)
	d.m[string(k)] = string(v)
	d.note("put %q=%x", k, v)
}
func (d *dbm) get(k []byte, when string) {
	e, err := d.db.Get(k)
	w, ok := d.m[string(k)]
	switch {
	case err != nil && !errors.Is(err, kv.ErrNotFound):
		d.r.Fail(d.key, "Get(%q) %s: %v; history: %s", k, when, err, d.hist())
	case ok && (err != nil || e.IsDelete() || string(e.Value()) != w || !bytes.Equal(e.Key(), k)):
		s := "absent"
		if err == nil {
			s = entStr2(e)
		}
		d.r.Fail(d.key, "Get(%q) %s = %s, last put %x; history: %s", k, when, s, w, d.hist())
	case !ok && err == nil && !e.IsDelete():
		d.r.Fail(d.key, "Get(%q) %s = %s, but the key is deleted or was never put; history: %s", k, when, entStr2(e), d.hist())
	}
}
func entStr2(e kv.Entry) string {
	return fmt.Sprintf("%q=%x (deleted %v)", e.Key(), e.Value(), e.IsDelete())
}
func (d *dbm) scan(p []byte, when string) {
	var err error
	var got []string
	for e := range d.db.ScanPrefix(p, &err) {
		if e.IsDelete() {
			got = append(got, fmt.Sprintf("%q deleted", e.Key()))
			continue
		}
		got = append(got, fmt.Sprintf("%q=%x", e.Key(), e.Value()))
		if len(got) > len(d.m)+3 {
			break
		}
	}
	var want []string
	for _, k := range slices.Sorted(maps.Keys(d.m)) {
		if strings.HasPrefix(k, string(p)) {
			want = append(want, fmt.Sprintf("%q=%x", k, d.m[k]))
		}
	}
	if err != nil || !slices.Equal(got, want) {
		d.r.Fail(d.key, "ScanPrefix(%q) %s gives %v (err %v), want %v; history: %s", p, when, got, err, want, d.hist())
	}
}
func (d *dbm) probe(when string) {
	k := d.keys[d.r.Rng.Intn(len(d.keys))]
	switch d.r.Rng.Intn(4) {
	case 0:
		d.scan(k[:d.r.Rng.Intn(len(k)+1)], when)
	case 1:
		d.scan(nil, when)
	default:
		d.get(k, when)
	}
}
func (d *dbm) all(when string) {
	for _, k := range d.keys {
		d.get(k, when)
	}
	d.scan(nil, when)
	for range 3 {
		k := d.keys[d.r.Rng.Intn(len(d.keys))]
		d.scan(k[:d.r.Rng.Intn(len(k)+1)], when)
	}
}
func (d *dbm) wait() {
	if err := d.db.WaitOnTasks(); err != nil {
		d.r.Fail(d.key, "background task failed: %v; history: %s", err, d.hist())
	}
}

type ckpt struct {
	id      uint64
	m       map[string]string
	h       recovery.CheckpointHandle
	wait    func() (recovery.CheckpointHandle, error)
	done    bool
	dropped bool
}

func (d *dbm) checkpoint(id uint64) *ckpt {
	d.note("checkpoint %d", id)
	return &ckpt{id: id, m: maps.Clone(d.m), wait: d.db.Checkpoint(id)}
}
func (c *ckpt) finish(d *dbm) bool {
	if c.done {
		return true
	}
	h, err := c.wait()
	if err != nil {
		d.r.Fail(d.key, "checkpoint %d: %v; history: %s", c.id, err, d.hist())
		return false
	}
	d.note("checkpoint %d done", c.id)
	c.h, c.done = h, true
	return true
}

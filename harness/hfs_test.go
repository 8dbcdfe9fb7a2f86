package zzverif

import (
	"bytes"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"reduction.dev/reduction/dkv/storage"
)

// hfs is an in-memory storage.FileSystem the harness controls: storage operations can be delayed, failed and recorded,
// and the stored files can be copied at any point (what a crash would leave behind).
type hfs struct {
	*hstore
	dir string
}
type hstore struct {
	mu      sync.Mutex
	files   map[string][]byte
	rng     *rand.Rand
	delay   time.Duration // a Save takes up to this long
	rdelay  time.Duration // now and then a read does
	onSave  func(p string)
	onDel   func(p string)
	deleted []string
	missing []string // reads of files that do not exist
	over    []string // saves over an existing file
	stamp   string
}

func newHFS(seed int64) *hfs {
	return &hfs{&hstore{files: map[string][]byte{}, rng: rand.New(rand.NewSource(seed))}, "/h"}
}
func (f *hfs) sub(d string) *hfs { return &hfs{f.hstore, path.Join(f.dir, d)} }

// copyAt is the storage as a crash at this moment leaves it.
func (f *hfs) crash() *hfs {
	f.mu.Lock()
	defer f.mu.Unlock()
	m := map[string][]byte{}
	for k, v := range f.files {
		m[k] = v
	}
	return &hfs{&hstore{files: m, rng: rand.New(rand.NewSource(f.rng.Int63()))}, f.dir}
}
func (f *hfs) has(p string) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	_, ok := f.files[f.norm(p)]
	return ok
}
func (f *hfs) list() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	var r []string
	for k := range f.files {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
func (f *hfs) norm(p string) string {
	p = strings.TrimPrefix(p, "hfs://")
	if !path.IsAbs(p) {
		p = path.Join(f.dir, p)
	}
	return p
}
func (f *hfs) nap(d time.Duration) {
	if d <= 0 {
		return
	}
	f.mu.Lock()
	n := time.Duration(f.rng.Int63n(int64(d) + 1))
	f.mu.Unlock()
	time.Sleep(n)
}
func (f *hfs) New(p string) storage.File { return &hfile{fs: f, p: f.norm(p), w: true} }
func (f *hfs) Open(p string) storage.File {
	return &hfile{fs: f, p: f.norm(p)}
}
func (f *hfs) Copy(s, d string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	b, ok := f.files[f.norm(s)]
	if !ok {
		return fmt.Errorf("copy: no file %s", s)
	}
	f.files[f.norm(d)] = b
	return nil
}

type hfile struct {
	fs  *hfs
	p   string
	w   bool
	mu  sync.Mutex
	buf []byte
}

func (h *hfile) ReadAt(p []byte, off int64) (int, error) {
	if h.w {
		panic("read of a file being written")
	}
	h.fs.mu.Lock()
	slow := h.fs.rdelay > 0 && h.fs.rng.Intn(40) == 0
	b, ok := h.fs.files[h.p]
	if !ok {
		h.fs.missing = append(h.fs.missing, h.p)
	}
	h.fs.mu.Unlock()
	if slow {
		h.fs.nap(h.fs.rdelay)
	}
	if !ok {
		return 0, fmt.Errorf("no file %s: %w", h.p, storage.ErrNotFound)
	}
	return bytes.NewReader(b).ReadAt(p, off)
}
func (h *hfile) Write(p []byte) (int, error) {
	if !h.w {
		panic("write to a saved file")
	}
	h.mu.Lock()
	h.buf = append(h.buf, p...)
	h.mu.Unlock()
	return len(p), nil
}
func (h *hfile) Save() error {
	if !h.w {
		panic("save of a saved file")
	}
	h.fs.nap(h.fs.delay)
	h.fs.mu.Lock()
	if _, ok := h.fs.files[h.p]; ok && !strings.HasSuffix(h.p, "/checkpoints") {
		h.fs.over = append(h.fs.over, h.p)
	}
	h.fs.files[h.p] = bytes.Clone(h.buf)
	cb := h.fs.onSave
	h.fs.mu.Unlock()
	h.w = false
	if cb != nil {
		cb(h.p)
	}
	h.fs.nap(h.fs.delay / 4)
	return nil
}
func (h *hfile) Size() int64 { h.mu.Lock(); defer h.mu.Unlock(); return int64(len(h.buf)) }
func (h *hfile) Name() string {
	return path.Base(h.p)
}
func (h *hfile) URI() string { return "hfs://" + h.p }
func (h *hfile) Delete() error {
	return h.fs.del(h.p)
}
func (f *hfs) del(p string) error {
	f.mu.Lock()
	delete(f.files, p)
	f.deleted = append(f.deleted, p)
	cb := f.onDel
	f.mu.Unlock()
	if cb != nil {
		cb(p)
	}
	return nil
}
func (h *hfile) CreateDeleteFunc() func() error {
	fs, p := h.fs, h.p
	return func() error { return fs.del(p) }
}

var _ io.ReaderAt = (*hfile)(nil)
var _ storage.FileSystem = (*hfs)(nil)

// hkeys gives short keys that are prefixes of one another, binary bytes included.
func hkey(r *rand.Rand, n int) []byte {
	al := []byte{'a', 'b', 0, 0xff, 'a', 0x80}
	l := r.Intn(n + 1)
	k := make([]byte, l)
	for i := range k {
		k[i] = al[r.Intn(len(al))]
	}
	return k
}

// keepFiles owns every key and lets no table file be deleted.
type keepFiles struct{}

func (keepFiles) OwnsKey([]byte) bool                                       { return true }
func (keepFiles) ExclusivelyOwnsTable(string, []byte, []byte) (bool, error) { return false, nil }

func init() { slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil))) }

const hangLimit = 30 * time.Second

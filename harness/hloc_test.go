package zzverif

import (
	"io"
	"iter"
	"math/rand"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/storage/locations"
)

// hloc is an in-memory locations.StorageLocation the harness controls. A write is atomic; it can take time.
type hloc struct {
	mu      sync.Mutex
	rng     *rand.Rand
	files   map[string][]byte
	delay   time.Duration
	order   int // how files are listed: 0 sorted, 1 reversed, 2 random
	removed []string
	after   func(op, p string) // called, unlocked, after each operation that changed something
	hold    func(p string)     // called, unlocked, before a write takes effect
}

func newHLoc(seed int64) *hloc {
	return &hloc{rng: rand.New(rand.NewSource(seed)), files: map[string][]byte{}}
}
func (l *hloc) norm(p string) string {
	if !path.IsAbs(p) {
		p = path.Join("/loc", p)
	}
	return path.Clean(p)
}
func (l *hloc) nap() {
	if l.delay > 0 {
		l.mu.Lock()
		d := time.Duration(l.rng.Int63n(int64(l.delay)))
		if l.rng.Intn(3) == 0 {
			d = 0
		}
		l.mu.Unlock()
		time.Sleep(d)
	}
}
func (l *hloc) crash() *hloc {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := newHLoc(l.rng.Int63())
	n.order = l.order
	for k, v := range l.files {
		n.files[k] = v
	}
	return n
}
func (l *hloc) done(op, p string) {
	if l.after != nil {
		l.after(op, p)
	}
}
func (l *hloc) Write(p string, data io.Reader) (string, error) {
	if l.hold != nil {
		l.hold(p)
	}
	l.nap()
	b, err := io.ReadAll(data)
	if err != nil {
		return "", err
	}
	p = l.norm(p)
	l.mu.Lock()
	l.files[p] = b
	l.mu.Unlock()
	l.done("write", p)
	l.nap()
	return p, nil
}
func (l *hloc) Read(p string) ([]byte, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	b, ok := l.files[l.norm(p)]
	if !ok {
		return nil, locations.ErrNotFound
	}
	return b, nil
}
func (l *hloc) names() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	var r []string
	for k := range l.files {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
func (l *hloc) List() iter.Seq2[string, error] {
	ns := l.names()
	switch l.order {
	case 1:
		sort.Sort(sort.Reverse(sort.StringSlice(ns)))
	case 2:
		l.mu.Lock()
		l.rng.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
		l.mu.Unlock()
	}
	return func(yield func(string, error) bool) {
		for _, n := range ns {
			if !yield(n, nil) {
				return
			}
		}
	}
}
func (l *hloc) URI(p string) (string, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if _, ok := l.files[l.norm(p)]; !ok {
		return "", locations.ErrNotFound
	}
	return l.norm(p), nil
}
func (l *hloc) Copy(s, d string) error {
	l.nap()
	l.mu.Lock()
	b, ok := l.files[l.norm(s)]
	if ok {
		l.files[l.norm(d)] = b
	}
	l.mu.Unlock()
	if !ok {
		return locations.ErrNotFound
	}
	l.done("copy", l.norm(d))
	return nil
}
func (l *hloc) Remove(ps ...string) error {
	for _, p := range ps {
		l.nap()
		l.mu.Lock()
		delete(l.files, l.norm(p))
		l.removed = append(l.removed, l.norm(p))
		l.mu.Unlock()
		l.done("remove", l.norm(p))
	}
	return nil
}

// snapshots are the job checkpoints in storage, by id.
func (l *hloc) snapshots() map[uint64]*snapshotpb.JobCheckpoint {
	l.mu.Lock()
	defer l.mu.Unlock()
	out := map[uint64]*snapshotpb.JobCheckpoint{}
	for k, b := range l.files {
		if strings.HasSuffix(k, ".snapshot") {
			var c snapshotpb.JobCheckpoint
			if proto.Unmarshal(b, &c) == nil {
				out[c.Id] = &c
			}
		}
	}
	return out
}

func protoMarshal(m proto.Message) ([]byte, error) { return proto.Marshal(m) }

package zzverif

import (
	"context"
	"fmt"
	"maps"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/s3"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/storage/locations"
	"reduction.dev/reduction/storage/objstore"
	"reduction.dev/reduction/storage/snapshots"
	hl "reduction.dev/reduction/zzhlib"
)

// The real job store and the real databases of some operators, on a local directory or on (in-memory) S3. Savepoints
// are requested at any moment relative to checkpoints, while the operators go on, flush, compact and drop files. When
// everything but the savepoint is gone, the store restored from it has to lead to the state of that checkpoint.
func TestVerifSavepoint(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	until := r.Sub(1)
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		onS3 := rng.Intn(8) > 0
		r.Case("savepoint: s3 %v, seed %d", onS3, seed)
		r.Within("savepoint", hangLimit, func() { r.Guard("savepoint", func() { spRun(r, rng, onS3, seed) }) })
	}
}

// MemoryS3Service is not made for concurrent use
type lockedS3 struct {
	mu sync.Mutex
	objstore.S3Service
}

func (l *lockedS3) CopyObject(c context.Context, i *s3.CopyObjectInput, o ...func(*s3.Options)) (*s3.CopyObjectOutput, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.CopyObject(c, i, o...)
}
func (l *lockedS3) GetObject(c context.Context, i *s3.GetObjectInput, o ...func(*s3.Options)) (*s3.GetObjectOutput, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.GetObject(c, i, o...)
}
func (l *lockedS3) HeadObject(c context.Context, i *s3.HeadObjectInput, o ...func(*s3.Options)) (*s3.HeadObjectOutput, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.HeadObject(c, i, o...)
}
func (l *lockedS3) ListObjectsV2(c context.Context, i *s3.ListObjectsV2Input, o ...func(*s3.Options)) (*s3.ListObjectsV2Output, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.ListObjectsV2(c, i, o...)
}
func (l *lockedS3) PutObject(c context.Context, i *s3.PutObjectInput, o ...func(*s3.Options)) (*s3.PutObjectOutput, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.PutObject(c, i, o...)
}
func (l *lockedS3) DeleteObject(c context.Context, i *s3.DeleteObjectInput, o ...func(*s3.Options)) (*s3.DeleteObjectOutput, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.DeleteObject(c, i, o...)
}

type spSplitter struct {
	connectors.UnimplementedSourceSplitter
	mu sync.Mutex
	n  int
}

func (s *spSplitter) Checkpoint() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return fmt.Appendf(nil, "splitter %d", s.n)
}

type spCkpt struct {
	id       uint64
	m        map[string]string // state
	splits   []string
	splitter string
	sp       bool
	acks     []func() error // still to come
}

// collect runs the clean-ups of everything which is unreachable.
func collect() {
	for range 3 {
		done := make(chan struct{})
		sentinel(done)
		runtime.GC()
		select {
		case <-done:
		case <-time.After(time.Second):
		}
	}
}

//go:noinline
func sentinel(done chan struct{}) {
	runtime.AddCleanup(new([1000]*int), func(c chan struct{}) { close(c) }, done)
}

func spRun(r *hl.R, rng *rand.Rand, onS3 bool, seed int64) {
	tmp := ""
	var loc locations.StorageLocation
	var fsAt func(string) storage.FileSystem
	var wipe func() error
	if onS3 {
		svc := &lockedS3{S3Service: objstore.NewMemoryS3Service()}
		prefix := []string{"", "/some/prefix", "/p/"}[rng.Intn(3)]
		l, err := locations.NewS3Location(svc, "s3://bucket"+prefix)
		if err != nil {
			r.Fail("savepoint", "s3 location: %v", err)
			return
		}
		loc = l
		in := strings.Trim(prefix, "/")
		fsAt = func(d string) storage.FileSystem {
			p := d
			if in != "" {
				p = in + "/" + d
			}
			return storage.NewS3FileSystem(svc, "bucket", p)
		}
		wipe = func() error {
			var rm []string
			for u, err := range loc.List() {
				if err != nil {
					return err
				}
				if !strings.Contains(u, "savepoints") {
					rm = append(rm, u)
				}
			}
			return loc.Remove(rm...)
		}
	} else {
		var err error
		if tmp, err = os.MkdirTemp("", "c14"); err != nil {
			return
		}
		defer os.RemoveAll(tmp)
		loc = locations.NewLocalDirectory(tmp)
		fsAt = func(d string) storage.FileSystem { return storage.NewLocalFilesystem(filepath.Join(tmp, d)) }
		n := 0
		wipe = func() error {
			for _, d := range []string{"work", "checkpoints"} {
				n++
				if err := os.Rename(filepath.Join(tmp, d), filepath.Join(tmp, fmt.Sprintf("%s.gone%d", d, n))); err != nil && !os.IsNotExist(err) {
					return err
				}
			}
			// what is still in those directories isn't part of the storage anymore
			return nil
		}
	}
	var ops []*spOp
	wait := func() { // a task of one database may be run, and enqueue another one, for all of them
		for range 4 {
			for _, d := range ops {
				if d.db != nil {
					d.db.WaitOnTasks()
				}
			}
		}
	}
	defer wait() // before the directory goes
	var trace []string
	note := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	hist := func() string { return strings.Join(trace[max(0, len(trace)-50):], "; ") }
	fail := func(f string, a ...any) {
		r.Fail("savepoint", "%s; s3 %v, seed %d, history: %s", fmt.Sprintf(f, a...), onS3, seed, hist())
	}
	defer func() {
		if e := recover(); e != nil {
			panic(fmt.Sprintf("%v\nhistory: %s", e, hist()))
		}
	}()

	groups := 1 + rng.Intn(4) // keys of a group stay together
	o, desc := dbOpts(rng, fsAt("none"))
	if !onS3 { // every file takes time
		o.MemTableSize, o.TargetFileSize = 100+o.MemTableSize, 1000+o.TargetFileSize
	}
	note("%d key groups, %s", groups, desc)
	keys := genKeys(rng, 3+rng.Intn(20))
	split := &spSplitter{}
	dir := 0
	var s *snapshots.Store
	var retained chan []uint64
	newStore := func(uri string) bool {
		retained = make(chan []uint64, 1000)
		s = snapshots.NewStore(&snapshots.NewStoreParams{SavepointURI: uri, FileStore: loc, SavepointsPath: "savepoints", CheckpointsPath: "checkpoints", RetainedCheckpointsUpdated: retained})
		if err := s.LoadCheckpoint(); err != nil {
			fail("loading the checkpoint from %q: %v", uri, err)
			return false
		}
		s.RegisterSourceSplitter(split)
		return true
	}
	// deploy opens a database per operator, from those operator checkpoints which have some of its keys.
	owners := map[string][]int{}
	deploy := func(from *spCkpt, ck *snapshotpb.JobCheckpoint) bool {
		n := 1 + rng.Intn(3)
		ops = nil
		what := "nothing"
		if from != nil {
			what = fmt.Sprintf("savepoint %d", from.id)
		}
		for i := range n {
			dir++
			d := &spOp{name: fmt.Sprintf("%d-op", dir), dbm: &dbm{r: r, m: map[string]string{}, key: "savepoint", vmax: []int{3, 40}[rng.Intn(2)], ops: slices.Clone(trace)}}
			own := spOwn{}
			for g := i; g < groups; g += n {
				own[byte(g)] = true
				owners[d.name] = append(owners[d.name], g)
				for _, k := range keys {
					k = append([]byte{byte(g)}, k...)
					d.keys = append(d.keys, k)
					if from != nil {
						if v, ok := from.m[string(k)]; ok {
							d.m[string(k)] = v
						}
					}
				}
			}
			var hs []recovery.CheckpointHandle
			for _, oc := range ck.GetOperatorCheckpoints() {
				for _, g := range owners[oc.OperatorId] {
					if own[byte(g)] {
						hs = append(hs, recovery.CheckpointHandle{CheckpointID: oc.CheckpointId, URI: oc.DkvFileUri})
						break
					}
				}
			}
			oo := o
			oo.DataOwnership = own
			oo.FileSystem = fsAt(fmt.Sprintf("work/%s/d%d", d.name, dir))
			if err := hl.Try(func() { d.db = dkv.Open(oo, hs) }); err != nil {
				fail("operator %s cannot be deployed from %d operator checkpoints of %s: %v", d.name, len(hs), what, err)
				return false
			}
			ops = append(ops, d)
		}
		note("%d operators deployed from %s", n, what)
		for _, d := range ops {
			for _, k := range d.keys {
				d.get(k, fmt.Sprintf("of operator %s restored from %s", d.name, what))
			}
			for _, g := range owners[d.name] {
				d.scan([]byte{byte(g)}, fmt.Sprintf("of operator %s restored from %s", d.name, what))
			}
		}
		return true
	}
	if !newStore("") || !deploy(nil, nil) {
		return
	}
	for phases := 1 + rng.Intn(3); ; phases-- {
		c, uri := spPhase(rng, ops, s, split, retained, note, fail)
		if c == nil || r.Failed() || phases == 0 {
			return
		}
		for range 1 + rng.Intn(2) { // a savepoint can be restored again
			wait()
			for _, d := range ops { // killed processes don't delete anything later
				d.db = nil
			}
			s = nil
			collect()
			if err := wipe(); err != nil {
				fail("removing the working storage: %v", err)
				return
			}
			note("everything but the savepoints is gone; restore savepoint %d", c.id)
			if !newStore(uri) {
				return
			}
			ck := s.CurrentCheckpoint()
			if ck.GetId() != c.id {
				fail("savepoint %d leads to checkpoint %d", c.id, ck.GetId())
				return
			}
			if len(ck.SourceCheckpoints) != 1 || string(ck.SourceCheckpoints[0].SplitterState) != c.splitter {
				fail("savepoint %d has source checkpoints %v, the splitter's state was %q", c.id, ck.SourceCheckpoints, c.splitter)
				return
			}
			var sp []string
			for _, b := range ck.SourceCheckpoints[0].SplitStates {
				sp = append(sp, string(b))
			}
			sort.Strings(sp)
			if want := slices.Sorted(slices.Values(c.splits)); !slices.Equal(sp, want) {
				fail("savepoint %d has the positions %v, acknowledged were %v", c.id, sp, want)
				return
			}
			if !deploy(c, ck) || r.Failed() {
				return
			}
		}
	}
}

type spOp struct {
	*dbm
	name string
}
type spOwn map[byte]bool

func (o spOwn) OwnsKey(k []byte) bool                                     { return len(k) > 0 && o[k[0]] }
func (o spOwn) ExclusivelyOwnsTable(string, []byte, []byte) (bool, error) { return false, nil }

// spPhase runs a deployment and returns one of its savepoints.
func spPhase(rng *rand.Rand, ops []*spOp, s *snapshots.Store, split *spSplitter, retained chan []uint64, note, fail func(string, ...any)) (*spCkpt, string) {
	var opNames, srNames []string
	for i, d := range ops {
		opNames = append(opNames, d.name)
		srNames = append(srNames, fmt.Sprintf("sr%d", i))
	}
	bad := false
	inner := fail
	fail = func(f string, a ...any) { bad = true; inner(f, a...) }
	var pend *spCkpt
	first := s.CurrentCheckpoint().GetId()
	done := map[uint64]*spCkpt{}
	var newest uint64
	begin := func(id uint64, sp bool) {
		if id <= first {
			fail("checkpoint id %d is handed out after checkpoint %d was restored", id, first)
		}
		c := &spCkpt{id: id, sp: sp, m: map[string]string{}}
		pend = c
		for i, d := range ops {
			c.acks = append(c.acks, func() error {
				maps.Copy(c.m, d.m)
				h, err := d.db.Checkpoint(id)()
				if err != nil {
					return err
				}
				return s.AddOperatorSnapshot(&snapshotpb.OperatorCheckpoint{CheckpointId: id, OperatorId: d.name, DkvFileUri: h.URI, KeyGroupRange: &snapshotpb.KeyGroupRange{Start: int32(i), End: int32(i + 1)}})
			}, func() error {
				p := fmt.Sprintf("sr%d at %d", i, id)
				c.splits = append(c.splits, p)
				return s.AddSourceSnapshot(&jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: id, SourceRunnerId: srNames[i], SplitStates: [][]byte{[]byte(p)}})
			})
		}
		rng.Shuffle(len(c.acks), func(i, j int) { c.acks[i], c.acks[j] = c.acks[j], c.acks[i] })
	}
	drain := func() {
		for {
			select {
			case ids := <-retained:
				for _, d := range ops {
					if err := d.db.UpdateRetainedCheckpoints(ids); err != nil {
						fail("operator %s cannot update its retained checkpoints to %v: %v", d.name, ids, err)
					}
				}
				note("retain %v", ids)
			default:
				return
			}
		}
	}
	saved := func(c *spCkpt) (uri string) {
		var err error
		for t0 := time.Now(); time.Since(t0) < hangLimit/3; time.Sleep(200 * time.Microsecond) {
			if uri, err = s.SavepointURIForID(c.id); err == nil && uri != "" {
				return uri
			}
		}
		fail("savepoint %d was requested and its checkpoint completed, but it isn't there: %q, %v", c.id, uri, err)
		return ""
	}
	for steps := 30 + rng.Intn(120); steps > 0 || pend != nil; steps-- {
		x := rng.Intn(20)
		if steps <= 0 {
			x = 19 // finish the checkpoint
		}
		switch {
		case x < 10:
			d := ops[rng.Intn(len(ops))]
			for range rng.Intn(12) {
				if len(d.keys) > 0 {
					d.step()
				}
			}
		case x < 11:
			ops[rng.Intn(len(ops))].wait()
		case x < 13:
			split.mu.Lock()
			split.n++
			split.mu.Unlock()
		case x < 14:
			drain()
		case x < 15:
			id, err := s.CreateCheckpoint(opNames, srNames)
			if (err == nil) != (pend == nil) {
				fail("CreateCheckpoint: %d, %v while %v is in progress", id, err, pend)
				return nil, ""
			}
			if err == nil {
				note("checkpoint %d", id)
				begin(id, false)
			}
		case x < 16:
			id, created, err := s.CreateSavepoint(opNames, srNames)
			note("savepoint %d %v %v", id, created, err)
			switch {
			case pend == nil && (err != nil || !created):
				fail("CreateSavepoint with nothing in progress: %d, %v, %v", id, created, err)
			case pend == nil:
				begin(id, true)
			case pend.sp && err == nil && (created || id != pend.id):
				fail("CreateSavepoint during savepoint %d: %d, %v, %v", pend.id, id, created, err)
			case !pend.sp && (err != nil || created || id != pend.id):
				fail("CreateSavepoint during checkpoint %d: %d, %v, %v", pend.id, id, created, err)
			default:
				pend.sp = true
			}
		default:
			if pend == nil {
				continue
			}
			if len(pend.acks) == 1 {
				split.mu.Lock()
				pend.splitter = fmt.Sprintf("splitter %d", split.n)
				split.mu.Unlock()
			}
			if err := pend.acks[0](); err != nil {
				fail("acknowledgement of checkpoint %d: %v", pend.id, err)
				return nil, ""
			}
			if pend.acks = pend.acks[1:]; len(pend.acks) == 0 {
				note("checkpoint %d is complete", pend.id)
				done[pend.id], newest = pend, pend.id
				if pend.sp && rng.Intn(2) == 0 {
					saved(pend)
				}
				pend = nil
			}
		}
		if bad {
			return nil, ""
		}
	}
	// the running job was not disturbed
	for t0 := time.Now(); newest > 0 && s.CurrentCheckpoint().GetId() != newest; time.Sleep(200 * time.Microsecond) {
		if time.Since(t0) > hangLimit/3 {
			fail("checkpoint %d completed but isn't the current one: %d", newest, s.CurrentCheckpoint().GetId())
			return nil, ""
		}
	}
	for _, d := range ops {
		for _, k := range d.keys {
			d.get(k, fmt.Sprintf("of running operator %s", d.name))
		}
	}
	var sps []*spCkpt
	uris := map[*spCkpt]string{}
	for _, c := range done {
		if c.sp {
			sps = append(sps, c)
			if uris[c] = saved(c); uris[c] == "" {
				return nil, ""
			}
		}
	}
	if len(sps) == 0 {
		return nil, ""
	}
	sort.Slice(sps, func(i, j int) bool { return sps[i].id < sps[j].id })
	c := sps[rng.Intn(len(sps))]
	return c, uris[c]
}

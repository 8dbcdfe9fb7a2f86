package zzverif

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	gproto "google.golang.org/protobuf/proto"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/config"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/jobs"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/storage/locations"
	hl "reduction.dev/reduction/zzhlib"
)

// The real Job with nodes that only record what they are told. Registrations, deregistrations, missing heartbeats and
// nodes that die before, during or after their deployment and in the middle of checkpoints come in random order, one
// at a time; after each the job has to be where the registered live nodes put it.
func TestVerifJobAssembly(t *testing.T) {
	r := hl.Start(t)
	r.Delays()
	defer r.Done()
	until := r.Sub(1)
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		workers, steps := 1+rng.Intn(3), 5+rng.Intn(30)
		r.Case("job with fake nodes: %d workers, %d steps, seed %d", workers, steps, seed)
		if !r.Within("job", 3*hangLimit, func() { r.Guard("job", func() { jbRun(r, rng, workers, steps, seed) }) }) {
			return
		}
	}
}

type jbNode struct {
	w    *jbWorld
	op   bool
	id   string
	last time.Time // of its heartbeat, zero once deregistered
	dead bool      // does not answer anymore
}
type jbWorld struct {
	mu       sync.Mutex
	r        *hl.R
	rng      *rand.Rand
	workers  int
	clock    *clClock
	job      *jobs.Job
	nodes    map[string]*jbNode
	bad      []string
	trace    []string
	deployed map[string]uint64 // node -> checkpoint it was last deployed with
	asm      []string          // the latest assembly asked for, in the order of the request
	deploys  int
	started  map[string]uint64 // source runner -> checkpoint it was told to start
	splits   map[string]int
	newest   uint64 // published
	lag      int    // deployments with an earlier one
	dir      string
	dieNext  string          // dies when it is deployed
	gone     map[string]bool // nodes which were not live anymore when the job was last seen running
}

func (w *jbWorld) fail(f string, a ...any) {
	if len(w.bad) < 3 {
		w.bad = append(w.bad, fmt.Sprintf(f, a...))
	}
}

const jbDeadline = 5 * time.Second

func (w *jbWorld) live(n *jbNode) bool {
	return n != nil && !n.last.IsZero() && !n.last.Before(w.clock.Now().Add(-jbDeadline))
}
func (w *jbWorld) count(op bool) (n int) {
	for _, x := range w.nodes {
		if x.op == op && w.live(x) {
			n++
		}
	}
	return n
}

func (n *jbNode) deploy(ctx context.Context, ops, srs []string, ck []*snapshotpb.OperatorCheckpoint) error {
	w := n.w
	w.mu.Lock()
	defer w.mu.Unlock()
	w.deploys++
	if w.dieNext == n.id {
		n.dead, w.dieNext = true, ""
		w.trace = append(w.trace, n.id+" dies while it is deployed")
	}
	if w.gone[n.id] {
		w.fail("node %s is deployed, but it is not registered or its heartbeat is missing", n.id)
	}
	if len(ops) != w.workers || !slices.Contains(ops, n.id) && n.op {
		w.fail("node %s is deployed with operators %v; configured are %d workers", n.id, ops, w.workers)
	}
	if n.op && len(srs) != w.workers {
		w.fail("node %s is deployed with source runners %v; configured are %d workers", n.id, srs, w.workers)
	}
	for _, id := range append(slices.Clone(ops), srs...) {
		if w.gone[id] {
			w.fail("node %s is deployed together with %s, which is not registered or misses its heartbeat", n.id, id)
		}
	}
	if n.op {
		w.asm = append(slices.Clone(ops), srs...)
		var id uint64
		for _, c := range ck {
			id = c.CheckpointId
		}
		if id != w.newest && w.stale() {
			w.fail("operator %s is deployed with checkpoint %d, the latest completed one is %d", n.id, id, w.newest)
		}
		w.deployed[n.id] = id
	}
	if n.dead {
		return errDead
	}
	return nil
}

type jbOp struct {
	proto.UnimplementedOperator
	*jbNode
}

func (o *jbOp) ID() string   { return o.id }
func (o *jbOp) Host() string { return "h-" + o.id }
func (o *jbOp) Deploy(ctx context.Context, req *workerpb.DeployOperatorRequest) error {
	var ops []string
	for _, x := range req.Operators {
		ops = append(ops, x.Id)
	}
	return o.deploy(ctx, ops, req.SourceRunnerIds, req.Checkpoints)
}
func (o *jbOp) UpdateRetainedCheckpoints(context.Context, []uint64) error { return nil }

type jbSR struct {
	proto.UnimplementedSourceRunner
	*jbNode
}

func (s *jbSR) ID() string   { return s.id }
func (s *jbSR) Host() string { return "h-" + s.id }
func (s *jbSR) Deploy(ctx context.Context, req *workerpb.DeploySourceRunnerRequest) error {
	var ops []string
	for _, x := range req.Operators {
		ops = append(ops, x.Id)
	}
	s.w.mu.Lock()
	s.w.splits[s.id] = 0
	s.w.mu.Unlock()
	return s.deploy(ctx, ops, nil, nil)
}
func (s *jbSR) AssignSplits(_ context.Context, sp []*workerpb.SourceSplit) error {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	s.w.splits[s.id] += len(sp)
	return nil
}
func (s *jbSR) StartCheckpoint(_ context.Context, id uint64) error {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	if s.w.gone[s.id] {
		s.w.fail("source runner %s is told to start checkpoint %d, but it is not registered or misses its heartbeat", s.id, id)
	}
	s.w.started[s.id] = id
	if s.dead {
		return errDead
	}
	return nil
}

type jbSource struct{ w *jbWorld }

func (s jbSource) Validate() error                   { return nil }
func (s jbSource) ProtoMessage() *jobconfigpb.Source { return &jobconfigpb.Source{} }
func (s jbSource) NewSourceReader(connectors.SourceReaderHooks) connectors.SourceReader {
	panic("unused")
}
func (s jbSource) NewSourceSplitter(ids []string, hooks connectors.SourceSplitterHooks, _ chan<- error) connectors.SourceSplitter {
	return &jbSplitter{w: s.w, ids: ids, hooks: hooks}
}

type jbSplitter struct {
	connectors.UnimplementedSourceSplitter
	w     *jbWorld
	ids   []string
	hooks connectors.SourceSplitterHooks
}

func (s *jbSplitter) IsSourceSplitter()                     {}
func (s *jbSplitter) Close() error                          { return nil }
func (s *jbSplitter) Checkpoint() []byte                    { return []byte("x") }
func (s *jbSplitter) NotifySplitsFinished(string, []string) {}
func (s *jbSplitter) Start(ck *snapshotpb.SourceCheckpoint) error {
	s.w.mu.Lock()
	if ck.GetCheckpointId() != s.w.newest && s.w.stale() {
		s.w.fail("the source splitter starts from checkpoint %d, the latest completed one is %d", ck.GetCheckpointId(), s.w.newest)
	}
	if len(s.ids) != s.w.workers {
		s.w.fail("the source splitter is made for source runners %v", s.ids)
	}
	s.w.mu.Unlock()
	a := map[string][]*workerpb.SourceSplit{}
	for _, id := range s.ids {
		a[id] = []*workerpb.SourceSplit{{SplitId: id, SourceId: "s"}}
	}
	s.hooks.AssignSplits(a)
	return nil
}

func jbRun(r *hl.R, rng *rand.Rand, workers, steps int, seed int64) {
	dir, err := os.MkdirTemp("", "verifjob")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	w := &jbWorld{dir: dir, r: r, rng: rng, workers: workers, clock: newClClock(), nodes: map[string]*jbNode{}, deployed: map[string]uint64{}, started: map[string]uint64{}, splits: map[string]int{}}
	w.job, err = jobs.New(&jobs.NewParams{
		JobConfig: &config.Config{WorkerCount: workers, KeyGroupCount: 8, WorkingStorageLocation: dir, Sources: []connectors.SourceConfig{jbSource{w}}},
		Clock:     w.clock, HeartbeatDeadline: jbDeadline, Store: locations.NewLocalDirectory(dir), ErrChan: make(chan error, 10),
		OperatorFactory: func(_ string, n *jobpb.NodeIdentity) proto.Operator {
			w.mu.Lock()
			defer w.mu.Unlock()
			return &jbOp{jbNode: w.nodes[n.Id]}
		},
		SourceRunnerFactory: func(n *jobpb.NodeIdentity) proto.SourceRunner {
			w.mu.Lock()
			defer w.mu.Unlock()
			return &jbSR{jbNode: w.nodes[n.Id]}
		},
	})
	if err != nil {
		r.Fail("job", "%v", err)
		return
	}
	check := func(step int) bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.bad) > 0 {
			r.Fail("job", "%s\nstep %d, %d workers, seed %d: %s", strings.Join(w.bad, "\n"), step, workers, seed, strings.Join(w.trace[max(0, len(w.trace)-25):], "; "))
			return false
		}
		return true
	}
	next := 0
	partial := false // the last checkpoint is left unfinished
	since := 0       // deployments until it started
	for step := range steps {
		w.mu.Lock()
		var ids []string
		for _, id := range sortedIDs(w.nodes) {
			if !w.nodes[id].dead && !w.nodes[id].last.IsZero() {
				ids = append(ids, id)
			}
		}
		w.mu.Unlock()
		pick := func() *jbNode { return w.nodes[ids[rng.Intn(len(ids))]] }
		switch x := rng.Intn(12); {
		case x < 5 || len(ids) == 0 || len(ids) < 2*workers:
			op := rng.Intn(2) == 0
			if rng.Intn(3) > 0 { // the kind there are fewer of
				op = w.count(true) <= w.count(false)
			}
			n := &jbNode{w: w, op: op, id: fmt.Sprintf("%d-%s%d", rng.Intn(90)+10, map[bool]string{true: "op", false: "sr"}[op], next)}
			next++
			w.mu.Lock()
			w.nodes[n.id] = n
			w.trace = append(w.trace, "register "+n.id)
			if rng.Intn(8) == 0 {
				w.dieNext = n.id
			}
			w.mu.Unlock()
			w.beat(n)
		case x < 7: // deregistration
			n := pick()
			w.mu.Lock()
			w.trace = append(w.trace, "deregister "+n.id)
			n.last, n.dead = time.Time{}, true
			w.mu.Unlock()
			if n.op {
				w.job.HandleDeregisterOperator(&jobpb.NodeIdentity{Id: n.id})
			} else {
				w.job.HandleDeregisterSourceRunner(&jobpb.NodeIdentity{Id: n.id})
			}
		case x < 9: // a node dies silently; its heartbeat has to run out
			n := pick()
			w.mu.Lock()
			w.trace = append(w.trace, n.id+" dies")
			n.dead = true
			w.mu.Unlock()
		case x < 11: // time passes
			w.mu.Lock()
			w.trace = append(w.trace, "heartbeats")
			w.mu.Unlock()
			for range 1 + rng.Intn(4) {
				w.clock.Advance(time.Duration(1+rng.Intn(4)) * time.Second)
				for _, id := range rng.Perm(len(ids)) {
					w.beat(w.nodes[ids[id]])
				}
			}
		default: // a node is redeployed where it dies
			w.mu.Lock()
			w.dieNext = pick().id
			w.mu.Unlock()
		}
		if !check(step) {
			return
		}

		// wait until the job is where it has to be
		for t0 := time.Now(); ; time.Sleep(100 * time.Microsecond) {
			// dead nodes expire, live ones send heartbeats
			w.mu.Lock()
			var dead bool
			for _, n := range w.nodes {
				dead = dead || n.dead && w.live(n)
			}
			w.mu.Unlock()
			if dead {
				w.clock.Advance(3 * time.Second)
			}
			w.mu.Lock()
			ns := make([]*jbNode, 0)
			for _, id := range sortedIDs(w.nodes) {
				ns = append(ns, w.nodes[id])
			}
			w.mu.Unlock()
			for _, n := range ns {
				if !n.dead && !n.last.IsZero() {
					w.beat(n)
				}
			}
			for range 2 { // the job looks at its nodes; the second waits until the first is done
				w.job.HandleDeregisterOperator(&jobpb.NodeIdentity{Id: "unknown"})
			}
			if !check(step) {
				return
			}
			w.mu.Lock()
			enough := w.count(true) >= workers && w.count(false) >= workers
			before := w.deploys
			for k := range w.started {
				delete(w.started, k)
			}
			w.mu.Unlock()
			if dead {
				continue
			}
			if !enough {
				// the job may just be becoming aware of it, but it doesn't go on
				for try := 0; ; try++ {
					w.clock.tick("checkpointing")
					w.mu.Lock()
					n, asm := len(w.started), slices.Clone(w.asm)
					var id uint64
					for k, v := range w.started {
						id = v
						delete(w.started, k)
					}
					if n > 0 && try == 5 {
						w.fail("checkpoints up to %d started although there are not enough nodes", id)
					}
					w.mu.Unlock()
					if n == 0 || try == 5 {
						break
					}
					all := len(asm) == 2*workers
					for k, n := range asm {
						all = w.ack(id, n, k) == nil && all
					}
					if all {
						w.published(id)
					}
					for range 2 {
						w.job.HandleDeregisterOperator(&jobpb.NodeIdentity{Id: "unknown"})
					}
				}
				break
			}
			if partial && w.member() && before == since {
				break // nothing has changed: the checkpoint is still waiting
			}
			// a running job starts a checkpoint, at all source runners of a live assembly
			w.clock.tick("checkpointing")
			w.mu.Lock()
			moved := before != w.deploys // it became running just now, or stopped
			ok := len(w.started) == workers && len(w.asm) == 2*workers
			var id uint64
			for k, v := range w.started {
				ok = ok && slices.Contains(w.asm[workers:], k) && !w.nodes[k].dead && w.splits[k] == 1
				id = v
			}
			for _, k := range w.asm {
				ok = ok && w.live(w.nodes[k]) && !w.nodes[k].dead
			}
			asm := slices.Clone(w.asm)
			w.mu.Unlock()
			if id > 0 && moved {
				all := len(asm) == 2*workers
				for k, n := range asm {
					all = w.ack(id, n, k) == nil && all
				}
				if all {
					w.published(id)
				}
			} else if ok {
				// the nodes acknowledge, maybe not all of them
				partial, since = rng.Intn(2) == 0, before
				left := rng.Intn(2 * workers)
				for i, k := range rng.Perm(2 * workers) {
					if partial && i == left {
						break
					}
					err := w.ack(id, asm[k], k)
					if err != nil {
						w.mu.Lock()
						w.fail("acknowledgement of checkpoint %d, which was just started, by member %s of the assembly: %v", id, asm[k], err)
						w.mu.Unlock()
					}
				}
				if !partial {
					w.published(id)
				}
				w.mu.Lock()
				w.trace = append(w.trace, fmt.Sprintf("checkpoint %d, %v, unfinished: %v", id, asm, partial))
				w.gone = map[string]bool{}
				for _, n := range w.nodes {
					w.gone[n.id] = !w.live(n)
				}
				w.mu.Unlock()
				break
			}
			if time.Since(t0) > hangLimit {
				if os.Getenv("DUMP") != "" {
					b := make([]byte, 1<<24)
					os.WriteFile(os.Getenv("DUMP"), b[:runtime.Stack(b, true)], 0o644)
				}
				w.mu.Lock()
				w.fail("%d operators and %d source runners are live, but no checkpoint starts within %v at all source runners of an assembly of them; told to start: %v, assembly %v, splits %v", w.count(true), w.count(false), hangLimit, w.started, w.asm, w.splits)
				w.mu.Unlock()
				check(step)
				return
			}
		}
		if !check(step) {
			return
		}
	}
}

// stale says whether it can't be anymore that the newest checkpoint was just becoming the current one.
func (w *jbWorld) stale() bool {
	w.lag++
	return w.lag > 3*w.workers
}

// published waits until the checkpoint all acknowledged is in storage.
func (w *jbWorld) published(id uint64) {
	for t0 := time.Now(); time.Since(t0) < hangLimit; time.Sleep(100 * time.Microsecond) {
		fs, _ := filepath.Glob(filepath.Join(w.dir, "checkpoints", "*.snapshot"))
		for _, f := range fs {
			var c snapshotpb.JobCheckpoint
			if b, err := os.ReadFile(f); err == nil && gproto.Unmarshal(b, &c) == nil && c.Id == id {
				time.Sleep(100 * time.Microsecond)
				w.mu.Lock()
				w.newest = id
				w.mu.Unlock()
				return
			}
		}
	}
	w.mu.Lock()
	w.fail("checkpoint %d was acknowledged by all but not published within %v", id, hangLimit)
	w.mu.Unlock()
}

func (w *jbWorld) ack(id uint64, n string, k int) error {
	if k < w.workers {
		return w.job.HandleOperatorCheckpointComplete(context.Background(), &snapshotpb.OperatorCheckpoint{CheckpointId: id, OperatorId: n, KeyGroupRange: &snapshotpb.KeyGroupRange{Start: int32(8 * k / w.workers), End: int32(8 * (k + 1) / w.workers)}, DkvFileUri: n + "/checkpoints"})
	}
	return w.job.HandleSourceRunnerCheckpointComplete(context.Background(), &jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: id, SourceRunnerId: n, SplitStates: [][]byte{[]byte(n)}})
}

// member says whether every member of the current assembly is live.
func (w *jbWorld) member() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, k := range w.asm {
		if !w.live(w.nodes[k]) || w.nodes[k].dead {
			return false
		}
	}
	return true
}

// beat is a (repeated) registration, handled when it returns.
func (w *jbWorld) beat(n *jbNode) {
	if n.dead {
		return
	}
	w.mu.Lock()
	n.last = w.clock.Now()
	delete(w.gone, n.id)
	w.mu.Unlock()
	id := &jobpb.NodeIdentity{Id: n.id, Host: "h-" + n.id}
	if n.op {
		w.job.HandleRegisterOperator(id)
	} else {
		w.job.HandleRegisterSourceRunner(id)
	}
	w.job.HandleDeregisterOperator(&jobpb.NodeIdentity{Id: "unknown"}) // waits until the registration is done
}

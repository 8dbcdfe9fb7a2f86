package zzverif

import (
	"context"
	"errors"
	"fmt"
	"io"
	"iter"
	"log/slog"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	gproto "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/clocks"
	"reduction.dev/reduction/config"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/jobs"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/storage/locations"
	"reduction.dev/reduction/workers/operator"
	"reduction.dev/reduction/workers/sourcerunner"
	hl "reduction.dev/reduction/zzhlib"
)

func init() { slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil))) }

// A whole job in one process: the real Job, Operators and SourceRunners, connected by direct calls instead of
// RPCs. Nodes and the job can be killed at any moment: what they do afterwards reaches nobody.
type clConf struct {
	workers, standby, groups, splits, records, keys, srBatch, opBatch int
	delay                                                             time.Duration
	kills, jobKills, ackDelay                                         int // ackDelay in µs
	pause                                                             int // µs between reads
	savepoint                                                         bool
	workers2                                                          int // workers after the final restart
	big                                                               int // size of the values in state
}

var errDead = errors.New("connection refused")

type clNode struct {
	id    string
	op    *operator.Operator
	sr    *sourcerunner.SourceRunner
	clock *clClock
	dead  chan struct{}
	once  sync.Once
	ended chan struct{}
	up    chan struct{} // it has tried to register
	upped sync.Once
	calls atomic.Int64 // calls it is still busy with
}

func (n *clNode) isDead() bool {
	select {
	case <-n.dead:
		return true
	default:
		return false
	}
}
func (n *clNode) die() { n.once.Do(func() { close(n.dead) }) }

// do is a remote call to the node.
func (n *clNode) do(ctx context.Context, f func() error) error {
	if n == nil || n.isDead() {
		return errDead
	}
	res := make(chan error, 1)
	n.calls.Add(1)
	go func() { // an RPC server turns panics into errors
		var err error
		if e := hl.Try(func() { err = f() }); e != nil {
			err = e
		}
		res <- err
		n.calls.Add(-1)
	}()
	select {
	case err := <-res:
		if n.isDead() {
			return errDead
		}
		return err
	case <-n.dead:
		return errDead
	case <-ctx.Done():
		return ctx.Err()
	}
}

type clJobRun struct {
	w       *clWorld
	job     *jobs.Job
	clock   *clClock
	dead    chan struct{}
	workers int
	started atomic.Uint64 // highest checkpoint its source runners were told to start
	deploys int
}

func (j *clJobRun) isDead() bool {
	select {
	case <-j.dead:
		return true
	default:
		return false
	}
}

type clWorld struct {
	r   *hl.R
	c   clConf
	dir string

	mu        sync.Mutex
	rng       *rand.Rand
	nodes     map[string]*clNode
	run       *clJobRun
	bad       []string
	trace     []string
	applied   map[string]map[int]int // key, split -> how many of its records have been applied
	seqs      map[string]map[int][]int
	probes    atomic.Bool
	probed    map[string]string // what is wrong with the state of a probed key, empty if nothing
	published map[uint64]*snapshotpb.JobCheckpoint
	top       uint64
	deployErr string
}

func (w *clWorld) fail(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.failL(f, a...)
}
func (w *clWorld) failL(f string, a ...any) {
	if len(w.bad) < 3 {
		w.bad = append(w.bad, fmt.Sprintf(f, a...))
	}
}
func (w *clWorld) note(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if t := fmt.Sprintf(f, a...); len(w.bad) == 0 && !slices.Contains(w.trace[max(0, len(w.trace)-4):], t) {
		w.trace = append(w.trace, t)
	}
}
func (w *clWorld) failed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.bad) > 0
}
func (w *clWorld) intn(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rng.Intn(n)
}
func (w *clWorld) nap(us int) {
	if us > 0 {
		time.Sleep(time.Duration(w.intn(us)) * time.Microsecond)
	}
}

// ---- the input

// keysOf gives the keys of the events a record becomes.
func (w *clWorld) keysOf(sp, i int) []string {
	h := hashStr(fmt.Sprintf("%d/%d", sp, i))
	var out []string
	for range []int{1, 1, 1, 0, 2, 2}[h%6] {
		h = h*6364136223846793005 + 1442695040888963407
		k := fmt.Sprintf("k%d", (h>>33)%uint64(w.c.keys))
		if !slices.Contains(out, k) {
			out = append(out, k)
		}
	}
	return out
}

type clSource struct{ w *clWorld }

func (s clSource) Validate() error                   { return nil }
func (s clSource) ProtoMessage() *jobconfigpb.Source { return &jobconfigpb.Source{} }
func (s clSource) NewSourceReader(connectors.SourceReaderHooks) connectors.SourceReader {
	panic("unused")
}
func (s clSource) NewSourceSplitter(ids []string, hooks connectors.SourceSplitterHooks, _ chan<- error) connectors.SourceSplitter {
	return &clSplitter{w: s.w, ids: ids, hooks: hooks}
}

type clSplitter struct {
	connectors.UnimplementedSourceSplitter
	w     *clWorld
	ids   []string
	hooks connectors.SourceSplitterHooks
}

func (s *clSplitter) IsSourceSplitter()                     {}
func (s *clSplitter) Close() error                          { return nil }
func (s *clSplitter) Checkpoint() []byte                    { return []byte("splitter") }
func (s *clSplitter) NotifySplitsFinished(string, []string) {}
func (s *clSplitter) Start(ck *snapshotpb.SourceCheckpoint) error {
	cursors := map[int]int{}
	for _, b := range ck.GetSplitStates() {
		sp, c, ok := strings.Cut(string(b), "@")
		i, err := strconv.Atoi(sp)
		n, err2 := strconv.Atoi(c)
		if !ok || err != nil || err2 != nil {
			s.w.fail("the splitter is given split state %q", b)
			continue
		}
		if _, dup := cursors[i]; dup {
			s.w.fail("the splitter is given two positions of split %d: %q", i, ck.SplitStates)
		}
		cursors[i] = n
	}
	if ck != nil {
		if string(ck.SplitterState) != "splitter" {
			s.w.fail("the splitter is given state %q", ck.SplitterState)
		}
		for sp := range s.w.c.splits {
			if _, ok := cursors[sp]; !ok {
				s.w.fail("checkpoint %d has no position of split %d although the split was assigned before: %q", ck.CheckpointId, sp, ck.SplitStates)
			}
		}
	}
	a := map[string][]*workerpb.SourceSplit{}
	off := s.w.intn(len(s.ids))
	for sp := range s.w.c.splits { // every source runner gets one: watermarks need input
		id := s.ids[(sp+off)%len(s.ids)]
		if sp == len(s.ids) { // the rest in a second assignment
			s.hooks.AssignSplits(a)
			a = map[string][]*workerpb.SourceSplit{}
		}
		a[id] = append(a[id], &workerpb.SourceSplit{SplitId: strconv.Itoa(sp), SourceId: "s", Cursor: []byte(strconv.Itoa(cursors[sp]))})
	}
	s.hooks.AssignSplits(a)
	return nil
}

type clReader struct {
	w      *clWorld
	mu     sync.Mutex
	cursor map[int]int
	probe  time.Time
}

func (s *clReader) AssignSplits(splits []*workerpb.SourceSplit) error {
	s.w.nap(s.w.c.ackDelay)
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, sp := range splits {
		i, _ := strconv.Atoi(sp.SplitId)
		c, _ := strconv.Atoi(string(sp.Cursor))
		if _, ok := s.cursor[i]; ok {
			s.w.fail("split %d is assigned twice to a source runner", i)
		}
		s.cursor[i] = c
	}
	return nil
}
func (s *clReader) Checkpoint() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out [][]byte
	for sp, c := range s.cursor {
		out = append(out, []byte(fmt.Sprintf("%d@%d", sp, c)))
	}
	return out
}
func (s *clReader) ReadEvents() ([][]byte, error) {
	s.w.nap(s.w.c.pause)
	s.mu.Lock()
	defer s.mu.Unlock()
	var out [][]byte
	for sp := range s.w.c.splits {
		c, ok := s.cursor[sp]
		if !ok {
			continue
		}
		n := min(s.w.intn(6), s.w.c.records-c)
		for i := c; i < c+n; i++ {
			out = append(out, []byte(fmt.Sprintf("%d/%d", sp, i)))
		}
		s.cursor[sp] = c + n
		if c+n == s.w.c.records && s.w.probes.Load() && time.Since(s.probe) > 10*time.Millisecond {
			s.probe = time.Now()
			out = append(out, []byte("probe"))
		}
	}
	if len(out) == 0 {
		time.Sleep(time.Millisecond)
	}
	return out, nil
}

// ---- the user's handler: the state of a key says how many of each split's records were applied to it

type clHandler struct{ w *clWorld }

func clTime(sp, i int) time.Time { return time.Unix(int64(10+i), int64(sp)*1000) }

func (h clHandler) KeyEventBatch(_ context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	out := make([][]*handlerpb.KeyedEvent, len(events))
	for n, e := range events {
		if string(e) == "probe" {
			for k := range h.w.seqs {
				out[n] = append(out[n], &handlerpb.KeyedEvent{Key: []byte(k), Timestamp: timestamppb.New(time.Unix(int64(100+h.w.c.records), 0)), Value: e})
			}
			continue
		}
		a, b, _ := strings.Cut(string(e), "/")
		sp, _ := strconv.Atoi(a)
		i, _ := strconv.Atoi(b)
		for _, k := range h.w.keysOf(sp, i) {
			out[n] = append(out[n], &handlerpb.KeyedEvent{Key: []byte(k), Timestamp: timestamppb.New(clTime(sp, i)), Value: e})
		}
	}
	return out, nil
}

// clExpect is what the state of a key has to be once n[split] of its records are applied; timers are left out.
func (w *clWorld) clExpect(k string, n map[int]int) map[string]string {
	out := map[string]string{}
	for sp, c := range n {
		if c == 0 {
			continue
		}
		out[fmt.Sprintf("n/%d", sp)] = strconv.Itoa(c)
		for j := max(0, c-3); j < c; j++ { // the last three records
			out[fmt.Sprintf("h/%d/%d", sp, w.seqs[k][sp][j])] = strings.Repeat("v", w.c.big)
		}
	}
	return out
}

func (h clHandler) ProcessEventBatch(_ context.Context, req *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	w := h.w
	w.mu.Lock()
	defer w.mu.Unlock()
	state := map[string]map[string]string{} // per key, namespace/entry
	timers := map[string]map[string]string{}
	count := map[string]map[int]int{}
	for _, ks := range req.KeyStates {
		k := string(ks.Key)
		if state[k] != nil {
			w.failL("the state of key %s is given twice", k)
		}
		state[k], timers[k], count[k] = map[string]string{}, map[string]string{}, map[int]int{}
		for _, ns := range ks.StateEntryNamespaces {
			for _, e := range ns.Entries {
				if ns.Namespace == "t" {
					timers[k][string(e.Key)] = string(e.Value)
					continue
				}
				state[k][ns.Namespace+"/"+string(e.Key)] = string(e.Value)
				if ns.Namespace == "n" {
					sp, _ := strconv.Atoi(string(e.Key))
					count[k][sp], _ = strconv.Atoi(string(e.Value))
				}
			}
		}
		want := w.clExpect(k, count[k])
		if fmt.Sprint(want) != fmt.Sprint(state[k]) {
			w.failL("the state of key %s given to the handler is %v; with these counts it has to be %v", k, state[k], want)
		}
	}
	resp := &handlerpb.ProcessEventBatchResponse{}
	res := map[string]*handlerpb.KeyResult{}
	mut := func(k, ns, e string, v []byte) {
		if res[k] == nil {
			res[k] = &handlerpb.KeyResult{Key: []byte(k)}
			resp.KeyResults = append(resp.KeyResults, res[k])
		}
		m := &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Put{Put: &handlerpb.PutMutation{Key: []byte(e), Value: v}}}
		if v == nil {
			m = &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Delete{Delete: &handlerpb.DeleteMutation{Key: []byte(e)}}}
		}
		res[k].StateMutationNamespaces = append(res[k].StateMutationNamespaces, &handlerpb.StateMutationNamespace{Namespace: ns, Mutations: []*handlerpb.StateMutation{m}})
	}
	wm := req.Watermark.AsTime()
	for _, ev := range req.Events {
		switch e := ev.Event.(type) {
		case *handlerpb.Event_KeyedEvent:
			k := string(e.KeyedEvent.Key)
			if state[k] == nil {
				w.failL("an event of key %s comes without the key's state", k)
				continue
			}
			if string(e.KeyedEvent.Value) == "probe" {
				w.probed[k] = ""
				for sp, seq := range w.seqs[k] {
					if count[k][sp] != len(seq) {
						w.probed[k] = fmt.Sprintf("%d of %d records of split %d are applied", count[k][sp], len(seq), sp)
					}
				}
				if len(timers[k]) > 0 && w.probed[k] == "" {
					w.probed[k] = fmt.Sprintf("timers %v have not fired, the watermark is %v", timers[k], wm.Unix())
				}
				continue
			}
			a, b, _ := strings.Cut(string(e.KeyedEvent.Value), "/")
			sp, _ := strconv.Atoi(a)
			i, _ := strconv.Atoi(b)
			seq := w.seqs[k][sp]
			c := count[k][sp]
			if c >= len(seq) || seq[c] != i {
				at := slices.Index(seq, i)
				switch {
				case at < 0:
					w.failL("record %d/%d is delivered to key %s, to which it does not belong", sp, i, k)
				case at < c:
					w.failL("record %d/%d is applied to key %s a second time: the key's state has its first %d records of that split already, this is number %d", sp, i, k, c, at)
				default:
					w.failL("record %d/%d is applied to key %s, whose state has the first %d records of that split while this is number %d: records in between are lost", sp, i, k, c, at)
				}
				continue
			}
			count[k][sp] = c + 1
			mut(k, "n", strconv.Itoa(sp), []byte(strconv.Itoa(c+1)))
			mut(k, "h", fmt.Sprintf("%d/%d", sp, i), []byte(strings.Repeat("v", w.c.big)))
			if c >= 3 {
				mut(k, "h", fmt.Sprintf("%d/%d", sp, seq[c-3]), nil)
			}
			// a timer, which is not due yet when nothing was read further
			if i%3 == 0 && i < w.c.records-10 {
				t := clTime(sp, i+2).Add(time.Duration(i) * time.Microsecond)
				if t.After(wm) {
					mut(k, "t", strconv.FormatInt(t.UnixNano(), 10), []byte("set"))
					timers[k][strconv.FormatInt(t.UnixNano(), 10)] = "set"
					res[k].NewTimers = append(res[k].NewTimers, timestamppb.New(t))
				}
			}
			if w.applied[k] == nil {
				w.applied[k] = map[int]int{}
			}
			w.applied[k][sp] = c + 1
		case *handlerpb.Event_TimerExpired:
			k := string(e.TimerExpired.Key)
			n := strconv.FormatInt(e.TimerExpired.Timestamp.AsTime().UnixNano(), 10)
			if state[k] == nil {
				w.failL("a timer of key %s comes without the key's state", k)
				continue
			}
			if timers[k][n] != "set" {
				w.failL("timer %s of key %s expires, but according to the key's state (%v) it is not set or has fired before", n, k, timers[k])
				continue
			}
			delete(timers[k], n)
			mut(k, "t", n, nil)
		}
	}
	return resp, nil
}

// ---- connections

type clOp struct {
	proto.UnimplementedOperator
	w      *clWorld
	id     string
	sender *clNode   // calling node, or
	run    *clJobRun // calling job
}

func (o *clOp) ID() string   { return o.id }
func (o *clOp) Host() string { return "host-" + o.id }
func (o *clOp) call(ctx context.Context, f func(n *clNode) error) error {
	if o.sender != nil && o.sender.isDead() || o.run != nil && o.run.isDead() {
		return errDead
	}
	o.w.mu.Lock()
	n := o.w.nodes[o.id]
	o.w.mu.Unlock()
	return n.do(ctx, func() error { return f(n) })
}
func (o *clOp) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	return o.call(ctx, func(n *clNode) error {
		for _, e := range batch {
			if o.sender.isDead() {
				return errDead
			}
			if err := n.op.HandleEvent(ctx, o.sender.id, gproto.Clone(e).(*workerpb.Event)); err != nil {
				return err
			}
		}
		return nil
	})
}
func ckptOf(req *workerpb.DeployOperatorRequest) uint64 {
	if len(req.Checkpoints) == 0 {
		return 0
	}
	return req.Checkpoints[0].CheckpointId
}
func ckURIs(req *workerpb.DeployOperatorRequest) (out []string) {
	for _, c := range req.Checkpoints {
		p := strings.Split(c.DkvFileUri, "/")
		out = append(out, short4(p[max(0, len(p)-3)])+"/"+short4(p[len(p)-2]))
	}
	return out
}
func (o *clOp) Deploy(ctx context.Context, req *workerpb.DeployOperatorRequest) error {
	o.w.nap(o.w.c.ackDelay)
	return o.call(ctx, func(n *clNode) (err error) {
		if len(req.Operators) != o.run.workers || len(req.SourceRunnerIds) != o.run.workers {
			o.w.fail("operator deployed in an assembly of %d operators and %d source runners, configured are %d", len(req.Operators), len(req.SourceRunnerIds), o.run.workers)
		}
		o.w.note("deploy %s, checkpoint %d %v", short4(o.id), ckptOf(req), ckURIs(req))
		if e := hl.Try(func() { err = n.op.HandleDeploy(ctx, req, nil) }); e != nil && !n.isDead() && !o.run.isDead() {
			o.w.fail("deploying %s with checkpoint %d: %v", short4(o.id), ckptOf(req), strings.SplitN(e.Error(), "\n", 2)[0])
			return e
		}
		return err
	})
}
func (o *clOp) UpdateRetainedCheckpoints(ctx context.Context, ids []uint64) error {
	return o.call(ctx, func(n *clNode) error {
		o.w.note("%s retains %d", short4(o.id), ids)
		return n.op.HandleRemoveCheckpoints(ctx, &workerpb.UpdateRetainedCheckpointsRequest{CheckpointIds: ids})
	})
}
func (o *clOp) NeedsTable(ctx context.Context, uri string) (need bool, err error) {
	err = o.call(ctx, func(n *clNode) error {
		need = n.op.HandleNeedsTable(uri)
		return nil
	})
	return need, err
}

type clSR struct {
	proto.UnimplementedSourceRunner
	w   *clWorld
	id  string
	run *clJobRun
}

func (s *clSR) ID() string   { return s.id }
func (s *clSR) Host() string { return "host-" + s.id }
func (s *clSR) call(ctx context.Context, f func(n *clNode) error) error {
	if s.run.isDead() {
		return errDead
	}
	s.w.mu.Lock()
	n := s.w.nodes[s.id]
	s.w.mu.Unlock()
	return n.do(ctx, func() error { return f(n) })
}
func (s *clSR) Deploy(ctx context.Context, req *workerpb.DeploySourceRunnerRequest) error {
	s.w.nap(s.w.c.ackDelay)
	return s.call(ctx, func(n *clNode) error { return n.sr.HandleDeploy(ctx, req) })
}
func (s *clSR) AssignSplits(ctx context.Context, sp []*workerpb.SourceSplit) error {
	return s.call(ctx, func(n *clNode) error { return n.sr.HandleAssignSplits(sp) })
}
func (s *clSR) StartCheckpoint(ctx context.Context, id uint64) error {
	s.w.nap(s.w.c.ackDelay)
	return s.call(ctx, func(n *clNode) error {
		for {
			old := s.run.started.Load()
			if old >= id || s.run.started.CompareAndSwap(old, id) {
				break
			}
		}
		n.sr.HandleStartCheckpoint(ctx, id)
		return nil
	})
}

// clJob is the job as a node sees it.
type clJob struct {
	w *clWorld
	n *clNode
}

func (j clJob) do(f func(*jobs.Job) error) error {
	j.n.upped.Do(func() { close(j.n.up) })
	j.w.mu.Lock()
	run := j.w.run
	j.w.mu.Unlock()
	if j.n.isDead() || run == nil || run.isDead() {
		return errDead
	}
	res := make(chan error, 1)
	go func() { res <- f(run.job) }()
	select {
	case err := <-res:
		return err
	case <-run.dead:
		return errDead
	case <-j.n.dead:
		return errDead
	}
}
func (j clJob) node() *jobpb.NodeIdentity {
	return &jobpb.NodeIdentity{Id: j.n.id, Host: "host-" + j.n.id}
}
func (j clJob) RegisterSourceRunner(context.Context, *jobpb.NodeIdentity) error {
	return j.do(func(job *jobs.Job) error { job.HandleRegisterSourceRunner(j.node()); return nil })
}
func (j clJob) DeregisterSourceRunner(context.Context, *jobpb.NodeIdentity) error {
	return j.do(func(job *jobs.Job) error { job.HandleDeregisterSourceRunner(j.node()); return nil })
}
func (j clJob) RegisterOperator(context.Context, *jobpb.NodeIdentity) error {
	return j.do(func(job *jobs.Job) error { job.HandleRegisterOperator(j.node()); return nil })
}
func (j clJob) DeregisterOperator(context.Context, *jobpb.NodeIdentity) error {
	return j.do(func(job *jobs.Job) error { job.HandleDeregisterOperator(j.node()); return nil })
}
func (j clJob) OperatorCheckpointComplete(ctx context.Context, req *snapshotpb.OperatorCheckpoint) error {
	j.w.nap(j.w.c.ackDelay)
	return j.do(func(job *jobs.Job) error { return job.HandleOperatorCheckpointComplete(ctx, req) })
}
func (j clJob) OnSourceRunnerCheckpointComplete(ctx context.Context, req *jobpb.SourceRunnerCheckpointCompleteRequest) error {
	j.w.nap(j.w.c.ackDelay)
	return j.do(func(job *jobs.Job) error { return job.HandleSourceRunnerCheckpointComplete(ctx, req) })
}
func (j clJob) NotifySplitsFinished(_ context.Context, id string, splits []string) error {
	return j.do(func(job *jobs.Job) error { return job.HandleNotifySplitsFinished(id, splits) })
}

// clLoc is the job's storage; nothing a dead job does reaches it.
type clLoc struct {
	locations.StorageLocation
	w   *clWorld
	run *clJobRun
}

func (l *clLoc) gone() error {
	if l.run.isDead() {
		return errDead
	}
	return nil
}
func (l *clLoc) Write(p string, data io.Reader) (string, error) {
	l.w.nap(l.w.c.ackDelay)
	b, err := io.ReadAll(data)
	if err != nil {
		return "", err
	}
	if err := l.gone(); err != nil {
		return "", err
	}
	uri, err := l.StorageLocation.Write(p, strings.NewReader(string(b)))
	if strings.HasSuffix(p, ".snapshot") && err == nil {
		var s snapshotpb.JobCheckpoint
		if err := gproto.Unmarshal(b, &s); err == nil {
			l.w.mu.Lock()
			l.w.published[s.Id] = &s
			l.w.top = max(l.w.top, s.Id)
			l.w.trace = append(l.w.trace, fmt.Sprintf("published %d", s.Id))
			l.w.mu.Unlock()
		}
	}
	return uri, err
}
func (l *clLoc) Copy(a, b string) error {
	if err := l.gone(); err != nil {
		return err
	}
	return l.StorageLocation.Copy(a, b)
}
func (l *clLoc) Remove(ps ...string) error {
	if err := l.gone(); err != nil {
		return err
	}
	return l.StorageLocation.Remove(ps...)
}
func (l *clLoc) List() iter.Seq2[string, error] { return l.StorageLocation.List() }

// ---- driving it

func newCluster(r *hl.R, rng *rand.Rand, c clConf) (*clWorld, error) {
	dir, err := os.MkdirTemp("", "verifcluster")
	if err != nil {
		return nil, err
	}
	w := &clWorld{r: r, c: c, dir: dir, rng: rng, nodes: map[string]*clNode{}, applied: map[string]map[int]int{}, seqs: map[string]map[int][]int{}, probed: map[string]string{}, published: map[uint64]*snapshotpb.JobCheckpoint{}}
	for sp := range c.splits {
		for i := range c.records {
			for _, k := range w.keysOf(sp, i) {
				if w.seqs[k] == nil {
					w.seqs[k] = map[int][]int{}
				}
				w.seqs[k][sp] = append(w.seqs[k][sp], i)
			}
		}
	}
	return w, nil
}

func (w *clWorld) startJob(workers int, savepoint string) error {
	run := &clJobRun{w: w, clock: newClClock(), dead: make(chan struct{}), workers: workers}
	job, err := jobs.New(&jobs.NewParams{
		JobConfig:    &config.Config{WorkerCount: workers, KeyGroupCount: w.c.groups, WorkingStorageLocation: filepath.Join(w.dir, "work"), Sources: []connectors.SourceConfig{clSource{w}}},
		SavepointURI: savepoint, Clock: run.clock, Store: &clLoc{locations.NewLocalDirectory(w.dir), w, run}, ErrChan: make(chan error, 100),
		OperatorFactory:     func(_ string, n *jobpb.NodeIdentity) proto.Operator { return &clOp{w: w, id: n.Id, run: run} },
		SourceRunnerFactory: func(n *jobpb.NodeIdentity) proto.SourceRunner { return &clSR{w: w, id: n.Id, run: run} },
	})
	if err != nil {
		return err
	}
	run.job = job
	w.mu.Lock()
	w.run = run
	w.trace = append(w.trace, fmt.Sprintf("start job (%d workers, savepoint %q)", workers, savepoint))
	w.mu.Unlock()
	return nil
}
func (w *clWorld) killJob() {
	w.mu.Lock()
	defer w.mu.Unlock()
	close(w.run.dead)
	w.trace = append(w.trace, "kill job")
}

func (w *clWorld) live(op bool) []*clNode {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*clNode
	for _, id := range sortedIDs(w.nodes) {
		if n := w.nodes[id]; !n.isDead() && (n.op != nil) == op {
			select {
			case <-n.ended:
				n.die()
			default:
				out = append(out, n)
			}
		}
	}
	return out
}
func sortedIDs[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

func (w *clWorld) addNode(op bool) {
	n := &clNode{clock: newClClock(), dead: make(chan struct{}), ended: make(chan struct{}), up: make(chan struct{})}
	factory := func(sender string, node *jobpb.NodeIdentity) proto.Operator {
		return &clOp{w: w, id: node.Id, sender: n}
	}
	if op {
		n.id = fmt.Sprintf("op%09d", w.intn(1<<29))
		n.op = operator.NewOperator(operator.NewOperatorParams{ID: n.id, Host: "h", Job: clJob{w, n}, UserHandler: clHandler{w}, Clock: n.clock, NeighborOperatorFactory: factory,
			EventBatching: batching.EventBatcherParams{MaxDelay: w.c.delay, MaxSize: w.c.opBatch}})
	} else {
		n.sr = sourcerunner.New(sourcerunner.NewParams{Host: "h", UserHandler: clHandler{w}, Job: clJob{w, n}, Clock: n.clock, OperatorFactory: factory,
			SourceReaderFactory: func(*jobconfigpb.Source) connectors.SourceReader { return &clReader{w: w, cursor: map[int]int{}} },
			EventBatching:       batching.EventBatcherParams{MaxDelay: w.c.delay, MaxSize: w.c.srBatch}})
		n.id = n.sr.ID
	}
	w.mu.Lock()
	w.nodes[n.id] = n
	w.trace = append(w.trace, "start "+short4(n.id))
	w.mu.Unlock()
	go func() {
		defer close(n.ended)
		if op {
			n.op.Start(context.Background())
		} else {
			n.sr.Start(context.Background())
		}
	}()
}
func short4(s string) string { return s[max(0, len(s)-4):] }

// register lets every live node repeat its registration.
func (w *clWorld) register() {
	for _, op := range []bool{true, false} {
		for _, n := range w.live(op) {
			n.clock.tick("register")
		}
	}
}
func (w *clWorld) fill(workers int) {
	for _, op := range []bool{true, false} {
		for n := len(w.live(op)); n < workers+w.c.standby; n++ {
			w.addNode(op)
		}
	}
}
func (w *clWorld) kill(n *clNode, how string) {
	<-n.up
	w.note("%s %s", how, short4(n.id))
	switch {
	case how == "stop" && n.op != nil:
		n.op.Stop()
	case how == "stop":
		n.sr.Stop()
	case n.op != nil:
		n.die()
		n.op.Halt()
	default:
		n.die()
		n.sr.Halt()
	}
	if how == "stop" { // it deregisters itself
		select {
		case <-n.ended:
		case <-time.After(hangLimit):
			w.fail("node %s does not stop within %v", n.id, hangLimit)
		}
		n.die()
	}
}

// expire lets the heartbeats of dead nodes run out.
func (w *clWorld) expire() {
	for range 3 {
		w.mu.Lock()
		run := w.run
		w.mu.Unlock()
		run.clock.Advance(3 * time.Second)
		w.register()
	}
}
func (w *clWorld) checkpoint() {
	w.mu.Lock()
	run := w.run
	w.mu.Unlock()
	run.clock.tick("checkpointing")
}
func (w *clWorld) allApplied() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for k, sps := range w.seqs {
		for sp, seq := range sps {
			if w.applied[k][sp] != len(seq) {
				return false
			}
		}
	}
	return true
}

// quiet waits until dead nodes don't do anything anymore.
func (w *clWorld) quiet() bool {
	for range 2000 {
		busy := false
		w.mu.Lock()
		for _, n := range w.nodes {
			if n.isDead() {
				select {
				case <-n.ended:
					busy = busy || n.calls.Load() > 0
				default:
					busy = true
				}
			}
		}
		w.mu.Unlock()
		if !busy {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}
func (w *clWorld) newest() uint64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.top
}
func (w *clWorld) current() *jobs.Job {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.run.job
}
func (w *clWorld) allProbed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for k := range w.seqs {
		if s, ok := w.probed[k]; !ok || s != "" {
			return false
		}
	}
	return true
}
func (w *clWorld) close() {
	for _, op := range []bool{true, false} {
		for _, n := range w.live(op) {
			<-n.up
			n.die()
			if op {
				n.op.Halt()
			} else {
				n.sr.Halt()
			}
		}
	}
	w.mu.Lock()
	if w.run != nil && !w.run.isDead() {
		close(w.run.dead)
	}
	ns := w.nodes
	w.mu.Unlock()
	for _, n := range ns {
		select {
		case <-n.ended:
		case <-time.After(hangLimit):
		}
	}
	// the directory stays: killed nodes may still write to it
}

// until repeats step, registrations and replacements of dead nodes included, until done.
func (w *clWorld) until(what string, workers int, done func() bool, step func()) bool {
	for t0 := time.Now(); !done(); time.Sleep(time.Millisecond) {
		if w.failed() {
			return false
		}
		if time.Since(t0) > hangLimit {
			if os.Getenv("DUMP") != "" {
				b := make([]byte, 1<<24)
				os.WriteFile(os.Getenv("DUMP"), b[:runtime.Stack(b, true)], 0o644)
			}
			w.fail("%s: not within %v (%s)", what, hangLimit, w.status())
			return false
		}
		w.fill(workers)
		w.expire()
		step()
	}
	return true
}
func (w *clWorld) status() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var miss []string
	for k, sps := range w.seqs {
		for sp, seq := range sps {
			if w.applied[k][sp] != len(seq) {
				miss = append(miss, fmt.Sprintf("%s split %d: %d of %d applied", k, sp, w.applied[k][sp], len(seq)))
			}
		}
	}
	for k, s := range w.probed {
		if s != "" {
			miss = append(miss, k+": "+s)
		}
	}
	return fmt.Sprintf("newest published checkpoint %d; highest started %d; %v", w.top, w.run.started.Load(), miss)
}

// clClock is a clock which only the harness advances.
type clClock struct {
	*clocks.FrozenClock
	mu  sync.Mutex
	now time.Time
	fns map[string]func()
}

func newClClock() *clClock {
	return &clClock{FrozenClock: clocks.NewFrozenClock(), now: time.Unix(1000, 0), fns: map[string]func(){}}
}
func (c *clClock) Now() time.Time          { c.mu.Lock(); defer c.mu.Unlock(); return c.now }
func (c *clClock) Advance(d time.Duration) { c.mu.Lock(); defer c.mu.Unlock(); c.now = c.now.Add(d) }
func (c *clClock) Every(d time.Duration, fn func(*clocks.EveryContext), label string) *clocks.Ticker {
	c.mu.Lock()
	c.fns[label] = func() { fn(&clocks.EveryContext{}) }
	c.mu.Unlock()
	return c.FrozenClock.Every(d, fn, label)
}
func (c *clClock) tick(label string) {
	c.mu.Lock()
	fn := c.fns[label]
	c.mu.Unlock()
	if fn != nil {
		fn()
	}
}

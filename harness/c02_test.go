package zzverif

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"math/rand"
	"os"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/operator"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifOperator(t *testing.T) {
	r := hl.Start(t)
	r.Delays()
	defer r.Done()
	until := r.Sub(1)
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		c := opConf{srcs: 1 + rng.Intn(4), batch: []int{0, 1, 2, 3, 7, 50}[rng.Intn(6)], delay: []time.Duration{0, 0, time.Millisecond}[rng.Intn(3)], fail: rng.Intn(4) == 0, groups: []int{1, 2, 8, 64}[rng.Intn(4)]}
		if c.fail {
			c.delay = 0 // when processing a batch that timed out fails, the operator stops
		}
		r.Case("operator: %+v seed %d", c, seed)
		r.Within("operator", 2*hangLimit, func() { opRun(r, rng, c) })
	}
}

type opConf struct {
	srcs, batch, groups int
	delay               time.Duration
	fail                bool
}

// opItem is one message of a source runner.
type opItem struct {
	kind  byte // e, w, b
	key   string
	id    string
	timer int64 // set this timer (seconds)
	wm    int64
	ckpt  uint64
}

func (i opItem) event() *workerpb.Event {
	switch i.kind {
	case 'e':
		return &workerpb.Event{Event: &workerpb.Event_KeyedEvent{KeyedEvent: &handlerpb.KeyedEvent{Key: []byte(i.key), Value: []byte(i.id + "/" + strconv.FormatInt(i.timer, 10)), Timestamp: timestamppb.New(time.Unix(1, 0))}}}
	case 'w':
		return &workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{Timestamp: timestamppb.New(time.Unix(i.wm, 0))}}}
	}
	return &workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: &workerpb.CheckpointBarrier{CheckpointId: i.ckpt}}}
}
func (i opItem) String() string {
	switch i.kind {
	case 'e':
		return fmt.Sprintf("%s@%q t%d", i.id, i.key, i.timer)
	case 'w':
		return fmt.Sprintf("wm%d", i.wm)
	}
	return fmt.Sprintf("barrier%d", i.ckpt)
}

// opJob and opHandler stand in for the job and the user's handler.
type opJob struct {
	proto.UnimplementedJob
	mu  sync.Mutex
	cks []*snapshotpb.OperatorCheckpoint
}

func (j *opJob) RegisterOperator(context.Context, *jobpb.NodeIdentity) error   { return nil }
func (j *opJob) DeregisterOperator(context.Context, *jobpb.NodeIdentity) error { return nil }
func (j *opJob) OperatorCheckpointComplete(_ context.Context, c *snapshotpb.OperatorCheckpoint) error {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.cks = append(j.cks, c)
	return nil
}

type opHandler struct {
	mu      sync.Mutex
	bad     func(string, ...any)
	state   map[string]kstate // what it told the operator to store, per key
	fired   map[timerKey]int
	lastWM  int64
	sent    map[string]int64 // watermarks handed to the operator
	acked   map[string]int64 // watermarks the operator has confirmed
	calls   int
	failAt  int // this call fails
	failed  bool
	strict  bool // the state is known (not just restored)
	deleted int
}

var errHandler = errors.New("handler failed")

func (h *opHandler) KeyEventBatch(context.Context, [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	panic("unused")
}
func (h *opHandler) ProcessEventBatch(_ context.Context, req *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.calls++
	if h.calls == h.failAt {
		h.failed = true
		return nil, errHandler
	}
	wm := req.Watermark.AsTime().Unix()
	lo, hi := int64(1<<62), int64(1<<62)
	for s := range h.sent {
		lo, hi = min(lo, h.acked[s]), min(hi, h.sent[s])
	}
	if h.strict && (wm < lo || wm > hi) {
		h.bad("the handler is told watermark %d; the upstreams' watermarks are %v (sent) and %v (processed)", wm, h.sent, h.acked)
	}
	have := map[string]bool{}
	for _, k := range req.KeyStates {
		if have[string(k.Key)] {
			h.bad("the state of key %q is supplied twice", k.Key)
		}
		have[string(k.Key)] = true
		got, bad := asState(k.StateEntryNamespaces)
		if h.state[string(k.Key)] == nil {
			h.state[string(k.Key)] = kstate{}
		}
		if want := h.state[string(k.Key)]; h.strict && (bad != "" || got.str() != want.str()) {
			h.bad("state supplied for key %q is %s %s, want %s", k.Key, got.str(), bad, want.str())
		}
	}
	resp := &handlerpb.ProcessEventBatchResponse{}
	res := map[string]*handlerpb.KeyResult{}
	result := func(k string) *handlerpb.KeyResult {
		if res[k] == nil {
			res[k] = &handlerpb.KeyResult{Key: []byte(k)}
			resp.KeyResults = append(resp.KeyResults, res[k])
		}
		return res[k]
	}
	put := func(k, ns, e string) {
		kr := result(k)
		kr.StateMutationNamespaces = append(kr.StateMutationNamespaces, &handlerpb.StateMutationNamespace{Namespace: ns, Mutations: []*handlerpb.StateMutation{putMut([]byte(e), []byte("1"))}})
		h.state[k].apply(ns, e, []byte("1"), false)
	}
	for _, e := range req.Events {
		switch e := e.Event.(type) {
		case *handlerpb.Event_KeyedEvent:
			k := string(e.KeyedEvent.Key)
			if !have[k] {
				h.bad("an event of key %q arrives without the key's state", k)
				continue
			}
			id, t, _ := strings.Cut(string(e.KeyedEvent.Value), "/")
			if id == "ask" {
				continue
			}
			put(k, "ev", id)
			// a scratch entry that is overwritten and deleted over and over
			kr := result(k)
			m := putMut([]byte("x"), []byte(id))
			if h.calls%3 == 0 {
				m = &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Delete{Delete: &handlerpb.DeleteMutation{Key: []byte("x")}}}
			}
			kr.StateMutationNamespaces = append(kr.StateMutationNamespaces, &handlerpb.StateMutationNamespace{Namespace: "tmp", Mutations: []*handlerpb.StateMutation{m}})
			h.state[k].apply("tmp", "x", []byte(id), h.calls%3 == 0)
			if n, _ := strconv.ParseInt(t, 10, 64); n > 0 {
				kr.NewTimers = append(kr.NewTimers, timestamppb.New(time.Unix(n, 0)))
			}
		case *handlerpb.Event_TimerExpired:
			k, t := string(e.TimerExpired.Key), e.TimerExpired.Timestamp.AsTime().Unix()
			if !have[k] {
				h.bad("a timer of key %q arrives without the key's state", k)
				continue
			}
			if t > wm {
				h.bad("timer %q@%d expired, but the watermark is %d", k, t, wm)
			}
			h.fired[timerKey{t, k}]++
			put(k, "tm", fmt.Sprint(t))
		}
	}
	return resp, nil
}

type opWorld struct {
	op     *operator.Operator
	job    *opJob
	h      *opHandler
	done   chan error
	fail   func(string, ...any)
	ctx    context.Context
	cancel context.CancelFunc
	gen    int
}

func newOpWorld(c opConf, bad func(string, ...any)) *opWorld {
	w := &opWorld{job: &opJob{}, h: &opHandler{bad: bad, state: map[string]kstate{}, fired: map[timerKey]int{}, strict: true}, done: make(chan error, 1), fail: bad}
	w.op = operator.NewOperator(operator.NewOperatorParams{ID: "op", Host: "op", Job: w.job, UserHandler: w.h,
		EventBatching:           batching.EventBatcherParams{MaxSize: c.batch, MaxDelay: c.delay},
		NeighborOperatorFactory: func(string, *jobpb.NodeIdentity) proto.Operator { return nil }})
	w.ctx, w.cancel = context.WithCancel(context.Background())
	go func() { w.done <- w.op.Start(w.ctx) }()
	return w
}
func (w *opWorld) deploy(dir string, groups int, srcs []string, cks ...*snapshotpb.OperatorCheckpoint) error {
	w.h.mu.Lock()
	w.gen++
	w.h.sent, w.h.acked = map[string]int64{}, map[string]int64{}
	for _, s := range srcs {
		w.h.sent[s], w.h.acked[s] = 0, 0
	}
	w.h.mu.Unlock()
	return w.op.HandleDeploy(w.ctx, &workerpb.DeployOperatorRequest{Operators: []*jobpb.NodeIdentity{{Id: "op", Host: "op"}}, SourceRunnerIds: srcs, Checkpoints: cks, KeyGroupCount: int32(groups), StorageLocation: dir}, nil)
}
func (w *opWorld) send(s string, i opItem, old *context.Context) error {
	w.h.mu.Lock()
	gen := w.gen
	if i.kind == 'w' {
		w.h.sent[s] = i.wm
	}
	w.h.mu.Unlock()
	ctx := w.ctx
	if old != nil {
		ctx = *old
	}
	err := w.op.HandleEvent(ctx, s, i.event())
	if i.kind == 'w' && err == nil {
		w.h.mu.Lock()
		if gen == w.gen {
			w.h.acked[s] = i.wm
		}
		w.h.mu.Unlock()
	}
	return err
}
func (w *opWorld) stop() {
	w.op.Stop()
	w.cancel()
	select {
	case <-w.done:
	case <-time.After(20 * time.Second):
	}
}

// script makes what one source runner delivers: nb barriers with events and rising watermarks between them
func opScript(rng *rand.Rand, s string, keys []string, first, nb int, wm *int64) (l []opItem) {
	n := 0
	for b := 0; b <= nb; b++ {
		for range rng.Intn(8) {
			if rng.Intn(4) == 0 {
				*wm += rng.Int63n(5)
				l = append(l, opItem{kind: 'w', wm: *wm})
				continue
			}
			n++
			it := opItem{kind: 'e', key: keys[rng.Intn(len(keys))], id: fmt.Sprintf("%s-%d-%d", s, first, n)}
			if rng.Intn(2) == 0 {
				it.timer = *wm + rng.Int63n(12)
			}
			l = append(l, it)
		}
		if b < nb {
			l = append(l, opItem{kind: 'b', ckpt: uint64(first + b)})
		}
	}
	return l
}

func opRun(r *hl.R, rng *rand.Rand, c opConf) {
	dir, err := os.MkdirTemp("", "op")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	var mu sync.Mutex
	var log []string
	note := func(f string, a ...any) {
		mu.Lock()
		log = append(log, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	bad := func(f string, a ...any) {
		mu.Lock()
		l := slices.Clone(log)
		mu.Unlock()
		if len(l) > 90 {
			l = append([]string{fmt.Sprintf("(%d earlier)", len(l)-90)}, l[len(l)-90:]...)
		}
		r.Fail("operator", "%s; messages: %s", fmt.Sprintf(f, a...), strings.Join(l, "; "))
	}
	var keys []string
	for _, k := range genKeys(rng, 1+rng.Intn(5)) {
		keys = append(keys, string(k))
	}
	var srcs []string
	for i := range c.srcs {
		srcs = append(srcs, fmt.Sprintf("s%d", i))
	}
	w := newOpWorld(c, bad)
	defer w.stop()
	if err := w.deploy(dir, c.groups, srcs); err != nil {
		bad("deploy: %v", err)
		return
	}
	if c.fail {
		w.h.failAt = 1 + rng.Intn(12)
	}
	nb := 1 + rng.Intn(3)
	scripts := map[string][]opItem{}
	holdBack := "" // this runner never sends its last barrier
	if rng.Intn(3) == 0 {
		holdBack = srcs[rng.Intn(len(srcs))]
	}
	for _, s := range srcs {
		wm := int64(0)
		scripts[s] = opScript(rng, s, keys, 1, nb, &wm)
		if s == holdBack {
			l := scripts[s]
			for i := range l {
				if l[i].kind == 'b' && l[i].ckpt == uint64(nb) {
					l = l[:i]
					break
				}
			}
			scripts[s] = l
		}
		note("%s will send %v", s, scripts[s])
	}
	if holdBack != "" {
		note("(%s never sends barrier %d)", holdBack, nb)
	}
	runCtx, stopRun := context.WithCancel(context.Background())
	defer func() { stopRun() }()
	play := func(scripts map[string][]opItem) (wait func(quiet time.Duration) bool) {
		var wg sync.WaitGroup
		for s, l := range scripts {
			seed := rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed))
				for _, it := range l {
					switch rng.Intn(6) {
					case 0:
						time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
					}
					if err := w.send(s, it, &runCtx); err != nil {
						note("%s: %v -> %v", s, it, err)
						return // as a source runner whose operator refuses
					}
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		return func(d time.Duration) bool {
			select {
			case <-done:
				return true
			case <-time.After(d):
				return false
			}
		}
	}
	wait := play(scripts)
	lost := func() bool { w.h.mu.Lock(); defer w.h.mu.Unlock(); return w.h.failed }
	finished := false
	for t0 := time.Now(); holdBack == "" && !finished && !(c.fail && lost()) && time.Since(t0) < hangLimit; {
		finished = wait(20 * time.Millisecond)
	}
	if holdBack != "" || c.fail && lost() {
		wait(time.Duration(2+rng.Intn(8)) * time.Millisecond)
	} else if !finished {
		bad("the operator does not finish processing (all barriers were sent)")
		return
	}
	w.h.mu.Lock()
	failed := w.h.failed
	w.h.mu.Unlock()
	w.job.mu.Lock()
	cks := slices.Clone(w.job.cks)
	w.job.mu.Unlock()
	for i, ck := range cks {
		if ck.CheckpointId != uint64(i+1) {
			bad("checkpoints completed: %d-th is %d", i+1, ck.CheckpointId)
			return
		}
	}
	select {
	case err := <-w.done: // processing a batch that timed out failed
		w.done <- err
		if !lost() {
			bad("the operator stopped: %v", err)
		}
		return
	default:
	}
	if !failed && holdBack == "" && len(cks) != nb {
		bad("%d of %d checkpoints completed", len(cks), nb)
		return
	}
	if holdBack != "" && len(cks) >= nb {
		bad("checkpoint %d completed although %s did not send its barrier", nb, holdBack)
		return
	}
	// every checkpoint holds exactly what was delivered before its barriers
	var last map[string]kstate
	var pend map[timerKey]bool
	for _, ck := range cks {
		last, pend = checkCut(r, bad, dir, c, srcs, keys, scripts, ck)
		if r.Failed() {
			return
		}
	}
	// the operator is deployed again, from the last checkpoint, and goes on
	if rng.Intn(2) == 0 || holdBack != "" || failed {
		note("redeploy")
		w.h.mu.Lock()
		w.h.failAt = 0
		w.h.strict = false
		w.h.mu.Unlock()
		// the source runners are stopped before the operator is deployed
		stopRun()
		var from []*snapshotpb.OperatorCheckpoint
		first := nb + 1
		if len(cks) > 0 {
			from = append(from, cks[len(cks)-1])
		}
		if err := w.deploy(dir, c.groups, srcs, from...); err != nil {
			bad("deploying again: %v", err)
			return
		}
		w.h.mu.Lock()
		w.h.state = map[string]kstate{}
		for k, s := range last {
			w.h.state[k] = kstate{}
			for ns, es := range s {
				w.h.state[k][ns] = maps.Clone(es)
			}
		}
		w.h.strict = true
		w.h.mu.Unlock()
		wait(hangLimit) // the messages of the earlier deployment are refused
		w.h.mu.Lock()
		w.h.fired = map[timerKey]int{}
		w.h.mu.Unlock()
		runCtx, stopRun = context.WithCancel(context.Background())
		more := map[string][]opItem{}
		for _, s := range srcs {
			wm := int64(0)
			more[s] = opScript(rng, s, keys, first, 1, &wm)
			note("%s will send %v", s, more[s])
		}
		w.job.mu.Lock()
		w.job.cks = nil
		w.job.mu.Unlock()
		if !play(more)(hangLimit) {
			bad("the redeployed operator does not finish processing")
			return
		}
		w.job.mu.Lock()
		cks = slices.Clone(w.job.cks)
		w.job.mu.Unlock()
		if len(cks) != 1 || cks[0].CheckpointId != uint64(first) {
			bad("the redeployed operator completed %d checkpoints, want checkpoint %d", len(cks), first)
			return
		}
		checkCutFrom(r, bad, dir, c, srcs, keys, more, cks[0], last, pend)
	}
}

func checkCut(r *hl.R, bad func(string, ...any), dir string, c opConf, srcs, keys []string, scripts map[string][]opItem, ck *snapshotpb.OperatorCheckpoint) (map[string]kstate, map[timerKey]bool) {
	return checkCutFrom(r, bad, dir, c, srcs, keys, scripts, ck, nil, nil)
}

// checkCutFrom restores ck in another operator and compares its state and its timers with what the runners delivered before their barriers.
func checkCutFrom(r *hl.R, bad func(string, ...any), dir string, c opConf, srcs, keys []string, scripts map[string][]opItem, ck *snapshotpb.OperatorCheckpoint, before map[string]kstate, pendBefore map[timerKey]bool) (map[string]kstate, map[timerKey]bool) {
	want := map[string]map[string]bool{}
	set := map[timerKey]bool{}
	for k, s := range before {
		want[k] = map[string]bool{}
		for e := range s["ev"] {
			want[k][e] = true
		}
	}
	for x := range pendBefore {
		set[x] = true
	}
	minWM := int64(1 << 60)
	for _, s := range srcs {
		wm := int64(0)
		for _, it := range scripts[s] {
			if it.kind == 'b' && it.ckpt == ck.CheckpointId {
				break
			}
			if it.kind == 'w' {
				wm = it.wm
			}
			if it.kind == 'e' {
				if want[it.key] == nil {
					want[it.key] = map[string]bool{}
				}
				want[it.key][it.id] = true
				if it.timer > 0 {
					set[timerKey{it.timer, it.key}] = true
				}
			}
		}
		minWM = min(minWM, wm)
	}
	w := &opWorld{job: &opJob{}, h: &opHandler{bad: bad, state: map[string]kstate{}, fired: map[timerKey]int{}}}
	// the state of each key
	got := map[string]kstate{}
	rec := &recHandler{opHandler: w.h, states: got}
	w2 := &opWorld{job: w.job, h: w.h, done: make(chan error, 1), fail: bad}
	w2.op = operator.NewOperator(operator.NewOperatorParams{ID: "op", Host: "op", Job: w.job, UserHandler: rec, EventBatching: batching.EventBatcherParams{MaxSize: 1}})
	w2.ctx, w2.cancel = context.WithCancel(context.Background())
	go func() { w2.done <- w2.op.Start(w2.ctx) }()
	defer w2.stop()
	if err := w2.deploy(dir, c.groups, []string{"a"}, ck); err != nil {
		bad("restoring checkpoint %d: %v", ck.CheckpointId, err)
		return nil, nil
	}
	for _, k := range keys {
		for try := 0; ; try++ {
			err := w2.send("a", opItem{kind: 'e', key: k, id: "ask"}, nil)
			if err == nil {
				break
			}
			if try == 50 {
				bad("restored operator: %v", err)
				return nil, nil
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	fired := map[timerKey]bool{}
	w.h.mu.Lock()
	for k, s := range got {
		for t := range s["tm"] {
			n, _ := strconv.ParseInt(t, 10, 64)
			fired[timerKey{n, k}] = true
		}
	}
	w.h.mu.Unlock()
	for _, k := range keys {
		var miss, extra []string
		for e := range want[k] {
			if _, ok := got[k]["ev"][e]; !ok {
				miss = append(miss, e)
			}
		}
		for e := range got[k]["ev"] {
			if !want[k][e] {
				extra = append(extra, e)
			}
		}
		if len(miss)+len(extra) > 0 {
			bad("checkpoint %d, key %q: lacks the events %v delivered before the barriers, has the events %v that were not", ck.CheckpointId, k, miss, extra)
			return nil, nil
		}
	}
	// its timers
	w.h.mu.Lock()
	w.h.fired = map[timerKey]int{}
	w.h.mu.Unlock()
	if err := w2.send("a", opItem{kind: 'w', wm: 1 << 31}, nil); err != nil {
		bad("restored operator: %v", err)
		return nil, nil
	}
	pend := map[timerKey]bool{}
	w.h.mu.Lock()
	defer w.h.mu.Unlock()
	for x, n := range w.h.fired {
		pend[x] = true
		if n != 1 {
			bad("checkpoint %d: timer %q@%d fires %d times after restoring", ck.CheckpointId, x.k, x.t, n)
		}
		if !set[x] {
			bad("checkpoint %d: timer %q@%d is pending, but no event before the barriers set it", ck.CheckpointId, x.k, x.t)
		}
		if x.t <= minWM {
			bad("checkpoint %d: timer %q@%d is pending, but the upstreams' watermarks had reached %d before their barriers", ck.CheckpointId, x.k, x.t, minWM)
		}
	}
	for x := range set {
		if x.t > minWM && !pend[x] && before == nil {
			bad("checkpoint %d: timer %q@%d was set before the barriers and the watermark (%d) had not reached it, but it is not pending", ck.CheckpointId, x.k, x.t, minWM)
		}
	}
	for x := range fired {
		if before == nil && (x.t > minWM || !set[x]) {
			bad("checkpoint %d contains the effects of timer %q@%d; the minimum watermark before the barriers is %d", ck.CheckpointId, x.k, x.t, minWM)
		}
	}
	return maps.Clone(got), pend
}

// recHandler notes the state that is supplied and answers nothing
type recHandler struct {
	*opHandler
	states map[string]kstate
}

func (h *recHandler) ProcessEventBatch(_ context.Context, req *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	ask := false
	for _, e := range req.Events {
		if t, ok := e.Event.(*handlerpb.Event_TimerExpired); ok {
			h.fired[timerKey{t.TimerExpired.Timestamp.AsTime().Unix(), string(t.TimerExpired.Key)}]++
		} else {
			ask = true
		}
	}
	if ask {
		for _, k := range req.KeyStates {
			s, bad := asState(k.StateEntryNamespaces)
			if bad != "" {
				h.bad("restored state of %q: %s", k.Key, bad)
			}
			h.states[string(k.Key)] = s
		}
	}
	return &handlerpb.ProcessEventBatchResponse{}, nil
}

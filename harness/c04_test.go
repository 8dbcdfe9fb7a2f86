package zzverif

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/sourcerunner"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifSourceRunner(t *testing.T) {
	r := hl.Start(t)
	r.Delays()
	defer r.Done()
	until := r.Sub(1)
	for time.Now().Before(until) && r.Left() {
		// runs mostly wait for time-outs and watermark ticks, so several run at once
		var wg sync.WaitGroup
		for range 12 {
			seed := r.Rng.Int63()
			rng := rand.New(rand.NewSource(seed))
			c := srConf{
				ops: 1 + rng.Intn(4), groups: []int{1, 4, 8, 64}[rng.Intn(4)], splits: 1 + rng.Intn(4), records: []int{0, 1, 20, 200, 200, 1500}[rng.Intn(6)],
				size: []int{0, 1, 2, 3, 10, 2000}[rng.Intn(6)], delay: []time.Duration{100 * time.Microsecond, time.Millisecond, 4 * time.Millisecond}[rng.Intn(3)],
				keyDelay: []int{0, 0, 300, 3000}[rng.Intn(4)], opDelay: []int{0, 0, 200}[rng.Intn(3)], keys: 1 + rng.Intn(6), redeploy: rng.Intn(3) == 0, ticks: rng.Intn(3) == 0, errs: rng.Intn(6) == 0,
			}
			c.groups = max(c.groups, c.ops)
			if c.size <= 1 {
				c.delay = 0
			}
			r.Case("source runner: %+v seed %d", c, seed)
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Guard("sourcerunner", func() { srRun(r, rng, c) })
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		r.Within("sourcerunner", 4*hangLimit, func() { <-done })
	}
}

type srConf struct {
	ops, groups, splits, records, size int
	delay                              time.Duration
	keyDelay, opDelay, keys            int // µs
	redeploy, ticks, errs              bool
}

// srWorld is the data the source runner works on and what is known about one deployment of it.
type srWorld struct {
	mu       sync.Mutex
	rng      *rand.Rand
	recs     [][]string // records of each split
	gen      int        // deployment
	order    []string   // the records, in the order this deployment read them
	pos      map[string]int
	cuts     map[uint64]int // checkpoint -> number of records read when it was taken
	states   map[uint64][]string
	streams  [][]any // what each operator received: record ids, barriers (uint64), watermarks (time)
	late     string
	failures []string
}

func (w *srWorld) bad(f string, a ...any) {
	w.failures = append(w.failures, fmt.Sprintf(f, a...))
}

// srReader is the source: it returns random runs of records of its splits.
type srReader struct {
	w      *srWorld
	gen    int
	cursor map[int]int
	errs   bool
}

func (s *srReader) ReadEvents() ([][]byte, error) {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	if s.errs && s.w.rng.Intn(30) == 0 {
		return nil, connectors.NewRetryableError(errors.New("try again"))
	}
	var out [][]byte
	left := 0
	for sp := range s.w.recs {
		c, ok := s.cursor[sp]
		if !ok {
			continue
		}
		n := min(s.w.rng.Intn(1+s.w.rng.Intn(60)), len(s.w.recs[sp])-c)
		for _, id := range s.w.recs[sp][c : c+n] {
			out = append(out, []byte(id))
			if s.gen == s.w.gen {
				s.w.pos[id] = len(s.w.order)
				s.w.order = append(s.w.order, id)
			}
		}
		s.cursor[sp] = c + n
		left += len(s.w.recs[sp]) - c - n
	}
	if len(out) == 0 && left == 0 {
		s.w.mu.Unlock()
		time.Sleep(time.Millisecond)
		s.w.mu.Lock()
	}
	return out, nil
}
func (s *srReader) AssignSplits(splits []*workerpb.SourceSplit) error {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	for _, sp := range splits {
		i, _ := strconv.Atoi(sp.SplitId)
		c, _ := strconv.Atoi(string(sp.Cursor))
		s.cursor[i] = c
	}
	return nil
}
func (s *srReader) Checkpoint() [][]byte {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	var out [][]byte
	for sp, c := range s.cursor {
		out = append(out, []byte(fmt.Sprintf("%d@%d", sp, c)))
	}
	return out
}

// a record's events: splitid/number has 0 to 3 events with their own keys and timestamps
func (w *srWorld) events(c srConf, id string) []*handlerpb.KeyedEvent {
	h := hashStr(id)
	var out []*handlerpb.KeyedEvent
	for i := range []int{1, 1, 1, 0, 2, 3}[h%6] {
		h = h*6364136223846793005 + 1442695040888963407
		out = append(out, &handlerpb.KeyedEvent{Key: []byte(fmt.Sprintf("k%d", (h>>33)%uint64(c.keys))), Timestamp: timestamppb.New(time.Unix(int64((h>>20)%5000), int64(h>>40)%1000)), Value: []byte(fmt.Sprintf("%s#%d", id, i))})
	}
	return out
}
func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := range len(s) {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h >> 7
}

type srHandler struct {
	w *srWorld
	c srConf
}

func (h srHandler) ProcessEventBatch(context.Context, *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	panic("unused")
}
func (h srHandler) KeyEventBatch(_ context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	if h.c.keyDelay > 0 {
		h.w.mu.Lock()
		d := h.w.rng.Intn(h.c.keyDelay)
		h.w.mu.Unlock()
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
	out := make([][]*handlerpb.KeyedEvent, len(events))
	for i, e := range events {
		out[i] = h.w.events(h.c, string(e))
	}
	return out, nil
}

type srOp struct {
	proto.UnimplementedOperator
	w   *srWorld
	c   srConf
	i   int
	gen int
}

func (o *srOp) ID() string   { return fmt.Sprint("op", o.i) }
func (o *srOp) Host() string { return "host" }
func (o *srOp) HandleEventBatch(_ context.Context, batch []*workerpb.Event) error {
	o.w.mu.Lock()
	d := 0
	if o.c.opDelay > 0 {
		d = o.w.rng.Intn(o.c.opDelay)
	}
	if o.gen != o.w.gen && len(batch) > 0 {
		o.w.late = fmt.Sprintf("operator %d was sent %v by deployment %d after deployment %d had been started", o.i, batch[0], o.gen, o.w.gen)
	}
	o.w.mu.Unlock()
	time.Sleep(time.Duration(d) * time.Microsecond)
	o.w.mu.Lock()
	defer o.w.mu.Unlock()
	for _, e := range batch {
		switch x := e.Event.(type) {
		case *workerpb.Event_KeyedEvent:
			o.w.streams[o.i] = append(o.w.streams[o.i], x.KeyedEvent)
		case *workerpb.Event_Watermark:
			o.w.streams[o.i] = append(o.w.streams[o.i], x.Watermark.Timestamp.AsTime())
		case *workerpb.Event_CheckpointBarrier:
			o.w.streams[o.i] = append(o.w.streams[o.i], x.CheckpointBarrier.CheckpointId)
		}
	}
	return nil
}

type srJob struct {
	proto.NoopJob
	w *srWorld
}

func (j srJob) OnSourceRunnerCheckpointComplete(_ context.Context, req *jobpb.SourceRunnerCheckpointCompleteRequest) error {
	j.w.mu.Lock()
	defer j.w.mu.Unlock()
	if _, ok := j.w.cuts[req.CheckpointId]; ok {
		j.w.bad("checkpoint %d is reported twice", req.CheckpointId)
	}
	j.w.cuts[req.CheckpointId] = len(j.w.order)
	for _, s := range req.SplitStates {
		j.w.states[req.CheckpointId] = append(j.w.states[req.CheckpointId], string(s))
	}
	return nil
}

func srRun(r *hl.R, rng *rand.Rand, c srConf) {
	w := &srWorld{rng: rand.New(rand.NewSource(rng.Int63()))}
	for sp := range c.splits {
		var recs []string
		for i := range rng.Intn(c.records + 1) {
			recs = append(recs, fmt.Sprintf("%d/%d", sp, i))
		}
		w.recs = append(w.recs, recs)
	}
	sr := sourcerunner.New(sourcerunner.NewParams{
		Host: "host", UserHandler: srHandler{w, c}, Job: srJob{w: w},
		OperatorFactory: func(senderID string, node *jobpb.NodeIdentity) proto.Operator {
			i, _ := strconv.Atoi(strings.TrimPrefix(node.Id, "op"))
			return &srOp{w: w, c: c, i: i, gen: w.gen}
		},
		SourceReaderFactory: func(*jobconfigpb.Source) connectors.SourceReader {
			return &srReader{w: w, gen: w.gen, cursor: map[int]int{}, errs: c.errs}
		},
		EventBatching: batching.EventBatcherParams{MaxDelay: c.delay, MaxSize: c.size},
	})
	ctx, cancel := context.WithCancel(context.Background())
	ended := make(chan error, 1)
	go func() { ended <- sr.Start(ctx) }()
	defer func() {
		cancel()
		<-ended
	}()

	var cursors []int
	for range c.splits {
		cursors = append(cursors, 0)
	}
	gens := 1
	if c.redeploy {
		gens = 2 + rng.Intn(2)
	}
	for gen := range gens {
		last := gen == gens-1
		srDeployment(r, rng, c, w, sr, ctx, cursors, last, ended)
		w.mu.Lock()
		msgs := append([]string{}, w.failures...)
		if w.late != "" {
			msgs = append(msgs, w.late)
		}
		w.failures = nil
		w.mu.Unlock()
		for _, m := range msgs {
			r.Fail("sourcerunner", "%+v deployment %d of %d: %s", c, gen, gens, m)
		}
		if len(msgs) > 0 {
			return
		}
		// the next deployment continues from some positions
		for i := range cursors {
			cursors[i] = min(cursors[i]+rng.Intn(5), len(w.recs[i]))
		}
	}
}

func srDeployment(r *hl.R, rng *rand.Rand, c srConf, w *srWorld, sr *sourcerunner.SourceRunner, ctx context.Context, cursors []int, last bool, ended chan error) {
	req := &workerpb.DeploySourceRunnerRequest{KeyGroupCount: int32(c.groups), Sources: []*jobconfigpb.Source{{}}}
	for i := range c.ops {
		req.Operators = append(req.Operators, &jobpb.NodeIdentity{Id: fmt.Sprint("op", i), Host: "host"})
	}
	w.mu.Lock()
	w.gen++
	w.order, w.pos, w.cuts, w.states, w.streams = nil, map[string]int{}, map[uint64]int{}, map[uint64][]string{}, make([][]any, c.ops)
	w.mu.Unlock()
	deployed := make(chan error, 1)
	go func() { deployed <- sr.HandleDeploy(ctx, req) }()
	select {
	case err := <-deployed:
		if err != nil {
			w.bad("HandleDeploy: %v", err)
			return
		}
	case <-time.After(hangLimit):
		w.bad("HandleDeploy does not return")
		return
	}
	// the earlier deployment is over now: whatever it delivered is forgotten
	w.mu.Lock()
	w.order, w.pos, w.cuts, w.states, w.streams, w.late = nil, map[string]int{}, map[uint64]int{}, map[uint64][]string{}, make([][]any, c.ops), ""
	w.mu.Unlock()

	want := 0
	var cks []uint64
	assign := rng.Perm(c.splits)
	for len(assign) > 0 {
		n := 1 + rng.Intn(len(assign))
		var splits []*workerpb.SourceSplit
		for _, sp := range assign[:n] {
			splits = append(splits, &workerpb.SourceSplit{SplitId: strconv.Itoa(sp), SourceId: "s", Cursor: []byte(strconv.Itoa(cursors[sp]))})
			want += len(w.recs[sp]) - cursors[sp]
		}
		assign = assign[n:]
		if err := sr.HandleAssignSplits(splits); err != nil {
			w.bad("HandleAssignSplits: %v", err)
			return
		}
		for range rng.Intn(3) {
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
			id := uint64(1 + len(cks))
			cks = append(cks, id)
			sr.HandleStartCheckpoint(ctx, id)
		}
	}
	if !last && rng.Intn(2) == 0 {
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
		return // redeployed while it is at work
	}
	for range rng.Intn(4) {
		time.Sleep(time.Duration(rng.Intn(5000)) * time.Microsecond)
		id := uint64(1 + len(cks))
		cks = append(cks, id)
		sr.HandleStartCheckpoint(ctx, id)
	}
	if c.ticks {
		time.Sleep(450 * time.Millisecond) // two watermark ticks
	}
	// wait until everything that must arrive has arrived
	full := func() string {
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.order) < want {
			return fmt.Sprintf("%d of %d records were read", len(w.order), want)
		}
		events := 0
		for _, id := range w.order {
			events += len(w.events(c, id))
		}
		got := 0
		for i, s := range w.streams {
			bars := 0
			for _, x := range s {
				switch x.(type) {
				case *handlerpb.KeyedEvent:
					got++
				case uint64:
					bars++
				}
			}
			if bars < len(cks) {
				return fmt.Sprintf("operator %d received %d of %d barriers", i, bars, len(cks))
			}
		}
		if got < events {
			return fmt.Sprintf("the operators received %d of %d events", got, events)
		}
		return ""
	}
	limit := time.Now().Add(hangLimit)
	for {
		msg := full()
		if msg == "" {
			break
		}
		select {
		case err := <-ended:
			ended <- err
			w.mu.Lock()
			w.bad("the source runner stopped: %v", err)
			w.mu.Unlock()
			return
		default:
		}
		if time.Now().After(limit) {
			w.mu.Lock()
			w.bad("gave up waiting: %s", msg)
			w.mu.Unlock()
			return
		}
		time.Sleep(200 * time.Microsecond)
	}
	time.Sleep(2 * time.Millisecond) // anything in excess
	w.mu.Lock()
	defer w.mu.Unlock()
	srCheck(c, w, cks)
}

// srCheck compares what the operators received with what was read.
func srCheck(c srConf, w *srWorld, cks []uint64) {
	ks := partitioning.NewKeySpace(c.groups, c.ops)
	expect := map[string]int{} // event -> operator
	for _, id := range w.order {
		for _, e := range w.events(c, id) {
			expect[string(e.Value)] = ks.RangeIndex(e.Key)
		}
	}
	maxTS := []time.Time{{}} // after the first i records
	for i, id := range w.order {
		m := maxTS[i]
		for _, e := range w.events(c, id) {
			if t := e.Timestamp.AsTime(); t.After(m) {
				m = t
			}
		}
		maxTS = append(maxTS, m)
	}
	seen := map[string]bool{}
	var marks []struct {
		t      time.Time
		lo, hi int
	}
	for o, s := range w.streams {
		last := map[string]int{} // split/key -> last position
		n, bars, wms := 0, 0, 0
		high := 0
		var prev time.Time
		for x, item := range s {
			switch e := item.(type) {
			case *handlerpb.KeyedEvent:
				v := string(e.Value)
				id := v[:strings.Index(v, "#")]
				if seen[v] {
					w.bad("event %s was delivered twice", v)
					return
				}
				seen[v] = true
				p, ok := w.pos[id]
				if at, k := expect[v]; !ok || !k || at != o {
					w.bad("operator %d received event %s (key %q), which is for operator %d (read: %v)", o, v, e.Key, at, ok)
					return
				}
				sk := id[:strings.Index(id, "/")] + " " + string(e.Key)
				sub, _ := strconv.Atoi(v[strings.Index(v, "#")+1:])
				if l, ok := last[sk]; ok && l >= p*4+sub {
					w.bad("event %s of key %q arrives after a later one of its split", v, e.Key)
					return
				}
				last[sk] = p*4 + sub
				high = max(high, p+1)
				n++
			case uint64:
				bars++
				if bars > len(cks) || e != cks[bars-1] {
					w.bad("operator %d received barrier %d in place %d of %v", o, e, bars, cks)
					return
				}
				cut, ok := w.cuts[e]
				if !ok {
					w.bad("barrier %d is sent but its positions were not reported", e)
					return
				}
				for _, y := range s[:x] {
					if ev, ok := y.(*handlerpb.KeyedEvent); ok && w.pos[recID(ev)] >= cut {
						w.bad("operator %d received %s ahead of barrier %d, but it was read after the positions %v were taken", o, ev.Value, e, w.states[e])
						return
					}
				}
				for _, y := range s[x:] {
					if ev, ok := y.(*handlerpb.KeyedEvent); ok && w.pos[recID(ev)] < cut {
						w.bad("operator %d received %s after barrier %d, but it was read before the positions %v were taken", o, ev.Value, e, w.states[e])
						return
					}
				}
			case time.Time:
				if wms > 0 && e.Before(prev) {
					w.bad("operator %d received watermark %v after %v", o, e, prev)
					return
				}
				prev = e
				lo, hi := high, len(w.order)
				for _, y := range s[x:] {
					if ev, ok := y.(*handlerpb.KeyedEvent); ok {
						hi = min(hi, w.pos[recID(ev)])
						break
					}
				}
				if wms == len(marks) {
					marks = append(marks, struct {
						t      time.Time
						lo, hi int
					}{e, lo, hi})
				} else if o > 0 && !marks[wms].t.Equal(e) {
					w.bad("watermark %d is %v for operator %d and %v for another", wms, e, o, marks[wms].t)
					return
				}
				marks[wms].lo, marks[wms].hi = max(marks[wms].lo, lo), min(marks[wms].hi, hi)
				wms++
			}
		}
	}
	for v, o := range expect {
		if !seen[v] {
			w.bad("event %s was not delivered to operator %d", v, o)
			return
		}
	}
	// each watermark is just below the largest timestamp forwarded before it
	for _, m := range marks {
		if m.lo > m.hi {
			w.bad("watermark %v is ahead of record %d for one operator and behind it for another", m.t, m.lo)
			return
		}
		ok := false
		for p := m.lo; p <= m.hi && !ok; p++ {
			d := maxTS[p].Sub(m.t)
			if maxTS[p].IsZero() {
				ok = !m.t.After(time.Unix(0, 0)) // no event yet
			} else {
				ok = d > 0 && d <= time.Second
			}
		}
		if !ok {
			w.bad("watermark %v is sent between records %d and %d, when the largest timestamp forwarded was %v to %v", m.t, m.lo, m.hi, maxTS[m.lo], maxTS[m.hi])
			return
		}
	}
}

func recID(e *handlerpb.KeyedEvent) string {
	v := string(e.Value)
	return v[:strings.Index(v, "#")]
}

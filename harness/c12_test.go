package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/storage/locations"
	"reduction.dev/reduction/storage/snapshots"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifJobStore(t *testing.T) {
	r := hl.Start(t)
	r.Delays()
	defer r.Done()
	until := r.Sub(8)
	for n := 0; n < 3 || time.Now().Before(until) && r.Left(); n++ {
		seed := r.Rng.Int63()
		r.Case("local directory: crash in the middle of a write, seed %d", seed)
		r.Guard("store", func() { localCrash(r, rand.New(rand.NewSource(seed)), n) })
	}
	until = r.Sub(1)
	for time.Now().Before(until) && r.Left() {
		var wg sync.WaitGroup
		for range 8 {
			seed := r.Rng.Int63()
			rng := rand.New(rand.NewSource(seed))
			c := jsConf{steps: 10 + rng.Intn(80), delay: []time.Duration{0, 0, 300 * time.Microsecond, 3 * time.Millisecond}[rng.Intn(4)], order: rng.Intn(3), ops: 1 + rng.Intn(3), srs: 1 + rng.Intn(3), bad: rng.Intn(3), restarts: rng.Intn(3), lag: rng.Intn(3) == 0, start: []uint64{0, 0, 254, 65534, 1<<32 - 3}[rng.Intn(5)]}
			r.Case("job store: %+v seed %d", c, seed)
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Guard("store", func() { jsRun(r, rng, c, seed) })
			}()
		}
		r.Within("store", hangLimit, wg.Wait)
	}
}

type jsConf struct {
	steps, order, ops, srs, bad, restarts int
	delay                                 time.Duration
	lag                                   bool
	start                                 uint64
}

type jsSplitter struct {
	connectors.UnimplementedSourceSplitter
	state func() []byte
}

func (s *jsSplitter) Checkpoint() []byte { return s.state() }

// jsAck is what a pending checkpoint still needs and has been given.
type jsPend struct {
	id       uint64
	ops, srs map[string]bool // acknowledged?
	uris     map[string][]string
	splits   []string
	done     bool
}

type jsWorld struct {
	mu        sync.Mutex
	completed map[uint64]*jsPend // every expected node acknowledged
	written   uint64             // the highest id whose snapshot was ever in storage
	bad       []string
	retained  []uint64
}

func (w *jsWorld) fail(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.bad) < 5 {
		w.bad = append(w.bad, fmt.Sprintf(f, a...))
	}
}

func jsCheckSnap(w *jsWorld, s *snapshotpb.JobCheckpoint, where string) {
	w.mu.Lock()
	p := w.completed[s.Id]
	w.mu.Unlock()
	if p == nil {
		w.fail("%s: checkpoint %d is published but was never acknowledged by all of its operators and source runners", where, s.Id)
		return
	}
	got := map[string]int{}
	for _, o := range s.OperatorCheckpoints {
		got[o.OperatorId]++
		if o.CheckpointId != s.Id {
			w.fail("%s: checkpoint %d has operator checkpoint %d", where, s.Id, o.CheckpointId)
		}
		ok := false
		for _, u := range p.uris[o.OperatorId] {
			ok = ok || u == o.DkvFileUri
		}
		if !ok {
			w.fail("%s: checkpoint %d: operator %s has file %q, acknowledged were %v", where, s.Id, o.OperatorId, o.DkvFileUri, p.uris[o.OperatorId])
		}
	}
	for o := range p.ops {
		if got[o] != 1 {
			w.fail("%s: checkpoint %d has %d entries of operator %s (all: %v)", where, s.Id, got[o], o, got)
		}
	}
	if len(got) != len(p.ops) {
		w.fail("%s: checkpoint %d has operators %v, expected %v", where, s.Id, got, p.ops)
	}
	if len(s.SourceCheckpoints) != 1 {
		w.fail("%s: checkpoint %d has %d source checkpoints", where, s.Id, len(s.SourceCheckpoints))
		return
	}
	var sp []string
	for _, b := range s.SourceCheckpoints[0].SplitStates {
		sp = append(sp, string(b))
	}
	sort.Strings(sp)
	want := append([]string{}, p.splits...)
	sort.Strings(want)
	if strings.Join(sp, ",") != strings.Join(want, ",") {
		w.fail("%s: checkpoint %d has split states %v, reported were %v", where, s.Id, sp, want)
	}
}

func jsRun(r *hl.R, rng *rand.Rand, c jsConf, seed int64) {
	var trace []string
	w := &jsWorld{completed: map[uint64]*jsPend{}}
	loc := newHLoc(seed)
	defer func() {
		if e := recover(); e != nil {
			panic(fmt.Sprintf("%v\nhistory: %s", e, strings.Join(trace, "; ")))
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, b := range w.bad {
			r.Fail("store", "%s\nconf %+v seed %d\nhistory: %s", b, c, seed, strings.Join(trace, "; "))
		}
	}()
	var stop sync.WaitGroup
	quiet := make(chan struct{})
	defer func() { close(quiet); stop.Wait() }()
	var cmu sync.Mutex // guards crash and crashAt
	var crash *hloc
	crashAt := -1
	watch := func(l *hloc) {
		w := w // a store of an earlier process goes on in what it took for the storage
		l.after = func(op, p string) {
			if strings.HasSuffix(p, ".snapshot") {
				w.mu.Lock()
				snaps := l.snapshots()
				var top uint64
				for id := range snaps {
					top = max(top, id)
				}
				if top < w.written {
					w.mu.Unlock()
					w.fail("after %s %s the newest checkpoint in storage is %d although %d had been published", op, p, top, w.written)
					w.mu.Lock()
				}
				w.written = max(w.written, top)
				w.mu.Unlock()
				cmu.Lock()
				if crashAt > 0 {
					crashAt--
				} else if crashAt == 0 {
					crashAt = -1
					crash = l.crash()
				}
				cmu.Unlock()
				for _, s := range snaps {
					jsCheckSnap(w, s, op+" "+p)
				}
			}
		}
	}
	open := func(l *hloc, prev uint64) *snapshots.Store {
		l.order, l.delay = c.order, c.delay
		watch(l)
		w, quiet := w, quiet
		ch := make(chan []uint64)
		s := snapshots.NewStore(&snapshots.NewStoreParams{FileStore: l, SavepointsPath: "savepoints", CheckpointsPath: "checkpoints", RetainedCheckpointsUpdated: ch, CheckpointEvents: nil})
		if err := s.LoadCheckpoint(); err != nil {
			w.fail("loading the checkpoint: %v", err)
		}
		var top uint64
		for id := range l.snapshots() {
			top = max(top, id)
		}
		if got := s.CurrentCheckpoint().GetId(); got != top {
			w.fail("restarted from checkpoint %d, storage has %d as the newest completed one (files %v)", got, top, l.names())
		} else if got != 0 {
			jsCheckSnap(w, s.CurrentCheckpoint(), "restart")
		}
		lag := rand.New(rand.NewSource(rng.Int63()))
		var last uint64
		stop.Add(1)
		go func() {
			defer stop.Done()
			for {
				select {
				case <-quiet:
					return
				case ids := <-ch:
					if len(ids) != 1 {
						w.fail("retained checkpoints %v announced", ids)
						continue
					}
					if ids[0] < last {
						w.fail("checkpoint %d announced as the only one to retain after %d", ids[0], last)
					}
					last = max(last, ids[0])
					w.mu.Lock()
					p := w.completed[ids[0]]
					w.mu.Unlock()
					if p == nil {
						w.fail("checkpoint %d announced as retained although it did not complete", ids[0])
					}
					if len(l.snapshots()) == 0 {
						w.fail("checkpoint %d announced as retained before it was stored", ids[0])
					}
					if c.lag {
						time.Sleep(time.Duration(lag.Intn(3000)) * time.Microsecond)
					}
				}
			}
		}()
		return s
	}
	settle := func(l *hloc) { // wait for publication of what completed
		w.mu.Lock()
		var top uint64
		for id := range w.completed {
			top = max(top, id)
		}
		w.mu.Unlock()
		if top == 0 {
			return
		}
		for t0 := time.Now(); ; time.Sleep(200 * time.Microsecond) {
			if _, ok := l.snapshots()[top]; ok {
				return
			}
			if time.Since(t0) > hangLimit/2 {
				w.fail("checkpoint %d was acknowledged by all but not published within %v", top, hangLimit/2)
				return
			}
		}
	}
	gen := 0
	nodes := func(p string, n int) []string {
		var o []string
		for i := 0; i < n; i++ {
			o = append(o, fmt.Sprintf("%s%d.%d", p, gen, i))
		}
		return o
	}
	splitter := func(s *snapshots.Store) {
		s.RegisterSourceSplitter(&jsSplitter{state: func() []byte { return []byte("splitter") }})
	}
	if c.start > 0 { // a checkpoint with a high id is there already
		s := open(loc, 0)
		_ = s
		p := &jsPend{id: c.start, ops: map[string]bool{"o": true}, uris: map[string][]string{"o": {"u"}}, splits: []string{"x"}}
		w.completed[c.start] = p
		b, _ := protoMarshal(&snapshotpb.JobCheckpoint{Id: c.start, OperatorCheckpoints: []*snapshotpb.OperatorCheckpoint{{CheckpointId: c.start, OperatorId: "o", DkvFileUri: "u"}}, SourceCheckpoints: []*snapshotpb.SourceCheckpoint{{CheckpointId: c.start, SplitStates: [][]byte{[]byte("x")}}}})
		loc.files[loc.norm("checkpoints/job-start.snapshot")] = b
	}
	s := open(loc, 0)
	splitter(s)
	var pend *jsPend
	var old []*jsPend // completed or abandoned ones, acknowledgements of which may still come
	last := c.start   // last id handed out
	ops, srs := nodes("op", c.ops), nodes("sr", c.srs)
	ackOp := func(id uint64, op, uri string) error {
		return s.AddOperatorSnapshot(&snapshotpb.OperatorCheckpoint{CheckpointId: id, OperatorId: op, DkvFileUri: uri, KeyGroupRange: &snapshotpb.KeyGroupRange{Start: 0, End: 1}})
	}
	ackSr := func(id uint64, sr string) ([]string, error) {
		sp := []string{fmt.Sprintf("%s@%d/0", sr, id), fmt.Sprintf("%s@%d/1", sr, id)}
		return sp, s.AddSourceSnapshot(&jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: id, SourceRunnerId: sr, SplitStates: [][]byte{[]byte(sp[0]), []byte(sp[1])}})
	}
	willComplete := func(p *jsPend, op, sr string) bool {
		for o, d := range p.ops {
			if !d && o != op {
				return false
			}
		}
		for o, d := range p.srs {
			if !d && o != sr {
				return false
			}
		}
		return true
	}
	pick := func(m map[string]bool, acked bool) string {
		var l []string
		for k, v := range m {
			if v == acked {
				l = append(l, k)
			}
		}
		if len(l) == 0 {
			return ""
		}
		sort.Strings(l)
		return l[rng.Intn(len(l))]
	}
	newPend := func(id uint64, sp bool) {
		if pend != nil {
			w.fail("checkpoint %d created while %d is in progress", id, pend.id)
		}
		if id <= last {
			w.fail("checkpoint id %d handed out after %d", id, last)
		}
		last = max(last, id)
		pend = &jsPend{id: id, ops: map[string]bool{}, srs: map[string]bool{}, uris: map[string][]string{}}
		for _, o := range ops {
			pend.ops[o] = false
		}
		for _, o := range srs {
			pend.srs[o] = false
		}
	}
	for step := 0; step < c.steps; step++ {
		if rng.Intn(8) == 0 {
			time.Sleep(time.Duration(rng.Intn(500)) * time.Microsecond)
		}
		if cur := s.CurrentCheckpoint(); cur != nil {
			jsCheckSnap(w, cur, "current checkpoint")
		}
		x := rng.Intn(20)
		switch {
		case pend == nil && x < 12 || pend != nil && x == 0:
			if rng.Intn(4) == 0 { // the files of the operators are not there, so the savepoint itself fails
				id, created, err := s.CreateSavepoint(ops, srs)
				trace = append(trace, fmt.Sprintf("savepoint=%d,%v,%v", id, created, err))
				if err == nil && created != (pend == nil) || pend != nil && !created && err == nil && id != pend.id {
					w.fail("savepoint request gives checkpoint %d (created %v) while %+v is in progress", id, created, pend)
				} else if err != nil && pend == nil {
					w.fail("requesting a savepoint: %v", err)
				}
				if err == nil && created {
					newPend(id, true)
				}
				continue
			}
			id, err := s.CreateCheckpoint(ops, srs)
			trace = append(trace, fmt.Sprintf("create=%d,%v", id, err))
			if err == nil {
				newPend(id, false)
			} else if pend == nil || !errors.Is(err, snapshots.ErrCheckpointInProgress) {
				w.fail("creating a checkpoint: %v (in progress: %v)", err, pend != nil)
			}
		case pend != nil && x < 16: // a proper acknowledgement
			if op := pick(pend.ops, false); op != "" && rng.Intn(2) == 0 {
				uri := fmt.Sprintf("uri-%s-%d", op, pend.id)
				fin := willComplete(pend, op, "")
				w.mu.Lock()
				pend.uris[op] = append(pend.uris[op], uri)
				pend.ops[op] = true
				if fin {
					w.completed[pend.id] = pend
				}
				w.mu.Unlock()
				err := ackOp(pend.id, op, uri)
				trace = append(trace, fmt.Sprintf("ack %s %d", op, pend.id))
				if err != nil {
					w.fail("acknowledging %d by %s: %v", pend.id, op, err)
				}
				if fin {
					old = append(old, pend)
					pend = nil
				}
			} else if sr := pick(pend.srs, false); sr != "" {
				fin := willComplete(pend, "", sr)
				w.mu.Lock()
				pend.splits = append(pend.splits, fmt.Sprintf("%s@%d/0", sr, pend.id), fmt.Sprintf("%s@%d/1", sr, pend.id))
				pend.srs[sr] = true
				if fin {
					w.completed[pend.id] = pend
				}
				w.mu.Unlock()
				_, err := ackSr(pend.id, sr)
				trace = append(trace, fmt.Sprintf("ack %s %d", sr, pend.id))
				if err != nil {
					w.fail("acknowledging %d by %s: %v", pend.id, sr, err)
				}
				if fin {
					old = append(old, pend)
					pend = nil
				}
			}
		case c.bad > 0 && x < 19: // an acknowledgement that must not count
			k := rng.Intn(6)
			trace = append(trace, fmt.Sprintf("bad ack %d", k))
			switch {
			case k == 0 && pend != nil: // by an unexpected node
				ackOp(pend.id, "foreign", "uri-foreign")
				ackSr(pend.id, "foreign")
			case k == 1 && pend != nil: // repeated
				if op := pick(pend.ops, true); op != "" {
					ackOp(pend.id, op, pend.uris[op][0])
				}
				if sr := pick(pend.srs, true); sr != "" {
					ackSr(pend.id, sr)
				}
			case k == 2 && len(old) > 0: // late
				p := old[rng.Intn(len(old))]
				for o := range p.ops {
					ackOp(p.id, o, "uri-late")
				}
				for o := range p.srs {
					ackSr(p.id, o)
				}
			case k == 3: // of a checkpoint that does not exist yet
				ackOp(last+1, ops[0], "uri-future")
				ackSr(last+1, srs[0])
			case k == 4: // of the node on behalf of another id
				if pend != nil {
					ackOp(pend.id-1, ops[rng.Intn(len(ops))], "uri-mismatch")
					ackSr(pend.id+1, srs[rng.Intn(len(srs))])
				}
			case k == 5 && pend != nil: // an operator as source runner and the other way around
				ackOp(pend.id, srs[0], "uri-sr")
				ackSr(pend.id, ops[0])
			}
		case x == 19 && c.restarts > 0:
			switch rng.Intn(3) {
			case 0: // crash now
				trace = append(trace, "crash")
				cmu.Lock()
				crash, crashAt = nil, -1
				cmu.Unlock()
				loc = loc.crash()
			case 1: // crash at a later storage operation
				cmu.Lock()
				crashAt = rng.Intn(4)
				cmu.Unlock()
				trace = append(trace, "plan crash")
				continue
			case 2: // new assembly in the same process
				if d, ok := any(s).(interface{ DiscardPending() }); ok {
					trace = append(trace, "discard")
					d.DiscardPending()
					w.mu.Lock()
					var top uint64
					for id := range w.completed {
						top = max(top, id)
					}
					w.mu.Unlock()
					if got := s.CurrentCheckpoint().GetId(); got < top {
						w.fail("the job restarts from checkpoint %d, %d was completed before", got, top)
					}
					if pend != nil {
						old = append(old, pend)
					}
					pend = nil
					gen++
					ops, srs = nodes("op", c.ops), nodes("sr", c.srs)
					splitter(s)
				}
				continue
			}
			// the earlier process is gone; what it completed but did not store is lost
			gen++
			ops, srs = nodes("op", c.ops), nodes("sr", c.srs)
			if pend != nil {
				old = append(old, pend)
			}
			pend = nil
			w.mu.Lock()
			var top uint64
			for id := range loc.snapshots() {
				top = max(top, id)
			}
			nc := map[uint64]*jsPend{}
			for id, p := range w.completed {
				if id <= top {
					nc[id] = p
				}
			}
			w.mu.Unlock()
			nw := &jsWorld{completed: nc, written: top}
			w.mu.Lock()
			nw.bad = append(nw.bad, w.bad...)
			w.mu.Unlock()
			close(quiet)
			stop.Wait()
			quiet = make(chan struct{})
			*(&w) = nw
			s = open(loc, top)
			splitter(s)
			last = top
		}
		cmu.Lock()
		cr := crash
		crash = nil
		cmu.Unlock()
		if cr != nil { // a look at what a restart after a crash in the middle would do
			var top uint64
			for id := range cr.snapshots() {
				top = max(top, id)
			}
			s2 := snapshots.NewStore(&snapshots.NewStoreParams{FileStore: cr, SavepointsPath: "savepoints", CheckpointsPath: "checkpoints"})
			if err := s2.LoadCheckpoint(); err != nil {
				w.fail("loading after a crash: %v", err)
			} else if got := s2.CurrentCheckpoint().GetId(); got != top {
				w.fail("after a crash restarted from checkpoint %d, storage has %d (files %v)", got, top, cr.names())
			}
			if id, err := func() (uint64, error) { splitter(s2); return s2.CreateCheckpoint(ops, srs) }(); err != nil || id <= top {
				w.fail("after a crash with checkpoint %d stored the next id is %d, %v", top, id, err)
			}
		}
	}
	settle(loc)
	time.Sleep(200 * time.Microsecond)
}

// localCrash stops LocalDirectory in the middle of a write, which is where a crash may strike.
func localCrash(r *hl.R, rng *rand.Rand, n int) {
	dir, err := os.MkdirTemp("", "verifloc")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
	mk := func(d string, k int) {
		ch := make(chan string, 10)
		s := snapshots.NewStore(&snapshots.NewStoreParams{FileStore: locations.NewLocalDirectory(d), SavepointsPath: "sp", CheckpointsPath: "cp", CheckpointEvents: ch})
		if err := s.LoadCheckpoint(); err != nil {
			r.Fail("store", "loading from %s: %v", d, err)
			return
		}
		s.RegisterSourceSplitter(&jsSplitter{state: func() []byte { return []byte("splitter") }})
		for range k {
			id, err := s.CreateCheckpoint([]string{"o"}, []string{"s"})
			if err != nil {
				r.Fail("store", "create: %v", err)
				return
			}
			s.AddOperatorSnapshot(&snapshotpb.OperatorCheckpoint{CheckpointId: id, OperatorId: "o", DkvFileUri: strings.Repeat("u", 20+rng.Intn(200)), KeyGroupRange: &snapshotpb.KeyGroupRange{}})
			s.AddSourceSnapshot(&jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: id, SourceRunnerId: "s", SplitStates: [][]byte{[]byte("x")}})
			<-ch
		}
		for t0 := time.Now(); time.Since(t0) < hangLimit; time.Sleep(100 * time.Microsecond) { // obsolete ones are removed in the background
			if l, _ := filepath.Glob(filepath.Join(d, "cp", "*.snapshot")); len(l) == 1 {
				return
			}
		}
		r.Fail("store", "obsolete checkpoint files are not removed within %v", hangLimit)
	}
	mk(a, 1+rng.Intn(3))
	if err := os.CopyFS(b, os.DirFS(a)); err != nil {
		panic(err)
	}
	mk(b, 1)
	// the files b has and a has not are written to a, interrupted
	var stored []string
	filepath.Walk(b, func(p string, i os.FileInfo, _ error) error {
		rel, _ := filepath.Rel(b, p)
		if _, err := os.Stat(filepath.Join(a, rel)); err != nil && !i.IsDir() {
			stored = append(stored, rel)
		}
		return nil
	})
	load := func(d string) (uint64, error) {
		s := snapshots.NewStore(&snapshots.NewStoreParams{FileStore: locations.NewLocalDirectory(d), SavepointsPath: "sp", CheckpointsPath: "cp"})
		err := s.LoadCheckpoint()
		return s.CurrentCheckpoint().GetId(), err
	}
	before, err := load(a)
	if err != nil {
		r.Fail("store", "loading: %v", err)
		return
	}
	for i, rel := range stored {
		data, _ := os.ReadFile(filepath.Join(b, rel))
		cut := rng.Intn(len(data) + 1)
		if n == 0 {
			cut = 0
		}
		mid := func() {
			c := filepath.Join(dir, fmt.Sprintf("c%d", i))
			os.CopyFS(c, os.DirFS(a))
			got, err := load(c)
			if err != nil {
				r.Fail("store", "crash after %d of %d bytes of %s were written: the job does not start: %v", cut, len(data), rel, err)
			} else if got < before {
				r.Fail("store", "crash after %d of %d bytes of %s were written: the job starts from checkpoint %d instead of %d", cut, len(data), rel, got, before)
			}
		}
		if _, err := locations.NewLocalDirectory(a).Write(rel, io.MultiReader(bytes.NewReader(data[:cut]), &callReader{f: mid}, bytes.NewReader(data[cut:]))); err != nil {
			r.Fail("store", "writing %s: %v", rel, err)
		}
	}
	after, err := load(a)
	if err != nil || after <= before {
		r.Fail("store", "after checkpoint %d was written the job starts from %d, %v", before+1, after, err)
	}
}

type callReader struct{ f func() }

func (c *callReader) Read([]byte) (int, error) {
	if c.f != nil {
		c.f()
		c.f = nil
	}
	return 0, io.EOF
}

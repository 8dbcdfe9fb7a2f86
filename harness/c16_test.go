package zzverif

import (
	"context"
	"crypto/md5"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"maps"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aws/aws-sdk-go-v2/aws"
	awskinesis "github.com/aws/aws-sdk-go-v2/service/kinesis"
	kinesistypes "github.com/aws/aws-sdk-go-v2/service/kinesis/types"
	"google.golang.org/protobuf/proto"
	protocol "reduction.dev/reduction-protocol/kinesispb"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/connectors/embedded"
	"reduction.dev/reduction/connectors/httpapi"
	"reduction.dev/reduction/connectors/kinesis"
	"reduction.dev/reduction/connectors/kinesis/kinesisfake"
	"reduction.dev/reduction/connectors/kinesis/kinesispb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	hl "reduction.dev/reduction/zzhlib"
)

// The real Kinesis splitter and readers against the Kinesis stand-in of the repository: shards are split and merged at
// any moment, checkpoints are the splitter's state and, some time later for each reader, the reader's positions; the
// whole is restored from the last one. Every shard has one reader, none is handed out before its parents are
// finished, and all records are emitted once.
func TestVerifKinesisSplits(t *testing.T) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	r := hl.Start(t)
	defer r.Done()
	until := r.Sub(1)
	var wg sync.WaitGroup
	for range 6 {
		rng := rand.New(rand.NewSource(r.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(until) && r.Left() {
				seed := rng.Int63()
				r.Case("kinesis: seed %d", seed)
				r.Within("kinesis splits", 2*hangLimit, func() {
					r.Guard("kinesis splits", func() { newKWorld(r, seed).run() })
				})
			}
		}()
	}
	wg.Wait()
}

var kMax = new(big.Int).Lsh(big.NewInt(1), 128)

type kShard struct {
	id         string
	start, end *big.Int
	parents    []string
	closed     bool
	records    []string
}

type kPoint struct { // what a checkpoint of the world stands for
	splitter []byte
	states   [][]byte
	emitted  map[string]int
	finished map[string]bool
}

type kRunner struct {
	id       string
	reader   connectors.SourceReader
	queue    [][]*workerpb.SourceSplit // assignments which were not yet taken
	emitted  map[string]int            // in this incarnation, from the position it started at
	finished map[string]bool
	pos      map[string]int
	snapped  bool
	notify   [][]string
	batchEnd []string
}

type kDirect struct {
	mu sync.Mutex
	h  http.Handler
}

func (d *kDirect) Do(q *http.Request) (*http.Response, error) {
	if err := q.Context().Err(); err != nil {
		return nil, err
	}
	if q.Body == nil {
		q.Body = http.NoBody
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	rec := httptest.NewRecorder()
	d.h.ServeHTTP(rec, q)
	return rec.Result(), nil
}

type kWorld struct {
	r       *hl.R
	rng     *rand.Rand
	seed    int64
	fake    *kinesisfake.Fake
	client  *awskinesis.Client
	arn     string
	name    string
	shards  []*kShard
	nextRec int
	log     []string

	mu       sync.Mutex
	splitter connectors.SourceSplitter
	errs     chan error
	runners  []*kRunner
	base     kPoint            // the checkpoint this incarnation started from
	done     map[string]bool   // finished according to the readers (or the checkpoint)
	owner    map[string]string // the runner a shard was assigned to in this incarnation
	pending  *kPoint
	problem  string
	gen      int
	late     bool
}

func newKWorld(r *hl.R, seed int64) *kWorld {
	w := &kWorld{r: r, rng: rand.New(rand.NewSource(seed)), seed: seed}
	return w
}

func (w *kWorld) logf(f string, a ...any) {
	w.log = append(w.log, fmt.Sprintf(f, a...))
	if len(w.log) > 60 {
		w.log = w.log[1:]
	}
}

func (w *kWorld) fail(f string, a ...any) {
	w.r.Fail("splits", "%s", fmt.Sprintf(f, a...)+fmt.Sprintf("\nseed %d; last steps:\n  %s", w.seed, strings.Join(w.log, "\n  ")))
	panic(kStop{})
}

type kStop struct{}

func (w *kWorld) shard(id string) *kShard {
	for _, s := range w.shards {
		if s.id == id {
			return s
		}
	}
	return nil
}

func (w *kWorld) run() {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(kStop); !ok {
				panic(p)
			}
		}
	}()
	rng := w.rng
	inner, fake := kinesisfake.StartFake()
	defer inner.Close()
	w.fake = fake
	// No network in between; the stand-in isn't made for concurrent requests
	w.client = awskinesis.New(awskinesis.Options{
		BaseEndpoint: aws.String("http://kinesis.invalid"),
		Region:       "us-east-2",
		Credentials:  aws.AnonymousCredentials{},
		Retryer:      aws.NopRetryer{},
		HTTPClient:   &kDirect{h: inner.Config.Handler},
	})
	ctx := context.Background()

	w.name = "st"
	n := 1 + rng.Intn(4)
	n32 := int32(n)
	if _, err := w.client.CreateStream(ctx, &awskinesis.CreateStreamInput{StreamName: &w.name, ShardCount: &n32}); err != nil {
		panic(err)
	}
	d, err := w.client.DescribeStream(ctx, &awskinesis.DescribeStreamInput{StreamName: &w.name})
	if err != nil {
		panic(err)
	}
	w.arn = *d.StreamDescription.StreamARN
	w.syncShards()
	fake.SetGetRecordsLimit(1 + rng.Intn(4))

	w.start(kPoint{emitted: map[string]int{}, finished: map[string]bool{}}, 1+rng.Intn(3))
	defer func() { w.splitter.Close() }()
	last := w.base
	for step, steps := 0, 50+rng.Intn(300); step < steps; step++ {
		switch rng.Intn(23) {
		case 0, 1, 2:
			w.put(1 + rng.Intn(6))
		case 3:
			w.split()
		case 4:
			w.merge()
		case 5, 6:
			w.deliver(rng.Intn(len(w.runners)))
		case 7, 8, 9, 10, 11, 12:
			w.read(rng.Intn(len(w.runners)))
		case 13:
			w.notifyOne(rng.Intn(len(w.runners)))
		case 14:
			w.fake.ExpireShardIterators()
			w.logf("expire iterators")
		case 15:
			if w.pending == nil {
				w.pending = &kPoint{splitter: w.splitter.Checkpoint(), emitted: maps.Clone(w.base.emitted), finished: maps.Clone(w.base.finished)}
				w.late = rng.Intn(3) > 0 // the job takes the splitter's state when all readers have reported
				w.logf("checkpoint: splitter")
			}
		case 16, 17, 20, 21, 22:
			w.snap(rng.Intn(len(w.runners)))
			if w.complete() {
				if w.late {
					w.pending.splitter = w.splitter.Checkpoint()
				}
				last = *w.pending
				w.pending = nil
				for _, k := range w.runners {
					k.snapped = false
				}
				w.logf("checkpoint complete")
			}
		case 18:
			if rng.Intn(2) == 0 {
				w.splitter.Close()
				w.logf("restore")
				w.start(last, 1+rng.Intn(3))
			}
		case 19:
			time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
		}
		w.check()
	}
	// All that was put is emitted in the end
	end := time.Now().Add(10 * time.Second)
	for {
		for i := range w.runners {
			w.deliver(i)
			w.notifyOne(i)
			w.read(i)
		}
		w.check()
		if w.missing() == "" {
			break
		}
		if time.Now().After(end) {
			w.fail("a record is never read: %s", w.missing())
		}
		time.Sleep(time.Millisecond)
	}
}

func (w *kWorld) check() {
	w.mu.Lock()
	p := w.problem
	w.mu.Unlock()
	if p != "" {
		w.fail("%s", p)
	}
	select {
	case err := <-w.errs:
		w.fail("the splitter reports an error: %v", err)
	default:
	}
}

// The number of records of each shard which were emitted in this history
func (w *kWorld) total(shard string) int {
	n := w.base.emitted[shard]
	for _, k := range w.runners {
		n += k.emitted[shard]
	}
	return n
}

func (w *kWorld) missing() string {
	for _, s := range w.shards {
		if n := w.total(s.id); n < len(s.records) {
			return fmt.Sprintf("record %d of %s (parents %v) was put but only %d of its records were emitted", n, s.id, s.parents, n)
		}
	}
	return ""
}

func (w *kWorld) syncShards() {
	out, err := w.client.ListShards(context.Background(), &awskinesis.ListShardsInput{StreamARN: &w.arn})
	if err != nil {
		panic(err)
	}
	for _, s := range out.Shards {
		if w.shard(*s.ShardId) != nil {
			continue
		}
		k := &kShard{id: *s.ShardId, start: new(big.Int), end: new(big.Int)}
		k.start.SetString(*s.HashKeyRange.StartingHashKey, 10)
		k.end.SetString(*s.HashKeyRange.EndingHashKey, 10)
		for _, p := range []*string{s.ParentShardId, s.AdjacentParentShardId} {
			if p != nil && *p != "" {
				k.parents = append(k.parents, *p)
			}
		}
		w.shards = append(w.shards, k)
	}
}

func (w *kWorld) open() (out []*kShard) {
	for _, s := range w.shards {
		if !s.closed {
			out = append(out, s)
		}
	}
	return
}

func (w *kWorld) put(n int) {
	var es []kinesistypes.PutRecordsRequestEntry
	open := w.open()
	for range n {
		w.nextRec++
		key := fmt.Sprintf("key-%d", w.rng.Intn(50))
		data := fmt.Sprintf("r%d", w.nextRec)
		es = append(es, kinesistypes.PutRecordsRequestEntry{Data: []byte(data), PartitionKey: &key})
		h := md5.Sum([]byte(key))
		v := new(big.Int).SetBytes(h[:])
		to := open[0]
		for _, s := range open {
			if s.start.Cmp(v) <= 0 && s.end.Cmp(v) >= 0 {
				to = s
				break
			}
		}
		to.records = append(to.records, data)
	}
	if _, err := w.client.PutRecords(context.Background(), &awskinesis.PutRecordsInput{Records: es, StreamARN: &w.arn}); err != nil {
		panic(err)
	}
	w.logf("put %d", n)
}

func (w *kWorld) split() {
	open := w.open()
	s := open[w.rng.Intn(len(open))]
	mid := new(big.Int).Add(s.start, s.end)
	mid.Rsh(mid, 1)
	if len(w.shards) > 14 || mid.Cmp(s.start) <= 0 || mid.Cmp(s.end) >= 0 {
		return
	}
	m := mid.String()
	if _, err := w.client.SplitShard(context.Background(), &awskinesis.SplitShardInput{StreamARN: &w.arn, ShardToSplit: &s.id, NewStartingHashKey: &m}); err != nil {
		panic(err)
	}
	s.closed = true
	w.syncShards()
	w.logf("split %s", s.id)
}

func (w *kWorld) merge() {
	open := w.open()
	slices.SortFunc(open, func(a, b *kShard) int { return a.start.Cmp(b.start) })
	if len(open) < 2 || len(w.shards) > 14 {
		return
	}
	i := w.rng.Intn(len(open) - 1)
	a, b := open[i], open[i+1]
	if w.rng.Intn(2) == 0 {
		a, b = b, a
	}
	if _, err := w.client.MergeShards(context.Background(), &awskinesis.MergeShardsInput{StreamARN: &w.arn, ShardToMerge: &a.id, AdjacentShardToMerge: &b.id}); err != nil {
		panic(err)
	}
	a.closed, b.closed = true, true
	w.syncShards()
	w.logf("merge %s %s", a.id, b.id)
}

func (w *kWorld) start(p kPoint, runners int) {
	w.mu.Lock()
	w.gen++
	gen := w.gen
	w.base, w.pending, w.runners = p, nil, nil
	w.done = maps.Clone(p.finished)
	w.owner = map[string]string{}
	var ids []string
	conf := kinesis.SourceConfig{StreamARN: w.arn, Client: w.client, ShardDiscoveryInterval: time.Duration(1+w.rng.Intn(3)) * time.Millisecond}
	for i := range runners {
		k := &kRunner{id: fmt.Sprintf("g%d-r%d", gen, i), emitted: map[string]int{}, finished: map[string]bool{}, pos: map[string]int{}}
		prompt := w.rng.Intn(2) == 0
		k.reader = conf.NewSourceReader(connectors.SourceReaderHooks{NotifySplitsFinished: func(ids []string) {
			// Invoked by ReadEvents
			k.batchEnd = append(k.batchEnd, ids...)
			w.mu.Lock()
			for _, id := range ids {
				w.done[id] = true
				k.finished[id] = true
			}
			w.mu.Unlock()
			if prompt {
				w.splitter.NotifySplitsFinished(k.id, ids)
			} else {
				k.notify = append(k.notify, ids)
			}
		}})
		w.runners = append(w.runners, k)
		ids = append(ids, k.id)
	}
	w.errs = make(chan error, 10)
	w.mu.Unlock()
	sp := conf.NewSourceSplitter(ids, connectors.SourceSplitterHooks{AssignSplits: func(as map[string][]*workerpb.SourceSplit) {
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.gen == gen {
			w.assigned(as)
		}
	}}, w.errs)
	w.logf("start with %d runners, emitted %v, finished %v", runners, p.emitted, slices.Sorted(maps.Keys(p.finished)))
	ck := &snapshotpb.SourceCheckpoint{SplitterState: p.splitter, SplitStates: p.states}
	if p.states == nil && p.splitter == nil && w.rng.Intn(2) == 0 {
		ck = nil
	}
	w.splitter = sp
	if err := sp.Start(ck); err != nil {
		w.fail("the splitter doesn't start from a checkpoint: %v", err)
	}
}

// Called with w.mu by the splitter's goroutine: may only note problems
func (w *kWorld) assigned(as map[string][]*workerpb.SourceSplit) {
	for _, id := range slices.Sorted(maps.Keys(as)) {
		if len(as[id]) == 0 {
			continue
		}
		i := slices.IndexFunc(w.runners, func(k *kRunner) bool { return k.id == id })
		if i < 0 {
			w.problem = fmt.Sprintf("splits are assigned to %q which is no source runner of the job", id)
			return
		}
		for _, s := range as[id] {
			if o, ok := w.owner[s.SplitId]; ok {
				w.problem = fmt.Sprintf("shard %s was assigned to %s and again to %s", s.SplitId, o, id)
				return
			}
			w.owner[s.SplitId] = id
			if w.base.finished[s.SplitId] {
				w.problem = fmt.Sprintf("shard %s was finished before the checkpoint but is assigned again", s.SplitId)
				return
			}
			if k := w.shard(s.SplitId); k != nil {
				for _, p := range k.parents {
					if !w.done[p] {
						w.problem = fmt.Sprintf("shard %s is handed out before its parent %s is finished", s.SplitId, p)
						return
					}
				}
			}
			want := ""
			if n := w.base.emitted[s.SplitId]; n > 0 {
				want = strconv.Itoa(n - 1)
			}
			if string(s.Cursor) != want {
				w.problem = fmt.Sprintf("shard %s is assigned at position %q, its checkpointed position is %q", s.SplitId, s.Cursor, want)
				return
			}
		}
		w.runners[i].queue = append(w.runners[i].queue, as[id])
	}
}

func (w *kWorld) deliver(i int) {
	k := w.runners[i]
	w.mu.Lock()
	var b []*workerpb.SourceSplit
	if len(k.queue) > 0 {
		b, k.queue = k.queue[0], k.queue[1:]
	}
	w.mu.Unlock()
	if b == nil {
		return
	}
	if err := k.reader.AssignSplits(b); err != nil {
		w.fail("the reader rejects an assignment: %v", err)
	}
	var ids []string
	for _, s := range b {
		ids = append(ids, s.SplitId+"@"+string(s.Cursor))
	}
	w.logf("%s takes %v", k.id, ids)
}

func (w *kWorld) notifyOne(i int) {
	k := w.runners[i]
	if len(k.notify) == 0 {
		return
	}
	ids := k.notify[0]
	k.notify = k.notify[1:]
	w.logf("%s notifies %v finished", k.id, ids)
	w.splitter.NotifySplitsFinished(k.id, ids)
}

func (w *kWorld) read(i int) {
	k := w.runners[i]
	k.batchEnd = nil
	evs, err := k.reader.ReadEvents()
	if err != nil {
		w.fail("reading events of %s: %v", k.id, err)
	}
	var got []string
	for _, ev := range evs {
		var rec protocol.Record
		if err := proto.Unmarshal(ev, &rec); err != nil {
			w.fail("an event is no record: %v", err)
		}
		got = append(got, string(rec.Data))
	}
	w.logf("%s reads %v, finished %v", k.id, got, k.batchEnd)
	for _, g := range got {
		var at *kShard
		var idx int
		for _, s := range w.shards {
			if j := slices.Index(s.records, g); j >= 0 {
				at, idx = s, j
			}
		}
		if at == nil {
			w.fail("record %q was never put", g)
		}
		if n := w.total(at.id); n != idx {
			w.fail("record %d of shard %s is emitted where record %d is due", idx, at.id, n)
		}
		k.emitted[at.id]++
	}
	for _, id := range k.batchEnd {
		s := w.shard(id)
		if s == nil || !s.closed || w.total(id) != len(s.records) {
			w.fail("shard %s is reported finished though %d records of it were emitted and it isn't read to its end", id, w.total(id))
		}
	}
}

// A runner meets the barrier of the current checkpoint
func (w *kWorld) snap(i int) {
	k := w.runners[i]
	if w.pending == nil || k.snapped {
		return
	}
	k.snapped = true
	states := k.reader.Checkpoint()
	if f, ok := k.reader.(connectors.FinishedSplitsReader); ok {
		states = append(states, f.CheckpointFinished()...) // as the source runner does
	}
	w.pending.states = append(w.pending.states, states...)
	for id, n := range k.emitted {
		w.pending.emitted[id] += n
	}
	for id := range k.finished {
		w.pending.finished[id] = true
	}
	w.logf("checkpoint: %s %v", k.id, k.emitted)
	seen := map[string]bool{}
	for _, st := range states {
		var s kinesispb.Shard
		if err := proto.Unmarshal(st, &s); err != nil {
			w.fail("a split state can't be read: %v", err)
		}
		if seen[s.ShardId] {
			w.fail("the checkpoint of %s has shard %s twice", k.id, s.ShardId)
		}
		seen[s.ShardId] = true
		if s.Finished != k.finished[s.ShardId] {
			w.fail("the checkpoint of %s says finished=%v of shard %s, read to its end: %v", k.id, s.Finished, s.ShardId, k.finished[s.ShardId])
		}
		if s.Finished {
			continue
		}
		want := ""
		if n := w.base.emitted[s.ShardId] + k.emitted[s.ShardId]; n > 0 {
			want = strconv.Itoa(n - 1)
		}
		if s.Cursor != want {
			w.fail("%s reports position %q of shard %s ahead of the barrier, it emitted up to %q", k.id, s.Cursor, s.ShardId, want)
		}
	}
	for id := range k.emitted {
		if !seen[id] {
			w.fail("%s emitted records of shard %s but its checkpoint has no position of it", k.id, id)
		}
	}
}

func (w *kWorld) complete() bool {
	if w.pending == nil {
		return false
	}
	for _, k := range w.runners {
		if !k.snapped {
			return false
		}
	}
	// The order of the split states is the order in which the source runners reported
	return true
}

// The splitters with a fixed set of splits: embedded and HTTP API
func TestVerifStaticSplits(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	topic := make([][]byte, 60)
	for i := range topic {
		topic[i] = []byte(strconv.Itoa(i))
	}
	batch := 3
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		p := strings.Split(q.URL.Path, "/")
		at, _ := strconv.Atoi(p[len(p)-1])
		end := min(at+batch, len(topic))
		ev := map[string]any{"Cursor": end, "Status": ""}
		ev["Events"] = topic[at:end]
		if end == len(topic) {
			ev["Status"] = "eoi"
		}
		json.NewEncoder(rw).Encode(ev)
	}))
	defer srv.Close()
	until := r.Sub(1)
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		http := rng.Intn(4) == 0
		r.Case("static splits: http %v, seed %d", http, seed)
		r.Guard("static splits", func() {
			var conf connectors.SourceConfig
			splits := 1
			if http {
				batch = 1 + rng.Intn(7)
				conf = httpapi.SourceConfig{Addr: srv.URL, Topics: []string{"t"}}
			} else {
				splits = rng.Intn(9)
				conf = embedded.SourceConfig{SplitCount: splits, BatchSize: 1 + rng.Intn(4), GeneratorID: "g"}
			}
			// The checkpoint: the states of all readers and the next number of each split
			var states [][]byte
			next := map[string]int{}
			splitOf := func(n int) string {
				if http {
					return "only"
				}
				return strconv.Itoa(n % splits)
			}
			for round := range 2 + rng.Intn(3) {
				var ids []string
				for i := range 1 + rng.Intn(5) {
					ids = append(ids, fmt.Sprintf("run%d-%d", round, i))
				}
				got := map[string][]*workerpb.SourceSplit{}
				owner := map[string]string{}
				sp := conf.NewSourceSplitter(ids, connectors.SourceSplitterHooks{AssignSplits: func(as map[string][]*workerpb.SourceSplit) {
					for id, ss := range as {
						if !slices.Contains(ids, id) {
							r.Fail("splits", "splits are assigned to %q which is no source runner (seed %d)", id, seed)
						}
						for _, s := range ss {
							if o, ok := owner[s.SplitId]; ok {
								r.Fail("splits", "split %s is assigned to %s and to %s (seed %d)", s.SplitId, o, id, seed)
							}
							owner[s.SplitId] = id
							at := 0
							if len(s.Cursor) == 8 {
								at = int(binary.BigEndian.Uint64(s.Cursor))
							}
							want := next[s.SplitId]
							if at != want {
								r.Fail("splits", "split %s is assigned at position %d, its checkpointed position is %d (seed %d)", s.SplitId, at, want, seed)
							}
						}
						got[id] = append(got[id], ss...)
					}
				}}, make(chan error, 10))
				ck := &snapshotpb.SourceCheckpoint{SplitStates: states, SplitterState: sp.Checkpoint()}
				if round == 0 && rng.Intn(2) == 0 {
					ck = nil
				}
				if err := sp.Start(ck); err != nil {
					r.Fail("splits", "the splitter doesn't start from its checkpoint: %v (seed %d)", err, seed)
				}
				for i := range splits {
					if _, ok := owner[splitOf(i)]; !ok {
						r.Fail("splits", "split %s of %d isn't assigned to any of %d source runners (seed %d)", splitOf(i), splits, len(ids), seed)
					}
				}
				states = nil
				cut := maps.Clone(next)
				rng.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
				for _, id := range ids {
					rd := conf.NewSourceReader(connectors.SourceReaderHooks{})
					if ss := got[id]; len(ss) > 0 || rng.Intn(2) == 0 {
						if err := rd.AssignSplits(ss); err != nil {
							r.Fail("splits", "a reader rejects its splits: %v (seed %d)", err, seed)
						}
					}
					reads, at := rng.Intn(6), rng.Intn(6)
					pos := maps.Clone(next)
					for i := 0; i <= max(reads, at); i++ {
						if i == at {
							states = append(states, rd.Checkpoint()...)
							for id, n := range pos {
								if n != next[id] {
									cut[id] = n
								}
							}
						}
						if http && (len(got[id]) == 0 || pos["only"] == len(topic)) {
							continue // no wait for more
						}
						evs, err := rd.ReadEvents()
						if err != nil && err != connectors.ErrEndOfInput {
							r.Fail("splits", "reading: %v (seed %d)", err, seed)
						}
						for _, ev := range evs {
							n, _ := strconv.Atoi(string(ev))
							s := splitOf(n)
							if owner[s] != id {
								r.Fail("splits", "a record of split %s which is assigned to %s is emitted by %s (seed %d)", s, owner[s], id, seed)
							}
							want := pos[s]
							step := 1
							if !http {
								k, _ := strconv.Atoi(s)
								want += k
								step = splits
							}
							if n != want {
								r.Fail("splits", "split %s: record %d is emitted where %d is due (seed %d)", s, n, want, seed)
							}
							pos[s] += step
						}
					}
				}
				next = cut
				sp.Close()
			}
		})
	}
}

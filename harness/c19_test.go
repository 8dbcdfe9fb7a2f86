package zzverif

import (
	"bytes"
	"cmp"
	"fmt"
	"iter"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"reduction.dev/reduction/dkv/mergesort"
	"reduction.dev/reduction/dkv/ziptree"
	"reduction.dev/reduction/util/ds"
	"reduction.dev/reduction/util/iteru"
	"reduction.dev/reduction/util/sliceu"
	hl "reduction.dev/reduction/zzhlib"
)

// small alphabets so that duplicates and prefixes of one another are frequent
func rkey(rng *rand.Rand) []byte {
	switch rng.Intn(8) {
	case 0:
		b := make([]byte, rng.Intn(6))
		rng.Read(b)
		return b
	case 1:
		return []byte{}
	}
	b := make([]byte, 1+rng.Intn(4))
	for i := range b {
		b[i] = []byte{0, 'a', 'b', 0xff}[rng.Intn(4)]
	}
	return b
}

func TestVerifOrdered(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	parts := []func(*hl.R, time.Time){zipTree, heapOps, heapExhaustive, ppq, cache, setOps, sortedMap, merges, search}
	for i, f := range parts {
		f(r, r.Sub(len(parts)-i))
	}
}

func zipTree(r *hl.R, until time.Time) {
	for i := 0; time.Now().Before(until) && r.Left(); i++ {
		n := 1 + r.Rng.Intn(60)
		ref := map[string]string{}
		tr := ziptree.New()
		var ops []string
		r.Case("ziptree #%d of %d puts", i, n)
		r.Guard("ziptree", func() {
			for j := 0; j < n; j++ {
				k := rkey(r.Rng)
				v := fmt.Sprint("v", j)
				old, had := ref[string(k)]
				ops = append(ops, fmt.Sprintf("put %x", k))
				rep := tr.Put(ziptree.NewKVEntry(k, []byte(v)))
				if had != (rep != nil) || had && (string(rep.Value) != old || !bytes.Equal(rep.Key, k)) {
					r.Fail("ziptree-put", "put %x returned %v, previous value was %q (present %v); history %s", k, rep, old, had, strings.Join(ops, "; "))
				}
				ref[string(k)] = v
				if j%4 != 3 && j != n-1 {
					continue
				}
				for q := 0; q < 4; q++ {
					k := rkey(r.Rng)
					nd, ok := tr.Get(k)
					want, has := ref[string(k)]
					if ok != has || ok && (string(nd.Value) != want || !bytes.Equal(nd.Key, k)) {
						r.Fail("ziptree-get", "get %x = %v,%v want %q,%v after %s", k, nd, ok, want, has, strings.Join(ops, "; "))
					}
				}
				for k := range ref {
					nd, ok := tr.Get([]byte(k))
					if !ok || string(nd.Value) != ref[k] {
						r.Fail("ziptree-get", "get of inserted %x = %v,%v after %s", k, nd, ok, strings.Join(ops, "; "))
						break
					}
				}
				for _, p := range [][]byte{nil, rkey(r.Rng), rkey(r.Rng)} {
					var want, got []string
					for k, v := range ref {
						if strings.HasPrefix(k, string(p)) {
							want = append(want, k+"="+v)
						}
					}
					sort.Slice(want, func(a, b int) bool {
						return want[a][:strings.LastIndex(want[a], "=")] < want[b][:strings.LastIndex(want[b], "=")]
					})
					stop := -1
					if r.Rng.Intn(3) == 0 && len(want) > 0 {
						stop = 1 + r.Rng.Intn(len(want))
						want = want[:stop]
					}
					for nd := range tr.AscendPrefix(p) {
						got = append(got, string(nd.Key)+"="+string(nd.Value))
						if len(got) == stop {
							break
						}
					}
					if !slices.Equal(got, want) {
						r.Fail("ziptree-scan", "prefix %x: %q want %q after %s", p, got, want, strings.Join(ops, "; "))
					}
				}
				if r.Failed() {
					return
				}
			}
		})
	}
}

type el struct {
	p, id, idx int
}

func checkHeap(r *hl.R, h *ds.Heap[*el], ref []*el, ops []string) {
	if h.Size() != len(ref) || h.IsEmpty() != (len(ref) == 0) {
		r.Fail("heap-size", "size %d empty %v want %d after %v", h.Size(), h.IsEmpty(), len(ref), ops)
		return
	}
	m, ok := h.Peek()
	if ok != (len(ref) > 0) {
		r.Fail("heap-peek", "peek %v with %d elements after %v", ok, len(ref), ops)
		return
	}
	if ok {
		for _, e := range ref {
			if e.p < m.p {
				r.Fail("heap-peek", "peek gives priority %d, %d is there, after %v", m.p, e.p, ops)
				return
			}
		}
	}
	idx := map[int]bool{}
	for _, e := range ref {
		if e.idx < 0 || e.idx >= len(ref) || idx[e.idx] {
			r.Fail("heap-index", "element %d has index %d of %d (or shared) after %v", e.id, e.idx, len(ref), ops)
			return
		}
		idx[e.idx] = true
	}
}

func heapOps(r *hl.R, until time.Time) {
	for i := 0; time.Now().Before(until) && r.Left(); i++ {
		n := 1 + r.Rng.Intn(80)
		prios := 1 + r.Rng.Intn(20)
		h := ds.NewHeap(func(a, b *el) int { return cmp.Compare(a.p, b.p) }, r.Rng.Intn(4))
		h.SetIndexAssigner(func(e *el, i int) { e.idx = i })
		var ref []*el
		var ops []string
		r.Case("heap #%d: %d operations over %d priorities", i, n, prios)
		r.Guard("heap", func() {
			for j := 0; j < n && !r.Failed(); j++ {
				switch x := r.Rng.Intn(8); {
				case x < 4:
					e := &el{p: r.Rng.Intn(prios), id: j}
					ops = append(ops, fmt.Sprintf("push %d", e.p))
					h.Push(e)
					ref = append(ref, e)
				case x < 6:
					ops = append(ops, "pop")
					e, ok := h.Pop()
					if ok != (len(ref) > 0) {
						r.Fail("heap-pop", "pop ok=%v with %d elements after %v", ok, len(ref), ops)
						return
					}
					if !ok {
						break
					}
					at := slices.Index(ref, e)
					if at < 0 {
						r.Fail("heap-pop", "pop returned an element that is not in the heap after %v", ops)
						return
					}
					for _, o := range ref {
						if o.p < e.p {
							r.Fail("heap-pop", "pop returned %d while %d is present after %v", e.p, o.p, ops)
						}
					}
					ref = slices.Delete(ref, at, at+1)
				default:
					if len(ref) > 0 {
						e := ref[r.Rng.Intn(len(ref))]
						e.p = r.Rng.Intn(prios)
						ops = append(ops, fmt.Sprintf("fix %d->%d", e.id, e.p))
						h.Fix(e.idx)
					}
				}
				checkHeap(r, h, ref, ops)
			}
			// drain in order
			last := -1
			for cnt := len(ref); cnt > 0 && !r.Failed(); cnt-- {
				e, ok := h.Pop()
				if !ok || e.p < last {
					r.Fail("heap-drain", "drain gave %v,%v after priority %d after %v", e, ok, last, ops)
					return
				}
				last = e.p
			}
		})
	}
}

// every sequence of up to 7 pushes over 3 priorities, popped again
func heapExhaustive(r *hl.R, until time.Time) {
	for n := 0; n <= 7; n++ {
		tot := 1
		for i := 0; i < n; i++ {
			tot *= 3
		}
		for c := 0; c < tot && time.Now().Before(until) && r.Left(); c++ {
			h := ds.NewHeap(func(a, b int) int { return a - b }, 0)
			var want []int
			for i, x := 0, c; i < n; i, x = i+1, x/3 {
				h.Push(x % 3)
				want = append(want, x%3)
			}
			r.Case("heap pushes %v", want)
			slices.Sort(want)
			var got []int
			for {
				v, ok := h.Pop()
				if !ok {
					break
				}
				got = append(got, v)
				if len(got) > n {
					break
				}
			}
			if !slices.Equal(got, want) {
				r.Fail("heap-sort", "pops %v want %v", got, want)
			}
		}
	}
}

type qpart struct {
	items []int
	idx   int
}

func (q *qpart) Peek() (int, bool) {
	if len(q.items) == 0 {
		return 0, false
	}
	return q.items[0], true
}
func (q *qpart) Pop() (int, bool) {
	v, ok := q.Peek()
	if ok {
		q.items = q.items[1:]
	}
	return v, ok
}
func (q *qpart) Push(x int) { q.items = append(slices.Clone(q.items), x); slices.Sort(q.items) }
func (q *qpart) IsEmpty() bool {
	return len(q.items) == 0
}
func (q *qpart) Delete(x int) {
	if i := slices.Index(q.items, x); i >= 0 {
		q.items = slices.Delete(slices.Clone(q.items), i, i+1)
	}
}
func (q *qpart) AssignIndex(i int) { q.idx = i }
func (q *qpart) Index() int        { return q.idx }

func ppq(r *hl.R, until time.Time) {
	for i := 0; time.Now().Before(until) && r.Left(); i++ {
		np := 1 + r.Rng.Intn(9)
		span := 1 + r.Rng.Intn(40)
		n := 1 + r.Rng.Intn(80)
		var parts []ds.QueuePartition[int]
		var ref []int
		for p := 0; p < np; p++ {
			q := &qpart{}
			for k := r.Rng.Intn(3); k > 0; k-- {
				x := r.Rng.Intn(span)*np + p
				q.Push(x)
				ref = append(ref, x)
			}
			parts = append(parts, q)
		}
		slices.Sort(ref)
		// priority is x/np so several partitions share priorities
		q := ds.NewPartitionedPriorityQueue(parts, func(a, b int) int { return cmp.Compare(a/np, b/np) }, func(x int) int { return x % np })
		var ops []string
		r.Case("ppq #%d: %d partitions, %d operations, start %v", i, np, n, ref)
		r.Guard("ppq", func() {
			for j := 0; j < n && !r.Failed(); j++ {
				if q.IsEmpty() != (len(ref) == 0) {
					r.Fail("ppq-empty", "IsEmpty=%v with %v after %v", q.IsEmpty(), ref, ops)
				}
				v, ok := q.Peek()
				if ok != (len(ref) > 0) || ok && (v/np != ref[0]/np || !slices.Contains(ref, v)) {
					r.Fail("ppq-peek", "Peek=%d,%v want minimum of %v after %v", v, ok, ref, ops)
				}
				switch x := r.Rng.Intn(8); {
				case x < 3:
					v := r.Rng.Intn(span * np)
					ops = append(ops, fmt.Sprint("push ", v))
					q.Push(v)
					ref = append(ref, v)
					slices.Sort(ref)
				case x < 6:
					ops = append(ops, "pop")
					v, ok := q.Pop()
					at := slices.Index(ref, v)
					if ok != (len(ref) > 0) || ok && (at < 0 || v/np != ref[0]/np) {
						r.Fail("ppq-pop", "Pop=%d,%v want minimum of %v after %v", v, ok, ref, ops)
						return
					}
					if ok {
						ref = slices.Delete(ref, at, at+1)
					}
				default:
					v := r.Rng.Intn(span * np)
					if len(ref) > 0 && r.Rng.Intn(3) > 0 {
						v = ref[r.Rng.Intn(len(ref))]
					}
					ops = append(ops, fmt.Sprint("delete ", v))
					q.Delete(v)
					if at := slices.Index(ref, v); at >= 0 {
						ref = slices.Delete(ref, at, at+1)
					}
				}
			}
			for len(ref) > 0 && !r.Failed() {
				v, ok := q.Pop()
				at := slices.Index(ref, v)
				if !ok || at < 0 || v/np != ref[0]/np {
					r.Fail("ppq-drain", "Pop=%d,%v want minimum of %v after %v", v, ok, ref, ops)
					return
				}
				ref = slices.Delete(ref, at, at+1)
			}
		})
	}
}

func cache(r *hl.R, until time.Time) {
	for i := 0; time.Now().Before(until) && r.Left(); i++ {
		max := r.Rng.Intn(30)
		n := 1 + r.Rng.Intn(60)
		c := ds.NewSortedCache(uint64(max))
		ref := map[string]bool{}
		var ops []string
		r.Case("sorted cache #%d: limit %d, %d operations", i, max, n)
		r.Guard("cache", func() {
			for j := 0; j < n && !r.Failed(); j++ {
				var keys []string
				total := 0
				for k := range ref {
					keys = append(keys, k)
					total += len(k)
				}
				sort.Strings(keys)
				if c.IsEmpty() != (len(ref) == 0) {
					r.Fail("cache-empty", "IsEmpty=%v with %q after %v", c.IsEmpty(), keys, ops)
				}
				if c.IsFull() != (total >= max) {
					r.Fail("cache-size", "IsFull=%v with %d bytes of %d after %v", c.IsFull(), total, max, ops)
				}
				v, ok := c.Peek()
				if ok != (len(ref) > 0) || ok && string(v) != keys[0] {
					r.Fail("cache-peek", "Peek=%q,%v want first of %q after %v", v, ok, keys, ops)
				}
				switch x := r.Rng.Intn(10); {
				case x < 5:
					k := rkey(r.Rng)
					ops = append(ops, fmt.Sprintf("push %x", k))
					c.Push(k)
					ref[string(k)] = true
				case x < 7:
					ops = append(ops, "pop")
					v, ok := c.Pop()
					if ok != (len(ref) > 0) || ok && string(v) != keys[0] {
						r.Fail("cache-pop", "Pop=%q,%v want first of %q after %v", v, ok, keys, ops)
					}
					delete(ref, string(v))
				case x < 8:
					ops = append(ops, "poplast")
					v, ok := c.PopLast()
					if ok != (len(ref) > 0) || ok && string(v) != keys[len(keys)-1] {
						r.Fail("cache-poplast", "PopLast=%q,%v want last of %q after %v", v, ok, keys, ops)
					}
					delete(ref, string(v))
				default:
					k := rkey(r.Rng)
					if len(keys) > 0 && r.Rng.Intn(2) == 0 {
						k = []byte(keys[r.Rng.Intn(len(keys))])
					}
					ops = append(ops, fmt.Sprintf("delete %x", k))
					c.Delete(k)
					delete(ref, string(k))
				}
			}
		})
	}
}

func setOps(r *hl.R, until time.Time) {
	type snap struct {
		s   *ds.Set[int]
		ref []int
	}
	for i := 0; time.Now().Before(until) && r.Left(); i++ {
		n := 1 + r.Rng.Intn(30)
		span := 1 + r.Rng.Intn(12)
		pick := func() []int {
			v := make([]int, r.Rng.Intn(5))
			for i := range v {
				v[i] = r.Rng.Intn(span)
			}
			return v
		}
		add := func(l, v []int) []int {
			l = slices.Clone(l)
			for _, x := range v {
				if !slices.Contains(l, x) {
					l = append(l, x)
				}
			}
			return l
		}
		first := pick()
		sets := []snap{{ds.SetOf(first...), add(nil, first)}, {ds.NewSet[int](r.Rng.Intn(4)), nil}}
		var ops []string
		r.Case("set #%d: %d operations on [0,%d) starting from %v", i, n, span, first)
		r.Guard("set", func() {
			for j := 0; j < n && !r.Failed(); j++ {
				k := r.Rng.Intn(len(sets))
				s := sets[k]
				v := pick()
				switch r.Rng.Intn(4) {
				case 0:
					ops = append(ops, fmt.Sprintf("s%d.add %v", k, v))
					s.s.Add(v...)
					sets[k].ref = add(s.ref, v)
				case 1:
					ops = append(ops, fmt.Sprintf("s%d = s%d.added %v", len(sets), k, v))
					sets = append(sets, snap{s.s.Added(v...), add(s.ref, v)})
				case 2:
					ops = append(ops, fmt.Sprintf("s%d = s%d.without %v", len(sets), k, v))
					w := slices.DeleteFunc(slices.Clone(s.ref), func(x int) bool { return slices.Contains(v, x) })
					sets = append(sets, snap{s.s.Without(v...), w})
				case 3:
					o := r.Rng.Intn(len(sets))
					ops = append(ops, fmt.Sprintf("s%d = s%d.diff s%d", len(sets), k, o))
					w := slices.DeleteFunc(slices.Clone(s.ref), func(x int) bool { return slices.Contains(sets[o].ref, x) })
					sets = append(sets, snap{s.s.Diff(sets[o].s), w})
				}
				for k, s := range sets {
					if s.s.Size() != len(s.ref) || !slices.Equal(s.s.Slice(), s.ref) && len(s.ref) > 0 || !slices.Equal(slices.Collect(s.s.All()), s.ref) {
						r.Fail("set-contents", "s%d is %v (size %d) want %v after %v", k, s.s.Slice(), s.s.Size(), s.ref, ops)
						return
					}
					for x := 0; x < span; x++ {
						if s.s.Has(x) != slices.Contains(s.ref, x) {
							r.Fail("set-has", "s%d.Has(%d)=%v, contents %v after %v", k, x, s.s.Has(x), s.ref, ops)
							return
						}
					}
				}
			}
		})
	}
}

func sortedMap(r *hl.R, until time.Time) {
	for i := 0; time.Now().Before(until) && r.Left(); i++ {
		n := 1 + r.Rng.Intn(60)
		span := 1 + r.Rng.Intn(15)
		m := ds.NewSortedMap[int, int]()
		ref := map[int]int{}
		var ops []string
		r.Case("sorted map #%d: %d operations on [0,%d)", i, n, span)
		r.Guard("sortedmap", func() {
			for j := 0; j < n && !r.Failed(); j++ {
				k := r.Rng.Intn(span)
				_, had := ref[k]
				switch r.Rng.Intn(6) {
				case 0, 1, 2:
					ops = append(ops, fmt.Sprintf("set %d=%d", k, j))
					if m.Set(k, j) != !had {
						r.Fail("sortedmap-set", "Set(%d) reported new=%v after %v", k, had, ops)
					}
					ref[k] = j
				case 3:
					ops = append(ops, fmt.Sprintf("delete %d", k))
					if m.Delete(k) != had {
						r.Fail("sortedmap-delete", "Delete(%d) reported %v after %v", k, !had, ops)
					}
					delete(ref, k)
				}
				v, ok := m.Get(k)
				w, has := ref[k]
				if ok != has || m.Has(k) != has || v != w {
					r.Fail("sortedmap-get", "Get(%d)=%d,%v Has=%v want %d,%v after %v", k, v, ok, m.Has(k), w, has, ops)
				}
				if r.Rng.Intn(3) > 0 {
					continue
				}
				var keys, vals, ks, vs []int
				for k := range ref {
					keys = append(keys, k)
				}
				slices.Sort(keys)
				for _, k := range keys {
					vals = append(vals, ref[k])
				}
				for k, v := range m.All() {
					ks, vs = append(ks, k), append(vs, v)
				}
				if m.Size() != len(keys) || !slices.Equal(ks, keys) || !slices.Equal(vs, vals) || !slices.Equal(m.Keys(), keys) || !slices.Equal(m.Values(), vals) {
					r.Fail("sortedmap-all", "size %d keys %v/%v values %v/%v want %v=%v after %v", m.Size(), ks, m.Keys(), vs, m.Values(), keys, vals, ops)
				}
			}
		})
	}
}

type kvs struct{ k, seq int }

func merges(r *hl.R, until time.Time) {
	for i := 0; time.Now().Before(until) && r.Left(); i++ {
		n := r.Rng.Intn(6)
		span := 1 + r.Rng.Intn(12)
		seq := 0
		lists := make([][]kvs, n)
		newest := map[int]kvs{}
		var plain []int
		for j := range lists {
			for k := 0; k < span; k++ {
				for r.Rng.Intn(3) == 0 {
					lists[j] = append(lists[j], kvs{k: k})
				}
			}
			for m := range lists[j] {
				plain = append(plain, lists[j][m].k)
			}
		}
		// distinct sequence numbers in random order
		total := len(plain)
		perm := r.Rng.Perm(total)
		for j := range lists {
			for m := range lists[j] {
				lists[j][m].seq = perm[seq]
				seq++
				if o, ok := newest[lists[j][m].k]; !ok || o.seq < lists[j][m].seq {
					newest[lists[j][m].k] = lists[j][m]
				}
			}
		}
		r.Case("merge of %v", lists)
		stop := -1
		if r.Rng.Intn(3) == 0 {
			stop = 1 + r.Rng.Intn(span)
		}
		r.Guard("merge", func() {
			var its []iter.Seq[kvs]
			for _, l := range lists {
				its = append(its, slices.Values(l))
			}
			var want, got []kvs
			for k := 0; k < span; k++ {
				if v, ok := newest[k]; ok {
					want = append(want, v)
				}
			}
			if stop > 0 && len(want) > stop {
				want = want[:stop]
			}
			for v := range mergesort.Merge(its, func(a, b kvs) int { return cmp.Compare(a.k, b.k) }, func(a, b kvs) kvs {
				if a.seq > b.seq {
					return a
				}
				return b
			}) {
				got = append(got, v)
				if len(got) == stop {
					break
				}
			}
			if !slices.Equal(got, want) {
				r.Fail("mergesort", "got %v want %v", got, want)
			}
			slices.Sort(plain)
			if stop > 0 && len(plain) > stop {
				plain = plain[:stop]
			}
			var g []int
			for v := range iteru.MergeSorted(its, func(a, b kvs) int { return cmp.Compare(a.k, b.k) }) {
				g = append(g, v.k)
				if len(g) == stop {
					break
				}
			}
			if !slices.Equal(g, plain) {
				r.Fail("mergesorted", "got %v want %v", g, plain)
			}
		})
	}
}

func search(r *hl.R, until time.Time) {
	for n := 0; n <= 40 && r.Left(); n++ {
		s := make([]int, n)
		for i := range s {
			s[i] = 2 * i
		}
		r.Case("binary search in %d elements", n)
		r.Guard("search", func() {
			for x := -1; x <= 2*n; x++ {
				i, ok := sliceu.SearchUnique(s, x, func(a, b int) int { return cmp.Compare(a, b) })
				want := x >= 0 && x < 2*n && x%2 == 0
				if ok != want || ok && i != x/2 {
					r.Fail("search", "search for %d in 0,2,..,%d = %d,%v", x, 2*n-2, i, ok)
				}
			}
		})
	}
	for i := 0; time.Now().Before(until) && r.Left() && i < 20000; i++ {
		// ranges: cmp as the tables of a level use it
		n := r.Rng.Intn(12)
		var lo, hi []int
		x := 0
		for j := 0; j < n; j++ {
			x += 1 + r.Rng.Intn(3)
			lo = append(lo, x)
			x += r.Rng.Intn(4)
			hi = append(hi, x)
		}
		idx := make([]int, n)
		for j := range idx {
			idx[j] = j
		}
		r.Case("range search %v-%v", lo, hi)
		for k := 0; k <= x+1; k++ {
			at, ok := sliceu.SearchUnique(idx, k, func(e, t int) int {
				if hi[e] < t {
					return -1
				}
				if lo[e] > t {
					return 1
				}
				return 0
			})
			want := slices.IndexFunc(idx, func(e int) bool { return lo[e] <= k && k <= hi[e] })
			if ok != (want >= 0) || ok && at != want {
				r.Fail("search", "range search for %d = %d,%v want %d in %v-%v", k, at, ok, want, lo, hi)
			}
		}
	}
}

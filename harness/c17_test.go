package zzverif

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"slices"
	"sort"
	"testing"
	"time"

	"reduction.dev/reduction/dkv/bloom"
	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/sst"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/dkv/wal"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifTables(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	dir, err := os.MkdirTemp("", "verif-c17")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	parts := []func(*hl.R, time.Time, string){tableRT, runRT, indexRT, bloomRT, walRT}
	for i, f := range parts {
		f(r, r.Sub(len(parts)-i), dir)
	}
}

func genRun(r *rand.Rand, n, vmax int) []*hent {
	m := map[string]*hent{}
	for len(m) < n {
		k := hkey(r, 2+n/6)
		if r.Intn(3) == 0 {
			k = []byte(fmt.Sprintf("k%05d", r.Intn(4*n+1)))
		}
		e := &hent{k: k, seq: 1 + uint64(r.Intn(1000))}
		switch r.Intn(5) {
		case 0:
			e.del = true
		case 1:
			e.v = []byte{}
		default:
			e.v = make([]byte, r.Intn(vmax+1))
			r.Read(e.v)
		}
		m[string(k)] = e
	}
	var es []*hent
	for _, e := range m {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return bytes.Compare(es[i].k, es[j].k) < 0 })
	return es
}

func anyFS(r *hl.R, dir string) (storage.FileSystem, string) {
	switch r.Rng.Intn(6) {
	case 0:
		d, _ := os.MkdirTemp(dir, "d")
		return storage.NewLocalFilesystem(d), "local"
	case 1, 2:
		return newHFS(r.Rng.Int63()), "hfs"
	}
	return storage.NewMemoryFilesystem(), "memory"
}

func runDesc(es []*hent) string {
	if len(es) > 24 {
		return fmt.Sprintf("%d entries %v ... %v", len(es), es[:6], es[len(es)-4:])
	}
	return fmt.Sprint(es)
}

// every present key, some absent ones, scans by prefix
func checkTable(r *hl.R, what string, tb *sst.Table, es []*hent) {
	byKey := map[string]*hent{}
	for _, e := range es {
		byKey[string(e.k)] = e
	}
	probe := func(k []byte) {
		got, err := tb.Get(k)
		w := byKey[string(k)]
		if w == nil {
			if !errors.Is(err, kv.ErrNotFound) {
				r.Fail("table-get", "%s: Get(%q) of an absent key = %s, %v", what, k, entStr(got), err)
			}
			return
		}
		if err != nil || !entSame(w, got) {
			r.Fail("table-get", "%s: Get(%q) = %s, %v; written %v", what, k, entStr(got), err, w)
		}
	}
	for _, e := range es {
		probe(e.k)
		probe(append(slices.Clone(e.k), 0))
		if len(e.k) > 0 {
			probe(e.k[:len(e.k)-1])
		}
	}
	probe([]byte{})
	probe([]byte("zzzz"))
	probe([]byte{0})
	probe([]byte{0xff, 0xff, 0xff})
	ps := [][]byte{nil, {}, {'a'}, {'k'}, {0xff}, {0}, []byte("k00"), []byte("zz")}
	for range 4 {
		if len(es) > 0 {
			k := es[r.Rng.Intn(len(es))].k
			ps = append(ps, k, k[:r.Rng.Intn(len(k)+1)])
		}
	}
	for _, p := range ps {
		var want []*hent
		for _, e := range es {
			if bytes.HasPrefix(e.k, p) {
				want = append(want, e)
			}
		}
		var e error
		var got []kv.Entry
		for x := range tb.ScanPrefix(p, &e) {
			got = append(got, x)
			if len(got) > len(want)+2 {
				break
			}
		}
		ok := e == nil && len(got) == len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = entSame(want[i], got[i])
		}
		if !ok {
			var g []string
			for _, x := range got {
				g = append(g, entStr(x))
			}
			if len(g) > 12 {
				g = g[:12]
			}
			r.Fail("table-scan", "%s: ScanPrefix(%q) gave %d entries %v (err %v), want %d: %s", what, p, len(got), g, e, len(want), runDesc(want))
		}
		// stop early
		n := 0
		for range tb.ScanPrefix(p, &e) {
			n++
			if n == 2 {
				break
			}
		}
	}
}
func reopen(r *hl.R, fs storage.FileSystem, tb *sst.Table) *sst.Table {
	b, err := json.Marshal(tb.Document())
	if err != nil {
		r.Fail("table-document", "descriptor does not serialise: %v", err)
		return tb
	}
	var d sst.TableDocument
	if err := json.Unmarshal(b, &d); err != nil {
		r.Fail("table-document", "descriptor does not parse: %v", err)
		return tb
	}
	return sst.NewTableFromDocument(fs, keepFiles{}, d)
}

func tableRT(r *hl.R, until time.Time, dir string) {
	sizes := []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 100}
	for time.Now().Before(until) && r.Left() {
		n := sizes[r.Rng.Intn(len(sizes))]
		if r.Rng.Intn(3) == 0 {
			n = r.Rng.Intn(80)
		}
		es := genRun(r.Rng, n, 12)
		fs, fn := anyFS(r, dir)
		r.Case("table on %s: %s", fn, runDesc(es))
		r.Guard("table", func() {
			tb, err := sst.NewTableWriter(fs, 0).Write(asKV(es))
			if err != nil {
				r.Fail("table", "Write: %v", err)
				return
			}
			defer runtime.KeepAlive(tb)
			checkTable(r, "written table", tb, es)
			checkTable(r, "re-opened table", reopen(r, fs, tb), es)
			for _, e := range es {
				if x := reopen(r, fs, tb); !x.RangeContainsKey(e.k) || x.RangeKeyCompare(e.k) != 0 || !x.RangeContainsPrefix(e.k[:r.Rng.Intn(len(e.k)+1)]) {
					r.Fail("table-range", "re-opened table's key range excludes its own key %q", e.k)
				}
				if !tb.RangeContainsKey(e.k) || !tb.RangeContainsPrefix(e.k[:r.Rng.Intn(len(e.k)+1)]) {
					r.Fail("table-range", "table's key range excludes its own key %q", e.k)
				}
			}
			if n > 0 {
				d := tb.Document()
				lo, hi := es[0].seq, es[0].seq
				for _, e := range es {
					lo, hi = min(lo, e.seq), max(hi, e.seq)
				}
				if string(d.StartKey) != string(es[0].k) || string(d.EndKey) != string(es[n-1].k) {
					r.Fail("table-document", "descriptor range %q..%q, entries %q..%q", d.StartKey, d.EndKey, es[0].k, es[n-1].k)
				}
				if d.StartSeqNum != lo || d.EndSeqNum != hi {
					r.Fail("table-document", "descriptor sequence numbers %d..%d, entries %d..%d", d.StartSeqNum, d.EndSeqNum, lo, hi)
				}
			}
		})
	}
}

func runRT(r *hl.R, until time.Time, dir string) {
	for time.Now().Before(until) && r.Left() {
		n := r.Rng.Intn(60)
		vmax := 1 + r.Rng.Intn(60)
		es := genRun(r.Rng, n, vmax)
		if r.Rng.Intn(2) == 0 { // an entry of the target size or more
			for range 1 + r.Rng.Intn(3) {
				if n > 0 {
					i := r.Rng.Intn(n)
					if r.Rng.Intn(2) == 0 {
						i = n - 1
					}
					es[i].v, es[i].del = make([]byte, 60+r.Rng.Intn(300)), false
				}
			}
		}
		target := uint64(1 + r.Rng.Intn(300))
		fs, fn := anyFS(r, dir)
		if fn == "local" && r.Rng.Intn(4) > 0 {
			fs, fn = storage.NewMemoryFilesystem(), "memory"
		}
		r.Case("run on %s target %d: %s", fn, target, runDesc(es))
		r.Guard("run", func() {
			tabs, err := sst.NewTableWriter(fs, 7).WriteRun(asKV(es), target)
			if err != nil {
				r.Fail("run", "WriteRun: %v", err)
				return
			}
			defer runtime.KeepAlive(tabs)
			var all []kv.Entry
			names := map[string]bool{}
			for i, tb := range tabs {
				if names[tb.URI()] {
					r.Fail("run", "two tables share the file %s", tb.URI())
				}
				names[tb.URI()] = true
				if r.Rng.Intn(2) == 0 {
					tb = reopen(r, fs, tb)
				}
				var e error
				part := slices.Collect(tb.ScanPrefix(nil, &e))
				if e != nil {
					r.Fail("run", "scan of table %d: %v", i, e)
					return
				}
				if len(part) == 0 && n > 0 {
					r.Fail("run", "table %d of %d holds no entry", i, len(tabs))
					return
				}
				d := tb.Document()
				if len(part) > 0 && (string(d.StartKey) != string(part[0].Key()) || string(d.EndKey) != string(part[len(part)-1].Key())) {
					r.Fail("run", "table %d range %q..%q holds %q..%q", i, d.StartKey, d.EndKey, part[0].Key(), part[len(part)-1].Key())
				}
				all = append(all, part...)
				hes := make([]*hent, len(part))
				for j, x := range part {
					hes[j] = &hent{x.Key(), x.Value(), x.SeqNum(), x.IsDelete()}
				}
				checkTable(r, fmt.Sprintf("table %d of run", i), tb, hes)
			}
			ok := len(all) == len(es)
			for i := 0; ok && i < len(es); i++ {
				ok = entSame(es[i], all[i])
			}
			if !ok {
				r.Fail("run", "%d tables hold %d entries of %d or in another order", len(tabs), len(all), len(es))
			}
			for i := 1; i < len(tabs); i++ {
				if a, b := tabs[i-1].Document(), tabs[i].Document(); string(a.EndKey) >= string(b.StartKey) {
					r.Fail("run", "tables %d and %d overlap: ..%q and %q..", i-1, i, a.EndKey, b.StartKey)
				}
			}
		})
	}
}

// the sparse index on its own: present and absent keys around every sampled entry
func indexRT(r *hl.R, until time.Time, dir string) {
	for time.Now().Before(until) && r.Left() {
		n := 1 + r.Rng.Intn(70)
		es := make([]*hent, n)
		for i := range es {
			es[i] = &hent{k: []byte(fmt.Sprintf("%04d", 2*i+1)), v: bytes.Repeat([]byte{'v'}, r.Rng.Intn(5)), seq: uint64(i + 1), del: r.Rng.Intn(4) == 0}
		}
		fs := storage.NewMemoryFilesystem()
		r.Case("table of %d dense keys, %s", n, runDesc(es))
		r.Guard("table-get", func() {
			tb, err := sst.NewTableWriter(fs, 0).Write(asKV(es))
			if err != nil {
				r.Fail("table", "%v", err)
				return
			}
			defer runtime.KeepAlive(tb)
			for _, x := range []*sst.Table{tb, reopen(r, fs, tb)} {
				for i := 0; i <= 2*n+2; i++ {
					k := []byte(fmt.Sprintf("%04d", i))
					got, err := x.Get(k)
					if i%2 == 1 && i < 2*n {
						if err != nil || !entSame(es[i/2], got) {
							r.Fail("table-get", "Get(%q) = %s, %v; written %v", k, entStr(got), err, es[i/2])
						}
					} else if !errors.Is(err, kv.ErrNotFound) {
						r.Fail("table-get", "Get(%q) of an absent key = %s, %v", k, entStr(got), err)
					}
				}
			}
		})
		// an index over sorted keys, asked without a filter in front of it
		si := &sst.SearchIndex{}
		for i := range es {
			si.IndexOffset(int64(i))
		}
		read := func(o int64) ([]byte, error) { return es[o].k, nil }
		for _, x := range []*sst.SearchIndex{si, reIndex(si)} {
			for i := 0; i <= 2*n+2; i++ {
				k := []byte(fmt.Sprintf("%04d", i))
				r.Guard("search-index", func() {
					a, b, err := x.Search(k, read)
					if err != nil || a < 0 || i%2 == 1 && i < 2*n && (int64(i/2) < a || int64(i/2) >= b) {
						r.Fail("search-index", "Search(%q) over %d entries gives [%d,%d) %v, entry is at %d", k, n, a, b, err, i/2)
					}
				})
			}
		}
	}
}
func reIndex(si *sst.SearchIndex) *sst.SearchIndex {
	var b bytes.Buffer
	si.Encode(&b)
	return sst.SearchIndexDecode(&b)
}

func bloomRT(r *hl.R, until time.Time, dir string) {
	for time.Now().Before(until) && r.Left() {
		size := uint32(1 + r.Rng.Intn(400))
		hs := 1 + r.Rng.Intn(6)
		f := bloom.NewFilter(size, hs)
		var ks [][]byte
		for range r.Rng.Intn(20) {
			k := hkey(r.Rng, 6)
			ks = append(ks, k)
			f.Add(k)
		}
		r.Case("bloom size %d hashes %d keys %q", size, hs, ks)
		r.Guard("bloom", func() {
			var b bytes.Buffer
			n := f.Encode(&b)
			if n != b.Len() {
				r.Fail("bloom", "Encode reports %d bytes, wrote %d", n, b.Len())
			}
			b.WriteString("tail")
			g := bloom.Decode(&b)
			if b.String() != "tail" {
				r.Fail("bloom", "Decode left %q, want the 4 bytes after the filter", b.String())
			}
			for _, k := range ks {
				if !f.MightHave(k) || !g.MightHave(k) {
					r.Fail("bloom", "present key %q denied (before encoding %v, after %v)", k, f.MightHave(k), g.MightHave(k))
				}
			}
		})
	}
}

// writer histories: put/delete/cut/truncate/rotate in the way the database drives them
func walRT(r *hl.R, until time.Time, dir string) {
	for time.Now().Before(until) && r.Left() {
		fs, fn := anyFS(r, dir)
		if fn == "local" && r.Rng.Intn(4) > 0 {
			fs, fn = storage.NewMemoryFilesystem(), "memory"
		}
		var ops []string
		w := wal.NewWriter(fs, r.Rng.Intn(3), 1+uint64(r.Rng.Intn(200)))
		var all []*hent // every operation ever written
		first := uint64(1 + r.Rng.Intn(3))
		seq := first - 1
		var cuts []uint64 // sequence number at each cut
		trunc := first - 1
		n := 5 + r.Rng.Intn(50)
		hist := r.Rng.Int()
		r.Case("wal on %s history %d", fn, hist)
		r.Guard("wal", func() {
			for i := 0; i < n && !r.Failed(); i++ {
				switch x := r.Rng.Intn(12); {
				case x < 6:
					seq++
					e := &hent{k: hkey(r.Rng, 3), seq: seq, v: hkey(r.Rng, 4), del: r.Rng.Intn(3) == 0}
					if e.del {
						e.v = nil
						w.Delete(e.k, seq)
					} else {
						w.Put(e.k, e.v, seq)
					}
					all = append(all, e)
					ops = append(ops, e.String())
				case x < 8:
					w.Cut()
					cuts = append(cuts, seq)
					ops = append(ops, "cut")
				case x < 10: // flushed up to some cut
					if len(cuts) == 0 {
						continue
					}
					j := r.Rng.Intn(len(cuts))
					if cuts[j] < trunc {
						continue
					}
					trunc = cuts[j]
					cuts = cuts[j+1:]
					w.Truncate(trunc)
					ops = append(ops, fmt.Sprint("truncate ", trunc))
				default:
					next := w.Rotate(fs)
					after := trunc
					if r.Rng.Intn(3) == 0 && seq > trunc {
						after = trunc + uint64(r.Rng.Intn(int(seq-trunc)+1))
					}
					ops = append(ops, fmt.Sprint("rotate, replay after ", after))
					if err := w.Save(); err != nil {
						r.Fail("wal", "Save: %v after %v", err, ops)
						return
					}
					h := w.Handle(after)
					b, _ := json.Marshal(h.Document())
					var d wal.HandleDocument
					if err := json.Unmarshal(b, &d); err != nil {
						r.Fail("wal", "%v", err)
					}
					h2 := wal.NewHandle(fs, d)
					if h2.ID != h.ID || h2.After != after || h2.URI() != h.URI() {
						r.Fail("wal", "handle %v reads back as %v", h, h2)
					}
					var want []*hent
					for _, e := range all {
						if e.seq > after {
							want = append(want, e)
						}
					}
					var got []string
					ok := true
					i := 0
					for e, err := range wal.NewReader(fs, h2).All() {
						if err != nil {
							got = append(got, "error "+err.Error())
							ok = false
							break
						}
						got = append(got, (&hent{e.K, e.V, e.SeqNum(), e.Deleted}).String())
						if i >= len(want) || !bytes.Equal(e.K, want[i].k) || !bytes.Equal(e.V, want[i].v) || e.Deleted != want[i].del {
							ok = false
						}
						i++
					}
					if !ok || i != len(want) {
						r.Fail("wal", "replay after %d gives %v, want %v; history from sequence number %d: %v", after, got, want, first, ops)
					}
					w = next
				}
			}
		})
	}
}

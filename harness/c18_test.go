package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"maps"
	"math/rand"
	"runtime"
	"slices"
	"testing"
	"time"

	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/sst"
	"reduction.dev/reduction/dkv/storage"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifCompaction(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	parts := []func(*hl.R, time.Time){compactHist, compactShape}
	for i, f := range parts {
		f(r, r.Sub(len(parts)-i))
	}
}

type cst struct {
	r    *hl.R
	ll   *sst.LevelList
	m    map[string]*hent // newest entry per key
	keys map[string]bool
	seq  uint64
	ops  []string
	nlev int
}

func (c *cst) layout() string {
	var s []string
	for i, l := range c.ll.Document() {
		var x []string
		for _, t := range l {
			x = append(x, fmt.Sprintf("%q..%q#%d-%d", t.StartKey, t.EndKey, t.StartSeqNum, t.EndSeqNum))
		}
		s = append(s, fmt.Sprintf("L%d%v", i, x))
	}
	return fmt.Sprint(s)
}

// what the level list contains and whether its layout is valid
func (c *cst) check(when string) {
	for _, k := range slices.Sorted(maps.Keys(c.keys)) {
		w := c.m[k]
		got, err := c.ll.Get([]byte(k))
		switch {
		case w == nil || w.del:
			if !(errors.Is(err, kv.ErrNotFound) || err == nil && got.IsDelete()) {
				c.r.Fail("compaction", "%s: Get(%q) = %s, %v; the key is deleted or was never written; steps %v; layout %s", when, k, entStr(got), err, c.ops, c.layout())
			}
		case err != nil || !entSame(w, got):
			c.r.Fail("compaction", "%s: Get(%q) = %s, %v; newest entry is %v; steps %v; layout %s", when, k, entStr(got), err, w, c.ops, c.layout())
		}
	}
	for _, p := range [][]byte{nil, {'a'}, {'b', 0}, {0xff}, {'a', 'b'}} {
		var want, got []string
		for _, k := range slices.Sorted(maps.Keys(c.m)) {
			if !c.m[k].del && bytes.HasPrefix([]byte(k), p) {
				want = append(want, c.m[k].String())
			}
		}
		var err error
		for e := range c.ll.ScanPrefix(p, &err) {
			got = append(got, entStr(e))
		}
		if err != nil || !slices.Equal(got, want) {
			c.r.Fail("compaction", "%s: ScanPrefix(%q) = %v, %v; want %v; steps %v; layout %s", when, p, got, err, want, c.ops, c.layout())
		}
	}
	// layout
	above := map[string]uint64{} // lowest sequence number of a key in the levels above
	doc := c.ll.Document()
	for i := range doc {
		here := map[string]uint64{}
		tabs := slices.Collect(c.ll.At(i).AllTables())
		for j, t := range tabs {
			d := doc[i][j]
			var err error
			n := 0
			for e := range t.ScanPrefix(nil, &err) {
				n++
				k := string(e.Key())
				if a, ok := above[k]; ok && a < e.SeqNum() {
					c.r.Fail("compaction-layout", "%s: key %q has sequence number %d in L%d beneath %d above it; steps %v; layout %s", when, k, e.SeqNum(), i, a, c.ops, c.layout())
				}
				if x, ok := here[k]; !ok || e.SeqNum() < x {
					here[k] = e.SeqNum()
				}
			}
			if err != nil {
				c.r.Fail("compaction", "%s: table unreadable: %v", when, err)
			}
			if i > 0 && n == 0 {
				c.r.Fail("compaction-layout", "%s: empty table in L%d; steps %v", when, i, c.ops)
			}
			if i > 0 && j > 0 && string(doc[i][j-1].EndKey) >= string(d.StartKey) {
				c.r.Fail("compaction-layout", "%s: L%d tables not sorted and disjoint; steps %v; layout %s", when, i, c.ops, c.layout())
			}
		}
		for k, s := range here {
			if x, ok := above[k]; !ok || s < x {
				above[k] = s
			}
		}
	}
}
func (c *cst) run(rng *rand.Rand, n int) []*hent {
	m := map[string]*hent{}
	for range n {
		c.seq++
		e := &hent{k: hkey(rng, 2), seq: c.seq, del: rng.Intn(3) == 0}
		if !e.del {
			e.v = make([]byte, rng.Intn(12))
			rng.Read(e.v)
		}
		m[string(e.k)] = e
		c.keys[string(e.k)] = true
	}
	var es []*hent
	for _, k := range slices.Sorted(maps.Keys(m)) {
		es = append(es, m[k])
		c.m[k] = m[k]
	}
	return es
}

func compactHist(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		fs := storage.NewMemoryFilesystem()
		tw := sst.NewTableWriter(fs, 0)
		nlev := 2 + rng.Intn(5)
		c := &cst{r: r, ll: sst.NewEmptyLevelList(nlev), m: map[string]*hent{}, keys: map[string]bool{"nokey": true}, nlev: nlev}
		base := 32700 // a table is this big because of its filter
		if t, err := tw.Write(asKV(nil)); err == nil {
			base = int(t.Size())
		}
		cp := sst.Compactor{
			TableWriter:                 tw,
			L0RunNumCompactionTrigger:   1 + rng.Intn(4),
			MaxSizeAmplificationPercent: []int{0, 20, 50, 90, 150, 300, 1000, sst.SizeAmplificationMax}[rng.Intn(8)],
			SmallestLevelSize:           int64(rng.Intn(4) * base),
			LevelSizeMultiplier:         1 + rng.Intn(3),
			TargetTableSize:             int64(1 + rng.Intn(200)),
		}
		desc := fmt.Sprintf("levels %d, compactor l0 %d amp %d smallest %d target %d", nlev, cp.L0RunNumCompactionTrigger, cp.MaxSizeAmplificationPercent, cp.SmallestLevelSize, cp.TargetTableSize)
		n := 3 + r.Rng.Intn(12)
		r.Case("%s seed %d flushes %d", desc, seed, n)
		var keep []*sst.LevelList
		r.Within("compaction", hangLimit, func() {
			for i := 0; i < n && !r.Failed(); i++ {
				flush := func() *sst.ChangeSet {
					es := c.run(rng, 1+rng.Intn(8))
					t, err := tw.Write(asKV(es))
					if err != nil {
						r.Fail("compaction", "%v", err)
					}
					cs := &sst.ChangeSet{}
					cs.AddTables(0, t)
					c.ops = append(c.ops, fmt.Sprintf("flush %v", es))
					return cs
				}
				c.ll = c.ll.NewWithChangeSet(flush())
				keep = append(keep, c.ll)
				c.check("after flush")
				if rng.Intn(3) == 0 {
					continue
				}
				for st := 0; ; st++ {
					if st > 40 {
						r.Fail("compaction", "%s: no fixed point after 40 steps: %v", desc, c.ops)
						break
					}
					before := c.ll
					cs, err := cp.Compact(before)
					if err != nil {
						r.Fail("compaction", "Compact: %v; steps %v", err, c.ops)
						return
					}
					if cs == nil {
						break
					}
					conc := rng.Intn(3) == 0
					if conc { // a flush arrived while the step ran
						c.ll = c.ll.NewWithChangeSet(flush())
						c.ops = append(c.ops, "(while a compaction step ran)")
					}
					c.ll = c.ll.NewWithChangeSet(cs)
					keep = append(keep, c.ll)
					c.ops = append(c.ops, "compaction step")
					c.check(fmt.Sprintf("%s after compaction step", desc))
					if r.Failed() {
						return
					}
					if conc && rng.Intn(2) == 0 {
						break
					}
				}
			}
		})
		runtime.KeepAlive(keep)
	}
}

// layouts built level by level (every middle level populated), then compacted to a fixed point
func compactShape(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		fs := storage.NewMemoryFilesystem()
		tw := sst.NewTableWriter(fs, 0)
		nlev := 3 + rng.Intn(4)
		c := &cst{r: r, m: map[string]*hent{}, keys: map[string]bool{}, nlev: nlev}
		lv := make([][]*sst.Table, nlev)
		bad := false
		for l := nlev - 1; l >= 1; l-- {
			if rng.Intn(4) == 0 {
				continue
			}
			es := c.run(rng, 1+rng.Intn(14))
			ts, err := tw.WriteRun(asKV(es), uint64(20+rng.Intn(200)))
			if err != nil {
				bad = true
			}
			lv[l] = ts
			c.ops = append(c.ops, fmt.Sprintf("L%d %v", l, es))
		}
		for range rng.Intn(5) {
			es := c.run(rng, 1+rng.Intn(6))
			t, err := tw.Write(asKV(es))
			if err != nil {
				bad = true
			}
			lv[0] = append(lv[0], t)
			c.ops = append(c.ops, fmt.Sprintf("L0 %v", es))
		}
		if bad {
			r.Fail("compaction", "tables could not be written")
			return
		}
		c.ll = sst.NewLevelListOfTables(lv)
		base := 32700
		cp := sst.Compactor{TableWriter: tw, L0RunNumCompactionTrigger: rng.Intn(3),
			MaxSizeAmplificationPercent: []int{0, 30, 60, 120, 250, 600, sst.SizeAmplificationMax}[rng.Intn(7)],
			SmallestLevelSize:           int64(rng.Intn(4) * base), LevelSizeMultiplier: 2, TargetTableSize: int64(1 + rng.Intn(200))}
		r.Case("shape seed %d levels %d amp %d l0 %d: %v", seed, nlev, cp.MaxSizeAmplificationPercent, cp.L0RunNumCompactionTrigger, c.ops)
		var keep []*sst.LevelList
		r.Within("compaction", hangLimit, func() {
			c.check("as built")
			for st := 0; !r.Failed(); st++ {
				keep = append(keep, c.ll)
				cs, err := cp.Compact(c.ll)
				if err != nil {
					r.Fail("compaction", "Compact: %v; steps %v", err, c.ops)
					return
				}
				if cs == nil || st > 30 {
					break
				}
				c.ll = c.ll.NewWithChangeSet(cs)
				c.ops = append(c.ops, "compaction step")
				c.check(fmt.Sprintf("amp %d smallest %d target %d after compaction step", cp.MaxSizeAmplificationPercent, cp.SmallestLevelSize, cp.TargetTableSize))
			}
		})
		runtime.KeepAlive(keep)
	}
}

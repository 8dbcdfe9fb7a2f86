package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"testing"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/partitioning"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifRescale(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	assignments(r, r.Sub(8))
	rescale(r, r.Sub(1))
}

// every new range gets exactly the old ranges it shares key groups with, in whatever order they are listed
func assignments(r *hl.R, until time.Time) {
	for n := 0; time.Now().Before(until) && r.Left(); n++ {
		rng := r.Rng
		g := 1 + rng.Intn(30)
		if n%7 == 0 {
			g = 1 + rng.Intn(65535)
		}
		to := slices.Clone(partitioning.NewKeySpace(g, 1+rng.Intn(12)).KeyGroupRanges())
		from := slices.Clone(partitioning.NewKeySpace(g, 1+rng.Intn(12)).KeyGroupRanges())
		if n%2 == 1 {
			rng.Shuffle(len(from), func(i, j int) { from[i], from[j] = from[j], from[i] })
		}
		if n%5 == 0 {
			from = from[:rng.Intn(len(from)+1)]
		}
		r.Case("to %v from %v", to, from)
		r.Guard("assign", func() {
			got := partitioning.AssignRanges(to, from)
			if len(got) != len(to) {
				r.Fail("assign", "AssignRanges(%v, %v) has %d rows, want %d", to, from, len(got), len(to))
				return
			}
			for i, t := range to {
				for j, f := range from {
					both := max(t.Start, f.Start) < min(t.End, f.End)
					k := 0
					for _, x := range got[i] {
						if x == j {
							k++
						}
					}
					if both && k != 1 || !both && t.Start < t.End && f.Start < f.End && k != 0 {
						r.Fail("assign", "AssignRanges(%v, %v) gives %v the checkpoints %v: checkpoint %d (%v) appears %d times", to, from, t, got[i], j, f, k)
						return
					}
				}
				for _, x := range got[i] {
					if x < 0 || x >= len(from) {
						r.Fail("assign", "AssignRanges(%v, %v) gives %v the checkpoints %v", to, from, t, got[i])
						return
					}
				}
			}
		})
	}
}

// one operator's database, with the keys of its key groups
type part struct {
	*dbm
	rng partitioning.KeyGroupRange
	own *askAll
	cks map[uint64]*ckpt
}
type jobCkpt struct {
	id    uint64
	m     map[string]string
	hs    []recovery.CheckpointHandle
	rs    []partitioning.KeyGroupRange
	files []string
}

func keyGroup(k string) int { return int(k[0])<<8 | int(k[1]) }

// M operators write and checkpoint, N operators restore, over and over
func rescale(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		g := 1 + rng.Intn(12)
		if rng.Intn(6) == 0 {
			g = 250 + rng.Intn(20)
		}
		var fsAt func(string) storage.FileSystem
		var h *hfs
		tmp := ""
		if rng.Intn(5) == 0 {
			tmp, _ = os.MkdirTemp("", "c06")
			fsAt = func(d string) storage.FileSystem { return storage.NewLocalFilesystem(filepath.Join(tmp, d)) }
		} else {
			h = newHFS(seed)
			if rng.Intn(3) == 0 {
				h.delay = 200 * time.Microsecond
			}
			fsAt = func(d string) storage.FileSystem { return h.sub(d) }
		}
		o, desc := dbOpts(rng, fsAt("none"))
		switch rng.Intn(5) {
		case 0, 1:
			o.MemTableSize = uint64(1 + rng.Intn(60))
		case 2: // most of the state is in the logs only
			o.MemTableSize, o.MaxWALSize = 1<<20, 1<<20
		}
		ks := partitioning.NewKeySpace(g, 1)
		seen := map[string]bool{}
		var keys [][]byte
		for range 4 + rng.Intn(24) {
			t := hkey(rng, 4)
			kg := int(ks.KeyGroup(t))
			k := append([]byte{byte(kg >> 8), byte(kg), 0}, t...)
			if !seen[string(k)] {
				seen[string(k)] = true
				keys = append(keys, k)
			}
		}
		r.Case("rescale: %s, %d key groups, local %v, seed %d", desc, g, tmp != "", seed)
		r.Within("rescale", hangLimit, func() { rescaleOne(r, rng, o, fsAt, keys, g) })
		if tmp != "" {
			os.RemoveAll(tmp)
		}
	}
}
func rescaleOne(r *hl.R, rng *rand.Rand, o dkv.DBOptions, fsAt func(string) storage.FileSystem, keys [][]byte, g int) {
	var hist []string
	var parts []*part
	var old []*part // redeployed ones, which still exist for a while
	dirs := 0
	m := map[string]string{}
	var cks []*jobCkpt
	deploy := func(from *jobCkpt) bool {
		n := 1 + rng.Intn(5)
		ranges := partitioning.NewKeySpace(g, n).KeyGroupRanges()
		old = parts
		if rng.Intn(2) == 0 {
			old = nil
		}
		parts = nil
		var assigned [][]int
		what := "nothing"
		if from != nil {
			assigned = partitioning.AssignRanges(ranges, from.rs)
			what = fmt.Sprintf("checkpoint %d of ranges %v", from.id, from.rs)
			m = map[string]string{}
			for k, v := range from.m {
				m[k] = v
			}
		}
		hist = append(hist, fmt.Sprintf("deploy %v from %s", ranges, what))
		for i, kr := range ranges {
			p := &part{rng: kr, cks: map[uint64]*ckpt{}, own: &askAll{rng: rand.New(rand.NewSource(rng.Int63())), owns: func(k []byte) bool {
				return len(k) > 1 && kr.IncludesKeyGroup(partitioning.KeyGroup(keyGroup(string(k))))
			}}}
			oo := o
			dirs++
			oo.FileSystem = fsAt(fmt.Sprintf("op%d", dirs))
			oo.DataOwnership = p.own
			var hs []recovery.CheckpointHandle
			if from != nil {
				for _, j := range assigned[i] {
					hs = append(hs, from.hs[j])
				}
			}
			p.dbm = &dbm{r: r, m: map[string]string{}, key: "rescale", vmax: 12, ops: slices.Clone(hist)}
			for _, k := range keys {
				if p.own.OwnsKey(k) {
					p.keys = append(p.keys, k)
					if v, ok := m[string(k)]; ok {
						p.m[string(k)] = v
					}
				}
			}
			if err := hl.Try(func() { p.db = dkv.Open(oo, hs) }); err != nil {
				r.Fail("rescale", "operator %d with %v cannot open %d checkpoints: %v; history: %s", i, kr, len(hs), err, p.hist())
				return false
			}
			parts = append(parts, p)
		}
		for i, p := range parts {
			p.own.mu.Lock()
			for j, q := range parts {
				if i != j {
					p.own.others = append(p.own.others, q.db)
				}
			}
			p.own.mu.Unlock()
		}
		return true
	}
	check := func(when string) {
		for i, p := range parts {
			w := fmt.Sprintf("by operator %d (%v) %s", i, p.rng, when)
			for _, k := range p.keys {
				p.get(k, w)
			}
			for kg := p.rng.Start; kg < p.rng.End && kg < p.rng.Start+40; kg++ {
				p.scan([]byte{byte(kg >> 8), byte(kg)}, w)
			}
			if len(p.keys) > 0 {
				k := p.keys[rng.Intn(len(p.keys))]
				p.scan(k[:2+rng.Intn(len(k)-1)], w)
			}
		}
	}
	if !deploy(nil) {
		return
	}
	id := uint64(0)
	for round := 0; round < 6 && !r.Failed(); round++ {
		for range 1 + rng.Intn(3) {
			id++
			open := make([]*ckpt, len(parts))
			for _, i := range rng.Perm(len(parts)) {
				p := parts[i]
				if len(p.keys) > 0 {
					for range rng.Intn(25) {
						p.step()
					}
				}
				if rng.Intn(3) == 0 {
					p.wait()
				}
				open[i] = p.checkpoint(id)
				if len(p.keys) > 0 {
					for range rng.Intn(6) {
						p.step()
					}
				}
			}
			c := &jobCkpt{id: id, m: map[string]string{}}
			// acknowledged in any order
			for _, i := range rng.Perm(len(parts)) {
				if !open[i].finish(parts[i].dbm) {
					return
				}
				c.hs = append(c.hs, open[i].h)
				c.rs = append(c.rs, parts[i].rng)
				for k, v := range open[i].m {
					c.m[k] = v
				}
			}
			cks = append(cks, c)
			for i, p := range parts {
				hist = append(hist, fmt.Sprintf("operator %d:", i))
				hist = append(hist, p.ops[min(len(p.ops), p.mark(len(hist))):]...)
			}
			if len(hist) > 200 {
				hist = slices.Clone(hist[len(hist)-200:])
			}
			for range 1 + rng.Intn(2) {
				keep := []uint64{id}
				if len(cks) > 1 && rng.Intn(2) == 0 {
					keep = append(keep, cks[len(cks)-2].id)
				} else {
					cks = cks[len(cks)-1:]
				}
				for _, i := range rng.Perm(len(parts)) {
					if err := parts[i].db.UpdateRetainedCheckpoints(keep); err != nil {
						r.Fail("rescale", "retention update of operator %d to %v: %v; history: %s", i, keep, err, parts[i].hist())
						return
					}
				}
			}
			if len(cks) > 2 {
				cks = cks[len(cks)-2:]
			}
			if rng.Intn(2) == 0 {
				check("after checkpoint " + fmt.Sprint(id))
			}
		}
		if !deploy(cks[rng.Intn(len(cks))]) {
			return
		}
		check("right after the restore")
		if rng.Intn(2) == 0 {
			gc()
			check("after garbage collection")
		}
		for _, p := range parts {
			if len(p.keys) > 0 {
				for range rng.Intn(20) {
					p.step()
					p.probeOwn()
				}
			}
		}
		check("after later updates")
		runtime.KeepAlive(old)
	}
	for _, p := range parts {
		p.wait()
		runtime.KeepAlive(p.db)
	}
	check("at the end")
}
func (p *part) mark(int) int { return max(0, len(p.ops)-12) }
func (p *part) probeOwn() {
	k := p.keys[p.r.Rng.Intn(len(p.keys))]
	if p.r.Rng.Intn(3) == 0 {
		p.scan(k[:2+p.r.Rng.Intn(len(k)-1)], "while updating")
		return
	}
	p.get(k, "while updating")
}

var _ = strings.Join

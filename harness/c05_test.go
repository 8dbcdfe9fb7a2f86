package zzverif

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
	"time"

	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/util/murmur"
	"reduction.dev/reduction/workers/operator"
	hl "reduction.dev/reduction/zzhlib"
)

// reference MurmurHash3 x86_32, from the published algorithm
func refMurmur(data []byte, seed uint32) uint32 {
	rot := func(x uint32, r uint) uint32 { return x<<r | x>>(32-r) }
	h := seed
	n := len(data) / 4
	for i := 0; i < n; i++ {
		k := binary.LittleEndian.Uint32(data[4*i:])
		k *= 0xcc9e2d51
		k = rot(k, 15)
		k *= 0x1b873593
		h ^= k
		h = rot(h, 13)
		h = h*5 + 0xe6546b64
	}
	var k uint32
	for i := len(data) - 1; i >= 4*n; i-- {
		k = k<<8 | uint32(data[i])
	}
	k *= 0xcc9e2d51
	k = rot(k, 15)
	k *= 0x1b873593
	h ^= k
	h ^= uint32(len(data))
	h ^= h >> 16
	h *= 0x85ebca6b
	h ^= h >> 13
	h *= 0xc2b2ae35
	h ^= h >> 16
	return h
}

func TestVerifKeySpace(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	key := func() []byte {
		b := make([]byte, r.Rng.Intn(40))
		r.Rng.Read(b)
		if r.Rng.Intn(4) == 0 {
			for i := range b {
				b[i] = byte(255 * r.Rng.Intn(2))
			}
		}
		return b
	}
	checkSpace := func(count, n int) {
		r.Case("keyspace count=%d operators=%d", count, n)
		r.Guard("keyspace", func() {
			ks := partitioning.NewKeySpace(count, n)
			rs := ks.KeyGroupRanges()
			if len(rs) != n {
				r.Fail("keyspace", "%d ranges", len(rs))
				return
			}
			at := 0
			for i, x := range rs {
				sz := x.End - x.Start
				if x.Start != at || sz < count/n || sz > (count+n-1)/n || x.Size() != sz {
					r.Fail("keyspace", "range %d is %v", i, x)
					return
				}
				at = x.End
			}
			if at != count {
				r.Fail("keyspace", "ranges end at %d", at)
			}
			for k := 0; k < 3; k++ {
				b := key()
				g := ks.KeyGroup(b)
				if want := refMurmur(b, 0) % uint32(count); uint32(g) != want {
					r.Fail("keygroup", "key %x: group %d, want %d", b, g, want)
				}
				i := ks.RangeIndex(b)
				if i < 0 || i >= n || !rs[i].IncludesKeyGroup(g) || int(g) < rs[i].Start || int(g) >= rs[i].End {
					r.Fail("route", "key %x (group %d) routed to %d", b, g, i)
				}
			}
		})
	}
	for count := 1; count <= 40; count++ {
		for n := 1; n <= 45; n++ {
			checkSpace(count, n)
		}
	}
	for _, count := range []int{255, 256, 257, 32767, 32768, 65534, 65535} {
		for _, n := range []int{1, 2, 3, 7, 100, 255, 256, 257, 32768, 65534, 65535, 65536, 65600} {
			checkSpace(count, n)
		}
	}
	until := r.Sub(4)
	for r.Left() && time.Now().Before(until) {
		checkSpace(1+r.Rng.Intn(65535), 1+r.Rng.Intn(300))
	}
	// every group of a large space is routed to the range that contains it: via keys
	for i := 0; i < 20000; i++ {
		b := key()
		for _, s := range []int{0, 1, 12345} {
			if murmur.Hash(b, s) != refMurmur(b, uint32(s)) {
				r.Case("murmur key=%x seed=%d", b, s)
				r.Fail("murmur", "got %d want %d", murmur.Hash(b, s), refMurmur(b, uint32(s)))
			}
		}
	}
	r.Case("murmur: 20000 random keys with 3 seeds")
	// range operations against the set definition, exhaustively
	for a := 0; a < 6; a++ {
		for b := a; b < 7; b++ {
			x := partitioning.KeyGroupRange{Start: a, End: b}
			for kg := 0; kg < 8; kg++ {
				if x.IncludesKeyGroup(partitioning.KeyGroup(kg)) != (a <= kg && kg < b) {
					r.Case("range %v group %d", x, kg)
					r.Fail("range", "IncludesKeyGroup")
				}
				if x.IndexOf(partitioning.KeyGroup(kg)) != kg-a {
					r.Fail("range", "IndexOf %v %d", x, kg)
				}
			}
			if gs := x.KeyGroups(); len(gs) != b-a {
				r.Fail("range", "KeyGroups %v", x)
			} else {
				for i, g := range gs {
					if int(g) != a+i {
						r.Fail("range", "KeyGroups %v", x)
					}
				}
			}
			for c := 0; c < 6; c++ {
				for d := c + 1; d < 7 && b > a; d++ {
					y := partitioning.KeyGroupRange{Start: c, End: d}
					r.Case("ranges %v %v", x, y)
					ov := max(a, c) < min(b, d)
					if x.Overlaps(y) != ov || x.Contains(y) != (a <= c && d <= b) {
						r.Fail("range", "Overlaps %v Contains %v", x.Overlaps(y), x.Contains(y))
					}
				}
			}
		}
	}
	for kg := 0; kg < 65536; kg++ {
		b := []byte{9, 9, 9}
		partitioning.KeyGroup(kg).PutBytes(b)
		if int(b[0])<<8|int(b[1]) != kg || b[2] != 9 || int(partitioning.KeyGroupFromBytes(b[:2])) != kg {
			r.Fail("kgbytes", "key group %d encodes as %v", kg, b)
			break
		}
	}
	// what an operator persists for a key is stored under the key's group, within the router's range
	until = r.Sub(2)
	for it := 0; it < 4 || r.Left() && time.Now().Before(until); it++ {
		count, n := 1+r.Rng.Intn(200), 1+r.Rng.Intn(9)
		if it%3 == 0 {
			count = 1 + r.Rng.Intn(65535)
		}
		r.Case("store count=%d operators=%d it=%d", count, n, it)
		r.Guard("store", func() {
			ks := partitioning.NewKeySpace(count, n)
			db := dkv.Open(dkv.DBOptions{FileSystem: storage.NewMemoryFilesystem()}, nil)
			st := operator.NewKeyedStateStore(db, ks)
			want := map[string][]byte{}
			var keys [][]byte
			for i := 0; i < 20; i++ {
				k := key()
				keys = append(keys, k)
				st.ApplyMutations(k, []*handlerpb.StateMutationNamespace{{Namespace: "ns", Mutations: []*handlerpb.StateMutation{{Mutation: &handlerpb.StateMutation_Put{Put: &handlerpb.PutMutation{Key: []byte(fmt.Sprint(i)), Value: k}}}}}})
			}
			_ = want
			var err error
			got := 0
			for e := range db.ScanPrefix(nil, &err) {
				got++
				g := binary.BigEndian.Uint16(e.Key())
				if uint32(g) != refMurmur(e.Value(), 0)%uint32(count) {
					r.Fail("store", "state of key %x stored under group %d", e.Value(), g)
				}
				own := ks.KeyGroupRanges()[ks.RangeIndex(e.Value())]
				if !own.IncludesKeyGroup(partitioning.KeyGroupFromBytes(e.Key()[:2])) {
					r.Fail("store", "state of key %x outside the router's range", e.Value())
				}
			}
			if got != len(keys) || err != nil {
				r.Fail("store", "%d entries stored for %d puts, err %v", got, len(keys), err)
			}
			// timers
			for i, rg := range ks.KeyGroupRanges() {
				if rg.Size() == 0 || rg.Size() > 400 {
					continue
				}
				db2 := dkv.Open(dkv.DBOptions{FileSystem: storage.NewMemoryFilesystem()}, nil)
				ts := operator.NewTimerStore(db2, ks, rg, 1<<20)
				m := 0
				for _, k := range keys {
					if ks.RangeIndex(k) == i {
						ts.Put(k, time.Unix(int64(m), 0))
						m++
					}
				}
				for e := range db2.ScanPrefix(nil, &err) {
					g := binary.BigEndian.Uint16(e.Key())
					ok := false
					for _, k := range keys {
						if bytes.HasSuffix(e.Key(), k) && refMurmur(k, 0)%uint32(count) == uint32(g) {
							ok = true
						}
					}
					if !ok || !rg.IncludesKeyGroup(partitioning.KeyGroup(g)) {
						r.Fail("store", "timer entry %x stored under group %d", e.Key(), g)
					}
				}
			}
		})
		if r.Failed() {
			break
		}
	}
}

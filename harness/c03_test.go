package zzverif

import (
	"bytes"
	"fmt"
	"maps"
	"math/rand"
	"slices"
	"strings"
	"testing"
	"time"

	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/workers/operator"
	hl "reduction.dev/reduction/zzhlib"
)

func TestVerifKeyedState(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	keyedState(r, r.Sub(1))
}

// namespace -> entry key -> value
type kstate map[string]map[string]string

func (s kstate) str() string {
	var b strings.Builder
	for _, ns := range slices.Sorted(maps.Keys(s)) {
		if len(s[ns]) == 0 {
			continue
		}
		fmt.Fprintf(&b, "[%s:", short(ns))
		for _, k := range slices.Sorted(maps.Keys(s[ns])) {
			fmt.Fprintf(&b, " %s=%x", short(k), s[ns][k])
		}
		b.WriteString("]")
	}
	return b.String()
}
func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q..(%d bytes)..%q", s[:6], len(s), s[len(s)-6:])
	}
	return fmt.Sprintf("%q", s)
}

// what GetState returned, as a map; an entry listed twice or a namespace listed twice is reported
func asState(nss []*handlerpb.StateEntryNamespace) (kstate, string) {
	s := kstate{}
	for _, n := range nss {
		if _, ok := s[n.Namespace]; ok {
			return nil, fmt.Sprintf("namespace %s appears twice", short(n.Namespace))
		}
		s[n.Namespace] = map[string]string{}
		for _, e := range n.Entries {
			if _, ok := s[n.Namespace][string(e.Key)]; ok {
				return nil, fmt.Sprintf("entry %s of namespace %s appears twice", short(string(e.Key)), short(n.Namespace))
			}
			s[n.Namespace][string(e.Key)] = string(e.Value)
		}
	}
	return s, ""
}
func (s kstate) apply(ns, k string, v []byte, del bool) {
	if s[ns] == nil {
		s[ns] = map[string]string{}
	}
	if del {
		delete(s[ns], k)
	} else {
		s[ns][k] = string(v)
	}
}

// subject keys, namespaces and entry keys made so that one key's encoding can be mistaken for another's
func stateKeys(rng *rand.Rand) (subj [][]byte, nss []string, ents [][]byte) {
	add := func(l *[][]byte, k []byte) {
		for _, x := range *l {
			if bytes.Equal(x, k) {
				return
			}
		}
		*l = append(*l, k)
	}
	for range 2 + rng.Intn(5) {
		add(&subj, hkey(rng, 4))
	}
	for i := range 1 + rng.Intn(3) {
		k := slices.Clone(subj[rng.Intn(len(subj))])
		switch i {
		case 0:
			k = append(k, byte(rng.Intn(3)))
		case 1:
			k = append([]byte{0, 0, 0, byte(len(k))}, k...)
		default:
			k = append(k, 1, 'a')
		}
		add(&subj, k)
	}
	nsm := map[string]bool{}
	for range 1 + rng.Intn(4) {
		switch rng.Intn(6) {
		case 0:
			nsm[""] = true
		case 1:
			nsm[strings.Repeat("n", []int{250, 254, 255, 256, 257, 300, 511, 512}[rng.Intn(8)])] = true
		default:
			nsm[string(hkey(rng, 3))] = true
		}
	}
	for range 2 + rng.Intn(6) {
		switch rng.Intn(8) {
		case 0:
			add(&ents, bytes.Repeat([]byte{byte('n')}, 1+rng.Intn(300)))
		default:
			add(&ents, hkey(rng, 3))
		}
	}
	return subj, slices.Sorted(maps.Keys(nsm)), ents
}

func keyedState(r *hl.R, until time.Time) {
	for time.Now().Before(until) && r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		h := newHFS(seed)
		o, desc := dbOpts(rng, h)
		if rng.Intn(3) == 0 {
			o.MemTableSize = 1 << 20 // everything stays in memory until the checkpoint
		}
		g := []int{1, 2, 3, 8, 64}[rng.Intn(5)]
		r.Case("keyed state: %s, %d key groups, seed %d", desc, g, seed)
		r.Within("state", hangLimit, func() { keyedStateOne(r, rng, h, o, g) })
	}
}
func keyedStateOne(r *hl.R, rng *rand.Rand, h *hfs, o dkv.DBOptions, g int) {
	ks := partitioning.NewKeySpace(g, 1)
	subj, nss, ents := stateKeys(rng)
	var hist []string
	want := make([]kstate, len(subj))
	for i := range want {
		want[i] = kstate{}
	}
	dir := 0
	openDB := func(from []recovery.CheckpointHandle) (*dkv.DB, *operator.KeyedStateStore, *operator.TimerRegistry) {
		dir++
		oo := o
		oo.FileSystem = h.sub(fmt.Sprintf("d%d", dir))
		db := dkv.Open(oo, from)
		ts := operator.NewTimerStore(db, ks, partitioning.KeyGroupRange{Start: 0, End: g}, uint64(rng.Intn(2000)))
		return db, operator.NewKeyedStateStore(db, ks), operator.NewTimerRegistry(ts, []string{"s"})
	}
	db, st, tr := openDB(nil)
	hh := func() string {
		if len(hist) > 50 {
			return fmt.Sprintf("(%d earlier) ", len(hist)-50) + strings.Join(hist[len(hist)-50:], "; ")
		}
		return strings.Join(hist, "; ")
	}
	check := func(i int, when string) {
		nsl, err := st.GetState(slices.Clone(subj[i]))
		if err != nil {
			r.Fail("state", "GetState(%q) %s: %v; history: %s", subj[i], when, err, hh())
			return
		}
		got, bad := asState(nsl)
		if bad != "" || got.str() != want[i].str() {
			r.Fail("state", "GetState(%q) %s = %s %s, want %s; history: %s", subj[i], when, got.str(), bad, want[i].str(), hh())
		}
	}
	steps := 20 + rng.Intn(150)
	for s := 0; s < steps && !r.Failed(); s++ {
		i := rng.Intn(len(subj))
		switch rng.Intn(12) {
		case 0: // a timer of the same key, in the same database
			tr.SetTimer(subj[i], time.Unix(int64(1+rng.Intn(100)), 0))
		case 1:
			if err := db.WaitOnTasks(); err != nil {
				r.Fail("state", "background task: %v; history: %s", err, hh())
			}
			hist = append(hist, "wait")
		case 2:
			if rng.Intn(4) > 0 {
				break
			}
			hist = append(hist, "checkpoint+restore")
			hd, err := db.Checkpoint(uint64(s + 1))()
			if err != nil {
				r.Fail("state", "checkpoint: %v; history: %s", err, hh())
				return
			}
			// writes after the checkpoint belong to a history that is abandoned
			for range rng.Intn(3) {
				j := rng.Intn(len(subj))
				st.ApplyMutations(subj[j], []*handlerpb.StateMutationNamespace{{Namespace: nss[0], Mutations: []*handlerpb.StateMutation{putMut(ents[0], []byte("abandoned"))}}})
			}
			db.WaitOnTasks()
			db, st, tr = openDB([]recovery.CheckpointHandle{hd})
			for j := range subj {
				check(j, "after restoring the checkpoint")
			}
		case 3, 4, 5:
			check(i, "")
		default:
			var ml []*handlerpb.StateMutationNamespace
			for range 1 + rng.Intn(3) {
				ns := nss[rng.Intn(len(nss))]
				m := &handlerpb.StateMutationNamespace{Namespace: ns}
				for range rng.Intn(4) {
					e := ents[rng.Intn(len(ents))]
					if rng.Intn(3) == 0 {
						m.Mutations = append(m.Mutations, &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Delete{Delete: &handlerpb.DeleteMutation{Key: slices.Clone(e)}}})
						want[i].apply(ns, string(e), nil, true)
						hist = append(hist, fmt.Sprintf("%q del %s/%s", subj[i], short(ns), short(string(e))))
					} else {
						v := make([]byte, rng.Intn(6))
						rng.Read(v)
						m.Mutations = append(m.Mutations, putMut(e, v))
						want[i].apply(ns, string(e), v, false)
						hist = append(hist, fmt.Sprintf("%q put %s/%s=%x", subj[i], short(ns), short(string(e)), v))
					}
				}
				ml = append(ml, m)
			}
			if err := st.ApplyMutations(slices.Clone(subj[i]), ml); err != nil {
				r.Fail("state", "ApplyMutations(%q): %v; history: %s", subj[i], err, hh())
			}
			if rng.Intn(2) == 0 {
				check(i, "after its mutations")
			}
		}
	}
	for i := range subj {
		check(i, "at the end")
	}
	db.WaitOnTasks()
	for i := range subj {
		check(i, "at the end, tasks done")
	}
}
func putMut(k, v []byte) *handlerpb.StateMutation {
	return &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Put{Put: &handlerpb.PutMutation{Key: slices.Clone(k), Value: slices.Clone(v)}}}
}

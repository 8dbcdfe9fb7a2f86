// Package zzyield delays goroutines of the code under test between its statements. The calls of At are laid over the tree
// mechanically, in front of every statement of the chosen packages (gvc -yield); they change nothing but the schedule.
package zzyield

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync/atomic"
	"time"
)

const maxSites = 1 << 14

var (
	mode   atomic.Int32 // 0 off, 1 noise, 2 targets
	every  atomic.Uint32
	ctr    atomic.Uint32
	hit    [maxSites]atomic.Bool
	target [3]atomic.Int32
	left   atomic.Int32
	hold   atomic.Int64
)

// At stands in front of a statement.
func At(site int32) {
	m := mode.Load()
	if m == 0 {
		return
	}
	if !hit[site&(maxSites-1)].Load() {
		hit[site&(maxSites-1)].Store(true)
	}
	if m == 1 {
		x := ctr.Add(1)
		x ^= x << 13
		x *= 2654435761
		x ^= x >> 15
		if x%every.Load() == 0 {
			time.Sleep(time.Duration(x>>8%200) * time.Microsecond)
		} else if x%16 == 0 {
			runtime.Gosched()
		}
		return
	}
	if m == 2 && (target[0].Load() == site || target[1].Load() == site || target[2].Load() == site) && left.Add(-1) > 0 {
		time.Sleep(time.Duration(hold.Load()))
	}
}

// Plan chooses the delays of the next case: none, a little everywhere, or long ones at up to three statements which ran before.
func Plan(rng *rand.Rand) string {
	switch k := rng.Intn(8); {
	case k < 3:
		mode.Store(0)
		return "no delays"
	case k < 4:
		n := []uint32{50, 300, 1000}[rng.Intn(3)]
		every.Store(n)
		mode.Store(1)
		return fmt.Sprintf("a delay in front of every %dth statement", n)
	}
	return Targets(rng, time.Duration(1+rng.Intn(2500))*time.Microsecond, 12)
}

// Targets delays up to three statements, n times altogether.
func Targets(rng *rand.Rand, d time.Duration, n int) string {
	mode.Store(0)
	var files [][]int32 // the sites of a file which ran before
	for i := 0; i < len(hit); i += 512 {
		var sites []int32
		for j := range 512 {
			if hit[i+j].Load() {
				sites = append(sites, int32(i+j))
			}
		}
		if len(sites) > 0 {
			files = append(files, sites)
		}
	}
	if len(files) == 0 {
		every.Store(200)
		mode.Store(1)
		return "a delay in front of every 200th statement"
	}
	s := ""
	for i := range target {
		target[i].Store(-1)
		if i == 0 || rng.Intn(2) == 0 {
			f := files[0]
			if rng.Intn(2) == 0 {
				f = files[rng.Intn(len(files))]
			}
			x := f[rng.Intn(len(f))]
			target[i].Store(x)
			s += fmt.Sprint(" ", x)
		}
	}
	left.Store(int32(n))
	hold.Store(int64(d))
	mode.Store(2)
	return fmt.Sprintf("delays of %v at the statements%s", d, s)
}

// Off ends the delays.
func Off() { mode.Store(0) }

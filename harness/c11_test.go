package zzverif

import (
	"math/rand"
	"reflect"
	"testing"
	"time"
	"unsafe"

	"reduction.dev/reduction/workers/wmark"
	hl "reduction.dev/reduction/zzhlib"
)

// TestVerifWatermarker: the watermark never decreases, stays below the largest timestamp and follows it
// at the distance of the allowed lateness.
func TestVerifWatermarker(t *testing.T) {
	r := hl.Start(t)
	defer r.Done()
	for r.Left() {
		seed := r.Rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		w := &wmark.Watermarker{}
		late := time.Duration(0)
		if v := reflect.ValueOf(w).Elem(); rng.Intn(3) > 0 {
			for i := range v.NumField() {
				if v.Field(i).Type() == reflect.TypeFor[time.Duration]() && late == 0 {
					late = time.Duration(rng.Int63n([]int64{2, 2000, 1e9, 1e13}[rng.Intn(4)]))
					*(*time.Duration)(unsafe.Pointer(v.Field(i).UnsafeAddr())) = late
				}
			}
		}
		r.Case("watermarks with lateness %v seed %d", late, seed)
		r.Guard("wmark", func() {
			var hist []int64
			var high, prev time.Time
			unit := []int64{1, 1000, 1e9, 1e15}[rng.Intn(4)]
			for i := range 40 {
				if rng.Intn(3) > 0 {
					x := time.Unix(0, (rng.Int63n(200)-50)*unit)
					hist = append(hist, x.UnixNano())
					w.AdvanceTime(x)
					if len(hist) == 1 || x.After(high) {
						high = x
					}
				}
				if len(hist) == 0 {
					continue
				}
				m := w.CurrentWatermark()
				if !m.Before(high) {
					r.Fail("wmark", "the watermark is %d ns after timestamps %v (lateness %v)", m.UnixNano(), hist, late)
					return
				}
				if d := high.Sub(m); d > late+time.Second {
					r.Fail("wmark", "the watermark %d ns lags %v behind after timestamps %v (lateness %v)", m.UnixNano(), d, hist, late)
					return
				}
				if i > 0 && m.Before(prev) && !prev.IsZero() {
					r.Fail("wmark", "the watermark falls from %d to %d ns after timestamps %v", prev.UnixNano(), m.UnixNano(), hist)
					return
				}
				prev = m
			}
		})
		if r.Rng.Intn(4) == 0 {
			time.Sleep(100 * time.Microsecond)
		}
	}
}

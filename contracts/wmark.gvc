package workers/wmark

props C11

// the watermark stays below the largest timestamp forwarded so far, by exactly the allowed lateness
// and one nanosecond, and never decreases: maxTimestamp only grows, the lateness never changes
func (*Watermarker).AdvanceTime(w, t)
	modifies w.maxTimestamp
	ensures w.maxTimestamp == max(old(w.maxTimestamp), t)
	ensures w.allowedLateness == old(w.allowedLateness)

func (*Watermarker).CurrentWatermark(w) (r)
	ensures r == w.maxTimestamp - w.allowedLateness - 1
	ensures w.allowedLateness >= 0 ==> r < w.maxTimestamp

// two watermarks with any number of events in between: the later one is not smaller
lemma watermarkMonotone: forall m: int, n: int, l: int :: m <= n ==> m - l - 1 <= n - l - 1

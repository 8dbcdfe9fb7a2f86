package partitioning

props C05 C01 C06

// A table of ranges is contiguous, covers [0, count) and its sizes differ by at most one.
define rangesOK(R, n, count) =
	len(R) == n && R[0].Start == 0 && R[n-1].End == count
	&& (forall i: int :: 0 <= i < n - 1 ==> R[i].End == R[i+1].Start)
	&& (forall i: int :: 0 <= i < n ==> count / n <= R[i].End - R[i].Start <= count / n + 1)
	&& (forall i: int :: 0 <= i < n ==> 0 <= R[i].Start <= R[i].End <= count)

define lookupOK(L, R, n, count) =
	len(L) == count && (forall g: int {L[g]} :: 0 <= g < count ==> 0 <= L[g] < n && R[L[g]].Start <= g < R[L[g]].End)

define spaceOK(ks) =
	ks.keyGroupCount >= 1 && ks.keyGroupCount <= 65535 && ks.rangeCount >= 1
	&& rangesOK(ks.keyGroupRanges, ks.rangeCount, ks.keyGroupCount)
	&& lookupOK(ks.rangeLookup, ks.keyGroupRanges, ks.rangeCount, ks.keyGroupCount)

func NewKeySpace(count, n) (ks)
	requires 1 <= count <= 65535
	requires 1 <= n < 4294967296
	ensures ks != nil && ks.keyGroupCount == count && ks.rangeCount == n
	ensures rangesOK(ks.keyGroupRanges, n, count)
	ensures lookupOK(ks.rangeLookup, ks.keyGroupRanges, n, count)
	ensures spaceOK(ks)
	invariant kgIndex == _k * minKGInRange + min(_k, biggerRangeCount)
	invariant forall i: int {ranges[i]} :: 0 <= i < _k ==> ranges[i].Start == i * minKGInRange + min(i, biggerRangeCount) && ranges[i].End == (i+1) * minKGInRange + min(i+1, biggerRangeCount)
	invariant forall g: int {rangeLookup[g]} :: 0 <= g < (_k == 0 ? 0 : kgRanges[_k-1].End) ==> 0 <= rangeLookup[g] < _k && kgRanges[rangeLookup[g]].Start <= g < kgRanges[rangeLookup[g]].End
	invariant r.Start <= j <= r.End
	invariant forall g: int {rangeLookup[g]} :: 0 <= g < j ==> 0 <= rangeLookup[g] <= i && kgRanges[rangeLookup[g]].Start <= g < kgRanges[rangeLookup[g]].End

func (*KeySpace).KeyGroup(s, key) (kg)
	props C05 C03 C10
	requires spaceOK(s)
	ensures kg == mmhash(view(key), 0) % s.keyGroupCount
	ensures 0 <= kg < s.keyGroupCount

func (*KeySpace).RangeIndex(s, key) (i)
	requires spaceOK(s)
	ensures 0 <= i < s.rangeCount
	ensures s.keyGroupRanges[i].Start <= mmhash(view(key), 0) % s.keyGroupCount < s.keyGroupRanges[i].End

func (*KeySpace).KeyGroupRanges(s) (r)
	ensures r == s.keyGroupRanges

func (KeyGroupRange).IncludesKeyGroup(r, kg) (b)
	props C05 C06
	ensures b <==> r.Start <= kg < r.End

func (KeyGroupRange).Overlaps(r, other) (b)
	props C05 C06 C09
	ensures b <==> r.Start < other.End && other.Start < r.End
	// exactly when some key group lies in both ranges (for non-empty ranges)
	ensures r.Start < r.End && other.Start < other.End ==> (b <==> max(r.Start, other.Start) < min(r.End, other.End))

func (KeyGroupRange).Contains(r, other) (b)
	props C05 C09
	ensures b && r.Start <= r.End && other.Start < other.End ==> (forall g: int :: other.Start <= g < other.End ==> r.Start <= g < r.End)
	ensures other.Start < other.End && !b ==> !(r.Start <= other.Start && other.End <= r.End)

func (KeyGroupRange).Size(r) (n)
	ensures n == r.End - r.Start

func (KeyGroupRange).KeyGroups(r) (gs)
	requires 0 <= r.Start <= r.End <= 65536
	ensures len(gs) == r.End - r.Start
	ensures forall i: int {gs[i]} :: 0 <= i < len(gs) ==> gs[i] == r.Start + i
	invariant forall j: int {keyGroups[j]} :: 0 <= j < _k ==> keyGroups[j] == r.Start + j

func (KeyGroupRange).IndexOf(r, kg) (i)
	ensures i == kg - r.Start

func (KeyGroup).PutBytes(kg, b)
	props C05 C03 C10
	requires len(b) >= 2
	modifies elems(b)
	ensures b[0] == kg / 256 && b[1] == kg % 256
	ensures forall i: int {b[i]} :: 2 <= i < len(b) ==> b[i] == old(b[i])

func KeyGroupFromBytes(b) (kg)
	props C05 C06 C10
	requires len(b) == 2
	ensures kg == b[0] * 256 + b[1]

func KeyGroupRangeFromBytes(start, end) (r)
	props C05 C09
	requires len(start) == 2 && len(end) == 2
	ensures r.Start == start[0] * 256 + start[1]
	ensures r.End == end[0] * 256 + end[1] + 1

// every old range is handed to exactly the new ranges it shares key groups with, in whatever order they are listed
define ov(r, o) = r.Start < o.End && o.Start < r.End
func AssignRanges(to, from) (a)
	props C06
	ensures len(a) == len(to)
	ensures forall i: int, x: int {count(a[i], x)} :: 0 <= i < len(to) ==> count(a[i], x) == (0 <= x && x < len(from) && ov(to[i], from[x]) ? 1 : 0)
	invariant[1] forall i: int, x: int {count(assignments[i], x)} :: 0 <= i < _k ==> count(assignments[i], x) == (0 <= x && x < len(from) && ov(to[i], from[x]) ? 1 : 0)
	invariant[1] forall i: int {assignments[i]} :: _k <= i < len(to) ==> len(assignments[i]) == 0
	invariant[1] len(assignments) == len(to) && fresh(base(assignments))
	invariant[1] forall i: int {assignments[i]} :: 0 <= i < len(to) ==> allocated(base(assignments[i])) && base(assignments[i]) != base(assignments)
	invariant[2] forall i: int {assignments[i]} :: 0 <= i < len(to) ==> allocated(base(assignments[i])) && base(assignments[i]) != base(assignments)
	invariant[2] forall i: int, x: int {count(assignments[i], x)} :: 0 <= i < _k_outer ==> count(assignments[i], x) == (0 <= x && x < len(from) && ov(to[i], from[x]) ? 1 : 0)
	invariant[2] forall i: int {assignments[i]} :: _k_outer < i < len(to) ==> len(assignments[i]) == 0
	invariant[2] forall x: int {count(assignments[toIdx], x)} :: count(assignments[toIdx], x) == (0 <= x && x < _k && ov(to[toIdx], from[x]) ? 1 : 0)

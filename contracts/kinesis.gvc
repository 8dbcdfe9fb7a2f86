package connectors/kinesis

props C16

// known and finished shards by ID; the set of assigned IDs
define shardMap(sm) = mapOK(sm) && (forall x: string {has(sm.m, x)} :: has(sm.m, x) ==> sm.m[x].ShardID == x)
define trackOK(st) = shardMap(st.knownSplits) && shardMap(st.finishedSplits) && st.knownSplits != st.finishedSplits && st.knownSplits.m != st.finishedSplits.m && st.assignedSplits != nil && (base(st.knownSplits.list) != base(st.finishedSplits.list) || isnil(st.knownSplits.list) && isnil(st.finishedSplits.list))

func NewSplitTracker() (st)
	ensures fresh(st) && trackOK(st)
	ensures forall x: string {has(st.knownSplits.m, x)} :: !has(st.knownSplits.m, x)
	ensures forall x: string {has(st.finishedSplits.m, x)} :: !has(st.finishedSplits.m, x)
	ensures forall x: string {has(st.assignedSplits, x)} :: !has(st.assignedSplits, x)

func (*SplitTracker).AddSplits(st, shards)
	requires trackOK(st)
	modifies st.knownSplits.list, st.knownSplits.isSorted, map(st.knownSplits.m)
	ensures trackOK(st)
	ensures forall i: int {shards[i]} :: 0 <= i < len(shards) ==> has(st.knownSplits.m, shards[i].ShardID)
	ensures forall x: string {has(st.knownSplits.m, x)} :: old(has(st.knownSplits.m, x)) ==> has(st.knownSplits.m, x)
	ensures forall x: string {has(st.knownSplits.m, x)} :: has(st.knownSplits.m, x) && !old(has(st.knownSplits.m, x)) ==> (exists i: int {shards[i]} :: 0 <= i < len(shards) && shards[i].ShardID == x)
	invariant trackOK(st)
	invariant forall i: int {shards[i]} :: 0 <= i < _k ==> has(st.knownSplits.m, shards[i].ShardID)
	invariant forall x: string {has(st.knownSplits.m, x)} :: old(has(st.knownSplits.m, x)) ==> has(st.knownSplits.m, x)
	invariant forall x: string {has(st.knownSplits.m, x)} :: has(st.knownSplits.m, x) && !old(has(st.knownSplits.m, x)) ==> (exists i: int {shards[i]} :: 0 <= i < _k && shards[i].ShardID == x)

// a restored tracker has nothing assigned; what was assigned before is handed out again
func (*SplitTracker).LoadSplits(st, shards, last)
	requires trackOK(st)
	modifies st.knownSplits.list, st.knownSplits.isSorted, map(st.knownSplits.m), st.LastAssignedSplitID
	ensures trackOK(st) && st.LastAssignedSplitID == last
	ensures forall i: int {shards[i]} :: 0 <= i < len(shards) ==> has(st.knownSplits.m, shards[i].ShardID)
	ensures forall x: string {has(st.knownSplits.m, x)} :: old(has(st.knownSplits.m, x)) ==> has(st.knownSplits.m, x)
	ensures forall x: string {has(st.knownSplits.m, x)} :: has(st.knownSplits.m, x) && !old(has(st.knownSplits.m, x)) ==> (exists i: int {shards[i]} :: 0 <= i < len(shards) && shards[i].ShardID == x)
	invariant trackOK(st)
	invariant forall i: int {shards[i]} :: 0 <= i < _k ==> has(st.knownSplits.m, shards[i].ShardID)
	invariant forall x: string {has(st.knownSplits.m, x)} :: old(has(st.knownSplits.m, x)) ==> has(st.knownSplits.m, x)
	invariant forall x: string {has(st.knownSplits.m, x)} :: has(st.knownSplits.m, x) && !old(has(st.knownSplits.m, x)) ==> (exists i: int {shards[i]} :: 0 <= i < _k && shards[i].ShardID == x)

func (*SplitTracker).TrackAssigned(st, shards)
	requires trackOK(st)
	modifies map(st.assignedSplits), st.LastAssignedSplitID
	ensures trackOK(st)
	ensures forall i: int {shards[i]} :: 0 <= i < len(shards) ==> has(st.assignedSplits, shards[i].ShardID) && shards[i].ShardID <= st.LastAssignedSplitID
	ensures old(st.LastAssignedSplitID) <= st.LastAssignedSplitID
	ensures forall x: string {has(st.assignedSplits, x)} :: old(has(st.assignedSplits, x)) ==> has(st.assignedSplits, x)
	ensures forall x: string {has(st.assignedSplits, x)} :: has(st.assignedSplits, x) && !old(has(st.assignedSplits, x)) ==> (exists i: int {shards[i]} :: 0 <= i < len(shards) && shards[i].ShardID == x)
	invariant forall i: int {shards[i]} :: 0 <= i < _k ==> has(st.assignedSplits, shards[i].ShardID) && shards[i].ShardID <= st.LastAssignedSplitID
	invariant old(st.LastAssignedSplitID) <= st.LastAssignedSplitID
	invariant forall x: string {has(st.assignedSplits, x)} :: old(has(st.assignedSplits, x)) ==> has(st.assignedSplits, x)
	invariant forall x: string {has(st.assignedSplits, x)} :: has(st.assignedSplits, x) && !old(has(st.assignedSplits, x)) ==> (exists i: int {shards[i]} :: 0 <= i < _k && shards[i].ShardID == x)

// finished shards are neither known nor assigned any more, but remembered
func (*SplitTracker).RemoveSplits(st, ids)
	requires trackOK(st)
	requires base(ids) != base(st.knownSplits.list) && base(ids) != base(st.finishedSplits.list) || isnil(ids)
	modifies st.knownSplits.list, st.knownSplits.isSorted, elems(st.knownSplits.list), map(st.knownSplits.m), map(st.assignedSplits), st.finishedSplits.list, st.finishedSplits.isSorted, map(st.finishedSplits.m)
	ensures trackOK(st)
	ensures forall x: string {has(st.knownSplits.m, x)} :: has(st.knownSplits.m, x) <==> old(has(st.knownSplits.m, x)) && count(ids, x) == 0
	ensures forall x: string {has(st.assignedSplits, x)} :: has(st.assignedSplits, x) <==> old(has(st.assignedSplits, x)) && count(ids, x) == 0
	ensures forall x: string {has(st.finishedSplits.m, x)} :: has(st.finishedSplits.m, x) <==> old(has(st.finishedSplits.m, x)) || old(has(st.knownSplits.m, x)) && count(ids, x) > 0
	invariant shardMap(st.knownSplits)
	invariant shardMap(st.finishedSplits)
	invariant base(st.knownSplits.list) != base(st.finishedSplits.list) || isnil(st.knownSplits.list) && isnil(st.finishedSplits.list)
	invariant base(st.knownSplits.list) == old(base(st.knownSplits.list))
	invariant st.finishedSplits.list == old(st.finishedSplits.list) || fresh(base(st.finishedSplits.list))
	invariant forall x: string {has(st.knownSplits.m, x)} :: has(st.knownSplits.m, x) <==> old(has(st.knownSplits.m, x)) && count(ids[0:_k], x) == 0
	invariant forall x: string {has(st.assignedSplits, x)} :: has(st.assignedSplits, x) <==> old(has(st.assignedSplits, x)) && count(ids[0:_k], x) == 0
	invariant forall x: string {has(st.finishedSplits.m, x)} :: has(st.finishedSplits.m, x) <==> old(has(st.finishedSplits.m, x)) || old(has(st.knownSplits.m, x)) && count(ids[0:_k], x) > 0

func (*SplitTracker).DropSplits(st, ids)
	requires trackOK(st)
	requires base(ids) != base(st.knownSplits.list) && base(ids) != base(st.finishedSplits.list) || isnil(ids)
	modifies st.knownSplits.list, st.knownSplits.isSorted, elems(st.knownSplits.list), map(st.knownSplits.m), st.LastAssignedSplitID
	ensures trackOK(st)
	ensures forall x: string {has(st.knownSplits.m, x)} :: has(st.knownSplits.m, x) <==> old(has(st.knownSplits.m, x)) && count(ids, x) == 0
	ensures forall i: int {ids[i]} :: 0 <= i < len(ids) ==> ids[i] <= st.LastAssignedSplitID
	ensures old(st.LastAssignedSplitID) <= st.LastAssignedSplitID
	invariant trackOK(st)
	invariant base(st.knownSplits.list) == old(base(st.knownSplits.list))
	invariant forall x: string {has(st.knownSplits.m, x)} :: has(st.knownSplits.m, x) <==> old(has(st.knownSplits.m, x)) && count(ids[0:_k], x) == 0
	invariant forall i: int {ids[i]} :: 0 <= i < _k ==> ids[i] <= st.LastAssignedSplitID
	invariant old(st.LastAssignedSplitID) <= st.LastAssignedSplitID

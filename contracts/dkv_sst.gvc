package dkv/sst

props C18 C07 C17 C03

// ---- key ranges (bytes in lexicographic order)
define prefixed(k, p) = len(k) >= len(p) && (forall i: int {k[i]} {p[i]} :: 0 <= i < len(p) ==> k[i] == p[i])

func (*Table).RangeContainsKey(t, key) (b)
	ensures b <==> !strlt(view(key), view(t.startKey)) && !strlt(view(t.endKey), view(key))

func (*Table).RangeKeyCompare(t, key) (c)
	ensures c > 0 <==> strlt(view(key), view(t.startKey))
	ensures c < 0 <==> !strlt(view(key), view(t.startKey)) && strlt(view(t.endKey), view(key))
	ensures c == 0 <==> !strlt(view(key), view(t.startKey)) && !strlt(view(t.endKey), view(key))

// no table with a key of the prefix is passed over
func (*Table).RangeContainsPrefix(t, prefix) (b)
	option strlex
	ensures forall k: str {strlt(k, view(t.startKey))} :: prefixed(k, view(prefix)) && !strlt(k, view(t.startKey)) && !strlt(view(t.endKey), k) ==> b

func (*Table).RangePrefixCompare(t, prefix) (c)
	option strlex
	ensures forall k: str {strlt(k, view(t.startKey))} :: prefixed(k, view(prefix)) && !strlt(k, view(t.startKey)) && !strlt(view(t.endKey), k) ==> c == 0
	ensures c > 0 ==> strlt(view(prefix), view(t.startKey))
	ensures c < 0 ==> strlt(view(t.endKey), view(prefix))

func (*Table).URI(t) (u)
	props C08 C09
	ensures u == fileuri(t.file)
func (*Table).Age(t) (n)
	ensures n == t.startSeqNum

// ---- entries read back from a table
func (*Entry).Key(e) (k)
	ensures k == e.key
func (*Entry).Value(e) (k)
	ensures k == e.value
func (*Entry).IsDelete(e) (k)
	ensures k <==> e.isDelete
func (*Entry).SeqNum(e) (k)
	ensures k == e.seqNum

// ---- search index: every 16th entry's offset, in writing order
define indexOK(si) = si.itemsWritten >= 0 && len(si.offsets) == (si.itemsWritten + 15) / 16
func (*SearchIndex).IndexOffset(si, offset)
	requires indexOK(si) && 0 <= offset < 4294967296
	modifies si.offsets, elems(si.offsets), si.itemsWritten
	ensures indexOK(si) && si.itemsWritten == old(si.itemsWritten) + 1
	ensures old(si.itemsWritten) % 16 == 0 ==> si.offsets[len(si.offsets) - 1] == offset
	ensures len(si.offsets) >= old(len(si.offsets)) && (forall i: int {si.offsets[i]} :: 0 <= i < old(len(si.offsets)) ==> si.offsets[i] == old(si.offsets[i]))

// ---- change sets
func (*ChangeSet).AddTables(cs, level, tables)
	modifies cs.additions, elems(cs.additions)
	ensures len(cs.additions) == old(len(cs.additions)) + len(tables)
	ensures forall i: int {cs.additions[i]} :: 0 <= i < old(len(cs.additions)) ==> cs.additions[i] == old(cs.additions[i])
	ensures forall i: int {tables[i]} :: 0 <= i < len(tables) ==> cs.additions[old(len(cs.additions)) + i].Table == tables[i] && cs.additions[old(len(cs.additions)) + i].LevelNum == level
	invariant len(cs.additions) == old(len(cs.additions)) + _k
	invariant forall i: int {cs.additions[i]} :: 0 <= i < old(len(cs.additions)) ==> cs.additions[i] == old(cs.additions[i])
	invariant forall i: int {tables[i]} :: 0 <= i < _k ==> cs.additions[old(len(cs.additions)) + i].Table == tables[i] && cs.additions[old(len(cs.additions)) + i].LevelNum == level
	invariant cs.additions == old(cs.additions) || fresh(base(cs.additions))
func (*ChangeSet).RemoveTables(cs, tables)
	modifies cs.removals, elems(cs.removals)
	ensures len(cs.removals) == old(len(cs.removals)) + len(tables)
	ensures forall i: int {cs.removals[i]} :: 0 <= i < old(len(cs.removals)) ==> cs.removals[i] == old(cs.removals[i])
	ensures forall i: int {tables[i]} :: 0 <= i < len(tables) ==> cs.removals[old(len(cs.removals)) + i] == tables[i]
func (*ChangeSet).IsEmpty(cs) (b)
	ensures b <==> len(cs.additions) == 0 && len(cs.removals) == 0

// ---- space amplification
func (SAR).WithCompactedBytes(r, n) (o)
	ensures o.CompactionEligibleSize == r.CompactionEligibleSize - n && o.BaseLevelSize == r.BaseLevelSize

// ---- levels and level lists are values: a change makes new ones, readers keep theirs
define tabSetOK(s) = s != nil && s.m != nil && allocated(s) && allocated(s.m) && allocated(s.l) && (forall x: *Table {count(s.l, x)} {has(s.m, x)} :: count(s.l, x) == (has(s.m, x) ? 1 : 0))
define llOK(ll) = ll != nil && (forall i: int {ll.levels[i]} :: 0 <= i < len(ll.levels) ==> tabSetOK(ll.levels[i].tables))
define levelIdx(ll, n) = n < 0 ? len(ll.levels) + n : n

func (Level).tablesAdded(l, tables) (o)
	props C18 C07 C08
	requires tabSetOK(l.tables)
	ensures tabSetOK(o.tables) && fresh(o.tables) && o.Num == l.Num
	ensures forall t: *Table {has(o.tables.m, t)} :: has(o.tables.m, t) <==> has(l.tables.m, t) || count(tables, t) > 0
	ensures len(o.tables.l) >= len(l.tables.l) && (forall i: int {o.tables.l[i]} :: 0 <= i < len(l.tables.l) ==> o.tables.l[i] == l.tables.l[i])
func (Level).tablesRemoved(l, tables) (o)
	props C18 C07 C08
	requires tabSetOK(l.tables)
	ensures tabSetOK(o.tables) && fresh(o.tables) && o.Num == l.Num
	ensures forall t: *Table {has(o.tables.m, t)} :: has(o.tables.m, t) <==> has(l.tables.m, t) && count(tables, t) == 0

func (*LevelList).AddTables(ll, n, tables)
	props C18 C07 C08
	requires llOK(ll) && 0 <= levelIdx(ll, n) < len(ll.levels)
	modifies elems(ll.levels)
	ensures llOK(ll)
	ensures forall t: *Table {has(ll.levels[levelIdx(ll, n)].tables.m, t)} :: has(ll.levels[levelIdx(ll, n)].tables.m, t) <==> old(has(ll.levels[levelIdx(ll, n)].tables.m, t)) || count(tables, t) > 0
	ensures forall i: int {ll.levels[i]} :: 0 <= i < len(ll.levels) && i != levelIdx(ll, n) ==> ll.levels[i] == old(ll.levels[i])
	ensures forall i: int {ll.levels[i]} :: 0 <= i < len(ll.levels) ==> ll.levels[i].Num == old(ll.levels[i].Num)
func (*LevelList).RemoveTables(ll, tables)
	props C18 C07 C08
	requires llOK(ll)
	modifies elems(ll.levels)
	ensures llOK(ll)
	ensures forall i: int, t: *Table {has(ll.levels[i].tables.m, t)} :: 0 <= i < len(ll.levels) ==> (has(ll.levels[i].tables.m, t) <==> old(has(ll.levels[i].tables.m, t)) && count(tables, t) == 0)
	ensures forall i: int {ll.levels[i]} :: 0 <= i < len(ll.levels) ==> ll.levels[i].Num == old(ll.levels[i].Num)
	invariant llOK(ll)
	invariant forall i: int, t: *Table {has(ll.levels[i].tables.m, t)} :: 0 <= i < _k ==> (has(ll.levels[i].tables.m, t) <==> old(has(ll.levels[i].tables.m, t)) && count(tables, t) == 0)
	invariant forall i: int {ll.levels[i]} :: _k <= i < len(ll.levels) ==> ll.levels[i] == old(ll.levels[i])
	invariant forall i: int {ll.levels[i]} :: 0 <= i < len(ll.levels) ==> ll.levels[i].Num == old(ll.levels[i].Num)

// the new list has what the old one had and what was added, without what was removed; it covers every
// sequence number which either of them covers. The old list stays as it is (nothing else is modified).
define addedAt(ll, cs, i, t, n) = exists j: int {cs.additions[j]} :: 0 <= j < n && cs.additions[j].Table == t && levelIdx(ll, cs.additions[j].LevelNum) == i
func (*LevelList).NewWithChangeSet(ll, cs) (o)
	props C18 C07 C08
	requires llOK(ll) && len(ll.levels) > 0
	requires forall j: int {cs.additions[j]} :: 0 <= j < len(cs.additions) ==> 0 <= levelIdx(ll, cs.additions[j].LevelNum) < len(ll.levels)
	ensures fresh(o) && llOK(o) && len(o.levels) == len(ll.levels)
	ensures forall i: int, t: *Table {has(o.levels[i].tables.m, t)} :: 0 <= i < len(o.levels) && has(o.levels[i].tables.m, t) ==> (has(ll.levels[i].tables.m, t) || addedAt(ll, cs, i, t, len(cs.additions))) && count(cs.removals, t) == 0
	ensures forall i: int, t: *Table {has(o.levels[i].tables.m, t)} {has(ll.levels[i].tables.m, t)} :: 0 <= i < len(o.levels) && has(ll.levels[i].tables.m, t) && count(cs.removals, t) == 0 ==> has(o.levels[i].tables.m, t)
	ensures forall j: int {cs.additions[j]} :: 0 <= j < len(cs.additions) && count(cs.removals, cs.additions[j].Table) == 0 ==> has(o.levels[levelIdx(ll, cs.additions[j].LevelNum)].tables.m, cs.additions[j].Table)
	ensures o.LatestSeqNum >= ll.LatestSeqNum
	ensures forall j: int {cs.additions[j]} :: 0 <= j < len(cs.additions) ==> o.LatestSeqNum >= cs.additions[j].Table.endSeqNum
	ensures forall i: int {o.levels[i]} :: 0 <= i < len(o.levels) ==> o.levels[i].Num == ll.levels[i].Num
	invariant llOK(nextLL) && fresh(nextLL) && len(nextLL.levels) == len(ll.levels) && fresh(base(nextLL.levels))
	invariant forall j: int {cs.additions[j]} :: 0 <= j < len(cs.additions) ==> 0 <= levelIdx(ll, cs.additions[j].LevelNum) < len(ll.levels)
	invariant cs.additions == old(cs.additions)
	invariant forall i: int, t: *Table {has(nextLL.levels[i].tables.m, t)} :: 0 <= i < len(nextLL.levels) && has(nextLL.levels[i].tables.m, t) ==> has(ll.levels[i].tables.m, t) || addedAt(ll, cs, i, t, _k)
	invariant forall i: int, t: *Table {has(nextLL.levels[i].tables.m, t)} {has(ll.levels[i].tables.m, t)} :: 0 <= i < len(nextLL.levels) && has(ll.levels[i].tables.m, t) ==> has(nextLL.levels[i].tables.m, t)
	invariant forall j: int {cs.additions[j]} :: 0 <= j < _k ==> has(nextLL.levels[levelIdx(ll, cs.additions[j].LevelNum)].tables.m, cs.additions[j].Table)
	invariant nextLL.LatestSeqNum >= ll.LatestSeqNum
	invariant forall j: int {cs.additions[j]} :: 0 <= j < _k ==> nextLL.LatestSeqNum >= cs.additions[j].Table.endSeqNum
	invariant forall i: int {nextLL.levels[i]} :: 0 <= i < len(nextLL.levels) ==> nextLL.levels[i].Num == ll.levels[i].Num

package dkv/recovery

props C08 C09 C06 C13 C14 C01

monitor CheckpointList.mu guards checkpoints,checkpointsPendingRemoval :: true

func (*CheckpointList).IsEmpty(cl) (b)
	ensures b <==> len(cl.checkpoints) == 0

// a checkpoint references exactly its tables
func (*Checkpoint).IncludesTable(cp, uri) (b)
	ensures b <==> has(cp.tableURIset, uri)
func (*CheckpointList).IncludesTable(cl, uri) (b)
	ensures !b ==> (forall i: int {cl.checkpoints[i]} :: 0 <= i < len(cl.checkpoints) ==> !has(cl.checkpoints[i].tableURIset, uri))
	ensures b ==> (exists i: int :: 0 <= i < len(cl.checkpoints) && has(cl.checkpoints[i].tableURIset, uri))
	invariant forall i: int {cl.checkpoints[i]} :: 0 <= i < _k ==> !has(cl.checkpoints[i].tableURIset, uri)

// a new checkpoint references every table of every level of its level list, under any number of them
define levelTables(ll, i) = ll.levels[i].tables.l
define hasURIs(m, ll, i, n) = forall j: int {ll.levels[i].tables.l[j]} :: 0 <= j < n ==> has(m, fileuri(ll.levels[i].tables.l[j].file))
func (*CheckpointList).Add(cl, id, ll, w, seq) (cp)
	modifies cl.checkpoints, elems(cl.checkpoints)
	ensures fresh(cp) && cp.ID == id && cp.Levels == ll && cp.LastSeqNum == seq
	ensures len(cp.WALs) == 1 && cp.WALs[0].ID == w.id && cp.WALs[0].After == ll.LatestSeqNum
	ensures len(cl.checkpoints) == old(len(cl.checkpoints)) + 1 && cl.checkpoints[old(len(cl.checkpoints))] == cp
	ensures forall i: int {cl.checkpoints[i]} :: 0 <= i < old(len(cl.checkpoints)) ==> cl.checkpoints[i] == old(cl.checkpoints[i])
	ensures forall i: int {ll.levels[i]} :: 0 <= i < len(ll.levels) && ll.levels[i].tables != nil ==> hasURIs(cp.tableURIset, ll, i, len(ll.levels[i].tables.l))
	invariant fresh(tableURISet) && tableURISet != nil
	invariant forall i: int {ll.levels[i]} :: 0 <= i < _k && ll.levels[i].tables != nil ==> hasURIs(tableURISet, ll, i, len(ll.levels[i].tables.l))
	invariant forall i: int {ll.levels[i]} :: 0 <= i < _k_outer && ll.levels[i].tables != nil ==> hasURIs(tableURISet, ll, i, len(ll.levels[i].tables.l))
	invariant _k_outer < len(ll.levels) && s == ll.levels[_k_outer].tables && hasURIs(tableURISet, ll, _k_outer, _k)

// the next WAL never reuses the file of an earlier one
func (*Checkpoint).NextWALID(cp) (n)
	ensures forall i: int {cp.WALs[i]} :: 0 <= i < len(cp.WALs) ==> cp.WALs[i].ID < n
	invariant forall i: int {cp.WALs[i]} :: 0 <= i < _k ==> cp.WALs[i].ID <= maxID

// no checkpoint is lost, and only superseded ones outside the retained set are put up for removal
func (*CheckpointList).RetainOnly(cl, ids)
	option maypanic
	modifies cl.checkpoints, cl.checkpointsPendingRemoval, elems(cl.checkpointsPendingRemoval), Checkpoint.walSaved
	ensures forall y: *Checkpoint {count(cl.checkpoints, y)} :: count(cl.checkpoints, y) + count(cl.checkpointsPendingRemoval, y) == old(count(cl.checkpoints, y)) + old(count(cl.checkpointsPendingRemoval, y))
	ensures len(cl.checkpointsPendingRemoval) >= old(len(cl.checkpointsPendingRemoval))
	ensures forall i: int {cl.checkpointsPendingRemoval[i]} :: old(len(cl.checkpointsPendingRemoval)) <= i < len(cl.checkpointsPendingRemoval) ==> count(ids, cl.checkpointsPendingRemoval[i].ID) == 0
	invariant[1] forall j: int {ids[j]} :: 0 <= j < _k ==> ids[j] <= newestID
	invariant[2] forall y: *Checkpoint {count(nextCheckpoints, y)} :: count(nextCheckpoints, y) + count(cl.checkpointsPendingRemoval, y) == count(cl.checkpoints[0:_k], y) + old(count(cl.checkpointsPendingRemoval, y))
	invariant[2] len(cl.checkpointsPendingRemoval) >= old(len(cl.checkpointsPendingRemoval))
	invariant[2] forall i: int {cl.checkpointsPendingRemoval[i]} :: old(len(cl.checkpointsPendingRemoval)) <= i < len(cl.checkpointsPendingRemoval) ==> count(ids, cl.checkpointsPendingRemoval[i].ID) == 0
	invariant[2] fresh(base(nextCheckpoints)) && (cl.checkpointsPendingRemoval == old(cl.checkpointsPendingRemoval) || fresh(base(cl.checkpointsPendingRemoval))) && base(nextCheckpoints) != base(cl.checkpointsPendingRemoval)

func ListCheckpointFiles(reader, checkpointID) (files, err)
	modifies nothing

package storage/snapshots

props C12 C13 C14 C15 C01

func newJobSnapshot(id, operatorIDs, sourceRunnerIDs) (r)
	ensures fresh(r) && r.id == id && len(r.operatorCheckpoints) == 0 && len(r.splitStates) == 0 && !r.isSavepoint
	ensures r.operatorIDsComplete != nil && r.sourceRunnerIDsComplete != nil && r.operatorIDsComplete != r.sourceRunnerIDsComplete && fresh(r.operatorIDsComplete) && fresh(r.sourceRunnerIDsComplete)
	ensures forall k: string {has(r.operatorIDsComplete, k)} :: has(r.operatorIDsComplete, k) <==> count(operatorIDs, k) > 0
	ensures forall k: string {has(r.sourceRunnerIDsComplete, k)} :: has(r.sourceRunnerIDsComplete, k) <==> count(sourceRunnerIDs, k) > 0
	ensures forall k: string {has(r.operatorIDsComplete, k)} :: has(r.operatorIDsComplete, k) ==> !r.operatorIDsComplete[k]
	ensures forall k: string {has(r.sourceRunnerIDsComplete, k)} :: has(r.sourceRunnerIDsComplete, k) ==> !r.sourceRunnerIDsComplete[k]
	invariant[1] forall k: string {has(wIDs, k)} :: has(wIDs, k) <==> count(operatorIDs[0:_k], k) > 0
	invariant[1] forall k: string {has(wIDs, k)} :: has(wIDs, k) ==> !wIDs[k]
	invariant[2] forall k: string {has(srIDs, k)} :: has(srIDs, k) <==> count(sourceRunnerIDs[0:_k], k) > 0
	invariant[2] forall k: string {has(srIDs, k)} :: has(srIDs, k) ==> !srIDs[k]

func (*jobSnapshot).isComplete(s) (r)
	ensures r ==> (forall k: string {has(s.operatorIDsComplete, k)} :: has(s.operatorIDsComplete, k) ==> s.operatorIDsComplete[k])
	ensures r ==> (forall k: string {has(s.sourceRunnerIDsComplete, k)} :: has(s.sourceRunnerIDsComplete, k) ==> s.sourceRunnerIDsComplete[k])
	ensures !r ==> (exists k: string :: has(s.operatorIDsComplete, k) && !s.operatorIDsComplete[k]) || (exists k: string :: has(s.sourceRunnerIDsComplete, k) && !s.sourceRunnerIDsComplete[k])
	invariant[1] forall k: string {visited(k)} :: visited(k) ==> s.sourceRunnerIDsComplete[k]
	invariant[2] forall k: string {visited(k)} :: visited(k) ==> s.operatorIDsComplete[k]

func (*jobSnapshot).addOperatorSnapshot(s, req) (err)
	requires s.operatorIDsComplete != nil && s.operatorIDsComplete != s.sourceRunnerIDsComplete
	modifies s.operatorCheckpoints, map(s.operatorIDsComplete)
	ensures err == nil <==> old(has(s.operatorIDsComplete, req.OperatorId) && !s.operatorIDsComplete[req.OperatorId])
	ensures forall k: string {has(s.operatorIDsComplete, k)} :: has(s.operatorIDsComplete, k) <==> old(has(s.operatorIDsComplete, k))
	ensures forall k: string {s.operatorIDsComplete[k]} :: has(s.operatorIDsComplete, k) ==> s.operatorIDsComplete[k] == (old(s.operatorIDsComplete[k]) || k == req.OperatorId)
	ensures err != nil ==> s.operatorCheckpoints == old(s.operatorCheckpoints)
	ensures err == nil ==> len(s.operatorCheckpoints) == old(len(s.operatorCheckpoints)) + 1 && s.operatorCheckpoints[old(len(s.operatorCheckpoints))] == req
	ensures forall i: int {s.operatorCheckpoints[i]} :: 0 <= i < old(len(s.operatorCheckpoints)) ==> s.operatorCheckpoints[i] == old(s.operatorCheckpoints)[i]

define waits(s, id) = has(s.sourceRunnerIDsComplete, id) && !s.sourceRunnerIDsComplete[id]
func (*jobSnapshot).addSourceRunnerSnapshot(s, ckpt) (err)
	requires s.sourceRunnerIDsComplete != nil && s.operatorIDsComplete != s.sourceRunnerIDsComplete
	modifies s.splitStates, map(s.sourceRunnerIDsComplete)
	ensures err == nil <==> old(has(s.sourceRunnerIDsComplete, ckpt.SourceRunnerId))
	ensures forall k: string {has(s.sourceRunnerIDsComplete, k)} :: has(s.sourceRunnerIDsComplete, k) <==> old(has(s.sourceRunnerIDsComplete, k))
	ensures forall k: string {s.sourceRunnerIDsComplete[k]} :: has(s.sourceRunnerIDsComplete, k) ==> s.sourceRunnerIDsComplete[k] == (old(s.sourceRunnerIDsComplete[k]) || k == ckpt.SourceRunnerId)
	ensures !old(waits(s, ckpt.SourceRunnerId)) ==> s.splitStates == old(s.splitStates)
	ensures old(waits(s, ckpt.SourceRunnerId)) ==> len(s.splitStates) == old(len(s.splitStates)) + len(ckpt.SplitStates)
	ensures forall i: int {s.splitStates[i]} :: 0 <= i < old(len(s.splitStates)) ==> s.splitStates[i] == old(s.splitStates)[i]
	ensures old(waits(s, ckpt.SourceRunnerId)) ==> (forall i: int {ckpt.SplitStates[i]} :: 0 <= i < len(ckpt.SplitStates) ==> s.splitStates[old(len(s.splitStates)) + i] == ckpt.SplitStates[i])

func (*jobSnapshot).toProto(s) (r)
	ensures r != nil && fresh(r) && r.Id == s.id && r.OperatorCheckpoints == s.operatorCheckpoints
	ensures len(r.SourceCheckpoints) == 1
	ensures r.SourceCheckpoints[0].CheckpointId == s.id && r.SourceCheckpoints[0].SplitStates == s.splitStates && r.SourceCheckpoints[0].SplitterState == s.splitterState

// ---- the store. A pending snapshot has the last id and separate maps; every completed snapshot
// was acknowledged by everyone it expected.
define acked(s) = (forall k: string {has(s.operatorIDsComplete, k)} :: has(s.operatorIDsComplete, k) ==> s.operatorIDsComplete[k]) && (forall k: string {has(s.sourceRunnerIDsComplete, k)} :: has(s.sourceRunnerIDsComplete, k) ==> s.sourceRunnerIDsComplete[k])
define pendingOK(s) = s.state.pendingSnapshot != nil ==> s.state.pendingSnapshot.id == s.state.checkpointID && s.state.pendingSnapshot.operatorIDsComplete != nil && s.state.pendingSnapshot.sourceRunnerIDsComplete != nil && s.state.pendingSnapshot.operatorIDsComplete != s.state.pendingSnapshot.sourceRunnerIDsComplete

define completedOK(s) = forall i: int {s.state.completedSnapshots[i]} :: 0 <= i < len(s.state.completedSnapshots) ==> s.state.completedSnapshots[i] != nil && allocated(s.state.completedSnapshots[i]) && s.state.completedSnapshots[i].id <= s.state.checkpointID && acked(s.state.completedSnapshots[i])
define storeOK(s) = pendingOK(s) && completedOK(s)

monitor Store.stateMu guards state,published,retainedIDs,notifyingRetained,sourceSplitters :: storeOK(self)

iface reduction.dev/reduction/connectors.(SourceSplitter).Checkpoint(s) (b)
	modifies nothing

func (*Store).CreateCheckpoint(s, operatorIDs, sourceRunnerIDs) (id, err)
	requires storeOK(s)
	modifies s.state
	ensures storeOK(s)
	ensures err == nil <==> old(s.state.pendingSnapshot) == nil
	ensures err != nil ==> s.state.pendingSnapshot == old(s.state.pendingSnapshot) && s.state.checkpointID == old(s.state.checkpointID)
	ensures err == nil ==> id == old(s.state.checkpointID) + 1 && s.state.checkpointID == id && fresh(s.state.pendingSnapshot) && s.state.pendingSnapshot.id == id && !s.state.pendingSnapshot.isSavepoint
	ensures err == nil ==> (forall k: string {has(s.state.pendingSnapshot.operatorIDsComplete, k)} :: has(s.state.pendingSnapshot.operatorIDsComplete, k) <==> count(operatorIDs, k) > 0)
	ensures err == nil ==> (forall k: string {has(s.state.pendingSnapshot.operatorIDsComplete, k)} :: has(s.state.pendingSnapshot.operatorIDsComplete, k) ==> !s.state.pendingSnapshot.operatorIDsComplete[k])
	ensures s.state.completedSnapshots == old(s.state.completedSnapshots)

func (*Store).CreateSavepoint(s, operatorIDs, sourceRunnerIDs) (id, created, err)
	requires storeOK(s)
	modifies s.state, s.state.pendingSnapshot.isSavepoint
	ensures storeOK(s)
	ensures err == nil <==> old(s.state.pendingSnapshot == nil || !s.state.pendingSnapshot.isSavepoint)
	ensures old(s.state.pendingSnapshot) != nil ==> !created && s.state.pendingSnapshot == old(s.state.pendingSnapshot) && s.state.checkpointID == old(s.state.checkpointID) && s.state.pendingSnapshot.isSavepoint
	ensures err == nil ==> id == s.state.pendingSnapshot.id && s.state.pendingSnapshot.isSavepoint
	ensures err == nil ==> (created <==> old(s.state.pendingSnapshot) == nil)
	ensures created ==> id == old(s.state.checkpointID) + 1 && s.state.checkpointID == id && fresh(s.state.pendingSnapshot)
	ensures created ==> (forall k: string {has(s.state.pendingSnapshot.operatorIDsComplete, k)} :: has(s.state.pendingSnapshot.operatorIDsComplete, k) <==> count(operatorIDs, k) > 0)
	ensures created ==> (forall k: string {has(s.state.pendingSnapshot.operatorIDsComplete, k)} :: has(s.state.pendingSnapshot.operatorIDsComplete, k) ==> !s.state.pendingSnapshot.operatorIDsComplete[k])
	ensures s.state.completedSnapshots == old(s.state.completedSnapshots)

// only a snapshot which everybody acknowledged may be finished
func (*Store).finishSnapshot(s, snap)
	requires acked(snap)
	option maypanic locked
	modifies s.published, snap.splitterState

func (*Store).AddOperatorSnapshot(s, req) (err)
	requires storeOK(s)
	option maypanic
	modifies s.published, s.state, s.state.pendingSnapshot.splitterState, s.state.pendingSnapshot.operatorCheckpoints, map(s.state.pendingSnapshot.operatorIDsComplete)
	ensures storeOK(s)
	ensures err == nil <==> old(s.state.pendingSnapshot != nil && s.state.pendingSnapshot.id == req.CheckpointId)
	ensures err != nil ==> s.state.pendingSnapshot == old(s.state.pendingSnapshot)
	ensures s.state.checkpointID == old(s.state.checkpointID) && s.state.completedSnapshots == old(s.state.completedSnapshots)
	ensures s.state.pendingSnapshot == old(s.state.pendingSnapshot) || s.state.pendingSnapshot == nil && acked(old(s.state.pendingSnapshot))
	ensures err == nil && s.state.pendingSnapshot != nil ==> !acked(s.state.pendingSnapshot)

func (*Store).AddSourceSnapshot(s, ckpt) (err)
	requires storeOK(s)
	option maypanic
	modifies s.published, s.state, s.state.pendingSnapshot.splitterState, s.state.pendingSnapshot.splitStates, map(s.state.pendingSnapshot.sourceRunnerIDsComplete)
	ensures storeOK(s)
	ensures old(s.state.pendingSnapshot == nil || s.state.pendingSnapshot.id != ckpt.CheckpointId) ==> err != nil
	ensures err != nil ==> s.state.pendingSnapshot == old(s.state.pendingSnapshot)
	ensures s.state.checkpointID == old(s.state.checkpointID) && s.state.completedSnapshots == old(s.state.completedSnapshots)
	ensures s.state.pendingSnapshot == old(s.state.pendingSnapshot) || s.state.pendingSnapshot == nil && acked(old(s.state.pendingSnapshot))
	ensures err == nil && s.state.pendingSnapshot != nil ==> !acked(s.state.pendingSnapshot)

func (*Store).RegisterSourceSplitter(s, splitter)
	modifies s.sourceSplitters
	ensures len(s.sourceSplitters) == 1 && s.sourceSplitters[0] == splitter

func (*Store).DiscardPending(s)
	requires storeOK(s)
	modifies s.state
	ensures s.state.completedSnapshots == old(s.state.completedSnapshots) && s.state.checkpointID == old(s.state.checkpointID)
	ensures storeOK(s) && s.state.pendingSnapshot == nil

func (*Store).CurrentCheckpoint(s) (r)
	requires storeOK(s)
	ensures r == nil <==> len(s.state.completedSnapshots) == 0
	ensures r != nil ==> r.Id == s.state.completedSnapshots[len(s.state.completedSnapshots) - 1].id && r.OperatorCheckpoints == s.state.completedSnapshots[len(s.state.completedSnapshots) - 1].operatorCheckpoints && len(r.SourceCheckpoints) == 1 && r.SourceCheckpoints[0].SplitStates == s.state.completedSnapshots[len(s.state.completedSnapshots) - 1].splitStates && r.SourceCheckpoints[0].SplitterState == s.state.completedSnapshots[len(s.state.completedSnapshots) - 1].splitterState

iface reduction.dev/reduction/storage/locations.(StorageLocation).Write(l, p, r) (uri, err)
	modifies nothing
iface reduction.dev/reduction/storage/locations.(StorageLocation).Read(l, p) (data, err)
	modifies nothing

iface reduction.dev/reduction/storage/locations.(StorageLocation).Copy(l, src, dst) (err)
	modifies ghostset("copied", l)
	ensures forall u: str {ghostset("copied", l, u)} :: ghostset("copied", l, u) <==> old(ghostset("copied", l, u)) || err == nil && u == src

// the savepoint holds a copy of the job file, every operator's checkpoints file and, per operator, every file listed in it
func CreateSavepointArtifact(fs, savepointsPath, checkpointURI, snapshot) (uri, err)
	modifies allelems(uint8), allelems(string), ghostset("copied", fs)
	ensures err == nil ==> ghostset("copied", fs, checkpointURI)
	ensures err == nil ==> (forall i: int {snapshot.operatorCheckpoints[i]} :: 0 <= i < len(snapshot.operatorCheckpoints) ==> ghostset("copied", fs, snapshot.operatorCheckpoints[i].DkvFileUri))
	invariant[1] forall i: int {snapshot.operatorCheckpoints[i]} :: 0 <= i < _k ==> ghostset("copied", fs, snapshot.operatorCheckpoints[i].DkvFileUri)
	invariant[2] forall i: int {snapshot.operatorCheckpoints[i]} :: 0 <= i < _k_outer ==> ghostset("copied", fs, snapshot.operatorCheckpoints[i].DkvFileUri)
	invariant[2] forall i: int {files[i]} :: 0 <= i < _k ==> ghostset("copied", fs, files[i])

// publishing: the snapshot becomes the only completed one and, if it replaces others, the only one to retain
func (*Store).finishSnapshotAsync(s, snap) (uri, err)
	requires storeOK(s) && snap != nil && acked(snap) && snap.id <= s.state.checkpointID
	modifies s.state, s.retainedIDs, s.notifyingRetained, allelems(uint8), allelems(string), ghostset("copied", s.fileStore)
	ensures s.state.pendingSnapshot == old(s.state.pendingSnapshot) && s.state.checkpointID == old(s.state.checkpointID)
	ensures storeOK(s)
	ensures err == nil ==> len(s.state.completedSnapshots) == 1 && s.state.completedSnapshots[0] == snap
	ensures s.state.completedSnapshots == old(s.state.completedSnapshots) || len(s.state.completedSnapshots) == 1 && s.state.completedSnapshots[0] == snap
	ensures s.retainedIDs == old(s.retainedIDs) || len(s.retainedIDs) == 1 && s.retainedIDs[0] == snap.id && s.notifyingRetained
	ensures err == nil && s.retainedCheckpointsUpdated != nil && old(len(s.state.completedSnapshots)) > 0 ==> len(s.retainedIDs) == 1 && s.retainedIDs[0] == snap.id

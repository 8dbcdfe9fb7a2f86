package jobs

props C15 C01

iface reduction.dev/reduction/proto.(SourceRunner).ID(x) (id)
	modifies nothing
	ensures id == srid(x)
iface reduction.dev/reduction/proto.(Operator).ID(x) (id)
	modifies nothing
	ensures id == opid(x)
ufun srid(proto.SourceRunner) string
ufun opid(proto.Operator) string
// the clock never goes back
iface reduction.dev/reduction/clocks.(Clock).Now(c) (t)
	modifies ghost("now", c)
	ensures t == ghost("now", c) && t >= old(ghost("now", c))

func NewLivenessTracker(clock, deadline) (lt)
	ensures fresh(lt) && fresh(lt.m) && lt.clock == clock && lt.deadline == deadline
	ensures forall id: string {has(lt.m, id)} :: !has(lt.m, id)

func (*LivenessTracker).Heartbeat(lt, id)
	requires lt.m != nil
	modifies map(lt.m), ghost("now", lt.clock)
	ensures ghost("now", lt.clock) >= old(ghost("now", lt.clock))
	ensures has(lt.m, id) && lt.m[id] == ghost("now", lt.clock)
	ensures forall x: string {has(lt.m, x)} :: x != id ==> (has(lt.m, x) <==> old(has(lt.m, x)))
	ensures forall x: string {lt.m[x]} :: x != id && has(lt.m, x) ==> lt.m[x] == old(lt.m[x])

// removes exactly the nodes whose last heartbeat is older than the deadline
func (*LivenessTracker).Purge(lt) (missing)
	requires lt.m != nil
	modifies map(lt.m), ghost("now", lt.clock)
	ensures ghost("now", lt.clock) >= old(ghost("now", lt.clock))
	ensures forall x: string {has(lt.m, x)} :: has(lt.m, x) <==> old(has(lt.m, x)) && count(missing, x) == 0
	ensures forall x: string {count(missing, x)} :: count(missing, x) <= 1 && (count(missing, x) > 0 ==> old(has(lt.m, x)) && old(lt.m[x]) < ghost("now", lt.clock) - lt.deadline)
	ensures forall x: string {lt.m[x]} :: has(lt.m, x) ==> lt.m[x] == old(lt.m[x]) && lt.m[x] >= old(ghost("now", lt.clock)) - lt.deadline
	ensures isnil(missing) || fresh(base(missing))
	invariant isnil(missing) || fresh(base(missing))
	invariant ghost("now", lt.clock) >= old(ghost("now", lt.clock))
	invariant forall x: string {visited(x)} :: visited(x) ==> old(has(lt.m, x))
	invariant forall x: string {has(lt.m, x)} :: has(lt.m, x) <==> old(has(lt.m, x)) && count(missing, x) == 0
	invariant forall x: string {count(missing, x)} :: count(missing, x) <= 1 && (count(missing, x) > 0 ==> visited(x) && old(has(lt.m, x)) && old(lt.m[x]) < ghost("now", lt.clock) - lt.deadline)
	invariant forall x: string {lt.m[x]} :: has(lt.m, x) ==> lt.m[x] == old(lt.m[x])
	invariant forall x: string {visited(x)} :: visited(x) && has(lt.m, x) ==> lt.m[x] >= old(ghost("now", lt.clock)) - lt.deadline

// ---- registered nodes: the sorted maps are consistent, keyed by the node's ID, and every
// registered node is watched by the liveness tracker
define mapOK(sm) = sm != nil && sm.m != nil && (forall x: string {count(sm.list, x)} {has(sm.m, x)} :: count(sm.list, x) == (has(sm.m, x) ? 1 : 0)) && (sm.isSorted ==> ascending(sm.list))
define srOK(r) = mapOK(r.runners) && (forall x: string {has(r.runners.m, x)} :: has(r.runners.m, x) ==> srid(r.runners.m[x]) == x && has(r.liveness.m, x))
define opOK(r) = mapOK(r.operators) && (forall x: string {has(r.operators.m, x)} :: has(r.operators.m, x) ==> opid(r.operators.m[x]) == x && has(r.liveness.m, x))
define apart(r) = base(r.runners.list) != base(r.operators.list) || isnil(r.runners.list) && isnil(r.operators.list)
define regOK(r) = r.liveness != nil && r.liveness.m != nil && srOK(r) && opOK(r) && apart(r)

func NewRegistry(taskCount, liveness) (r)
	requires liveness != nil && liveness.m != nil
	ensures fresh(r) && regOK(r) && r.taskCount == taskCount && r.liveness == liveness
	ensures forall x: string {has(r.runners.m, x)} :: !has(r.runners.m, x)
	ensures forall x: string {has(r.operators.m, x)} :: !has(r.operators.m, x)

func (*Registry).RegisterSourceRunner(r, sr)
	requires regOK(r)
	modifies r.didChange, r.runners.list, r.runners.isSorted, map(r.runners.m), map(r.liveness.m), ghost("now", r.liveness.clock)
	ensures regOK(r)
	ensures forall x: string {has(r.runners.m, x)} :: has(r.runners.m, x) <==> x == srid(sr) || old(has(r.runners.m, x))
	ensures r.runners.m[srid(sr)] == sr
	ensures r.liveness.m[srid(sr)] == ghost("now", r.liveness.clock) && ghost("now", r.liveness.clock) >= old(ghost("now", r.liveness.clock))
	ensures r.didChange <==> old(r.didChange) || !old(has(r.runners.m, srid(sr)))

func (*Registry).DeregisterSourceRunner(r, sr)
	requires regOK(r)
	modifies r.didChange, r.runners.list, r.runners.isSorted, elems(r.runners.list), map(r.runners.m)
	ensures regOK(r)
	ensures forall x: string {has(r.runners.m, x)} :: has(r.runners.m, x) <==> old(has(r.runners.m, x)) && x != sr.Id
	ensures r.didChange <==> old(r.didChange) || old(has(r.runners.m, sr.Id))

func (*Registry).RegisterOperator(r, op)
	requires regOK(r)
	modifies r.didChange, r.operators.list, r.operators.isSorted, map(r.operators.m), map(r.liveness.m), ghost("now", r.liveness.clock)
	ensures regOK(r)
	ensures forall x: string {has(r.operators.m, x)} :: has(r.operators.m, x) <==> x == opid(op) || old(has(r.operators.m, x))
	ensures r.operators.m[opid(op)] == op
	ensures r.liveness.m[opid(op)] == ghost("now", r.liveness.clock) && ghost("now", r.liveness.clock) >= old(ghost("now", r.liveness.clock))
	ensures r.didChange <==> old(r.didChange) || !old(has(r.operators.m, opid(op)))

func (*Registry).DeregisterOperator(r, op)
	requires regOK(r)
	modifies r.didChange, r.operators.list, r.operators.isSorted, elems(r.operators.list), map(r.operators.m)
	ensures regOK(r)
	ensures forall x: string {has(r.operators.m, x)} :: has(r.operators.m, x) <==> old(has(r.operators.m, x)) && x != op.Id
	ensures r.didChange <==> old(r.didChange) || old(has(r.operators.m, op.Id))

// an assembly is exactly the configured number of distinct registered nodes of each kind
func (*Registry).NewAssembly(r) (a, err)
	requires regOK(r) && r.taskCount >= 0
	modifies elems(r.runners.list), r.runners.isSorted, elems(r.operators.list), r.operators.isSorted
	ensures regOK(r)
	ensures err == nil <==> len(r.runners.list) >= r.taskCount && len(r.operators.list) >= r.taskCount
	ensures err != nil ==> a == nil
	ensures err == nil ==> fresh(a) && len(a.sourceRunners) == r.taskCount && len(a.operators) == r.taskCount
	ensures err == nil ==> (forall i: int {a.sourceRunners[i]} :: 0 <= i < len(a.sourceRunners) ==> has(r.runners.m, srid(a.sourceRunners[i])) && r.runners.m[srid(a.sourceRunners[i])] == a.sourceRunners[i])
	ensures err == nil ==> (forall i: int {a.operators[i]} :: 0 <= i < len(a.operators) ==> has(r.operators.m, opid(a.operators[i])) && r.operators.m[opid(a.operators[i])] == a.operators[i])
	ensures err == nil ==> (forall i: int, j: int {a.sourceRunners[i], a.sourceRunners[j]} :: 0 <= i < j < len(a.sourceRunners) ==> srid(a.sourceRunners[i]) != srid(a.sourceRunners[j]))
	ensures err == nil ==> (forall i: int, j: int {a.operators[i], a.operators[j]} :: 0 <= i < j < len(a.operators) ==> opid(a.operators[i]) != opid(a.operators[j]))

// after a purge only nodes with a recent heartbeat are registered, and no other node was removed
func (*Registry).Purge(r) (purged)
	requires regOK(r)
	modifies r.didChange, r.runners.list, r.runners.isSorted, elems(r.runners.list), map(r.runners.m), r.operators.list, r.operators.isSorted, elems(r.operators.list), map(r.operators.m), map(r.liveness.m), ghost("now", r.liveness.clock)
	ensures regOK(r)
	ensures forall x: string {has(r.runners.m, x)} :: has(r.runners.m, x) ==> r.liveness.m[x] >= old(ghost("now", r.liveness.clock)) - r.liveness.deadline
	ensures forall x: string {has(r.operators.m, x)} :: has(r.operators.m, x) ==> r.liveness.m[x] >= old(ghost("now", r.liveness.clock)) - r.liveness.deadline
	ensures forall x: string {has(r.runners.m, x)} :: has(r.runners.m, x) <==> old(has(r.runners.m, x)) && count(purged, x) == 0
	ensures forall x: string {has(r.operators.m, x)} :: has(r.operators.m, x) <==> old(has(r.operators.m, x)) && count(purged, x) == 0
	ensures forall x: string {count(purged, x)} :: count(purged, x) > 0 ==> old(r.liveness.m[x]) < ghost("now", r.liveness.clock) - r.liveness.deadline
	ensures r.didChange <==> old(r.didChange) || len(purged) > 0
	ensures base(r.runners.list) == old(base(r.runners.list)) && base(r.operators.list) == old(base(r.operators.list))
	invariant apart(r)
	invariant forall x: string {count(r.runners.list, x)} {has(r.runners.m, x)} :: count(r.runners.list, x) == (has(r.runners.m, x) ? 1 : 0)
	invariant r.runners.isSorted ==> ascending(r.runners.list)
	invariant forall x: string {count(r.operators.list, x)} {has(r.operators.m, x)} :: count(r.operators.list, x) == (has(r.operators.m, x) ? 1 : 0)
	invariant r.operators.isSorted ==> ascending(r.operators.list)
	invariant forall x: string {has(r.runners.m, x)} :: has(r.runners.m, x) ==> srid(r.runners.m[x]) == x
	invariant forall x: string {has(r.operators.m, x)} :: has(r.operators.m, x) ==> opid(r.operators.m[x]) == x
	invariant base(r.runners.list) == old(base(r.runners.list)) && base(r.operators.list) == old(base(r.operators.list))
	invariant len(purged) == _k
	invariant isnil(purged) || fresh(base(purged))
	invariant forall x: string {count(_range, x)} {has(r.liveness.m, x)} :: has(r.liveness.m, x) <==> old(has(r.liveness.m, x)) && count(_range, x) == 0
	invariant forall x: string {count(_range, x)} :: count(_range, x) > 0 ==> old(r.liveness.m[x]) < ghost("now", r.liveness.clock) - r.liveness.deadline
	invariant forall i: int {purged[i]} {_range[i]} :: 0 <= i < _k ==> purged[i] == _range[i]
	invariant forall x: string {count(purged, x)} {count(_range[0:_k], x)} :: count(purged, x) == count(_range[0:_k], x)
	invariant forall x: string {has(r.runners.m, x)} :: has(r.runners.m, x) <==> old(has(r.runners.m, x)) && count(purged, x) == 0
	invariant forall x: string {has(r.operators.m, x)} :: has(r.operators.m, x) <==> old(has(r.operators.m, x)) && count(purged, x) == 0

func (*Registry).HasSourceRunner(r, sr) (b)
	requires r.runners != nil
	ensures b <==> has(r.runners.m, srid(sr))
func (*Registry).HasOperator(r, op) (b)
	requires r.operators != nil
	ensures b <==> has(r.operators.m, opid(op))
func (*Registry).HasChanges(r) (b)
	ensures b <==> r.didChange
func (*Registry).AcknowledgeChanges(r)
	modifies r.didChange
	ensures !r.didChange

// ---- assemblies (every NodeRegistry is a *Registry)
iface reduction.dev/reduction/jobs.(NodeRegistry).HasSourceRunner(r, sr) (b)
	modifies nothing
	ensures b <==> has(unboxp(r, Registry).runners.m, srid(sr))
iface reduction.dev/reduction/jobs.(NodeRegistry).HasOperator(r, op) (b)
	modifies nothing
	ensures b <==> has(unboxp(r, Registry).operators.m, opid(op))

func NewAssembly(operators, sourceRunners) (a)
	ensures fresh(a) && a.operators == operators && a.sourceRunners == sourceRunners

func (*Assembly).Healthy(a, registry) (ok, reason)
	ensures ok <==> (forall i: int {a.sourceRunners[i]} :: 0 <= i < len(a.sourceRunners) ==> has(unboxp(registry, Registry).runners.m, srid(a.sourceRunners[i]))) && (forall i: int {a.operators[i]} :: 0 <= i < len(a.operators) ==> has(unboxp(registry, Registry).operators.m, opid(a.operators[i])))
	invariant[1] forall i: int {a.sourceRunners[i]} :: 0 <= i < _k ==> has(unboxp(registry, Registry).runners.m, srid(a.sourceRunners[i]))
	invariant[2] forall i: int {a.operators[i]} :: 0 <= i < _k ==> has(unboxp(registry, Registry).operators.m, opid(a.operators[i]))

func (*Assembly).SourceRunnerIDs(a) (ids)
	ensures len(ids) == len(a.sourceRunners)
	ensures forall i: int {ids[i]} :: 0 <= i < len(ids) ==> ids[i] == srid(a.sourceRunners[i])
	invariant forall i: int {ids[i]} :: 0 <= i < _k ==> ids[i] == srid(a.sourceRunners[i])
func (*Assembly).OperatorIDs(a) (ids)
	ensures len(ids) == len(a.operators)
	ensures forall i: int {ids[i]} :: 0 <= i < len(ids) ==> ids[i] == opid(a.operators[i])
	invariant forall i: int {ids[i]} :: 0 <= i < _k ==> ids[i] == opid(a.operators[i])

// ---- job status and the use of the assembly
ufun atomval(atomic.Uint32) int
extern sync/atomic.(*Uint32).Load(x) (n)
	modifies nothing
	ensures n == atomval(deref(x))
extern sync/atomic.(*Uint32).Store(x, n)
	modifies deref(x)
	ensures atomval(deref(x)) == n

func newJobStatus() (s)
	ensures fresh(s) && atomval(s.status) == StatusInit
func (*jobStatus).Value(s) (n)
	ensures n == atomval(s.status)
func (*jobStatus).Set(s, n)
	modifies s.status
	ensures atomval(s.status) == n

func (*Job).setAssembly(j, assembly)
	option callbacks=noeffect
	requires j.status != nil
	modifies j.assembly, j.assemblyCtx, j.cancelAssembly, j.status.status
	ensures j.assembly == assembly && atomval(j.status.status) == StatusAssemblyStarting
func (*Job).currentAssembly(j) (a)
	ensures a == j.assembly
func (*Job).pause(j)
	option callbacks=noeffect
	requires j.status != nil
	modifies j.status.status
	ensures atomval(j.status.status) == StatusPaused

define now(j) = ghost("now", j.registry.liveness.clock)
define srMembers(j) = forall i: int {j.assembly.sourceRunners[i]} :: 0 <= i < len(j.assembly.sourceRunners) ==> has(j.registry.runners.m, srid(j.assembly.sourceRunners[i]))
define opMembers(j) = forall i: int {j.assembly.operators[i]} :: 0 <= i < len(j.assembly.operators) ==> has(j.registry.operators.m, opid(j.assembly.operators[i]))
define idle(j) = atomval(j.status.status) == StatusInit || atomval(j.status.status) == StatusPaused

// The job keeps running, or starts, only on an assembly of registered nodes (all of which had a
// heartbeat within the deadline), and it starts as soon as there are enough of them.
func (*Job).evaluateClusterStatus(j)
	option callbacks=noeffect
	requires j.status != nil && j.registry != nil && regOK(j.registry) && j.registry.taskCount >= 0
	requires !idle(j) ==> j.assembly != nil
	modifies j.assembly, j.assemblyCtx, j.cancelAssembly, j.status.status
	modifies j.registry.didChange, j.registry.runners.list, j.registry.runners.isSorted, elems(j.registry.runners.list), map(j.registry.runners.m), j.registry.operators.list, j.registry.operators.isSorted, elems(j.registry.operators.list), map(j.registry.operators.m), map(j.registry.liveness.m), ghost("now", j.registry.liveness.clock)
	ensures regOK(j.registry) && !j.registry.didChange
	ensures forall x: string {has(j.registry.runners.m, x)} :: has(j.registry.runners.m, x) ==> j.registry.liveness.m[x] >= old(now(j)) - j.registry.liveness.deadline
	ensures forall x: string {has(j.registry.operators.m, x)} :: has(j.registry.operators.m, x) ==> j.registry.liveness.m[x] >= old(now(j)) - j.registry.liveness.deadline
	ensures old(atomval(j.status.status)) == StatusRunning ==> j.assembly == old(j.assembly) && (atomval(j.status.status) == StatusRunning <==> srMembers(j) && opMembers(j))
	ensures old(atomval(j.status.status)) == StatusRunning && atomval(j.status.status) != StatusRunning ==> atomval(j.status.status) == StatusPaused
	ensures old(idle(j)) ==> (atomval(j.status.status) == StatusAssemblyStarting <==> len(j.registry.runners.list) >= j.registry.taskCount && len(j.registry.operators.list) >= j.registry.taskCount)
	ensures old(idle(j)) && atomval(j.status.status) == StatusAssemblyStarting ==> fresh(j.assembly) && len(j.assembly.sourceRunners) == j.registry.taskCount && len(j.assembly.operators) == j.registry.taskCount && srMembers(j) && opMembers(j)
	ensures old(idle(j)) && atomval(j.status.status) != StatusAssemblyStarting ==> atomval(j.status.status) == old(atomval(j.status.status)) && j.assembly == old(j.assembly)
	ensures old(atomval(j.status.status)) == StatusAssemblyStarting ==> atomval(j.status.status) == StatusAssemblyStarting && j.assembly == old(j.assembly)

package workers/operator

props C02 C13

// ---- barrier alignment: a checkpoint waits for one barrier of each source runner of the deployment
define chClosed(ch) = ghost("closed", ch) != 0
define unaligned(c) = exists x: string {has(c.srIDs, x)} :: has(c.srIDs, x)
define ckOK(c) = c.srIDs != nil && c.allBarriersReceived != nil && (unaligned(c) ==> !chClosed(c.allBarriersReceived))

func newCheckpoint(id, srIDs) (c)
	ensures fresh(c) && fresh(c.srIDs) && c.srIDs != nil && c.allBarriersReceived != nil && !chClosed(c.allBarriersReceived)
	ensures c.checkpointID == id
	ensures forall x: string {has(c.srIDs, x)} :: has(c.srIDs, x) <==> count(srIDs, x) > 0

// a barrier counts once, for its own checkpoint and sender only; the senders are released by the last one
func (*checkpoint).registerBarrier(c, sender, barrier) (err)
	option checkclose
	requires ckOK(c)
	modifies map(c.srIDs), ghost("closed", c.allBarriersReceived)
	ensures ckOK(c)
	ensures err == nil <==> barrier.CheckpointId == c.checkpointID && old(has(c.srIDs, sender))
	ensures forall x: string {has(c.srIDs, x)} :: has(c.srIDs, x) <==> old(has(c.srIDs, x)) && !(err == nil && x == sender)
	ensures chClosed(c.allBarriersReceived) <==> old(chClosed(c.allBarriersReceived)) || err == nil && !unaligned(c)

func (*checkpoint).hasAllBarriers(c) (b)
	ensures b <==> !unaligned(c)

func (*checkpoint).cancel(c)
	option checkclose nilrecv
	requires c != nil ==> ckOK(c)
	modifies ghost("closed", c.allBarriersReceived)
	ensures c != nil ==> chClosed(c.allBarriersReceived) || old(!unaligned(c))

// ---- the source runners of the deployment
func newUpstreams(ids) (u)
	ensures fresh(u) && len(u.all) == len(ids) && len(u.active) == len(ids)
	ensures forall x: string {count(u.all, x)} :: count(u.all, x) == count(ids, x)
	ensures forall x: string {count(u.active, x)} :: count(u.active, x) == count(ids, x)
	ensures base(u.all) != base(u.active) || isnil(u.all)

// those which are done leave the active ones, but stay members
func (*upstreams).deactivate(u, id)
	requires base(u.all) != base(u.active) || isnil(u.all)
	modifies u.active, elems(u.active)
	ensures len(u.active) == old(len(u.active)) - (old(count(u.active, id)) > 0 ? 1 : 0)
	ensures forall x: string {count(u.active, x)} :: count(u.active, x) == old(count(u.active, x)) - (x == id && old(count(u.active, id)) > 0 ? 1 : 0)
	ensures forall x: string {count(u.all, x)} :: count(u.all, x) == old(count(u.all, x))

func (*upstreams).isMember(u, id) (b)
	ensures b <==> count(u.all, id) > 0

func (*upstreams).hasActive(u) (b)
	ensures b <==> len(u.active) > 0

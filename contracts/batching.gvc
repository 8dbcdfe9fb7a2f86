package batching

props C20 C04 C02 C01

// ---- event batcher. Concatenation of the flushed batches followed by the pending batch is the
// sequence of added items: Add appends to the pending batch, Flush hands out exactly the pending
// batch (or nothing) and leaves it empty (respectively unchanged). Both run under b.mu.
monitor EventBatcher.mu guards batch,batchToken :: self.batchToken >= 0

iface reduction.dev/reduction/clocks.(Timer).Set(t, d, do)
iface reduction.dev/reduction/clocks.(Timer).Stop(t)

func (*EventBatcher).Add(b, event)
	modifies b.batch, elems(b.batch)
	ensures len(b.batch) == old(len(b.batch)) + 1
	ensures b.batch[old(len(b.batch))] == event
	ensures forall i: int {b.batch[i]} :: 0 <= i < old(len(b.batch)) ==> b.batch[i] == old(b.batch[i])
	ensures b.batchToken == old(b.batchToken)

func (*EventBatcher).IsFull(b) (full)
	ensures full <==> len(b.batch) >= b.maxSize

func (*EventBatcher).Flush(b, token) (out)
	modifies b.batch, b.batchToken
	ensures (token == CurrentBatch || token == old(b.batchToken)) ==> len(out) == old(len(b.batch)) && (forall i: int {out[i]} :: 0 <= i < len(out) ==> out[i] == old(b.batch[i]))
	ensures (token == CurrentBatch || token == old(b.batchToken)) ==> len(b.batch) == 0
	ensures token != CurrentBatch && token != old(b.batchToken) ==> len(out) == 0 && b.batch == old(b.batch)
	ensures len(out) > 0 ==> b.batchToken == old(b.batchToken) + 1
	ensures len(out) == 0 ==> b.batchToken == old(b.batchToken)

// ---- reorder buffer: slots are numbered consecutively in reservation order
func (*ReorderBuffer).Reserve(b) (seq)
	modifies b.nextSeqNum, sends(b.reserved)
	ensures seq == old(b.nextSeqNum) && b.nextSeqNum == old(b.nextSeqNum) + 1

func (*ReorderBuffer).Add(b, seq, item)
	requires b.items != nil
	modifies map(b.items)
	ensures has(b.items, seq) && b.items[seq] == item
	ensures forall k: int {has(b.items, k)} :: k != seq ==> (has(b.items, k) <==> old(has(b.items, k)))
	ensures forall k: int {b.items[k]} :: k != seq ==> b.items[k] == old(b.items[k])

// ---- fetcher: the batch taken and the slot reserved belong together; nothing taken, nothing reserved
func (*ReorderFetcher).flushAndReserve(d, token) (events, seq)
	requires d.batcher != nil && d.buffer != nil
	modifies d.batcher.batch, d.batcher.batchToken, d.buffer.nextSeqNum, sends(d.buffer.reserved)
	ensures (token == CurrentBatch || token == old(d.batcher.batchToken)) ==> len(events) == old(len(d.batcher.batch)) && (forall i: int {events[i]} :: 0 <= i < len(events) ==> events[i] == old(d.batcher.batch[i])) && len(d.batcher.batch) == 0
	ensures token != CurrentBatch && token != old(d.batcher.batchToken) ==> len(events) == 0
	ensures len(events) > 0 ==> seq == old(d.buffer.nextSeqNum) && d.buffer.nextSeqNum == old(d.buffer.nextSeqNum) + 1
	ensures len(events) == 0 ==> d.buffer.nextSeqNum == old(d.buffer.nextSeqNum)

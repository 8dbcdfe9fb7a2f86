package dkv/wal

props C08 C09

func (Handle).Document(h) (d)
	ensures d.After == h.After
func (*Writer).Handle(w, after) (h)
	ensures h.ID == w.id && h.After == after && h.file == w.file

// sealed segments carry the sequence number of their last entry, ascending, and never above the writer's
define segsOK(w) = (forall i: int, j: int {w.sealedBuffers[i], w.sealedBuffers[j]} :: 0 <= i < j < len(w.sealedBuffers) ==> w.sealedBuffers[i].latestSeqNum <= w.sealedBuffers[j].latestSeqNum)

// nothing above the truncation point is dropped
func (*Writer).Truncate(w, seqNum)
	option maypanic
	modifies w.sealedBuffers, w.sealed
	ensures len(w.sealedBuffers) <= old(len(w.sealedBuffers))
	ensures forall i: int {w.sealedBuffers[i]} :: 0 <= i < len(w.sealedBuffers) ==> w.sealedBuffers[i] == old(w.sealedBuffers)[old(len(w.sealedBuffers)) - len(w.sealedBuffers) + i]
	ensures old(segsOK(w)) ==> (forall i: int {old(w.sealedBuffers)[i]} :: 0 <= i < old(len(w.sealedBuffers)) - len(w.sealedBuffers) ==> old(w.sealedBuffers)[i].latestSeqNum <= seqNum)
	ensures len(w.sealedBuffers) > 0 ==> w.sealedBuffers[0].latestSeqNum > seqNum
	invariant forall i: int {w.sealedBuffers[i]} :: 0 <= i < _k ==> w.sealedBuffers[i].latestSeqNum <= seqNum
	invariant truncateIndex == -1

func (*Writer).Cut(w)
	option maypanic
	modifies w.sealed, w.sealedBuffers, w.activeBuffer, w.activeBuffer.latestSeqNum, elems(w.sealedBuffers)
	ensures len(w.sealedBuffers) == old(len(w.sealedBuffers)) + 1
	ensures forall i: int {w.sealedBuffers[i]} :: 0 <= i < old(len(w.sealedBuffers)) ==> w.sealedBuffers[i] == old(w.sealedBuffers[i])
	ensures w.sealedBuffers[len(w.sealedBuffers) - 1] == old(w.activeBuffer)
	ensures w.sealedBuffers[len(w.sealedBuffers) - 1].latestSeqNum == w.latestSeqNum
	ensures len(w.activeBuffer.buf) == 0

// the next log carries every entry of this one
func (*Writer).Rotate(w, fs) (n)
	option maypanic
	requires forall i: int {w.sealedBuffers[i]} :: 0 <= i < len(w.sealedBuffers) ==> allocated(w.sealedBuffers[i])
	modifies w.sealed
	ensures n != w && n.latestSeqNum == w.latestSeqNum && n.id == w.id + 1 && n.maxSize == w.maxSize
	ensures len(n.sealedBuffers) == len(w.sealedBuffers) + 1 && len(n.activeBuffer.buf) == 0
	ensures forall i: int {n.sealedBuffers[i]} :: 0 <= i < len(w.sealedBuffers) ==> n.sealedBuffers[i].buf == w.sealedBuffers[i].buf
	ensures forall i: int {n.sealedBuffers[i]} :: 0 <= i < len(w.sealedBuffers) ==> n.sealedBuffers[i].latestSeqNum == w.sealedBuffers[i].latestSeqNum
	ensures forall i: int {n.sealedBuffers[i]} :: 0 <= i < len(w.sealedBuffers) ==> n.sealedBuffers[i].readOffset == 0
	ensures n.sealedBuffers[len(w.sealedBuffers)].buf == w.activeBuffer.buf && n.sealedBuffers[len(w.sealedBuffers)].latestSeqNum == w.latestSeqNum
	invariant len(nextLog.sealedBuffers) == len(w.sealedBuffers) + 1 && fresh(base(nextLog.sealedBuffers)) && fresh(nextLog)
	invariant nextLog.latestSeqNum == w.latestSeqNum && nextLog.id == w.id + 1 && nextLog.maxSize == w.maxSize
	invariant forall i: int {nextLog.sealedBuffers[i]} :: 0 <= i < _k ==> nextLog.sealedBuffers[i].buf == w.sealedBuffers[i].buf && nextLog.sealedBuffers[i].latestSeqNum == w.sealedBuffers[i].latestSeqNum && nextLog.sealedBuffers[i].readOffset == 0 && allocated(nextLog.sealedBuffers[i])
	invariant forall i: int {w.sealedBuffers[i]} :: 0 <= i < len(w.sealedBuffers) ==> allocated(w.sealedBuffers[i])

// reading a segment hands out its bytes in order
func (*bufferSegment).Read(b, p) (n, err)
	requires b.readOffset >= 0
	modifies b.readOffset, elems(p)
	ensures old(b.readOffset) < len(b.buf) && len(p) > 0 ==> err == nil && n > 0
	ensures err == nil ==> n == min(len(p), len(b.buf) - old(b.readOffset)) && b.readOffset == old(b.readOffset) + n
	ensures err == nil && base(p) != base(b.buf) ==> (forall i: int {p[i]} :: 0 <= i < n ==> p[i] == b.buf[old(b.readOffset) + i])
	ensures err != nil ==> err == io.EOF && n == 0 && len(b.buf) <= b.readOffset
func (*bufferSegment).Write(b, p) (n, err)
	modifies b.buf, elems(b.buf)
	ensures n == len(p) && err == nil
	ensures len(b.buf) == old(len(b.buf)) + len(p)
	ensures forall i: int {b.buf[i]} :: 0 <= i < old(len(b.buf)) ==> b.buf[i] == old(b.buf[i])
	ensures forall i: int {p[i]} :: 0 <= i < len(p) ==> b.buf[old(len(b.buf)) + i] == old(p[i])

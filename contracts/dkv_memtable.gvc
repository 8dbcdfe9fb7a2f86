package dkv/memtable

props C07 C08 C03

extern reduction.dev/reduction/dkv/memtable.NewMemTable(n) (t)
	modifies nothing
	ensures t != nil

monitor List.tablesMu guards tables :: len(self.tables) > 0

// flushed tables leave from the front only, and exactly the given ones
func (*List).Dequeue(l, tables)
	option maypanic
	requires len(tables) < len(l.tables)
	modifies l.tables
	ensures len(l.tables) == old(len(l.tables)) - len(tables)
	ensures forall i: int {l.tables[i]} :: 0 <= i < len(l.tables) ==> l.tables[i] == old(l.tables)[len(tables) + i]
	ensures forall i: int {tables[i]} :: 0 <= i < len(tables) ==> old(l.tables)[i] == tables[i]
	invariant forall i: int {tables[i]} :: 0 <= i < _k ==> l.tables[i] == tables[i]
func (*List).Rotate(l)
	modifies l.tables, elems(l.tables)
	ensures len(l.tables) == old(len(l.tables)) + 1
	ensures forall i: int {l.tables[i]} :: 0 <= i < old(len(l.tables)) ==> l.tables[i] == old(l.tables)[i]
// the tables to flush are all but the active one
func (*List).Sealed(l) (s)
	requires len(l.tables) > 0
	ensures len(s) == len(l.tables) - 1
	ensures forall i: int {s[i]} :: 0 <= i < len(s) ==> s[i] == l.tables[i]

// ---- reading a key: the newest memtable that has the key answers
ufun memhas(*MemTable, str) bool
ufun memseq(*MemTable, str) int
extern reduction.dev/reduction/dkv/memtable.(*MemTable).Get(t, key) (e, err)
	modifies nothing
	ensures memhas(t, view(key)) ==> err == nil && entseq(e) == memseq(t, view(key))
	ensures !memhas(t, view(key)) ==> err == kv.ErrNotFound
	ensures kv.ErrNotFound != nil
func (*List).Get(l, key) (e, err)
	requires len(l.tables) > 0
	ensures err != nil ==> (forall i: int {l.tables[i]} :: 0 <= i < len(l.tables) ==> !memhas(l.tables[i], view(key)))
	ensures err != nil ==> err == kv.ErrNotFound
	ensures forall i: int {l.tables[i]} :: 0 <= i < len(l.tables) && memhas(l.tables[i], view(key)) && (forall j: int {l.tables[j]} :: i < j < len(l.tables) ==> !memhas(l.tables[j], view(key))) ==> err == nil && entseq(e) == memseq(l.tables[i], view(key))
	invariant forall j: int {l.tables[j]} :: i < j < len(l.tables) ==> !memhas(l.tables[j], view(key))
	invariant forall j: int {l.tables[j]} :: n < j < len(l.tables) ==> !memhas(l.tables[j], view(key))
	invariant forall j: int {l.tables[j]} :: idx < j < len(l.tables) ==> !memhas(l.tables[j], view(key))

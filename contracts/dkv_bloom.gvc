package dkv/bloom

props C17 C07

// ---- a filter never denies a key which was added: position p of the filter is bit p%64 of word p/64
define filterOK(f) = f != nil && 0 < f.size < 4294967296 && 0 <= f.hashCount < 4294967296 && len(f.bitArray) == (f.size + 63) / 64
define position(f, p) = bit(f.bitArray[p / 64], p % 64)
define probe(f, key, i) = mmhash(view(key), i) % f.size

func NewFilter(size, hashes) (f)
	requires 0 < size < 4294967233 && 0 <= hashes < 4294967296
	ensures fresh(f) && fresh(base(f.bitArray)) && filterOK(f) && f.size == size && f.hashCount == hashes

func (*Filter).setBit(f, p)
	requires filterOK(f) && 0 <= p < f.size
	modifies elems(f.bitArray)
	ensures forall q: int {position(f, q)} :: 0 <= q < f.size ==> (position(f, q) <==> q == p || old(position(f, q)))

func (*Filter).getBit(f, p) (b)
	requires filterOK(f) && 0 <= p < f.size
	ensures b <==> position(f, p)

func (*Filter).Add(f, key)
	requires filterOK(f)
	modifies elems(f.bitArray)
	ensures filterOK(f)
	ensures forall q: int {position(f, q)} :: 0 <= q < f.size && old(position(f, q)) ==> position(f, q)
	ensures forall i: int {mmhash(view(key), i)} :: 0 <= i < f.hashCount ==> position(f, probe(f, key, i))
	invariant forall q: int {position(f, q)} :: 0 <= q < f.size && old(position(f, q)) ==> position(f, q)
	invariant 0 <= _k <= f.hashCount
	invariant _k < f.hashCount
	invariant forall i: int {mmhash(view(key), i)} :: 0 <= i < _k ==> position(f, probe(f, key, i))

func (*Filter).MightHave(f, key) (b)
	requires filterOK(f)
	ensures (forall i: int {mmhash(view(key), i)} :: 0 <= i < f.hashCount ==> position(f, probe(f, key, i))) ==> b
	invariant 0 <= _k <= f.hashCount
	invariant _k < f.hashCount
	invariant forall i: int {mmhash(view(key), i)} :: 0 <= i < _k ==> position(f, probe(f, key, i))

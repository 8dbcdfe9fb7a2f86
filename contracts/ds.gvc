package util/ds

props C19 C16

// ---- insertion-ordered set
// l holds exactly the members of m, each once
define setOK(s) = forall x: T {count(s.l, x)} {has(s.m, x)} :: count(s.l, x) == (has(s.m, x) ? 1 : 0)

func NewSet(capacity) (s)
	requires capacity >= 0
	ensures s != nil && fresh(s) && fresh(s.m) && len(s.l) == 0 && setOK(s)
	ensures fresh(base(s.l)) || isnil(s.l)
	ensures forall x: T {has(s.m, x)} :: !has(s.m, x)

func (*Set).Has(s, x) (b)
	ensures b <==> has(s.m, x)

func (*Set).Add(s, v)
	requires s.m != nil && setOK(s)
	modifies s.l, map(s.m)
	ensures setOK(s)
	ensures forall x: T {has(s.m, x)} :: has(s.m, x) <==> old(has(s.m, x)) || count(v, x) > 0
	ensures s.l == old(s.l) || fresh(base(s.l))
	ensures len(s.l) >= old(len(s.l)) && (forall i: int {s.l[i]} :: 0 <= i < old(len(s.l)) ==> s.l[i] == old(s.l[i]))
	invariant setOK(s)
	invariant forall x: T {has(s.m, x)} :: has(s.m, x) <==> old(has(s.m, x)) || count(v[0:_k], x) > 0
	invariant len(s.l) >= old(len(s.l)) && (forall i: int {s.l[i]} :: 0 <= i < old(len(s.l)) ==> s.l[i] == old(s.l[i]))
	invariant s.l == old(s.l) || fresh(base(s.l))

func SetOf(vs) (s)
	ensures s != nil && fresh(s) && setOK(s) && s.m != nil
	ensures forall x: T {has(s.m, x)} :: has(s.m, x) <==> count(vs, x) > 0
	invariant s.m != nil && setOK(s) && fresh(s) && fresh(s.m)
	invariant forall x: T {has(s.m, x)} :: has(s.m, x) <==> count(vs[0:_k], x) > 0
func (*Set).Size(s) (n)
	option nilrecv
	ensures n == (s == nil ? 0 : len(s.l))
func (*Set).Slice(s) (l)
	ensures l == s.l

// the receiver of Added, Without and Diff stays as it is (readers may still hold it)
func (*Set).clone(s) (n)
	ensures fresh(n) && (fresh(base(n.l)) || isnil(n.l)) && (s.m != nil ==> fresh(n.m) && n.m != nil)
	ensures len(n.l) == len(s.l) && (forall i: int {n.l[i]} :: 0 <= i < len(s.l) ==> n.l[i] == s.l[i])
	ensures forall x: T {count(n.l, x)} :: count(n.l, x) == count(s.l, x)
	ensures forall x: T {has(n.m, x)} :: has(n.m, x) <==> has(s.m, x)
func (*Set).Added(s, v) (n)
	props C19 C18 C07 C08
	requires s.m != nil && setOK(s)
	ensures fresh(n) && setOK(n) && n.m != nil && allocated(n.m) && allocated(n.l)
	ensures forall x: T {has(n.m, x)} :: has(n.m, x) <==> has(s.m, x) || count(v, x) > 0
	ensures len(n.l) >= len(s.l) && (forall i: int {n.l[i]} :: 0 <= i < len(s.l) ==> n.l[i] == s.l[i])
func (*Set).Diff(s, s2) (n)
	props C19 C18 C07 C08
	requires setOK(s)
	ensures fresh(n) && setOK(n) && n.m != nil && allocated(n.m) && allocated(n.l)
	ensures forall x: T {has(n.m, x)} :: has(n.m, x) <==> has(s.m, x) && !has(s2.m, x)
	invariant setOK(diff)
	invariant fresh(diff) && fresh(diff.m)
	invariant fresh(base(diff.l)) || isnil(diff.l)
	invariant forall x: T {has(s2.m, x)} :: has(s2.m, x) <==> old(has(s2.m, x))
	invariant setOK(s)
	invariant _k <= len(s.l)
	invariant s.l == old(s.l)
	invariant forall i: int {s.l[i]} :: 0 <= i < len(s.l) ==> s.l[i] == old(s.l[i])
	invariant forall x: T {has(diff.m, x)} :: has(diff.m, x) ==> count(s.l[0:_k], x) > 0
	invariant forall x: T {has(diff.m, x)} :: has(diff.m, x) ==> !has(s2.m, x)
	invariant forall x: T {has(diff.m, x)} {count(s.l[0:_k], x)} :: count(s.l[0:_k], x) > 0 && !has(s2.m, x) ==> has(diff.m, x)

// ---- sorted map: the list of keys is exactly the map's domain, each once
define ascending(s) = forall i: int, j: int {s[i], s[j]} :: 0 <= i < j < len(s) ==> s[i] <= s[j]
define smOK(sm) = sm.m != nil && (forall x: K {count(sm.list, x)} {has(sm.m, x)} :: count(sm.list, x) == (has(sm.m, x) ? 1 : 0)) && (sm.isSorted ==> ascending(sm.list))

func NewSortedMap() (sm)
	ensures fresh(sm) && fresh(sm.m) && smOK(sm) && len(sm.list) == 0 && isnil(sm.list)
	ensures forall x: K {has(sm.m, x)} :: !has(sm.m, x)
func (*SortedMap).Set(sm, k, v) (new)
	requires smOK(sm)
	modifies sm.list, sm.isSorted, map(sm.m)
	ensures smOK(sm)
	ensures new <==> !old(has(sm.m, k))
	ensures has(sm.m, k) && sm.m[k] == v
	ensures forall x: K {has(sm.m, x)} :: x != k ==> (has(sm.m, x) <==> old(has(sm.m, x)))
	ensures forall x: K {sm.m[x]} :: x != k && has(sm.m, x) ==> sm.m[x] == old(sm.m[x])
	ensures len(sm.list) == old(len(sm.list)) + (new ? 1 : 0)
	ensures new ? fresh(base(sm.list)) : sm.list == old(sm.list)
func (*SortedMap).Get(sm, k) (v, ok)
	ensures ok <==> has(sm.m, k)
	ensures ok ==> v == sm.m[k]
func (*SortedMap).Has(sm, k) (ok)
	ensures ok <==> has(sm.m, k)
func (*SortedMap).ensureSorted(sm)
	requires sm.isSorted ==> ascending(sm.list)
	modifies elems(sm.list), sm.isSorted
	ensures forall x: K {count(sm.list, x)} :: count(sm.list, x) == old(count(sm.list, x))
	ensures ascending(sm.list)
func (*SortedMap).Keys(sm) (r)
	requires smOK(sm)
	modifies elems(sm.list), sm.isSorted
	ensures smOK(sm)
	ensures len(r) == len(sm.list) && ascending(r)
	ensures forall x: K {count(r, x)} {has(sm.m, x)} :: count(r, x) == (has(sm.m, x) ? 1 : 0)
func (*SortedMap).Values(sm) (r)
	option countmem
	requires smOK(sm)
	modifies elems(sm.list), sm.isSorted
	ensures smOK(sm) && fresh(r) && len(r) == len(sm.list)
	ensures forall i: int {r[i]} :: 0 <= i < len(r) ==> has(sm.m, sm.list[i]) && r[i] == sm.m[sm.list[i]]
	ensures forall i: int, j: int {sm.list[i], sm.list[j]} :: 0 <= i < j < len(r) ==> has(sm.m, sm.list[i]) && sm.list[i] < sm.list[j]
	invariant forall i: int {values[i]} :: 0 <= i < _k ==> values[i] == sm.m[sm.list[i]]
func (*SortedMap).Delete(sm, k) (removed)
	requires smOK(sm)
	modifies sm.list, sm.isSorted, elems(sm.list), map(sm.m)
	ensures smOK(sm)
	ensures removed <==> old(has(sm.m, k))
	ensures forall x: K {has(sm.m, x)} :: has(sm.m, x) <==> old(has(sm.m, x)) && x != k
	ensures forall x: K {sm.m[x]} :: has(sm.m, x) ==> sm.m[x] == old(sm.m[x])
	ensures len(sm.list) == old(len(sm.list)) - (removed ? 1 : 0)
	ensures base(sm.list) == old(base(sm.list))
func (*SortedMap).Size(sm) (n)
	ensures n == len(sm.list)

// ---- sorted cache: byteSize is the total length of the byte strings it holds. The B-tree is
// external: ghost set "tree" is its contents, ghost integer "treebytes" the sum of their lengths.
define cacheOK(s) = s.tree != nil && s.byteSize == ghost("treebytes", s.tree) && ghost("treelen", s.tree) >= 0

extern github.com/google/btree.(*BTreeG).ReplaceOrInsert(t, x) (prev, had)
	modifies ghostset("tree", t), ghost("treebytes", t), ghost("treelen", t)
	ensures had <==> old(ghostset("tree", t, view(x)))
	ensures had ==> view(prev) == view(x) && old(ghost("treebytes", t)) >= len(prev)
	ensures forall k: str {ghostset("tree", t, k)} :: ghostset("tree", t, k) <==> k == view(x) || old(ghostset("tree", t, k))
	ensures ghost("treebytes", t) == old(ghost("treebytes", t)) + (had ? 0 : len(x))
	ensures ghost("treelen", t) == old(ghost("treelen", t)) + (had ? 0 : 1)
	ensures ghost("treelen", t) >= 0
extern github.com/google/btree.(*BTreeG).DeleteMin(t) (x, ok)
	modifies ghostset("tree", t), ghost("treebytes", t), ghost("treelen", t)
	ensures ok <==> old(ghost("treelen", t)) > 0
	ensures ok ==> old(ghostset("tree", t, view(x))) && old(ghost("treebytes", t)) >= len(x)
	ensures ok ==> (forall k: str {ghostset("tree", t, k)} :: old(ghostset("tree", t, k)) ==> k == view(x) || strlt(view(x), k))
	ensures forall k: str {ghostset("tree", t, k)} :: ghostset("tree", t, k) <==> old(ghostset("tree", t, k)) && !(ok && k == view(x))
	ensures ghost("treebytes", t) == old(ghost("treebytes", t)) - (ok ? len(x) : 0)
	ensures ghost("treelen", t) == old(ghost("treelen", t)) - (ok ? 1 : 0)
	ensures ghost("treelen", t) >= 0
extern github.com/google/btree.(*BTreeG).DeleteMax(t) (x, ok)
	modifies ghostset("tree", t), ghost("treebytes", t), ghost("treelen", t)
	ensures ok <==> old(ghost("treelen", t)) > 0
	ensures ok ==> old(ghostset("tree", t, view(x))) && old(ghost("treebytes", t)) >= len(x)
	ensures ok ==> (forall k: str {ghostset("tree", t, k)} :: old(ghostset("tree", t, k)) ==> k == view(x) || strlt(k, view(x)))
	ensures forall k: str {ghostset("tree", t, k)} :: ghostset("tree", t, k) <==> old(ghostset("tree", t, k)) && !(ok && k == view(x))
	ensures ghost("treebytes", t) == old(ghost("treebytes", t)) - (ok ? len(x) : 0)
	ensures ghost("treelen", t) == old(ghost("treelen", t)) - (ok ? 1 : 0)
	ensures ghost("treelen", t) >= 0
extern github.com/google/btree.(*BTreeG).Delete(t, key) (x, ok)
	modifies ghostset("tree", t), ghost("treebytes", t), ghost("treelen", t)
	ensures ok <==> old(ghostset("tree", t, view(key)))
	ensures ok ==> view(x) == view(key) && old(ghost("treebytes", t)) >= len(x)
	ensures forall k: str {ghostset("tree", t, k)} :: ghostset("tree", t, k) <==> old(ghostset("tree", t, k)) && k != view(key)
	ensures ghost("treebytes", t) == old(ghost("treebytes", t)) - (ok ? len(x) : 0)
	ensures ghost("treelen", t) == old(ghost("treelen", t)) - (ok ? 1 : 0)
	ensures ghost("treelen", t) >= 0
extern github.com/google/btree.(*BTreeG).Min(t) (x, ok)
	ensures ok <==> ghost("treelen", t) > 0
	ensures ok ==> ghostset("tree", t, view(x))
	ensures ok ==> (forall k: str {ghostset("tree", t, k)} :: ghostset("tree", t, k) ==> k == view(x) || strlt(view(x), k))
extern github.com/google/btree.(*BTreeG).Len(t) (n)
	ensures n == ghost("treelen", t)

func (*SortedCache).Push(s, v)
	props C19 C10
	requires cacheOK(s) && 0 <= ghost("treebytes", s.tree) < 4611686018427387904
	modifies s.byteSize, ghostset("tree", s.tree), ghost("treebytes", s.tree), ghost("treelen", s.tree)
	ensures cacheOK(s)
	ensures forall k: str {ghostset("tree", s.tree, k)} :: ghostset("tree", s.tree, k) <==> k == view(v) || old(ghostset("tree", s.tree, k))
func (*SortedCache).Pop(s) (x, ok)
	props C19 C10
	requires cacheOK(s)
	modifies s.byteSize, ghostset("tree", s.tree), ghost("treebytes", s.tree), ghost("treelen", s.tree)
	ensures cacheOK(s) && (ok <==> old(ghost("treelen", s.tree)) > 0)
	ensures ok ==> old(ghostset("tree", s.tree, view(x)))
	ensures ok ==> (forall k: str :: old(ghostset("tree", s.tree, k)) ==> k == view(x) || strlt(view(x), k))
	ensures forall k: str {ghostset("tree", s.tree, k)} :: ghostset("tree", s.tree, k) <==> old(ghostset("tree", s.tree, k)) && !(ok && k == view(x))
func (*SortedCache).PopLast(s) (x, ok)
	props C19 C10
	requires cacheOK(s)
	modifies s.byteSize, ghostset("tree", s.tree), ghost("treebytes", s.tree), ghost("treelen", s.tree)
	ensures cacheOK(s) && (ok <==> old(ghost("treelen", s.tree)) > 0)
	ensures ok ==> (forall k: str :: old(ghostset("tree", s.tree, k)) ==> k == view(x) || strlt(k, view(x)))
	ensures forall k: str {ghostset("tree", s.tree, k)} :: ghostset("tree", s.tree, k) <==> old(ghostset("tree", s.tree, k)) && !(ok && k == view(x))
func (*SortedCache).Delete(s, key)
	props C19 C10
	requires cacheOK(s)
	modifies s.byteSize, ghostset("tree", s.tree), ghost("treebytes", s.tree), ghost("treelen", s.tree)
	ensures cacheOK(s)
	ensures forall k: str {ghostset("tree", s.tree, k)} :: ghostset("tree", s.tree, k) <==> old(ghostset("tree", s.tree, k)) && k != view(key)
func (*SortedCache).Peek(s) (x, ok)
	props C19 C10
	requires cacheOK(s)
	ensures ok <==> ghost("treelen", s.tree) > 0
	ensures ok ==> ghostset("tree", s.tree, view(x))
	ensures ok ==> (forall k: str :: ghostset("tree", s.tree, k) ==> k == view(x) || strlt(view(x), k))
func (*SortedCache).IsEmpty(s) (b)
	props C19 C10
	requires cacheOK(s)
	ensures b <==> ghost("treelen", s.tree) == 0
func (*SortedCache).IsFull(s) (b)
	props C19 C10
	requires cacheOK(s)
	ensures b <==> ghost("treebytes", s.tree) >= s.maxSizeBytes

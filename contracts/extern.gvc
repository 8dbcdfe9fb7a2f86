package dkv/storage

props C08

// ---- dependencies (assumed): what callers may rely on and what these calls may touch
extern sync/atomic.(*Bool).Load(x) (b)
	modifies nothing
extern sync/atomic.(*Bool).CompareAndSwap(x, a, c) (b)
	modifies nothing
extern sync/atomic.(*Bool).Store(x, b)
	modifies nothing
ufun fileuri(File) string
iface reduction.dev/reduction/dkv/storage.(File).URI(f) (u)
	modifies nothing
	ensures u == fileuri(f)
iface reduction.dev/reduction/dkv/storage.(File).Name(f) (u)
	modifies nothing
iface reduction.dev/reduction/dkv/storage.(FileSystem).New(f, n) (u)
	modifies nothing
extern io.ReadAll(r) (data, err)
	modifies nothing
	ensures fresh(base(data))
// ---- package slices (assumed)
extern slices.SortFunc(x, cmp)
	modifies elems(x)
	ensures forall i: int, j: int {x[i], x[j]} :: 0 <= i < j < len(x) ==> call(cmp, x[i], x[j]) <= 0
	ensures forall e: E {count(x, e)} :: count(x, e) == old(count(x, e))
extern slices.Sort(x)
	modifies elems(x)
	ensures forall i: int, j: int {x[i], x[j]} :: 0 <= i < j < len(x) ==> x[i] <= x[j]
	ensures forall e: E {count(x, e)} :: count(x, e) == old(count(x, e))
extern slices.BinarySearch(x, target) (i, found)
	requires forall i: int, j: int {x[i], x[j]} :: 0 <= i < j < len(x) ==> x[i] <= x[j]
	modifies nothing
	ensures 0 <= i <= len(x) && (found ==> i < len(x) && x[i] == target)
	ensures found <==> count(x, target) > 0
extern slices.Index(x, target) (i)
	modifies nothing
	ensures 0 - 1 <= i < len(x) && (i >= 0 ==> x[i] == target)
	ensures i >= 0 <==> count(x, target) > 0
extern slices.Contains(x, target) (b)
	modifies nothing
	ensures b <==> count(x, target) > 0
extern slices.Clone(x) (r)
	modifies nothing
	ensures len(r) == len(x) && (fresh(base(r)) || isnil(r))
	ensures forall i: int {r[i]} :: 0 <= i < len(x) ==> r[i] == x[i]
	ensures forall e: E {count(r, e)} :: count(r, e) == count(x, e)
extern maps.Clone(x) (r)
	modifies nothing
	ensures (x == nil ==> r == nil) && (x != nil ==> r != nil && fresh(r))
	ensures forall k: K {has(r, k)} :: has(r, k) <==> has(x, k)
	ensures forall k: K {r[k]} :: has(r, k) ==> r[k] == x[k]
extern slices.Delete(s, i, j) (r)
	requires 0 <= i <= j <= len(s)
	modifies elems(s)
	ensures base(r) == base(s) && off(r) == off(s) && len(r) == len(s) - (j - i)
	ensures forall k: int {r[k]} :: 0 <= k < i ==> r[k] == old(s[k])
	ensures forall k: int {r[k]} :: i <= k < len(r) ==> r[k] == old(s[k + (j - i)])
	ensures forall e: E {count(r, e)} :: count(r, e) == old(count(s, e)) - old(count(s[i:j], e))

package util/ds

props C19 C10

// compare is a total preorder on the elements (the precondition under which a heap makes sense)
ufun preorder(int) bool
axiom preTotal: forall f: int, a: tp_T, b: tp_T {preorder(f), apply(f, a, b)} :: preorder(f) ==> (apply(f, a, b) <= 0 || apply(f, b, a) <= 0) && (apply(f, a, b) < 0 <==> apply(f, b, a) > 0)
axiom preTrans: forall f: int, a: tp_T, b: tp_T, c: tp_T {preorder(f), apply(f, a, b), apply(f, b, c)} :: preorder(f) && apply(f, a, b) <= 0 && apply(f, b, c) <= 0 ==> apply(f, a, c) <= 0
// every element is no smaller than its parent
define heapOrd(s, f) = forall j: int {s[j]} :: 1 <= j < len(s) ==> call(f, s[(j-1)/2], s[j]) <= 0
// the first element is minimal (follows from heapOrd by induction: lemma heapMin)
define rootMin(s, f) = forall j: int {s[j]} :: 0 <= j < len(s) ==> call(f, s[0], s[j]) <= 0

lemma[i] heapMinUp: forall f: int, a: arr_T, o: int, i: int {preorder(f), apply(f, a[o], a[o+i])} ::
	preorder(f) && 0 <= i && (forall j: int {a[o+j]} :: 1 <= j <= i ==> apply(f, a[o+(j-1)/2], a[o+j]) <= 0)
	==> (i == 0 || apply(f, a[o], a[o+(i-1)/2]) <= 0) && apply(f, a[o], a[o+i]) <= 0
	uses preTotal preTrans
lemma heapMin: forall f: int, a: arr_T, o: int, i: int {preorder(f), apply(f, a[o], a[o+i])} ::
	preorder(f) && 0 <= i && (forall j: int {a[o+j]} :: 1 <= j <= i ==> apply(f, a[o+(j-1)/2], a[o+j]) <= 0)
	==> apply(f, a[o], a[o+i]) <= 0
	uses heapMinUp

func (*Heap).Push(h, x)
	option callbacks=pure
	uses preTotal preTrans
	requires preorder(h.compare) && heapOrd(h.data, h.compare)
	modifies h.data, elems(h.data)
	ensures len(h.data) == old(len(h.data)) + 1
	ensures forall y: T {count(h.data, y)} :: count(h.data, y) == old(count(h.data, y)) + (y == x ? 1 : 0)
	ensures heapOrd(h.data, h.compare)

func (*Heap).Pop(h) (x, ok)
	option callbacks=pure
	uses heapMin preTotal preTrans
	requires preorder(h.compare) && heapOrd(h.data, h.compare)
	modifies h.data, elems(h.data)
	ensures ok <==> old(len(h.data)) > 0
	ensures ok ==> len(h.data) == old(len(h.data)) - 1
	ensures ok ==> (forall y: T {count(h.data, y)} :: count(h.data, y) == old(count(h.data, y)) - (y == x ? 1 : 0))
	ensures ok ==> x == old(h.data[0])
	ensures ok ==> (forall j: int :: 0 <= j < old(len(h.data)) ==> call(h.compare, x, old(h.data[j])) <= 0)
	ensures !ok ==> len(h.data) == 0
	ensures heapOrd(h.data, h.compare)

func (*Heap).Peek(h) (x, ok)
	option callbacks=pure
	uses heapMin preTotal preTrans
	requires preorder(h.compare) && heapOrd(h.data, h.compare)
	ensures ok <==> len(h.data) > 0
	ensures ok ==> (forall j: int {h.data[j]} :: 0 <= j < len(h.data) ==> call(h.compare, x, h.data[j]) <= 0)

func (*Heap).Size(h) (n)
	ensures n == len(h.data)
func (*Heap).IsEmpty(h) (b)
	ensures b <==> len(h.data) == 0

// ordered everywhere except possibly between i and its neighbours, whose order among themselves holds
define heapExcept(s, f, i) =
	(forall j: int {s[j]} :: 1 <= j < len(s) && j != i && (j-1)/2 != i ==> call(f, s[(j-1)/2], s[j]) <= 0)
	&& (forall j: int {s[j]} :: 1 <= j < len(s) && i >= 1 && (j-1)/2 == i ==> call(f, s[(i-1)/2], s[j]) <= 0)

func (*Heap).Fix(h, i)
	option callbacks=pure
	uses preTotal preTrans
	requires preorder(h.compare) && -1 <= i < len(h.data)
	requires i == -1 ==> heapOrd(h.data, h.compare)
	requires i >= 0 ==> heapExcept(h.data, h.compare, i)
	modifies elems(h.data)
	ensures forall y: T {count(h.data, y)} :: count(h.data, y) == old(count(h.data, y))
	ensures heapOrd(h.data, h.compare)

func (*Heap).down(h, i) (moved)
	option callbacks=pure
	uses preTotal preTrans
	requires preorder(h.compare) && 0 <= i < len(h.data)
	requires heapExcept(h.data, h.compare, i)
	modifies elems(h.data)
	ensures forall y: T {count(h.data, y)} :: count(h.data, y) == old(count(h.data, y))
	ensures moved ==> heapOrd(h.data, h.compare)
	ensures i == 0 ==> heapOrd(h.data, h.compare)
	ensures !moved ==> (forall j: int {h.data[j]} :: 0 <= j < len(h.data) ==> h.data[j] == old(h.data[j]))
	ensures !moved ==> (forall j: int {h.data[j]} :: 1 <= j < len(h.data) && j != i ==> call(h.compare, h.data[(j-1)/2], h.data[j]) <= 0)
	invariant i0 <= i < len(h.data)
	invariant forall y: T {count(h.data, y)} :: count(h.data, y) == old(count(h.data, y))
	invariant i == i0 ==> (forall j: int {h.data[j]} :: 0 <= j < len(h.data) ==> h.data[j] == old(h.data[j]))
	invariant i == i0 ==> heapExcept(h.data, h.compare, i)
	invariant i > i0 ==> (forall j: int {h.data[j]} :: 1 <= j < len(h.data) && (j-1)/2 != i ==> call(h.compare, h.data[(j-1)/2], h.data[j]) <= 0)
	invariant i > i0 ==> (forall j: int {h.data[j]} :: 1 <= j < len(h.data) && (j-1)/2 == i ==> call(h.compare, h.data[(i-1)/2], h.data[j]) <= 0)

func (*Heap).up(h, i)
	option callbacks=pure
	uses preTotal preTrans
	requires preorder(h.compare) && 0 <= i < len(h.data)
	requires forall j: int {h.data[j]} :: 1 <= j < len(h.data) && j != i ==> call(h.compare, h.data[(j-1)/2], h.data[j]) <= 0
	requires forall j: int {h.data[j]} :: 1 <= j < len(h.data) && i >= 1 && (j-1)/2 == i ==> call(h.compare, h.data[(i-1)/2], h.data[j]) <= 0
	modifies elems(h.data)
	ensures forall y: T {count(h.data, y)} :: count(h.data, y) == old(count(h.data, y))
	ensures heapOrd(h.data, h.compare)
	invariant 0 <= i < len(h.data)
	invariant forall y: T {count(h.data, y)} :: count(h.data, y) == old(count(h.data, y))
	invariant forall j: int {h.data[j]} :: 1 <= j < len(h.data) && j != i ==> call(h.compare, h.data[(j-1)/2], h.data[j]) <= 0
	invariant forall j: int {h.data[j]} :: 1 <= j < len(h.data) && i >= 1 && (j-1)/2 == i ==> call(h.compare, h.data[(i-1)/2], h.data[j]) <= 0

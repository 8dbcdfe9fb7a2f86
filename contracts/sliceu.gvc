package util/sliceu

props C19 C07 C18 C16

// the three-way results of cmp against the target fall from negative over at most one zero to positive
define unimodal(x, target, cmp) =
	forall i: int, j: int {call(cmp, x[i], target), call(cmp, x[j], target)} :: 0 <= i < j < len(x) ==>
		(call(cmp, x[j], target) <= 0 ==> call(cmp, x[i], target) < 0) && (call(cmp, x[i], target) >= 0 ==> call(cmp, x[j], target) > 0)

func SearchUnique(x, target, cmp) (idx, ok)
	option callbacks=pure
	requires unimodal(x, target, cmp)
	ensures ok ==> 0 <= idx < len(x) && call(cmp, x[idx], target) == 0
	ensures !ok ==> (forall i: int :: 0 <= i < len(x) ==> call(cmp, x[i], target) != 0)
	invariant 0 <= low <= high <= len(x)
	invariant forall i: int {call(cmp, x[i], target)} :: 0 <= i < low ==> call(cmp, x[i], target) < 0
	invariant forall i: int {call(cmp, x[i], target)} :: high <= i < len(x) ==> call(cmp, x[i], target) > 0

func Without(s, item) (r)
	props C02 C19
	modifies elems(s)
	ensures len(r) == len(s) - (old(count(s, item)) > 0 ? 1 : 0)
	ensures forall x: T {count(r, x)} :: count(r, x) == old(count(s, x)) - (x == item && old(count(s, item)) > 0 ? 1 : 0)
	ensures base(r) == base(s)

func KeyMap(sl) (m)
	props C02
	ensures fresh(m) && m != nil
	ensures forall x: T {has(m, x)} :: has(m, x) <==> count(sl, x) > 0
	invariant forall x: T {has(out, x)} :: has(out, x) <==> count(sl[0:_k], x) > 0

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func basicKind(t types.Type) types.BasicKind {
	if b, ok := under(t).(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}
func bitsOf(k types.BasicKind) (uint, bool) { // bits, signed
	switch k {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func (v *VC) setUB(t *T, b *big.Int) {
	if o := v.ub[t]; o == nil || o.Cmp(b) > 0 {
		v.ub[t] = b
	}
}
func (v *VC) upper(t *T) *big.Int {
	if t.ival != nil && t.ival.Sign() >= 0 {
		return t.ival
	}
	return v.ub[t]
}

// wrap brings a mathematical result into the range of t (exact for <= 32 bits; 64-bit
// addition and multiplication are treated as mathematical and noted).
func (v *VC) wrap(x *T, t types.Type) *T {
	c := v.c
	bits, signed := bitsOf(basicKind(t))
	if bits == 0 || bits == 64 {
		return x
	}
	if !signed {
		if u := v.upper(x); u != nil && u.Cmp(pow2(bits)) < 0 {
			return x
		}
		if x.ival != nil {
			return c.BigInt(new(big.Int).Mod(x.ival, pow2(bits)))
		}
		r := c.Mod(x, c.BigInt(pow2(bits)))
		v.setUB(r, new(big.Int).Sub(pow2(bits), big.NewInt(1)))
		return r
	}
	h := c.BigInt(pow2(bits - 1))
	if x.ival != nil && x.ival.CmpAbs(pow2(bits-1)) < 0 {
		return x
	}
	return c.Sub(c.Mod(c.Add(x, h), c.BigInt(pow2(bits))), h)
}

func (v *VC) binop(st *State, op token.Token, xv, yv Val, xt, yt, rt types.Type) *T {
	c := v.c
	if op == token.EQL || op == token.NEQ {
		r := v.equal(xv, yv, xt)
		if op == token.NEQ {
			return c.Not(r)
		}
		return r
	}
	x, y := v.term(xv), v.term(yv)
	if x.sort == SBV32 {
		return v.bvop(op, x, y, rt)
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.sort == SStr || strings.HasPrefix(x.sort.Name, "TP_") {
			lt := v.less
			switch op {
			case token.LSS:
				return lt(x, y)
			case token.GTR:
				return lt(y, x)
			case token.LEQ:
				return c.Not(lt(y, x))
			default:
				return c.Not(lt(x, y))
			}
		}
		switch op {
		case token.LSS:
			return c.Lt(x, y)
		case token.LEQ:
			return c.Le(x, y)
		case token.GTR:
			return c.Gt(x, y)
		default:
			return c.Ge(x, y)
		}
	case token.LAND:
		return c.And(x, y)
	case token.LOR:
		return c.Or(x, y)
	}
	if x.sort == SStr && op == token.ADD {
		return c.App("str_cat", SStr, x, y)
	}
	if x.sort == SReal {
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.QUO:
			return c.mk("/", SReal, x, y)
		}
	}
	if x.sort == SBool {
		switch op {
		case token.AND:
			return c.And(x, y)
		case token.OR:
			return c.Or(x, y)
		case token.XOR:
			return c.Not(c.Eq(x, y))
		}
	}
	if x.sort != SInt {
		v.unsup("operator %s on %s", op, x.sort.Name)
	}
	bits, signed := bitsOf(basicKind(rt))
	switch op {
	case token.ADD:
		r := c.Add(x, y)
		if a, b := v.upper(x), v.upper(y); a != nil && b != nil && !signed {
			v.setUB(r, new(big.Int).Add(a, b))
		}
		return v.wrap(r, rt)
	case token.SUB:
		r := c.Sub(x, y)
		if !signed && bits == 64 {
			if x.ival != nil && y.ival != nil && r.ival.Sign() >= 0 {
				return r
			}
			return c.Ite(c.Ge(x, y), r, c.Add(r, c.BigInt(pow2(64))))
		}
		if !signed {
			return c.Mod(r, c.BigInt(pow2(bits)))
		}
		return v.wrap(r, rt)
	case token.MUL:
		r := c.Mul(x, y)
		if a, b := v.upper(x), v.upper(y); a != nil && b != nil && !signed {
			v.setUB(r, new(big.Int).Mul(a, b))
		}
		return v.wrap(r, rt)
	case token.QUO, token.REM:
		v.check("div", "division by zero", c.Not(c.Eq(y, c.Int(0))))
		return v.goDiv(op == token.REM, x, y, signed)
	case token.SHL:
		if y.ival != nil && y.ival.IsInt64() && y.ival.Int64() < 256 {
			n := uint(y.ival.Int64())
			r := c.Mul(x, c.BigInt(pow2(n)))
			if u := v.upper(x); u != nil && !signed {
				v.setUB(r, new(big.Int).Lsh(u, n))
			}
			if !signed && bits == 64 {
				if u := v.upper(r); u == nil || u.Cmp(pow2(64)) >= 0 {
					if r.ival == nil {
						r = c.Mod(r, c.BigInt(pow2(64)))
					}
				}
			} else {
				r = v.wrap(r, rt)
			}
			v.lowz[r] = int(n)
			return r
		}
		if x.ival != nil && x.ival.Cmp(big.NewInt(1)) == 0 && !signed && bits > 0 {
			r := v.pow2T(y)
			if u := v.upper(y); u == nil || u.Cmp(big.NewInt(int64(bits))) >= 0 {
				r = c.Ite(c.Lt(y, c.Int(int64(bits))), r, c.Int(0))
			}
			v.setUB(r, new(big.Int).Sub(pow2(uint(bits)), big.NewInt(1)))
			return r
		}
		return v.wrap(c.Mul(x, v.pow2T(y)), rt)
	case token.SHR:
		var d *T
		if y.ival != nil {
			d = c.BigInt(pow2(uint(y.ival.Int64())))
		} else {
			d = v.pow2T(y)
		}
		r := c.Div(x, d)
		if u := v.upper(x); u != nil {
			if d.ival != nil {
				v.setUB(r, new(big.Int).Div(u, d.ival))
			} else {
				v.setUB(r, u)
			}
		}
		return r
	case token.AND:
		if x.ival != nil {
			x, y = y, x
		}
		if y.ival != nil {
			if x.ival != nil {
				return c.BigInt(new(big.Int).And(x.ival, y.ival))
			}
			m := new(big.Int).Add(y.ival, big.NewInt(1))
			if y.ival.Sign() > 0 && new(big.Int).And(m, y.ival).Sign() == 0 {
				r := c.Mod(x, c.BigInt(m))
				v.setUB(r, y.ival)
				return r
			}
		}
		if on := v.bitOn(x, y, rt); on != nil {
			r := c.Ite(on, y, c.Int(0))
			v.setUB(r, y.ival)
			return r
		}
		r := c.App("bv_and", SInt, order(x, y)...)
		if u := v.upper(y); u != nil {
			v.setUB(r, u)
		}
		v.bitFacts(r, x, y)
		return r
	case token.OR:
		if a := v.disjointOr(x, y); a != nil {
			return a
		}
		if a := v.disjointOr(y, x); a != nil {
			return a
		}
		if x.ival != nil && y.ival == nil {
			x, y = y, x
		}
		if on := v.bitOn(x, y, rt); on != nil {
			return c.Ite(on, x, c.Add(x, y))
		}
		r := c.App("bv_or", SInt, order(x, y)...)
		if a, b := v.upper(x), v.upper(y); a != nil && b != nil {
			n := a.BitLen()
			if b.BitLen() > n {
				n = b.BitLen()
			}
			v.setUB(r, new(big.Int).Sub(pow2(uint(n)), big.NewInt(1)))
		}
		v.rawFact(c.Imp(c.And(c.Ge(x, c.Int(0)), c.Ge(y, c.Int(0))), c.And(c.Ge(r, x), c.Ge(r, y), c.Le(r, c.Add(x, y)))))
		return r
	case token.XOR:
		if x.ival != nil && y.ival == nil {
			x, y = y, x
		}
		if on := v.bitOn(x, y, rt); on != nil {
			return c.Ite(on, c.Sub(x, y), c.Add(x, y))
		}
		return c.App("bv_xor", SInt, order(x, y)...)
	case token.AND_NOT:
		if on := v.bitOn(x, y, rt); on != nil {
			return c.Ite(on, c.Sub(x, y), x)
		}
		return c.App("bv_andnot", SInt, x, y)
	}
	v.unsup("operator %s", op)
	return nil
}

// bitOn says whether the only bit of the constant m is set in x (nil: m is no such constant)
func (v *VC) bitOn(x, m *T, rt types.Type) *T {
	if m.ival == nil || m.ival.Sign() <= 0 || x.ival != nil {
		return nil
	}
	if new(big.Int).And(m.ival, new(big.Int).Sub(m.ival, big.NewInt(1))).Sign() != 0 {
		return nil
	}
	c := v.c
	b, signed := bitsOf(basicKind(rt))
	if b > 0 && !signed && m.ival.BitLen() == int(b) {
		return c.Ge(x, m)
	}
	return c.Eq(c.Mod(c.Div(x, m), c.Int(2)), c.Int(1))
}
func order(x, y *T) []*T {
	if x.id > y.id {
		return []*T{y, x}
	}
	return []*T{x, y}
}
func (v *VC) bitFacts(r, x, y *T) {
	c := v.c
	v.rawFact(c.Imp(c.And(c.Ge(x, c.Int(0)), c.Ge(y, c.Int(0))), c.And(c.Ge(r, c.Int(0)), c.Le(r, x), c.Le(r, y))))
}

// x is a multiple of 2^n and y < 2^n: x|y == x+y
func (v *VC) disjointOr(x, y *T) *T {
	n := v.lowz[x]
	if x.ival != nil && x.ival.Sign() == 0 {
		return y
	}
	if n == 0 && x.op == "+" && len(x.args) == 2 {
		a, b := v.lowz[x.args[0]], v.lowz[x.args[1]]
		n = min(a, b)
	}
	if n == 0 {
		return nil
	}
	u := v.upper(y)
	if u == nil || u.BitLen() > n {
		return nil
	}
	r := v.c.Add(x, y)
	if a := v.upper(x); a != nil {
		v.setUB(r, new(big.Int).Add(a, u))
	}
	if ly := v.lowz[y]; ly > 0 {
		v.lowz[r] = min(n, ly)
	}
	return r
}

func (v *VC) pow2T(n *T) *T {
	t := v.c.App("pow2", SInt, n)
	v.rawFact(v.c.Ge(t, v.c.Int(1)))
	return t
}

func (v *VC) goDiv(rem bool, x, y *T, signed bool) *T {
	c := v.c
	if y.ival == nil && !x.open && !y.open {
		q, r := c.Div(x, y), c.Mod(x, y)
		v.rawFact(c.Imp(c.Gt(y, c.Int(0)), c.And(c.Eq(x, c.Add(c.Mul(y, q), r)), c.Ge(r, c.Int(0)), c.Lt(r, y), c.Imp(c.Ge(x, c.Int(0)), c.Ge(q, c.Int(0))))))
	}
	nonneg := func(t *T) bool {
		return t.ival != nil && t.ival.Sign() >= 0 || v.ub[t] != nil || v.isLenTerm(t)
	}
	if !signed || nonneg(x) && nonneg(y) {
		if rem {
			r := c.Mod(x, y)
			if u := v.upper(y); u != nil && u.Sign() > 0 {
				v.setUB(r, new(big.Int).Sub(u, big.NewInt(1)))
			}
			return r
		}
		r := c.Div(x, y)
		if u := v.upper(x); u != nil {
			v.setUB(r, u)
		}
		return r
	}
	z := c.Int(0)
	neg := func(t *T) *T { return c.Sub(z, t) }
	var q *T
	if y.ival != nil && y.ival.Sign() > 0 {
		q = c.Ite(c.Ge(x, z), c.Div(x, y), neg(c.Div(neg(x), y)))
		if rem {
			return c.Ite(c.Ge(x, z), c.Mod(x, y), neg(c.Mod(neg(x), y)))
		}
		return q
	}
	if rem {
		return c.Ite(c.Ge(x, z), c.Mod(x, y), neg(c.Mod(neg(x), y)))
	}
	return c.Ite(c.Ge(x, z), c.Div(x, y), neg(c.Div(neg(x), y)))
}
func (v *VC) isLenTerm(t *T) bool {
	return t.op == "sl_len" || t.op == "slen" || t.op == "sl_cap"
}

func (v *VC) bvop(op token.Token, x, y *T, rt types.Type) *T {
	c := v.c
	if y.sort == SInt {
		// shift count of another integer type
		if y.ival != nil {
			y = c.mk(fmt.Sprintf("#x%08x", y.ival.Int64()), SBV32)
		} else {
			y = c.mk("(_ int2bv 32)", SBV32, y)
		}
	}
	f := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor",
		token.SHL: "bvshl", token.SHR: "bvlshr", token.QUO: "bvudiv", token.REM: "bvurem"}[op]
	if f != "" {
		if op == token.QUO || op == token.REM {
			v.check("div", "division by zero", c.Not(c.Eq(y, c.mk("#x00000000", SBV32))))
		}
		return c.mk(f, SBV32, x, y)
	}
	g := map[token.Token]string{token.LSS: "bvult", token.LEQ: "bvule", token.GTR: "bvugt", token.GEQ: "bvuge"}[op]
	if g != "" {
		return c.mk(g, SBool, x, y)
	}
	v.unsup("bv op %s", op)
	return nil
}

func (v *VC) equal(x, y Val, t types.Type) *T {
	c := v.c
	// comparison of closures with nil
	if x.clo != nil && y.t != nil && y.t.ival != nil || y.clo != nil && x.t != nil && x.t.ival != nil {
		return c.False()
	}
	if x.addr != nil && len(x.addr.path) > 0 || y.addr != nil && len(y.addr.path) > 0 {
		if x.t != nil && x.t.ival != nil || y.t != nil && y.t.ival != nil {
			return c.False()
		}
		v.unsup("comparison of interior pointers")
	}
	a, b := v.term(x), v.term(y)
	if a.sort == SSlice {
		// only comparison with nil is legal
		if b.op == "mkslice" && b.args[0].ival != nil {
			return c.Eq(c.Sel(a, 0), c.Int(0))
		}
		return c.Eq(c.Sel(b, 0), c.Int(0))
	}
	return c.Eq(a, b)
}

func (v *VC) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	c := v.c
	switch x.Op {
	case token.MUL:
		y := v.val(fr, x.X)
		pt := under(x.X.Type()).(*types.Pointer)
		if y.t != nil {
			v.nilCheck(y)
		}
		a := v.derefAddr(y, pt.Elem())
		t := v.load(st, a, x.Type())
		if cl, ok := v.clos[t]; ok {
			return Val{clo: cl, t: t}
		}
		return Val{t: t}
	case token.NOT:
		return Val{t: c.Not(v.term(v.val(fr, x.X)))}
	case token.SUB:
		y := v.term(v.val(fr, x.X))
		if y.sort == SBV32 {
			return Val{t: c.mk("bvneg", SBV32, y)}
		}
		if y.sort == SReal {
			return Val{t: c.mk("-", SReal, y)}
		}
		if b, signed := bitsOf(basicKind(x.Type())); !signed && b > 0 {
			return Val{t: c.Mod(c.Sub(c.Int(0), y), c.BigInt(pow2(b)))}
		}
		return Val{t: v.wrap(c.Sub(c.Int(0), y), x.Type())}
	case token.XOR:
		y := v.term(v.val(fr, x.X))
		if y.sort == SBV32 {
			return Val{t: c.mk("bvnot", SBV32, y)}
		}
		b, signed := bitsOf(basicKind(x.Type()))
		if signed {
			return Val{t: c.Sub(c.Int(-1), y)}
		}
		return Val{t: c.Sub(c.BigInt(new(big.Int).Sub(pow2(b), big.NewInt(1))), y)}
	case token.ARROW:
		et := under(x.X.Type()).(*types.Chan).Elem()
		r := v.freshVal("recv", et, st)
		if x.CommaOk {
			return Val{tup: []Val{r, {t: c.Fresh("recvok", SBool)}}}
		}
		return r
	}
	v.unsup("unary %s", x.Op)
	return Val{}
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && basicKind(s.Elem()) == types.Uint8
}

func (v *VC) convert(st *State, xv Val, from, to types.Type) *T {
	c := v.c
	x := v.term(xv)
	fk, tk := basicKind(from), basicKind(to)
	fb, fs := bitsOf(fk)
	tb, ts := bitsOf(tk)
	toS := v.sortOf(to)
	switch {
	case fb > 0 && tb > 0:
		if x.sort == SBV32 && toS == SBV32 {
			return x
		}
		if x.sort == SBV32 {
			n := c.mk("bv2nat", SInt, x)
			v.setUB(n, new(big.Int).Sub(pow2(32), big.NewInt(1)))
			return v.wrap(n, to)
		}
		if toS == SBV32 {
			if x.ival != nil {
				return c.mk(fmt.Sprintf("#x%08x", x.ival.Uint64()&0xffffffff), SBV32)
			}
			return c.mk("(_ int2bv 32)", SBV32, x)
		}
		if fb < tb && (!fs || ts) {
			return x
		}
		if fb == tb && fs == ts {
			return x
		}
		if tb == 64 && !ts && fs { // signed -> uint64
			if x.ival != nil && x.ival.Sign() >= 0 || v.isLenTerm(x) {
				return x
			}
			return c.Ite(c.Ge(x, c.Int(0)), x, c.Add(x, c.BigInt(pow2(64))))
		}
		if tb == 64 && ts && fb == 64 { // uint64 -> int64
			if u := v.upper(x); u != nil && u.Cmp(pow2(63)) < 0 {
				return x
			}
			if x.op == "ite" && x.args[1].sort == SInt { // round trip of int64 -> uint64
				if d := c.linDiff(x.args[2], x.args[1]); d != nil && d.Cmp(pow2(64)) == 0 {
					return x.args[1]
				}
			}
			return c.Ite(c.Lt(x, c.BigInt(pow2(63))), x, c.Sub(x, c.BigInt(pow2(64))))
		}
		return v.wrap(x, to)
	case fb > 0 && toS == SReal:
		return c.mk("to_real", SReal, x)
	case x.sort == SReal && tb > 0:
		// truncation towards zero
		fl := c.mk("to_int", SInt, x)
		return c.Ite(c.mk(">=", SBool, x, c.mk("0.0", SReal)), fl, c.Sub(c.Int(0), c.mk("to_int", SInt, c.mk("-", SReal, x))))
	case x.sort == SReal && toS == SReal:
		return x
	case x.sort == SSlice && toS == SStr && isByteSlice(from):
		return v.view(st, x)
	case x.sort == SStr && toS == SSlice && isByteSlice(to):
		return v.bytesOf(st, x)
	case x.sort == SStr && toS == SStr:
		return x
	case x.sort.Name == toS.Name:
		return x
	}
	v.unsup("conversion %s -> %s", typeKey(from), typeKey(to))
	return nil
}

// bytesOf allocates a byte slice holding the contents of s.
func (v *VC) bytesOf(st *State, s *T) *T {
	c := v.c
	r := v.newRef(st)
	h := v.elemHeap(byteType)
	arr := c.Fresh("bytes", v.heapSort[h].Elem)
	v.setHeap(st, h, r, c.Store(v.heap(st, h), r, arr))
	n := v.slen(s)
	v.rawFact(c.Ge(n, c.Int(0)))
	v.rawFact(c.Eq(v.strMk(arr, c.Int(0), n), s))
	j := c.BoundVar("j", SInt)
	v.rawFact(c.Forall([]*T{j}, [][]*T{{c.Select(arr, j)}}, c.Imp(c.And(c.Ge(j, c.Int(0)), c.Lt(j, n)), c.Eq(c.Select(arr, j), v.sat(s, j)))))
	return c.Mk(SSlice, r, c.Int(0), n, n)
}

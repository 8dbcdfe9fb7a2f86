package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SV struct {
	t   *T
	typ types.Type // nil for pure specification values
	val Val        // closures
}
type specErr struct{ msg string }

type Env struct {
	v        *VC
	vars     map[string]SV
	st, old  *State
	frame    *Frame
	loop     *loopInfo
	pkg      *types.Package
	targs    map[string]types.Type
	oldAlloc *T
	depth    int
	inOld    bool
	bound    int
}

func (v *VC) newEnv(st, old *State) *Env {
	e := &Env{v: v, vars: map[string]SV{}, st: st, old: old, targs: map[string]types.Type{}}
	if old != nil {
		e.oldAlloc = old.alloc
	}
	if v.fn != nil {
		if tps := v.fn.TypeParams(); tps != nil {
			for i := 0; i < tps.Len(); i++ {
				e.targs[tps.At(i).Obj().Name()] = tps.At(i)
			}
		}
	}
	if v.con != nil {
		e.pkg = v.P.tpkgs[v.con.Pkg]
	}
	return e
}
func (e *Env) fail(x *Expr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", x.File, x.Line, fmt.Sprintf(f, a...))})
}
func (e *Env) with(n string, x SV) *Env {
	r := *e
	r.vars = make(map[string]SV, len(e.vars)+1)
	for k, y := range e.vars {
		r.vars[k] = y
	}
	r.vars[n] = x
	return &r
}
func (e *Env) boolT(x *Expr) *T {
	r := e.eval(x)
	if r.t == nil || r.t.sort != SBool {
		e.fail(x, "expected a boolean")
	}
	return r.t
}

func (e *Env) resolveType(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		if t := e.resolveType(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if t := e.resolveType(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if t, ok := e.targs[s]; ok {
		return t
	}
	if s == "error" {
		return types.Universe.Lookup("error").Type()
	}
	if s == "any" {
		return types.Universe.Lookup("any").Type()
	}
	for _, b := range types.Typ {
		if b.Name() == s {
			return b
		}
	}
	if s == "byte" {
		return byteType
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		pn, tn := s[:i], s[i+1:]
		for path, p := range e.v.P.tpkgs {
			if path == pn || shortPkg(path) == pn || p.Name() == pn {
				if o := p.Scope().Lookup(tn); o != nil {
					return o.Type()
				}
			}
		}
		return nil
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(s); o != nil {
			if _, ok := o.(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}
func (e *Env) resolveSort(s string) (*Sort, types.Type) {
	switch s {
	case "int", "nat":
		return SInt, types.Typ[types.Int]
	case "ref":
		return SInt, nil
	case "bool":
		return SBool, types.Typ[types.Bool]
	case "str", "string":
		return SStr, types.Typ[types.String]
	case "iface":
		return SIface, nil
	case "bv":
		return SBV32, types.Typ[types.Uint32]
	case "bytearr":
		return SArray(SInt, SInt), nil
	case "real":
		return SReal, nil
	case "strarr":
		return SArray(SInt, SStr), nil
	case "ifacearr":
		return SArray(SInt, SIface), nil
	}
	if strings.HasPrefix(s, "arr_") { // arrays and elements of a type parameter, in lemmas
		return SArray(SInt, e.v.c.USort("TP_"+s[4:])), nil
	}
	if strings.HasPrefix(s, "tp_") {
		return e.v.c.USort("TP_" + s[3:]), nil
	}
	t := e.resolveType(s)
	if t == nil {
		return nil, nil
	}
	return e.v.sortOf(t), t
}

func (e *Env) eval(x *Expr) SV {
	v, c := e.v, e.v.c
	switch x.Kind {
	case "int":
		return SV{t: c.BigInt(x.Val), typ: types.Typ[types.Int]}
	case "bool":
		return SV{t: c.Bool(x.Name == "true"), typ: types.Typ[types.Bool]}
	case "str":
		return SV{t: v.strConst(x.Name), typ: types.Typ[types.String]}
	case "id":
		return e.ident(x)
	case "let":
		return e.with(x.Name, e.eval(x.Args[0])).eval(x.Args[1])
	case "old":
		if e.old == nil {
			e.fail(x, "old() without a pre-state")
		}
		r := *e
		r.st = e.old
		r.inOld = true
		return r.eval(x.Args[0])
	case "un":
		y := e.eval(x.Args[0])
		if x.Name == "!" {
			return SV{t: c.Not(y.t), typ: y.typ}
		}
		return SV{t: c.Sub(c.Int(0), y.t), typ: y.typ}
	case "cond":
		g := e.boolT(x.Args[0])
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		return SV{t: c.Ite(g, a.t, b.t), typ: a.typ}
	case "bin":
		return e.binary(x)
	case "quant":
		return e.quant(x)
	case "field":
		return e.field(x)
	case "index":
		return e.index(x)
	case "slice":
		y := e.eval(x.Args[0])
		if y.t.sort != SSlice {
			e.fail(x, "slice expression on %s", y.t.sort.Name)
		}
		lo := c.Int(0)
		if x.Args[1] != nil {
			lo = e.eval(x.Args[1]).t
		}
		hi := c.Sel(y.t, 2)
		if x.Args[2] != nil {
			hi = e.eval(x.Args[2]).t
		}
		return SV{t: c.Mk(SSlice, c.Sel(y.t, 0), c.Add(c.Sel(y.t, 1), lo), c.Sub(hi, lo), c.Sub(c.Sel(y.t, 3), lo)), typ: y.typ}
	case "call":
		return e.call(x)
	case "mcall":
		return e.mcall(x)
	}
	e.fail(x, "bad expression kind %s", x.Kind)
	return SV{}
}

func (e *Env) ident(x *Expr) SV {
	v, c := e.v, e.v.c
	n := x.Name
	if e.inOld && e.loop != nil {
		if s, ok := v.topParams[n]; ok {
			return s
		}
	}
	if s, ok := e.vars[n]; ok {
		return s
	}
	switch n {
	case "nil":
		return SV{t: nil}
	case "iface_nil":
		return SV{t: c.Const("iface_nil", SIface)}
	case "zerotime":
		return SV{t: v.timeZero()}
	case "_k":
		if e.loop != nil {
			return SV{t: e.frame.loopK[e.loop.head], typ: types.Typ[types.Int]}
		}
	case "_range": // the slice (or string) this loop ranges over
		if e.loop != nil {
			if iff, ok := e.loop.head.Instrs[len(e.loop.head.Instrs)-1].(*ssa.If); ok {
				if cond, ok := iff.Cond.(*ssa.BinOp); ok {
					if call, ok := cond.Y.(*ssa.Call); ok {
						if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
							a := call.Call.Args[0]
							return SV{t: v.val(e.frame, a).t, typ: a.Type()}
						}
					}
				}
			}
		}
	case "_k_outer":
		if e.loop != nil && e.loop.parent != nil {
			return SV{t: e.frame.loopK[e.loop.parent.head], typ: types.Typ[types.Int]}
		}
		if e.loop != nil { // the loop around the call which led here
			for f := e.frame.parent; f != nil; f = f.parent {
				if f.cur != nil && f.loopK[f.cur.head] != nil {
					return SV{t: f.loopK[f.cur.head], typ: types.Typ[types.Int]}
				}
			}
		}
	}
	for f := e.frame; f != nil; f = f.parent {
		if sv, ok := e.lookupName(f, n); ok {
			return sv
		}
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(n); o != nil {
			switch o := o.(type) {
			case *types.Const:
				return SV{t: v.constTerm(o.Val(), o.Type()), typ: o.Type()}
			case *types.Var:
				a := &Addr{kind: "global", name: o.Pkg().Path() + "." + n, typ: o.Type()}
				return SV{t: v.load(e.st, a, o.Type()), typ: o.Type()}
			}
		}
	}
	e.fail(x, "unknown name %q", n)
	return SV{}
}

// lookupName finds the current value of a source variable of frame f.
func (e *Env) lookupName(f *Frame, n string) (SV, bool) {
	v := e.v
	defs := f.names[n]
	// phi of this loop header wins; otherwise the latest definition dominating the header
	for i := len(defs) - 1; i >= 0; i-- {
		d := defs[i]
		if e.loop != nil && f == e.frame && !(d.blk == e.loop.head || d.blk.Dominates(e.loop.head)) {
			continue
		}
		if d.addr {
			a := v.derefAddr(d.val, d.typ)
			return SV{t: v.load(e.st, a, d.typ), typ: d.typ}, true
		}
		return SV{t: d.val.t, typ: d.typ, val: d.val}, true
	}
	return SV{}, false
}

func (e *Env) nilOf(y SV) *T {
	c := e.v.c
	switch y.t.sort {
	case SIface:
		return c.Eq(y.t, c.Const("iface_nil", SIface))
	case SSlice:
		return c.Eq(c.Sel(y.t, 0), c.Int(0))
	}
	return c.Eq(y.t, c.Int(0))
}

func (e *Env) binary(x *Expr) SV {
	v, c := e.v, e.v.c
	B := types.Typ[types.Bool]
	switch x.Name {
	case "&&":
		return SV{t: c.And(e.boolT(x.Args[0]), e.boolT(x.Args[1])), typ: B}
	case "||":
		return SV{t: c.Or(e.boolT(x.Args[0]), e.boolT(x.Args[1])), typ: B}
	case "==>":
		return SV{t: c.Imp(e.boolT(x.Args[0]), e.boolT(x.Args[1])), typ: B}
	case "<==>":
		return SV{t: c.Eq(e.boolT(x.Args[0]), e.boolT(x.Args[1])), typ: B}
	}
	a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
	if x.Name == "==" || x.Name == "!=" {
		var t *T
		switch {
		case a.t == nil && b.t == nil:
			t = c.True()
		case a.t == nil:
			t = e.nilOf(b)
		case b.t == nil:
			t = e.nilOf(a)
		default:
			if a.t.sort.Name != b.t.sort.Name {
				e.fail(x, "comparing %s with %s", a.t.sort.Name, b.t.sort.Name)
			}
			t = c.Eq(a.t, b.t)
		}
		if x.Name == "!=" {
			t = c.Not(t)
		}
		return SV{t: t, typ: B}
	}
	if a.t == nil || b.t == nil {
		e.fail(x, "nil operand")
	}
	if a.t.sort == SBV32 || b.t.sort == SBV32 {
		toBV := func(y SV) *T {
			if y.t.sort == SBV32 {
				return y.t
			}
			return v.convert(e.st, Val{t: y.t}, types.Typ[types.Int], types.Typ[types.Uint32])
		}
		ops := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "&": token.AND, "|": token.OR, "^": token.XOR, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ, "%": token.REM}
		t := v.bvopSpec(ops[x.Name], toBV(a), toBV(b))
		if t.sort == SBool {
			return SV{t: t, typ: B}
		}
		return SV{t: t, typ: types.Typ[types.Uint32]}
	}
	if a.t.sort == SStr && b.t.sort == SStr || strings.HasPrefix(a.t.sort.Name, "TP_") && a.t.sort.Name == b.t.sort.Name {
		lt := v.less
		switch x.Name {
		case "<":
			return SV{t: lt(a.t, b.t), typ: B}
		case ">":
			return SV{t: lt(b.t, a.t), typ: B}
		case "<=":
			return SV{t: c.Not(lt(b.t, a.t)), typ: B}
		case ">=":
			return SV{t: c.Not(lt(a.t, b.t)), typ: B}
		case "+":
			return SV{t: c.App("str_cat", SStr, a.t, b.t), typ: types.Typ[types.String]}
		}
	}
	if a.t.sort.Name != b.t.sort.Name || a.t.sort != SInt && a.t.sort != SReal {
		e.fail(x, "operator %s on %s and %s", x.Name, a.t.sort.Name, b.t.sort.Name)
	}
	I := types.Type(types.Typ[types.Int])
	if a.t.sort == SReal {
		I = types.Typ[types.Float64]
	}
	switch x.Name {
	case "<":
		return SV{t: c.Lt(a.t, b.t), typ: B}
	case "<=":
		return SV{t: c.Le(a.t, b.t), typ: B}
	case ">":
		return SV{t: c.Gt(a.t, b.t), typ: B}
	case ">=":
		return SV{t: c.Ge(a.t, b.t), typ: B}
	case "+":
		return SV{t: c.Add(a.t, b.t), typ: I}
	case "-":
		return SV{t: c.Sub(a.t, b.t), typ: I}
	case "*":
		return SV{t: c.Mul(a.t, b.t), typ: I}
	case "/":
		return SV{t: c.Div(a.t, b.t), typ: I}
	case "%":
		return SV{t: c.Mod(a.t, b.t), typ: I}
	}
	e.fail(x, "bad operator %s", x.Name)
	return SV{}
}
func (v *VC) bvopSpec(op token.Token, a, b *T) *T {
	q := v.quiet
	v.quiet++
	defer func() { v.quiet = q }()
	return v.bvop(op, a, b, types.Typ[types.Uint32])
}

func (e *Env) quant(x *Expr) SV {
	c := e.v.c
	r := e
	var vars []*T
	for _, q := range x.Vars {
		s, t := e.resolveSort(q.Type)
		if s == nil {
			e.fail(x, "unknown type %q", q.Type)
		}
		b := c.BoundVar(q.Name, s)
		vars = append(vars, b)
		r = r.with(q.Name, SV{t: b, typ: t})
	}
	r.bound = e.bound + 1
	body := r.boolT(x.Args[0])
	var pats [][]*T
	for _, ps := range x.Pats {
		var ts []*T
		for _, p := range ps {
			ts = append(ts, r.eval(p).t)
		}
		pats = append(pats, ts)
	}
	if x.Name == "forall" {
		return SV{t: c.Forall(vars, pats, body), typ: types.Typ[types.Bool]}
	}
	return SV{t: c.Exists(vars, pats, body), typ: types.Typ[types.Bool]}
}

func (e *Env) field(x *Expr) SV {
	v := e.v
	if b := x.Args[0]; b.Kind == "id" && e.pkg != nil {
		if _, ok := e.vars[b.Name]; !ok {
			for _, p := range e.pkg.Imports() {
				if p.Name() != b.Name {
					continue
				}
				switch o := p.Scope().Lookup(x.Name).(type) {
				case *types.Const:
					return SV{t: v.constTerm(o.Val(), o.Type()), typ: o.Type()}
				case *types.Var:
					a := &Addr{kind: "global", name: o.Pkg().Path() + "." + x.Name, typ: o.Type()}
					return SV{t: v.load(e.st, a, o.Type()), typ: o.Type()}
				}
			}
		}
	}
	y := e.eval(x.Args[0])
	if y.typ == nil {
		e.fail(x, "field %s of a value without a Go type", x.Name)
	}
	return e.fieldOf(x, y, x.Name, v)
}
func (e *Env) fieldOf(x *Expr, y SV, name string, v *VC) SV {
	typ := y.typ
	if p, ok := under(typ).(*types.Pointer); ok {
		st, ok := structOf(p.Elem())
		if !ok {
			e.fail(x, "field %s of %s", name, typeKey(typ))
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				ft := st.Field(i).Type()
				a := &Addr{kind: "obj", ref: y.t, typ: p.Elem(), path: []PathEl{{field: i, typ: p.Elem()}}}
				t := v.load(e.st, a, ft)
				return SV{t: t, typ: ft, val: Val{t: t, clo: v.clos[t]}}
			}
		}
		for i := 0; i < st.NumFields(); i++ { // promoted
			if st.Field(i).Embedded() {
				ft := st.Field(i).Type()
				a := &Addr{kind: "obj", ref: y.t, typ: p.Elem(), path: []PathEl{{field: i, typ: p.Elem()}}}
				if r, ok := e.tryField(x, SV{t: v.load(e.st, a, ft), typ: ft}, name); ok {
					return r
				}
			}
		}
		e.fail(x, "no field %s in %s", name, typeKey(p.Elem()))
	}
	st, ok := structOf(typ)
	if !ok || y.t.sort.Ctor == "" {
		e.fail(x, "field %s of %s", name, typeKey(typ))
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return SV{t: v.c.Sel(y.t, i), typ: st.Field(i).Type()}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if r, ok := e.tryField(x, SV{t: v.c.Sel(y.t, i), typ: st.Field(i).Type()}, name); ok {
				return r
			}
		}
	}
	e.fail(x, "no field %s in %s", name, typeKey(typ))
	return SV{}
}
func (e *Env) tryField(x *Expr, y SV, name string) (r SV, ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(specErr); is {
				ok = false
				return
			}
			panic(p)
		}
	}()
	return e.fieldOf(x, y, name, e.v), true
}

func (e *Env) index(x *Expr) SV {
	v, c := e.v, e.v.c
	y := e.eval(x.Args[0])
	i := e.eval(x.Args[1])
	if y.t.sort == SStr {
		return SV{t: v.sat(y.t, i.t), typ: byteType}
	}
	if y.t.sort.Elem != nil && (y.typ == nil || func() bool { _, ok := under(y.typ).(*types.Array); return !ok }()) {
		return SV{t: c.Select(y.t, i.t)}
	}
	if y.typ == nil {
		e.fail(x, "index of a value without a Go type")
	}
	switch u := under(y.typ).(type) {
	case *types.Slice:
		h := v.heap(e.st, v.elemHeap(u.Elem()))
		t := c.Select(c.Select(h, c.Sel(y.t, 0)), c.Add(c.Sel(y.t, 1), i.t))
		if !t.open {
			v.typeFacts(t, u.Elem(), e.st)
		}
		return SV{t: t, typ: u.Elem()}
	case *types.Map:
		_, mv, _ := v.mapHeaps(u)
		return SV{t: c.Select(c.Select(v.heap(e.st, mv), y.t), i.t), typ: u.Elem()}
	case *types.Array:
		return SV{t: c.Select(y.t, i.t), typ: u.Elem()}
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			return SV{t: c.Select(c.Select(v.heap(e.st, v.elemHeap(a.Elem())), y.t), i.t), typ: a.Elem()}
		}
	}
	e.fail(x, "cannot index %s", typeKey(y.typ))
	return SV{}
}

func (e *Env) call(x *Expr) SV {
	v, c := e.v, e.v.c
	I, B := types.Typ[types.Int], types.Typ[types.Bool]
	// a parameter or local of function type
	if s, ok := e.vars[x.Name]; ok && s.typ != nil {
		if sig, ok := under(s.typ).(*types.Signature); ok {
			return e.applyFn(x, s, sig, x.Args)
		}
	}
	if m := v.S.Macros[x.Name]; m != nil {
		if len(m.Params) != len(x.Args) {
			e.fail(x, "%s takes %d arguments", x.Name, len(m.Params))
		}
		if e.depth > 40 {
			e.fail(x, "macro recursion")
		}
		n := *e
		n.vars = map[string]SV{}
		for i, p := range m.Params {
			n.vars[p] = e.eval(x.Args[i])
		}
		n.depth++
		n.frame = nil
		n.loop = nil
		return n.eval(m.Body)
	}
	if u := v.S.UFuns[x.Name]; u != nil {
		return e.ufun(x, u)
	}
	arg := func(i int) SV {
		if i >= len(x.Args) {
			e.fail(x, "%s: missing argument", x.Name)
		}
		return e.eval(x.Args[i])
	}
	switch x.Name {
	case "len":
		y := arg(0)
		if y.t.sort == SSlice {
			return SV{t: c.Sel(y.t, 2), typ: I}
		}
		if y.t.sort == SStr {
			return SV{t: v.slen(y.t), typ: I}
		}
		if y.typ != nil {
			switch u := under(y.typ).(type) {
			case *types.Map:
				_, _, ml := v.mapHeaps(u)
				return SV{t: c.Ite(c.Eq(y.t, c.Int(0)), c.Int(0), c.Select(v.heap(e.st, ml), y.t)), typ: I}
			case *types.Array:
				return SV{t: c.Int(u.Len()), typ: I}
			}
		}
		e.fail(x, "len of %s", y.t.sort.Name)
	case "cap":
		return SV{t: c.Sel(arg(0).t, 3), typ: I}
	case "base":
		return SV{t: c.Sel(arg(0).t, 0)}
	case "off":
		return SV{t: c.Sel(arg(0).t, 1), typ: I}
	case "has":
		m, k := arg(0), arg(1)
		mt, ok := under(m.typ).(*types.Map)
		if !ok {
			e.fail(x, "has: not a map")
		}
		md, _, _ := v.mapHeaps(mt)
		return SV{t: c.And(c.Not(c.Eq(m.t, c.Int(0))), c.Select(c.Select(v.heap(e.st, md), m.t), k.t)), typ: B}
	case "visited":
		it := v.lastIter
		if e.frame != nil && len(e.frame.iters) > 0 {
			it = e.frame.iters[len(e.frame.iters)-1]
		}
		if it == nil {
			e.fail(x, "visited: no map range in scope")
		}
		return SV{t: c.Select(v.heap(e.st, it.name), arg(0).t), typ: B}
	case "view", "bytes":
		y := arg(0)
		if y.t.sort == SStr {
			return y
		}
		if y.t.sort != SSlice {
			e.fail(x, "view of %s", y.t.sort.Name)
		}
		return SV{t: v.view(e.st, y.t), typ: types.Typ[types.String]}
	case "strlt": // byte-wise order
		return SV{t: c.App("str_lt", SBool, arg(0).t, arg(1).t), typ: B}
	case "strmk":
		return SV{t: v.strMk(arg(0).t, arg(1).t, arg(2).t), typ: types.Typ[types.String]}
	case "strsub":
		return SV{t: c.App("str_sub", SStr, arg(0).t, arg(1).t, arg(2).t), typ: types.Typ[types.String]}
	case "arr": // contents of a slice's backing array as a value
		y := arg(0)
		u, ok := under(y.typ).(*types.Slice)
		if !ok {
			e.fail(x, "arr: not a slice")
		}
		return SV{t: c.Select(v.heap(e.st, v.elemHeap(u.Elem())), c.Sel(y.t, 0))}
	case "fresh":
		y := arg(0)
		if e.oldAlloc == nil {
			e.fail(x, "fresh outside a postcondition")
		}
		r := y.t
		if r.sort == SSlice {
			r = c.Sel(r, 0)
		}
		return SV{t: c.And(c.Ge(r, e.oldAlloc), c.Lt(r, e.st.alloc)), typ: B}
	case "allocated":
		r := arg(0).t
		if r.sort == SSlice {
			r = c.Sel(r, 0)
		}
		return SV{t: c.Lt(r, e.st.alloc), typ: B}
	case "min", "max":
		a, b := arg(0), arg(1)
		g := c.Le(a.t, b.t)
		if x.Name == "max" {
			g = c.Ge(a.t, b.t)
		}
		return SV{t: c.Ite(g, a.t, b.t), typ: a.typ}
	case "abs":
		a := arg(0)
		return SV{t: c.Ite(c.Ge(a.t, c.Int(0)), a.t, c.Sub(c.Int(0), a.t)), typ: I}
	case "u64", "u32", "u16", "u8", "i64":
		a := arg(0)
		tt := map[string]types.Type{"u64": types.Typ[types.Uint64], "u32": types.Typ[types.Uint32], "u16": types.Typ[types.Uint16], "u8": types.Typ[types.Uint8], "i64": types.Typ[types.Int64]}[x.Name]
		from := a.typ
		if from == nil {
			from = types.Typ[types.Int]
		}
		if x.Name == "u64" {
			return SV{t: c.Mod(a.t, c.BigInt(pow2(64))), typ: tt}
		}
		return SV{t: v.convert(e.st, Val{t: a.t}, from, tt), typ: tt}
	case "shl", "shr":
		op := token.SHL
		if x.Name == "shr" {
			op = token.SHR
		}
		a := arg(0)
		typ := a.typ
		if typ == nil {
			typ = I
		}
		q := v.quiet
		v.quiet++
		r := v.binop(e.st, op, Val{t: a.t}, Val{t: arg(1).t}, typ, I, typ)
		v.quiet = q
		return SV{t: r, typ: typ}
	case "bv":
		a := arg(0)
		if a.t.sort == SBV32 {
			return a
		}
		return SV{t: v.convert(e.st, Val{t: a.t}, types.Typ[types.Int], types.Typ[types.Uint32]), typ: types.Typ[types.Uint32]}
	case "bit": // bit n of the natural number x is set
		return SV{t: c.App("bit", SBool, arg(0).t, arg(1).t), typ: B}
	case "bv2int":
		return SV{t: c.mk("bv2nat", SInt, arg(0).t), typ: I}
	case "isnil":
		return SV{t: e.nilOf(arg(0)), typ: B}
	case "typeis":
		y := arg(0)
		t := e.resolveType(x.Args[1].Name)
		if t == nil {
			e.fail(x, "unknown type %s", x.Args[1].Name)
		}
		return SV{t: c.Eq(c.App("typetag", SInt, y.t), c.Int(v.typeTag(t))), typ: B}
	case "unbox", "unboxp":
		y := arg(0)
		t := e.resolveType(x.Args[1].Name)
		if t == nil {
			e.fail(x, "unknown type %s", x.Args[1].Name)
		}
		if x.Name == "unboxp" {
			t = types.NewPointer(t)
		}
		return SV{t: c.App("un"+sanitize("box_"+typeKey(t)), v.sortOf(t), y.t), typ: t}
	case "box":
		y := arg(0)
		return SV{t: v.makeIface(Val{t: y.t}, y.typ), typ: nil}
	case "deref":
		y := arg(0)
		p, ok := under(y.typ).(*types.Pointer)
		if !ok {
			e.fail(x, "deref of %s", typeKey(y.typ))
		}
		return SV{t: v.load(e.st, v.derefAddr(Val{t: y.t}, p.Elem()), p.Elem()), typ: p.Elem()}
	case "zeroval":
		t := e.resolveType(x.Args[0].Name)
		if t == nil {
			e.fail(x, "unknown type %s", x.Args[0].Name)
		}
		return SV{t: v.zero(t), typ: t}
	case "sentlen":
		nl := v.setSort("GH:sendlen", SArray(SInt, SInt))
		return SV{t: c.Select(v.heap(e.st, nl), arg(0).t), typ: I}
	case "sent":
		y := arg(0)
		ch := under(y.typ).(*types.Chan)
		s := v.sortOf(ch.Elem())
		nv := v.setSort("GH:sent:"+s.Name, SArray(SInt, SArray(SInt, s)))
		return SV{t: c.Select(c.Select(v.heap(e.st, nv), y.t), arg(1).t), typ: ch.Elem()}
	case "ghost": // ghost("name", ref): an integer ghost field
		n := v.setSort("GH:"+x.Args[0].Name, SArray(SInt, SInt))
		return SV{t: c.Select(v.heap(e.st, n), v.ghostRef(arg(1).t)), typ: I}
	case "ghostset": // ghostset("name", ref, key): membership of a ghost set of strings
		n := v.setSort("GHS:"+x.Args[0].Name, SArray(SInt, SArray(SStr, SBool)))
		return SV{t: c.Select(c.Select(v.heap(e.st, n), v.ghostRef(arg(1).t)), arg(2).t), typ: B}
	case "count": // count(s, x): how many times x occurs in slice s
		y, z := arg(0), arg(1)
		u, ok := under(y.typ).(*types.Slice)
		if !ok {
			e.fail(x, "count: not a slice")
		}
		a := c.Select(v.heap(e.st, v.elemHeap(u.Elem())), c.Sel(y.t, 0))
		return SV{t: v.countTerm(a, c.Sel(y.t, 1), c.Sel(y.t, 2), z.t), typ: I}
	case "apply": // apply(f, x, ...): an int-valued function value applied (for lemmas, where it has no Go type)
		ts := []*T{arg(0).t}
		n := "apply"
		for i := 1; i < len(x.Args); i++ {
			ts = append(ts, arg(i).t)
			n += "_" + ts[i].sort.Name
		}
		return SV{t: c.App(n+"_to_Int", SInt, ts...), typ: I}
	case "call": // call(f, args...)
		f := arg(0)
		sig, ok := under(f.typ).(*types.Signature)
		if !ok {
			e.fail(x, "call of a non-function")
		}
		return e.applyFn(x, f, sig, x.Args[1:])
	}
	// a Go function of the package, evaluated by executing its body
	if e.pkg != nil {
		if fn := v.P.fns[e.pkg.Path()+"."+x.Name]; fn != nil {
			var as []SV
			for i := range x.Args {
				as = append(as, arg(i))
			}
			return e.goCall(x, fn, as)
		}
	}
	e.fail(x, "unknown function %s", x.Name)
	return SV{}
}

func (e *Env) applyFn(x *Expr, f SV, sig *types.Signature, args []*Expr) SV {
	v := e.v
	if f.val.clo != nil {
		var as []SV
		for _, a := range args {
			as = append(as, e.eval(a))
		}
		return e.goCallC(x, f.val.clo.fn, f.val.clo.bind, as)
	}
	ts := []*T{f.t}
	for _, a := range args {
		ts = append(ts, e.eval(a).t)
	}
	rt := sig.Results().At(0).Type()
	return SV{t: v.c.App(v.applyName(sig), v.sortOf(rt), ts...), typ: rt}
}
func (v *VC) applyName(sig *types.Signature) string {
	n := "apply"
	for i := 0; i < sig.Params().Len(); i++ {
		n += "_" + v.sortOf(sig.Params().At(i).Type()).Name
	}
	return n + "_to_" + v.sortOf(sig.Results().At(0).Type()).Name
}

func (e *Env) ufun(x *Expr, u *UFun) SV {
	v, c := e.v, e.v.c
	rs, rt := e.resolveSort(u.Ret)
	if rs == nil {
		e.fail(x, "ufun %s: type %s", u.Name, u.Ret)
	}
	var ts []*T
	for i, a := range x.Args {
		y := e.eval(a)
		if y.t == nil {
			y.t = c.Int(0)
		}
		s := y.t.sort
		if i < len(u.Args) && u.Args[i] == "bv" && s == SInt {
			y = SV{t: v.convert(e.st, Val{t: y.t}, types.Typ[types.Int], types.Typ[types.Uint32])}
		}
		ts = append(ts, y.t)
	}
	name := "uf_" + u.Name
	if u.Body != nil && v.c.funs[name] == nil {
		var as []*Sort
		var par []*T
		n := v.newEnv(e.st, nil)
		n.pkg = e.pkg
		for i, at := range u.Args {
			s, t := e.resolveSort(at)
			if s == nil {
				e.fail(x, "rec %s: type %s", u.Name, at)
			}
			as = append(as, s)
			b := c.BoundVar(u.Par[i], s)
			par = append(par, b)
			n.vars[u.Par[i]] = SV{t: b, typ: t}
		}
		c.DeclFun(name, rs, as...)
		body := n.eval(u.Body)
		f := c.funs[name]
		f.Body, f.Par, f.Rec = body.t, par, true
	}
	return SV{t: c.App(name, rs, ts...), typ: rt}
}

// mcall: x.M(args): a pure contract, or the body of the real method.
func (e *Env) mcall(x *Expr) SV {
	v := e.v
	y := e.eval(x.Args[0])
	var as []SV
	as = append(as, y)
	for _, a := range x.Args[1:] {
		as = append(as, e.eval(a))
	}
	if y.typ == nil {
		e.fail(x, "method on a value without a Go type")
	}
	if s, ok := under(y.typ).(*types.Struct); ok { // field of function type
		_ = s
	}
	obj, idx, _ := types.LookupFieldOrMethod(y.typ, true, e.pkg, x.Name)
	if fv, ok := obj.(*types.Var); ok {
		f := e.fieldOf(x, y, x.Name, v)
		return e.applyFn(x, f, under(fv.Type()).(*types.Signature), x.Args[1:])
	}
	m, ok := obj.(*types.Func)
	if !ok {
		// unexported method of another package
		if n, ok2 := derefNamed(y.typ); ok2 {
			for i := 0; i < n.NumMethods(); i++ {
				if n.Method(i).Name() == x.Name {
					m, ok = n.Method(i), true
				}
			}
		}
		if !ok {
			e.fail(x, "no method %s on %s", x.Name, typeKey(y.typ))
		}
	}
	_ = idx
	pk, key := funcObjKey(m)
	if types.IsInterface(y.typ) || isTypeParam(y.typ) {
		pk2, key2 := v.ifaceKey(y.typ, m)
		if con := v.S.Contracts[pk2+"."+key2]; con != nil {
			pk, key = pk2, key2
		}
	}
	if con := v.S.Contracts[pk+"."+key]; con != nil && con.Pure {
		var vs []Val
		for _, a := range as {
			vs = append(vs, Val{t: a.t})
		}
		sig := m.Type().(*types.Signature)
		rt := v.substResult(y.typ, sig.Results().At(0).Type())
		return SV{t: v.pureApp(con, pk, key, vs, rt), typ: rt}
	}
	if fn := v.P.fns[pk+"."+key]; fn != nil {
		// promote value receiver
		if len(fn.Params) > 0 {
			_, wantPtr := under(fn.Params[0].Type()).(*types.Pointer)
			_, isPtr := under(y.typ).(*types.Pointer)
			if !wantPtr && isPtr {
				pt := under(y.typ).(*types.Pointer)
				as[0] = SV{t: v.load(e.st, v.derefAddr(Val{t: y.t}, pt.Elem()), pt.Elem()), typ: pt.Elem()}
			}
		}
		return e.goCall(x, fn, as)
	}
	if b := v.pureBuiltin(e.st, pk+"."+key, as); b != nil {
		return *b
	}
	e.fail(x, "cannot evaluate %s.%s in a specification", pk, key)
	return SV{}
}
func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}
func derefNamed(t types.Type) (*types.Named, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return n, ok
}

func (v *VC) substResult(recv types.Type, rt types.Type) types.Type {
	return rt
}

func (e *Env) goCall(x *Expr, fn *ssa.Function, as []SV) SV { return e.goCallC(x, fn, nil, as) }
func (e *Env) goCallC(x *Expr, fn *ssa.Function, bind []Val, as []SV) SV {
	v := e.v
	if pk, key := fnKey(fn); stdModel(pk+"."+key) != nil {
		var args []Val
		for _, a := range as {
			args = append(args, Val{t: a.t, clo: a.val.clo})
		}
		r := stdModel(pk+"."+key)(v, nil, e.st, args, fn.Signature, nil)
		return SV{t: v.term(r), typ: fn.Signature.Results().At(0).Type()}
	}
	if fn.Blocks == nil {
		e.fail(x, "function %s has no body here", fn.Name())
	}
	if len(v.stack) > 30 {
		e.fail(x, "specification call depth")
	}
	var args []Val
	for _, a := range as {
		args = append(args, Val{t: a.t, clo: a.val.clo})
	}
	q, g, recs, pos, frameOn := v.quiet, v.guard, v.recs, v.curPos, v.frameOn
	v.quiet++
	v.recs = nil
	v.frameOn = false
	v.guard = v.c.True()
	defer func() { v.quiet, v.guard, v.recs, v.curPos, v.frameOn = q, g, recs, pos, frameOn }()
	rets, _ := v.execFunc(fn, args, bind, e.st.clone(), nil)
	if len(rets) == 0 {
		e.fail(x, "%s does not return", fn.Name())
	}
	r := rets[len(rets)-1].res[0]
	t := v.term(r)
	for i := len(rets) - 2; i >= 0; i-- {
		t = v.c.Ite(rets[i].guard, v.term(rets[i].res[0]), t)
	}
	return SV{t: t, typ: fn.Signature.Results().At(0).Type()}
}

var _ = constant.Int

// countTerm is the number of k in [0,n) with a[o+k] == x, with the facts that define it.
func (v *VC) countTerm(a, o, n, x *T) *T {
	c := v.c
	es := a.sort.Elem
	name := "cnt_" + es.Name
	if c.funs[name] == nil {
		c.DeclFun(name, SInt, a.sort, SInt, SInt, es)
		A, B := c.BoundVar("a", a.sort), c.BoundVar("b", a.sort)
		O, P, N, M, Q := c.BoundVar("o", SInt), c.BoundVar("p", SInt), c.BoundVar("n", SInt), c.BoundVar("m", SInt), c.BoundVar("q", SInt)
		X, Y := c.BoundVar("x", es), c.BoundVar("y", es)
		F := func(a, o, n, x *T) *T { return c.App(name, SInt, a, o, n, x) }
		z, one := c.Int(0), c.Int(1)
		is := func(y *T) *T { return c.Ite(c.Eq(y, X), one, z) }
		f := F(A, O, N, X)
		v.rawFact(c.Forall([]*T{A, O, N, X}, [][]*T{{f}}, c.And(c.Ge(f, z), c.Imp(c.Le(N, z), c.Eq(f, z)), c.Imp(c.Eq(N, one), c.Eq(f, is(c.Select(A, O)))))))
		if _, ok := v.con.Opts["countmem"]; ok { // an element that is there is counted; one that is there twice is counted twice
			aq, ar := c.Select(A, Q), c.Select(A, M)
			v.rawFact(c.Forall([]*T{A, O, N, X, Q}, [][]*T{{f, aq}}, c.Imp(c.And(c.Le(O, Q), c.Lt(Q, c.Add(O, N)), c.Eq(aq, X)), c.Ge(f, one))))
			pos := c.App("cntpos_"+es.Name, SInt, A, O, N, X)
			v.rawFact(c.Forall([]*T{A, O, N, X}, [][]*T{{f}}, c.Imp(c.Ge(f, one), c.And(c.Le(O, pos), c.Lt(pos, c.Add(O, N)), c.Eq(c.Select(A, pos), X)))))
			v.rawFact(c.Forall([]*T{A, O, N, X, Q, M}, [][]*T{{f, aq, ar}}, c.Imp(c.And(c.Le(O, Q), c.Lt(Q, M), c.Lt(M, c.Add(O, N)), c.Eq(aq, X), c.Eq(ar, X)), c.Ge(f, c.Int(2)))))
		}
		g2 := F(B, P, N, X)
		g := F(B, P, M, X)
		sk := c.App("cntsk_"+es.Name, SInt, A, O, B, P, N)
		same := c.Not(c.And(c.Ge(sk, z), c.Lt(sk, N), c.Not(c.Eq(c.Select(A, c.Add(O, sk)), c.Select(B, c.Add(P, sk))))))
		v.rawFact(c.Forall([]*T{A, O, B, P, N, M, X}, [][]*T{{f, g}}, c.Imp(c.And(c.Ge(N, z), c.Eq(M, c.Add(N, one)), same),
			c.Eq(g, c.Add(f, is(c.Select(B, c.Add(P, N))))))))
		st := c.Store(A, Q, Y)
		h := F(st, O, N, X)
		in := c.And(c.Le(O, Q), c.Lt(Q, c.Add(O, N)))
		v.rawFact(c.Forall([]*T{A, Q, Y, O, N, X}, [][]*T{{h}}, c.Ite(in, c.Eq(h, c.Add(c.Sub(f, is(c.Select(A, Q))), is(Y))), c.Eq(h, f))))
		v.rawFact(c.Forall([]*T{A, O, B, P, N, X}, [][]*T{{f, g2}}, c.Imp(same, c.Eq(f, g2))))
		v.note("count(s, x) is axiomatised (empty, one more element, one element replaced, equal contents)")
	}
	return c.App(name, SInt, a, o, n, x)
}

// ghostRef is the reference under which a value has ghost fields.
func (v *VC) ghostRef(t *T) *T {
	if t.sort == SInt {
		return t
	}
	return v.c.App("gid_"+t.sort.Name, SInt, t)
}

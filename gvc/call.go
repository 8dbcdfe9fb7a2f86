package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var cfgMu sync.Mutex

const maxInline = 14

func pack(rs []Val) Val {
	switch len(rs) {
	case 0:
		return Val{}
	case 1:
		return rs[0]
	}
	return Val{tup: rs}
}

func (v *VC) freshResults(hint string, sig *types.Signature, st *State) Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, v.freshVal(hint, sig.Results().At(i).Type(), st))
	}
	return pack(rs)
}

func (v *VC) call(fr *Frame, st *State, cc *ssa.CallCommon, rt types.Type, site ssa.CallInstruction) Val {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, v.val(fr, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return v.builtin(fr, st, b, cc, args, rt)
	}
	return v.callWith(fr, st, cc, v.val(fr, cc.Value), args, cc.Signature().Results(), site)
}

func (v *VC) callWith(fr *Frame, st *State, cc *ssa.CallCommon, f Val, args []Val, results *types.Tuple, site ssa.CallInstruction) Val {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var rt types.Type = results
		if results.Len() == 1 {
			rt = results.At(0).Type()
		}
		return v.builtin(fr, st, b, cc, args, rt)
	}
	if cc.IsInvoke() {
		return v.invoke(fr, st, cc, f, args)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var bind []Val
		if f.clo != nil {
			bind = f.clo.bind
		}
		return v.callFn(fr, st, fn, bind, args, cc.Args)
	}
	if f.clo == nil && f.t != nil {
		f.clo = v.clos[f.t]
	}
	if f.clo != nil && f.clo.fn != nil {
		return v.callFn(fr, st, f.clo.fn, f.clo.bind, args, cc.Args)
	}
	if ls := v.cloLeaves(f.t, v.c.True()); len(ls) > 1 {
		// one of several known functions
		g := v.guard
		var es []edge
		var gs []*T
		var rs []Val
		for _, l := range ls {
			s2 := st.clone()
			v.guard = v.c.And(g, l.cond)
			r := v.callFn(fr, s2, l.clo.fn, l.clo.bind, args, cc.Args)
			if isFalse(v.guard) {
				continue
			}
			es, gs, rs = append(es, edge{v.guard, s2, nil}), append(gs, v.guard), append(rs, r)
		}
		if len(es) == 0 {
			v.guard = v.c.False()
			return v.freshResults("cb", cc.Signature(), st)
		}
		m := v.mergeStates(es)
		*st = *m
		v.guard = v.c.Or(gs...)
		if cc.Signature().Results().Len() == 0 {
			return Val{}
		}
		var rt types.Type = cc.Signature().Results()
		if cc.Signature().Results().Len() == 1 {
			rt = cc.Signature().Results().At(0).Type()
		}
		return v.mergeVals(rt, es, rs)
	}
	sig := cc.Signature()
	// unknown function value
	mode := v.con.Opts["callbacks"]
	if mode == "pure" && sig.Results().Len() >= 1 {
		v.note("function values called here are assumed pure (option callbacks=pure)")
		ts := []*T{v.term(f)}
		for _, a := range args {
			ts = append(ts, v.term(a))
		}
		var rs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			n := v.applyName(sig)
			if i > 0 {
				n = fmt.Sprintf("%s_r%d", n, i)
			}
			t := v.c.App(n, v.sortOf(rt), ts...)
			v.typeFacts(t, rt, st)
			rs = append(rs, Val{t: t})
		}
		return pack(rs)
	}
	if mode == "noeffect" || mode == "pure" {
		v.note("function values called here are assumed not to modify the state named in this contract (option callbacks)")
		return v.freshResults("cb", sig, st)
	}
	v.note("call of an unknown function value in %s: arbitrary effect", fr.fn.Name())
	v.havocAll(st)
	return v.freshResults("cb", sig, st)
}

type cloLeaf struct {
	cond *T
	clo  *Closure
}

// cloLeaves are the functions a conditional function value can be (nil: some aren't known)
func (v *VC) cloLeaves(t *T, cond *T) []cloLeaf {
	if t == nil {
		return nil
	}
	if cl := v.clos[t]; cl != nil && cl.fn != nil {
		return []cloLeaf{{cond, cl}}
	}
	if t.op != "ite" || len(t.args) != 3 {
		return nil
	}
	a := v.cloLeaves(t.args[1], v.c.And(cond, t.args[0]))
	b := v.cloLeaves(t.args[2], v.c.And(cond, v.c.Not(t.args[0])))
	if a == nil || b == nil {
		return nil
	}
	return append(a, b...)
}

func (v *VC) ifaceKey(typ types.Type, m *types.Func) (string, string) {
	if n, ok := types.Unalias(typ).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path(), "(" + n.Obj().Name() + ")." + m.Name()
	}
	return funcObjKey(m)
}

func (v *VC) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv Val, args []Val) Val {
	m := cc.Method
	sig := m.Type().(*types.Signature)
	// devirtualise a freshly boxed value
	if recv.t != nil && strings.HasPrefix(recv.t.op, "box_") && len(recv.t.args) == 1 {
		if ct := v.boxTypes[recv.t.op]; ct != nil {
			if fn := v.P.prog.LookupMethod(ct, m.Pkg(), m.Name()); fn != nil {
				return v.callFn(fr, st, fn, nil, append([]Val{{t: recv.t.args[0]}}, args...), nil)
			}
		}
	}
	var con *Contract
	for _, k := range v.ifaceKeys(cc.Value.Type(), m) {
		if con = v.S.Contracts[k]; con != nil {
			break
		}
	}
	all := append([]Val{recv}, args...)
	if con != nil {
		if con.Pure {
			v.used[con] = true
			rt := cc.Signature().Results().At(0).Type()
			t := v.pureApp(con, con.Pkg, con.Key, all, rt)
			v.typeFacts(t, rt, st)
			return Val{t: t}
		}
		var pts []types.Type
		pts = append(pts, cc.Value.Type())
		for i := 0; i < sig.Params().Len(); i++ {
			pts = append(pts, sig.Params().At(i).Type())
		}
		return v.callContract(st, con, all, pts, cc.Signature().Results(), nil)
	}
	if inModuleMethod(m) && v.con.Opts["calls"] != "noeffect" {
		v.note("call of interface method %s without contract: arbitrary effect", m.FullName())
		v.havocAll(st)
	} else {
		v.note("call of interface method %s without contract: arbitrary result, assumed not to touch this package's state", m.FullName())
		v.havocArgs(fr, st, args, cc.Args)
	}
	return v.freshResults(m.Name(), cc.Signature(), st)
}
func inModuleMethod(m *types.Func) bool { return m.Pkg() != nil && inModule(m.Pkg().Path()) }

func (v *VC) ifaceKeys(typ types.Type, m *types.Func) []string {
	a, b := v.ifaceKey(typ, m)
	c, d := funcObjKey(m)
	return []string{a + "." + b, c + "." + d}
}

func (v *VC) havocArgs(fr *Frame, st *State, args []Val, src []ssa.Value) {
	for i, a := range args {
		var typ types.Type
		if i < len(src) {
			typ = src[i].Type()
		}
		if typ == nil {
			continue
		}
		if i < len(src) { // a pointer or slice passed as an interface value
			if mi, ok := src[i].(*ssa.MakeInterface); ok {
				v.havocArgs(fr, st, []Val{v.val(fr, mi.X)}, []ssa.Value{mi.X})
				continue
			}
		}
		switch u := under(typ).(type) {
		case *types.Slice:
			if a.t != nil && a.t.sort == SSlice {
				h := v.elemHeap(u.Elem())
				v.setHeap(st, h, v.c.Sel(a.t, 0), v.c.Store(v.heap(st, h), v.c.Sel(a.t, 0), v.c.Fresh("ext", v.heapSort[h].Elem)))
			}
		case *types.Pointer:
			if !moduleType(u.Elem()) {
				if a.addr != nil {
					v.store(st, a.addr, v.freshVal("ext", u.Elem(), st).t)
				}
				continue
			}
			ad := v.derefAddr(a, u.Elem())
			if ad.kind == "obj" && len(ad.path) == 0 && v.sortOf(ad.typ).Ctor != "" {
				s, _ := under(ad.typ).(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					h := v.fieldHeap(ad.typ, i)
					v.setHeap(st, h, ad.ref, v.c.Store(v.heap(st, h), ad.ref, v.freshVal("ext", s.Field(i).Type(), st).t))
				}
			} else {
				v.store(st, ad, v.freshVal("ext", u.Elem(), st).t)
			}
		}
	}
}

func (v *VC) callFn(fr *Frame, st *State, fn *ssa.Function, bind []Val, args []Val, src []ssa.Value) Val {
	pk, key := fnKey(fn)
	id := pk + "." + key
	sig := fn.Signature
	synthetic := fn.Synthetic != "" && fn.Origin() == nil && !strings.HasPrefix(fn.Synthetic, "range-over-func") && !strings.HasPrefix(fn.Synthetic, "from type information")
	if !synthetic || strings.HasPrefix(fn.Synthetic, "instance of") {
		if con := v.S.Contracts[id]; con != nil && con.Opts["inline"] == "" {
			{
				if con.Pure {
					v.used[con] = true
					rt := sig.Results().At(0).Type()
					t := v.pureApp(con, pk, key, args, rt)
					v.typeFacts(t, rt, st)
					return Val{t: t}
				}
				var pts []types.Type
				for _, p := range fn.Params {
					pts = append(pts, p.Type())
				}
				if len(fn.Params) == 0 && (sig.Params().Len() > 0 || sig.Recv() != nil) {
					if sig.Recv() != nil {
						pts = append(pts, sig.Recv().Type())
					}
					for i := 0; i < sig.Params().Len(); i++ {
						pts = append(pts, sig.Params().At(i).Type())
					}
				}
				return v.callContract(st, con, args, pts, sig.Results(), fn)
			}
		}
		if m := stdModel(id); m != nil {
			return m(v, fr, st, args, sig, src)
		}
	}
	if fn.Blocks != nil && inlineStd(fn, pk) {
		rec := false
		n := 0
		for _, s := range v.stack {
			if s == fn {
				rec = true
			}
			n++
		}
		if !rec && n < maxInline {
			if !synthetic && inModule(pk) && fn.Parent() == nil {
				v.inlined[id] = true
			}
			return v.inline(fr, st, fn, bind, args)
		}
		v.note("recursive or too deep call of %s without contract: arbitrary effect", id)
		v.havocAll(st)
		return v.freshResults(fn.Name(), sig, st)
	}
	// external function
	if inModule(pk) {
		v.note("call of %s (no body loaded, no contract): arbitrary effect", id)
		v.havocAll(st)
		return v.freshResults(fn.Name(), sig, st)
	}
	v.note("external %s: arbitrary result, assumed not to touch this module's state except slices and pointers passed to it", id)
	hasFn := false
	for _, a := range args {
		if a.clo != nil || a.t != nil && v.clos[a.t] != nil {
			hasFn = true
		}
	}
	if hasFn && v.con.Opts["calls"] != "noeffect" {
		v.note("external %s takes a function value: arbitrary effect", id)
		v.havocAll(st)
	}
	v.havocArgs(fr, st, args, src)
	return v.freshResults(fn.Name(), sig, st)
}

// Only simple functions of the standard library are taken as source.
func inlineStd(fn *ssa.Function, pk string) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return true
	}
	switch fn.Pkg.Pkg.Path() {
	case "maps":
		return fn.Name() != "Clone"
	case "slices":
		switch fn.Name() {
		case "All", "Values", "Collect", "AppendSeq", "ContainsFunc", "IndexFunc", "Index", "Backward":
			return true
		}
		return false
	}
	return true
}
func sameOrigin(a, b *ssa.Function) bool {
	oa, ob := a.Origin(), b.Origin()
	if oa == nil {
		oa = a
	}
	if ob == nil {
		ob = b
	}
	return oa == ob
}

func (v *VC) inline(fr *Frame, st *State, fn *ssa.Function, bind []Val, args []Val) Val {
	g := v.guard
	pos := v.curPos
	// receivers of value-method wrappers etc. may need materialised interior pointers; passed as is
	rets, sub := v.execFunc(fn, args, bind, st.clone(), fr)
	v.curPos = pos
	_ = sub
	if len(rets) == 0 {
		v.guard = v.c.False()
		return v.freshResults(fn.Name(), fn.Signature, st)
	}
	if len(rets) == 1 {
		*st = *rets[0].st
		v.guard = v.simplGuard(g, rets[0].guard)
		return pack(rets[0].res)
	}
	var es []edge
	var gs []*T
	for _, r := range rets {
		es = append(es, edge{r.guard, r.st, nil})
		gs = append(gs, r.guard)
	}
	m := v.mergeStates(es)
	*st = *m
	v.guard = v.simplGuard(g, v.c.Or(gs...))
	n := fn.Signature.Results().Len()
	var rs []Val
	for i := 0; i < n; i++ {
		var xs []Val
		for _, r := range rets {
			xs = append(xs, r.res[i])
		}
		rs = append(rs, v.mergeVals(fn.Signature.Results().At(i).Type(), es, xs))
	}
	return pack(rs)
}
func (v *VC) simplGuard(before, after *T) *T { return after }

// ---------- contract calls ----------

func (v *VC) contractEnv(con *Contract, fn *ssa.Function, args []Val, pts []types.Type, st, old *State) *Env {
	env := v.newEnv(st, old)
	env.pkg = v.P.tpkgs[con.Pkg]
	if fn != nil && len(fn.TypeArgs()) > 0 && fn.Origin() != nil {
		tps := fn.Origin().TypeParams()
		for i, ta := range fn.TypeArgs() {
			if tps != nil && i < tps.Len() {
				env.targs[tps.At(i).Obj().Name()] = ta
			}
		}
	}
	if fn != nil && len(fn.TypeArgs()) == 0 {
		if tps := fn.TypeParams(); tps != nil {
			for i := 0; i < tps.Len(); i++ {
				env.targs[tps.At(i).Obj().Name()] = tps.At(i)
			}
		}
	}
	for i, n := range con.Params {
		if i >= len(args) || i >= len(pts) {
			break
		}
		sv := SV{typ: pts[i], val: args[i]}
		sv.t = v.term(args[i])
		if n != "_" {
			env.vars[n] = sv
		}
	}
	return env
}

// modSet evaluates a modifies clause.
func (v *VC) modSet(env *Env, cl Clause) []writeRec {
	x := cl.E
	c := v.c
	q := v.quiet
	v.quiet++
	defer func() { v.quiet = q }()
	structHeaps := func(t types.Type, ref *T) []writeRec {
		var out []writeRec
		if s, ok := structOf(t); ok && v.sortOf(t).Ctor != "" {
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, writeRec{v.fieldHeap(t, i), ref})
			}
			return out
		}
		return []writeRec{{v.cellHeap(t), ref}}
	}
	switch x.Kind {
	case "field":
		if x.Args[0].Kind == "id" {
			if _, isVar := env.vars[x.Args[0].Name]; !isVar {
				if t := env.resolveType(x.Args[0].Name); t != nil { // T.f : the field of every object
					s, ok := structOf(t)
					if ok {
						if x.Name == "all" {
							var out []writeRec
							for i := 0; i < s.NumFields(); i++ {
								out = append(out, writeRec{v.fieldHeap(t, i), nil})
							}
							return out
						}
						for i := 0; i < s.NumFields(); i++ {
							if s.Field(i).Name() == x.Name {
								return []writeRec{{v.fieldHeap(t, i), nil}}
							}
						}
					}
				}
			}
		}
		y := env.eval(x.Args[0])
		p, ok := under(y.typ).(*types.Pointer)
		if !ok {
			env.fail(x, "modifies: %s is not a field of a pointer", cl.Src)
		}
		s, _ := structOf(p.Elem())
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == x.Name {
				return []writeRec{{v.fieldHeap(p.Elem(), i), y.t}}
			}
		}
		env.fail(x, "modifies: no field %s", x.Name)
	case "call":
		switch x.Name {
		case "elems":
			y := env.eval(x.Args[0])
			u, ok := under(y.typ).(*types.Slice)
			if !ok {
				env.fail(x, "elems of a non-slice")
			}
			return []writeRec{{v.elemHeap(u.Elem()), c.Sel(y.t, 0)}}
		case "allelems":
			t := env.resolveType(typeText(x.Args[0]))
			if t == nil {
				env.fail(x, "allelems: unknown type")
			}
			return []writeRec{{v.elemHeap(t), nil}}
		case "map":
			y := env.eval(x.Args[0])
			mt := under(y.typ).(*types.Map)
			a, b, l := v.mapHeaps(mt)
			return []writeRec{{a, y.t}, {b, y.t}, {l, y.t}}
		case "allmaps":
			y := env.eval(x.Args[0])
			mt := under(y.typ).(*types.Map)
			a, b, l := v.mapHeaps(mt)
			return []writeRec{{a, nil}, {b, nil}, {l, nil}}
		case "deref":
			y := env.eval(x.Args[0])
			p := under(y.typ).(*types.Pointer)
			if a, ok := under(p.Elem()).(*types.Array); ok {
				return []writeRec{{v.elemHeap(a.Elem()), y.t}}
			}
			return structHeaps(p.Elem(), y.t)
		case "ghost":
			return []writeRec{{v.setSort("GH:"+x.Args[0].Name, SArray(SInt, SInt)), v.ghostRef(env.eval(x.Args[1]).t)}}
		case "ghostset":
			return []writeRec{{v.setSort("GHS:"+x.Args[0].Name, SArray(SInt, SArray(SStr, SBool))), v.ghostRef(env.eval(x.Args[1]).t)}}
		case "sends":
			y := env.eval(x.Args[0])
			ch := under(y.typ).(*types.Chan)
			s := v.sortOf(ch.Elem())
			return []writeRec{{v.setSort("GH:sendlen", SArray(SInt, SInt)), y.t}, {v.setSort("GH:sent:"+s.Name, SArray(SInt, SArray(SInt, s))), y.t}}
		}
	case "id":
		if env.pkg != nil {
			if o, ok := env.pkg.Scope().Lookup(x.Name).(*types.Var); ok {
				return []writeRec{{v.setSort("G:"+o.Pkg().Path()+"."+x.Name, v.sortOf(o.Type())), nil}}
			}
		}
	}
	env.fail(x, "unsupported modifies clause %q", cl.Src)
	return nil
}
func typeText(x *Expr) string {
	switch x.Kind {
	case "id", "str":
		return x.Name
	case "field":
		return typeText(x.Args[0]) + "." + x.Name
	}
	return ""
}

func (v *VC) callContract(st *State, con *Contract, args []Val, pts []types.Type, results *types.Tuple, fn *ssa.Function) Val {
	c := v.c
	v.used[con] = true
	// interior pointers are copied in and out
	type co struct {
		addr *Addr
		ref  *T
		typ  types.Type
		in   *T
	}
	var outs []co
	args = append([]Val{}, args...)
	for i := range args {
		if a := args[i].addr; a != nil && (len(a.path) > 0 || a.kind == "elem" || a.kind == "global") {
			et := under(pts[i]).(*types.Pointer).Elem()
			r := v.newRef(st)
			x := v.load(st, a, et)
			v.store(st, v.derefAddr(Val{t: r}, et), x)
			args[i] = Val{t: r}
			outs = append(outs, co{a, r, et, v.load(st, v.derefAddr(Val{t: r}, et), et)})
		}
	}
	env := v.contractEnv(con, fn, args, pts, st, nil)
	for _, r := range con.Requires {
		t, err := v.tryBool(env, r.E)
		if err != nil {
			v.oblige("spec", fmt.Sprintf("precondition of %s evaluates: %s: %v", con.ID(), r.Src, err), c.False())
			continue
		}
		v.oblige("requires", fmt.Sprintf("%s requires %s", con.ID(), r.Src), t)
		v.fact(t)
	}
	pre := st.clone()
	if con.ModAny {
		v.havocAll(st)
	} else {
		for _, m := range con.Modifies {
			env.st = pre
			ws, err := v.tryMods(env, m)
			if err != nil {
				v.oblige("spec", fmt.Sprintf("modifies of %s evaluates: %v", con.ID(), err), c.False())
				v.havocAll(st)
				continue
			}
			for _, w := range ws {
				H := v.heap(st, w.heap)
				if w.ref == nil {
					v.setHeap(st, w.heap, nil, c.Fresh("c."+w.heap, H.sort))
				} else {
					v.setHeap(st, w.heap, w.ref, c.Store(H, w.ref, c.Fresh("c."+w.heap, H.sort.Elem)))
				}
			}
		}
		if _, no := con.Opts["noalloc"]; !no {
			a := v.freshAlloc()
			v.rawFact(c.Ge(a, st.alloc))
			st.alloc = a
			for _, r := range v.recs {
				r.alloc = true
			}
		}
	}
	var rs []Val
	env = v.contractEnv(con, fn, args, pts, st, pre)
	env.oldAlloc = pre.alloc
	for i := 0; i < results.Len(); i++ {
		r := v.freshVal("r."+con.Key, results.At(i).Type(), st)
		rs = append(rs, r)
		if i < len(con.Results) {
			env.vars[con.Results[i]] = SV{t: r.t, typ: results.At(i).Type(), val: r}
		}
	}
	if f := con.Opts["fn"]; f != "" && !v.bv {
		// the verified body computes its result from these values alone (see the contract), so callers
		// may treat it as a mathematical function of them
		var as []*T
		for i, a := range args {
			t := v.term(a)
			if s, ok := under(pts[i]).(*types.Slice); ok && types.Identical(s.Elem(), byteType) {
				t = v.view(pre, t)
			}
			as = append(as, t)
		}
		v.fact(c.Eq(v.term(rs[0]), c.App("uf_"+f, v.sortOf(results.At(0).Type()), as...)))
		return pack(rs)
	}
	for _, e := range con.Ensures {
		t, err := v.tryBool(env, e.E)
		if err != nil {
			v.note("postcondition of %s not usable at a call: %s: %v", con.ID(), e.Src, err)
			continue
		}
		v.fact(t)
	}
	for _, o := range outs {
		if out := v.load(st, v.derefAddr(Val{t: o.ref}, o.typ), o.typ); out != o.in {
			v.store(st, o.addr, out)
		}
	}
	return pack(rs)
}

func (v *VC) tryBool(env *Env, x *Expr) (t *T, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case specErr:
				err = fmt.Errorf("%s", u.msg)
			case unsupported:
				err = fmt.Errorf("%s", u.msg)
			default:
				panic(r)
			}
		}
	}()
	return env.boolT(x), nil
}
func (v *VC) tryMods(env *Env, m Clause) (w []writeRec, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case specErr:
				err = fmt.Errorf("%s", u.msg)
			case unsupported:
				err = fmt.Errorf("%s", u.msg)
			default:
				panic(r)
			}
		}
	}()
	return v.modSet(env, m), nil
}

// pureApp: a contract marked pure is an uninterpreted function axiomatised by its ensures.
func (v *VC) pureApp(con *Contract, pk, key string, args []Val, rt types.Type) *T {
	c := v.c
	var ts []*T
	for _, a := range args {
		ts = append(ts, v.term(a))
	}
	v.used[con] = true
	name := sanitize("pure_" + shortPkg(pk) + "." + key)
	for _, t := range ts {
		if t.sort != SInt && t.sort != SStr && t.sort != SBool {
			name += "_" + sanitize(t.sort.Name)
		}
	}
	app := c.App(name, v.sortOf(rt), ts...)
	if !v.axioms["pure:"+name] && len(con.Ensures) > 0 {
		v.axioms["pure:"+name] = true
		var bs []*T
		env := v.newEnv(&State{heaps: map[string]*T{}, base: "pure", alloc: c.Int(1)}, nil)
		env.pkg = v.P.tpkgs[pk]
		for i, t := range ts {
			b := c.BoundVar("p", t.sort)
			bs = append(bs, b)
			if i < len(con.Params) {
				env.vars[con.Params[i]] = SV{t: b}
			}
		}
		a2 := c.App(name, v.sortOf(rt), bs...)
		if len(con.Results) > 0 {
			env.vars[con.Results[0]] = SV{t: a2, typ: rt}
		}
		for _, e := range con.Ensures {
			if t, err := v.tryBool(env, e.E); err == nil {
				v.rawFact(c.Forall(bs, [][]*T{{a2}}, t))
			} else {
				v.note("pure postcondition unusable: %v", err)
			}
		}
	}
	return app
}

func (v *VC) pureBuiltin(st *State, id string, as []SV) *SV {
	m := stdModel(id)
	if m == nil {
		return nil
	}
	var args []Val
	for _, a := range as {
		args = append(args, Val{t: a.t})
	}
	q := v.quiet
	v.quiet++
	defer func() { v.quiet = q }()
	r := m(v, nil, st.clone(), args, nil, nil)
	if r.t == nil {
		return nil
	}
	var typ types.Type
	switch r.t.sort {
	case SBool:
		typ = types.Typ[types.Bool]
	case SInt:
		typ = types.Typ[types.Int64]
		if len(as) > 0 && as[0].typ != nil && isTime(as[0].typ) && (strings.HasSuffix(id, ".Add") || strings.HasSuffix(id, ".UTC")) {
			typ = as[0].typ
		}
	}
	return &SV{t: r.t, typ: typ}
}

// ---------- lock monitors ----------

func (v *VC) monitorOf(t types.Type) *Monitor {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	return v.S.Monitors[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

func (v *VC) guardedAccess(fr *Frame, st *State, a *Addr, t types.Type, field int) {
	if v.quiet > 0 || a.kind != "obj" || len(a.path) != 1 {
		return
	}
	m := v.monitorOf(t)
	if m == nil {
		return
	}
	s, _ := structOf(t)
	name := s.Field(field).Name()
	found := false
	for _, g := range m.Guards {
		if g == name {
			found = true
		}
	}
	if !found {
		return
	}
	if _, ok := v.con.Opts["locked"]; ok {
		return
	}
	if b, _ := v.c.lin(a.ref); b != nil && b != v.entry.alloc && v.isFresh(a.ref, 0) || v.c.linDiff(a.ref, v.entry.alloc) != nil {
		return // object created by this function
	}
	for _, h := range st.held {
		if h.ref == a.ref && types.Identical(h.t, t) {
			return
		}
	}
	v.oblige("lock", fmt.Sprintf("%s.%s is accessed with %s held", m.Type, name, m.Field), v.c.False())
}
func (v *VC) guardedMap(fr *Frame, st *State, x ssa.Value) {}

func (v *VC) monitorEvent(st *State, a *Addr, lock bool) {
	if a == nil || a.kind != "obj" || len(a.path) != 1 {
		return
	}
	m := v.monitorOf(a.typ)
	if m == nil {
		return
	}
	s, _ := structOf(a.typ)
	if s.Field(a.path[0].field).Name() != m.Field {
		return
	}
	c := v.c
	inv := func() *T {
		if m.Inv == nil {
			return c.True()
		}
		env := v.newEnv(st, v.entry)
		env.pkg = v.P.tpkgs[m.Pkg]
		env.vars["self"] = SV{t: a.ref, typ: types.NewPointer(a.typ)}
		t, err := v.tryBool(env, m.Inv)
		if err != nil {
			v.oblige("spec", "lock invariant evaluates: "+err.Error(), c.False())
			return c.True()
		}
		return t
	}
	if lock {
		key := fmt.Sprintf("%s@%d", m.Type, a.ref.id)
		if v.held == nil {
			v.held = map[string]bool{}
		}
		if v.held[key] {
			// released and re-acquired: other goroutines may have changed the guarded state
			for i := 0; i < s.NumFields(); i++ {
				for _, g := range m.Guards {
					if s.Field(i).Name() == g {
						h := v.fieldHeap(a.typ, i)
						x := v.freshVal("mon."+g, s.Field(i).Type(), st)
						fo := v.frameOn
						v.frameOn = false
						v.setHeap(st, h, a.ref, c.Store(v.heap(st, h), a.ref, x.t))
						v.frameOn = fo
					}
				}
			}
		}
		if v.quiet == 0 {
			v.held[key] = true
		}
		v.fact(inv())
		st.held = append(append([]heldLock{}, st.held...), heldLock{key, a.ref, a.typ})
		return
	}
	v.oblige("lock-inv", fmt.Sprintf("%s invariant holds when %s is released: %s", m.Type, m.Field, m.Src), inv())
	for i := len(st.held) - 1; i >= 0; i-- {
		if st.held[i].ref == a.ref {
			st.held = append(append([]heldLock{}, st.held[:i]...), st.held[i+1:]...)
			break
		}
	}
}

// ---------- builtins ----------

func (v *VC) lenOf(st *State, t *T, typ types.Type) *T {
	c := v.c
	if t.sort == SSlice {
		return c.Sel(t, 2)
	}
	if t.sort == SStr {
		n := v.slen(t)
		v.rawFact(c.Ge(n, c.Int(0)))
		return n
	}
	switch u := under(typ).(type) {
	case *types.Map:
		_, _, ml := v.mapHeaps(u)
		l := c.Select(v.heap(st, ml), t)
		v.fact(c.Ge(l, c.Int(0)))
		// an empty map has no keys
		md, _, _ := v.mapHeaps(u)
		q := c.BoundVar("q", v.sortOf(u.Key()))
		dom := c.Select(v.heap(st, md), t)
		if !l.open {
			v.fact(c.Imp(c.Eq(l, c.Int(0)), c.Forall([]*T{q}, [][]*T{{c.Select(dom, q)}}, c.Not(c.Select(dom, q)))))
			// and another map has at least one
			v.fact(c.Imp(c.Gt(l, c.Int(0)), c.Select(dom, c.App("somekey_"+dom.sort.Name, v.sortOf(u.Key()), dom))))
		}
		return c.Ite(c.Eq(t, c.Int(0)), c.Int(0), l)
	case *types.Array:
		return c.Int(u.Len())
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			return c.Int(a.Len())
		}
	}
	n := c.Fresh("len", SInt)
	v.rawFact(c.Ge(n, c.Int(0)))
	return n
}

func (v *VC) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, rt types.Type) Val {
	c := v.c
	switch b.Name() {
	case "len":
		return Val{t: v.lenOf(st, v.term(args[0]), cc.Args[0].Type())}
	case "cap":
		t := v.term(args[0])
		if t.sort == SSlice {
			return Val{t: c.Sel(t, 3)}
		}
		return Val{t: v.lenOf(st, t, cc.Args[0].Type())}
	case "append":
		et := under(cc.Args[0].Type()).(*types.Slice).Elem()
		s := v.term(args[0])
		y := v.term(args[1])
		if y.sort == SStr {
			return Val{t: v.appendSlice(st, et, s, v.lenOf(st, y, nil), func(j *T) *T { return v.sat(y, j) }, nil)}
		}
		h := v.elemHeap(et)
		H := v.heap(st, h)
		n := c.Sel(y, 2)
		src := c.Select(H, c.Sel(y, 0))
		yo := c.Sel(y, 1)
		if n.ival != nil && n.ival.IsInt64() && n.ival.Int64() > 0 && n.ival.Int64() <= 8 {
			var single []*T
			for i := int64(0); i < n.ival.Int64(); i++ {
				single = append(single, c.Select(src, c.Add(yo, c.Int(i))))
			}
			return Val{t: v.appendSlice(st, et, s, n, nil, single)}
		}
		return Val{t: v.appendSlice(st, et, s, n, func(j *T) *T { return c.Select(src, c.Add(yo, j)) }, nil)}
	case "copy":
		d, y := v.term(args[0]), v.term(args[1])
		et := under(cc.Args[0].Type()).(*types.Slice).Elem()
		h := v.elemHeap(et)
		H := v.heap(st, h)
		dn := c.Sel(d, 2)
		var yn *T
		var at func(j *T) *T
		if y.sort == SStr {
			yn = v.lenOf(st, y, nil)
			at = func(j *T) *T { return v.sat(y, j) }
		} else {
			yn = c.Sel(y, 2)
			src := c.Select(H, c.Sel(y, 0))
			at = func(j *T) *T { return c.Select(src, c.Add(c.Sel(y, 1), j)) }
		}
		n := c.Ite(c.Le(dn, yn), dn, yn)
		old := c.Select(H, c.Sel(d, 0))
		arr := c.Fresh("copy", H.sort.Elem)
		do := c.Sel(d, 1)
		j := c.BoundVar("j", SInt)
		in := c.And(c.Ge(j, do), c.Lt(j, c.Add(do, n)))
		v.rawFact(c.Forall([]*T{j}, [][]*T{{c.Select(arr, j)}}, c.And(c.Imp(in, c.Eq(c.Select(arr, j), at(c.Sub(j, do)))), c.Imp(c.Not(in), c.Eq(c.Select(arr, j), c.Select(old, j))))))
		v.setHeap(st, h, c.Sel(d, 0), c.Store(H, c.Sel(d, 0), arr))
		return Val{t: n}
	case "delete":
		mt := under(cc.Args[0].Type()).(*types.Map)
		m := v.term(args[0])
		st2 := st.clone()
		_ = st2
		v.mapDelete(st, mt, m, v.term(args[1]))
		return Val{}
	case "clear":
		if mt, ok := under(cc.Args[0].Type()).(*types.Map); ok {
			m := v.term(args[0])
			md, _, ml := v.mapHeaps(mt)
			v.setHeap(st, md, m, c.Store(v.heap(st, md), m, c.ConstArr(v.heapSort[md].Elem, c.False())))
			v.setHeap(st, ml, m, c.Store(v.heap(st, ml), m, c.Int(0)))
			return Val{}
		}
		v.unsup("clear of a slice")
	case "min", "max":
		r := v.term(args[0])
		for _, a := range args[1:] {
			t := v.term(a)
			if r.sort == SStr || strings.HasPrefix(r.sort.Name, "TP_") {
				lt := v.less(r, t)
				if b.Name() == "min" {
					r = c.Ite(lt, r, t)
				} else {
					r = c.Ite(lt, t, r)
				}
				continue
			}
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Ge(r, t), r, t)
			}
		}
		return Val{t: r}
	case "close":
		n := v.setSort("GH:closed", SArray(SInt, SInt))
		ch := v.term(args[0])
		H := v.heap(st, n)
		if _, ok := v.con.Opts["checkclose"]; ok {
			v.check("close", "close of an open, non-nil channel", c.And(c.Not(c.Eq(ch, c.Int(0))), c.Eq(c.Select(H, ch), c.Int(0))))
		}
		v.setHeap(st, n, ch, c.Store(H, ch, c.Int(1)))
		return Val{}
	case "print", "println":
		return Val{}
	case "recover":
		return Val{t: c.Const("iface_nil", SIface)}
	case "ssa:wrapnilchk":
		return args[0]
	}
	v.unsup("builtin %s", b.Name())
	return Val{}
}

// ---------- models of the standard library ----------

type model func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val

func (v *VC) nonNilErr() *T {
	e := v.c.Fresh("err", SIface)
	v.rawFact(v.c.Not(v.c.Eq(e, v.c.Const("iface_nil", SIface))))
	return e
}
func (v *VC) hasPrefix(s, p *T) *T {
	return v.c.App("str_hasprefix", SBool, s, p)
}
func (v *VC) asStr(st *State, x *T) *T {
	if x.sort == SSlice {
		return v.view(st, x)
	}
	return x
}

func binPut(n int, big bool) model {
	return func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
		c := v.c
		s, x := v.term(a[1]), v.term(a[2])
		if x.sort == SBV32 {
			x = c.mk("bv2nat", SInt, x)
		}
		v.check("bounds", "buffer is long enough", c.Ge(c.Sel(s, 2), c.Int(int64(n))))
		h := v.elemHeap(byteType)
		H := v.heap(st, h)
		arr := c.Select(H, c.Sel(s, 0))
		v.byteSum(x, n)
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			arr = c.Store(arr, c.Add(c.Sel(s, 1), c.Int(int64(i))), v.byteN(x, k))
		}
		v.setHeap(st, h, c.Sel(s, 0), c.Store(H, c.Sel(s, 0), arr))
		return Val{}
	}
}

// byteSum records the arithmetic identity x = sum of its bytes.
func (v *VC) byteSum(x *T, n int) {
	c := v.c
	r := c.Int(0)
	for k := 0; k < n; k++ {
		r = c.Add(r, c.Mul(v.byteN(x, k), c.BigInt(pow2(uint(8*k)))))
	}
	v.rawFact(c.Imp(c.And(c.Ge(x, c.Int(0)), c.Lt(x, c.BigInt(pow2(uint(8*n))))), c.Eq(r, x)))
}
func (v *VC) byteN(x *T, k int) *T {
	c := v.c
	t := c.Mod(c.Div(x, c.BigInt(pow2(uint(8*k)))), c.Int(256))
	v.setUB(t, big.NewInt(255))
	return t
}
func binGet(n int, big_ bool) model {
	return func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
		c := v.c
		s := v.term(a[1])
		v.check("bounds", "buffer is long enough", c.Ge(c.Sel(s, 2), c.Int(int64(n))))
		h := v.elemHeap(byteType)
		arr := c.Select(v.heap(st, h), c.Sel(s, 0))
		r := c.Int(0)
		for i := 0; i < n; i++ {
			k := i
			if big_ {
				k = n - 1 - i
			}
			b := c.Select(arr, c.Add(c.Sel(s, 1), c.Int(int64(i))))
			v.typeFacts(b, byteType, st)
			r = c.Add(r, c.Mul(b, c.BigInt(pow2(uint(8*k)))))
		}
		if !r.open {
			// the byte-wise reading of a number written byte-wise gives the number back
			v.rawFact(c.And(c.Ge(r, c.Int(0)), c.Lt(r, c.BigInt(pow2(uint(8*n))))))
		}
		v.setUB(r, new(big.Int).Sub(pow2(uint(8*n)), big.NewInt(1)))
		return Val{t: r}
	}
}
func binAppend(n int, big bool) model {
	return func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
		x := v.term(a[2])
		v.byteSum(x, n)
		var single []*T
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			single = append(single, v.byteN(x, k))
		}
		return Val{t: v.appendSlice(st, byteType, v.term(a[1]), v.c.Int(int64(n)), nil, single)}
	}
}

func cmp3(v *VC, lt, gt *T) *T {
	return v.c.Ite(lt, v.c.Int(-1), v.c.Ite(gt, v.c.Int(1), v.c.Int(0)))
}

// less is the order of a basic type, or of an ordered type parameter (a total order: no NaN).
func (v *VC) less(x, y *T) *T {
	if x.sort == SStr {
		return v.c.App("str_lt", SBool, x, y)
	}
	if n := x.sort.Name; strings.HasPrefix(n, "TP_") {
		v.note("values of type parameter %s are totally ordered by <", n[3:])
		return v.c.App("lt_"+n, SBool, x, y)
	}
	return v.c.Lt(x, y)
}

var models map[string]model

func stdModel(id string) model {
	if m, ok := models[id]; ok {
		return m
	}
	return nil
}

func init() {
	noop := func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
		return v.freshResults("x", sig, st)
	}
	nonnil := func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
		return Val{t: v.nonNilErr()}
	}
	timeRel := func(f func(v *VC, x, y *T) *T) model {
		return func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			return Val{t: f(v, v.term(a[0]), v.term(a[1]))}
		}
	}
	unixOf := func(div int64) model {
		return func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			c := v.c
			t := v.term(a[0])
			if div == 1 {
				in := c.And(c.Ge(t, c.BigInt(new(big.Int).Neg(pow2(63)))), c.Lt(t, c.BigInt(pow2(63))))
				return Val{t: c.Ite(in, t, c.App("unixnano_overflow", SInt, t))}
			}
			return Val{t: c.Div(t, c.Int(div))}
		}
	}
	lock := func(on bool) model {
		return func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			at := a[0].addr
			// a mutex behind a pointer field guards the object holding the pointer
			if len(src) > 0 {
				if u, ok := src[0].(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						at = v.val(fr, fa).addr
					}
				}
			}
			v.monitorEvent(st, at, on)
			return Val{}
		}
	}
	models = map[string]model{
		"errors.New": nonnil, "fmt.Errorf": nonnil,
		"fmt.Sprintf": noop, "fmt.Sprint": noop, "fmt.Println": noop, "fmt.Printf": noop, "errors.Is": noop, "errors.As": noop,
		"bytes.Compare": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			x, y := v.view(st, v.term(a[0])), v.view(st, v.term(a[1]))
			return Val{t: cmp3(v, v.c.App("str_lt", SBool, x, y), v.c.App("str_lt", SBool, y, x))}
		},
		"bytes.Equal": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			return Val{t: v.c.Eq(v.view(st, v.term(a[0])), v.view(st, v.term(a[1])))}
		},
		"bytes.HasPrefix": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			return Val{t: v.hasPrefix(v.view(st, v.term(a[0])), v.view(st, v.term(a[1])))}
		},
		"strings.HasPrefix": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			return Val{t: v.hasPrefix(v.term(a[0]), v.term(a[1]))}
		},
		"strings.Compare": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			x, y := v.term(a[0]), v.term(a[1])
			return Val{t: cmp3(v, v.c.App("str_lt", SBool, x, y), v.c.App("str_lt", SBool, y, x))}
		},
		"bytes.Clone": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			s := v.term(a[0])
			c := v.c
			arr := c.Select(v.heap(st, v.elemHeap(byteType)), c.Sel(s, 0))
			z := c.Mk(SSlice, c.Int(0), c.Int(0), c.Int(0), c.Int(0))
			return Val{t: v.appendSlice(st, byteType, z, c.Sel(s, 2), func(j *T) *T { return c.Select(arr, c.Add(c.Sel(s, 1), j)) }, nil)}
		},
		"cmp.Compare": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			x, y := v.term(a[0]), v.term(a[1])
			return Val{t: cmp3(v, v.less(x, y), v.less(y, x))}
		},
		"cmp.Less": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			return Val{t: v.less(v.term(a[0]), v.term(a[1]))}
		},
		"slices.Contains": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			c := v.c
			s, x := v.term(a[0]), v.term(a[1])
			et := under(sig.Params().At(0).Type()).(*types.Slice).Elem()
			arr := c.Select(v.heap(st, v.elemHeap(et)), c.Sel(s, 0))
			j := c.BoundVar("j", SInt)
			k := c.Add(c.Sel(s, 1), j)
			return Val{t: c.Exists([]*T{j}, nil, c.And(c.Ge(j, c.Int(0)), c.Lt(j, c.Sel(s, 2)), c.Eq(c.Select(arr, k), x)))}
		},
		"math/bits.RotateLeft32": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			x, k := v.term(a[0]), v.term(a[1])
			if x.sort == SBV32 && k.ival != nil {
				n := ((k.ival.Int64() % 32) + 32) % 32
				return Val{t: v.c.mk(fmt.Sprintf("(_ rotate_left %d)", n), SBV32, x)}
			}
			return v.freshResults("rot", sig, st)
		},
		"(*sync.Mutex)":      nil,
		"sync.(*Mutex).Lock": lock(true), "sync.(*Mutex).Unlock": lock(false),
		"sync.(*RWMutex).Lock": lock(true), "sync.(*RWMutex).Unlock": lock(false),
		"sync.(*RWMutex).RLock": lock(true), "sync.(*RWMutex).RUnlock": lock(false),
		"time.(Time).After":   timeRel(func(v *VC, x, y *T) *T { return v.c.Gt(x, y) }),
		"time.(Time).Before":  timeRel(func(v *VC, x, y *T) *T { return v.c.Lt(x, y) }),
		"time.(Time).Equal":   timeRel(func(v *VC, x, y *T) *T { return v.c.Eq(x, y) }),
		"time.(Time).Add":     timeRel(func(v *VC, x, y *T) *T { return v.c.Add(x, y) }),
		"time.(Time).Sub":     timeRel(func(v *VC, x, y *T) *T { return v.c.Sub(x, y) }),
		"time.(Time).Compare": timeRel(func(v *VC, x, y *T) *T { return cmp3(v, v.c.Lt(x, y), v.c.Gt(x, y)) }),
		"time.(Time).UTC":     func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val { return a[0] },
		"time.(Time).IsZero": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			return Val{t: v.c.Eq(v.term(a[0]), v.timeZero())}
		},
		"time.(Time).UnixNano":  unixOf(1),
		"time.(Time).UnixMicro": unixOf(1000),
		"time.(Time).UnixMilli": unixOf(1000000),
		"time.(Time).Unix":      unixOf(1000000000),
		"time.Unix": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			return Val{t: v.c.Add(v.c.Mul(v.term(a[0]), v.c.Int(1000000000)), v.term(a[1]))}
		},
		"time.UnixMicro": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			return Val{t: v.c.Mul(v.term(a[0]), v.c.Int(1000))}
		},
		"time.UnixMilli": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			return Val{t: v.c.Mul(v.term(a[0]), v.c.Int(1000000))}
		},
		"google.golang.org/protobuf/types/known/timestamppb.(*Timestamp).AsTime": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			return Val{t: v.c.App("ts_astime", SInt, v.term(a[0]))}
		},
		"google.golang.org/protobuf/types/known/timestamppb.New": func(v *VC, fr *Frame, st *State, a []Val, sig *types.Signature, src []ssa.Value) Val {
			r := v.newRef(st)
			v.rawFact(v.c.Eq(v.c.App("ts_astime", SInt, r), v.term(a[0])))
			return Val{t: r}
		},
	}
	delete(models, "(*sync.Mutex)")
	for _, e := range []struct {
		n   string
		big bool
	}{{"bigEndian", true}, {"littleEndian", false}} {
		for _, n := range []int{2, 4, 8} {
			p := "encoding/binary.(" + e.n + ")."
			models[p+fmt.Sprintf("PutUint%d", 8*n)] = binPut(n, e.big)
			models[p+fmt.Sprintf("Uint%d", 8*n)] = binGet(n, e.big)
			models[p+fmt.Sprintf("AppendUint%d", 8*n)] = binAppend(n, e.big)
		}
	}
}

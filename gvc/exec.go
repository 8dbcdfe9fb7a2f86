package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	names  map[string][]nameDef
	defers []deferred
	parent *Frame
	info   *cfgInfo
	rets   []retInfo
	loopK  map[*ssa.BasicBlock]*T
	cur    *loopInfo // the innermost loop being executed
	iters  []*Iter
	top    bool
	args   []Val
	site   string // the calls which led here
}
type nameDef struct {
	blk  *ssa.BasicBlock
	val  Val
	addr bool
	typ  types.Type
	pos  token.Pos // of the declaration, when it's a variable in memory
}
type deferred struct {
	guard *T
	call  *ssa.Defer
	args  []Val
	fn    Val
}
type retInfo struct {
	guard *T
	st    *State
	res   []Val
	pos   token.Pos
}
type edge struct {
	guard *T
	st    *State
	from  *ssa.BasicBlock
}

// ---------- CFG ----------

type loopInfo struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loopInfo
	ord    int // source order within the function
}
type cfgInfo struct {
	rpo   []*ssa.BasicBlock
	pos   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loopInfo // by header
}

func cfg(fn *ssa.Function) *cfgInfo {
	ci := &cfgInfo{pos: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		ci.pos[post[i]] = len(ci.rpo)
		ci.rpo = append(ci.rpo, post[i])
	}
	for _, b := range ci.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ci.loops[s]
				if l == nil {
					l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					ci.loops[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !l.body[p] && seen[p] {
							l.body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	var heads []*ssa.BasicBlock
	for h := range ci.loops {
		heads = append(heads, h)
	}
	sort.Slice(heads, func(i, j int) bool { return ci.pos[heads[i]] < ci.pos[heads[j]] })
	for i, h := range heads {
		ci.loops[h].ord = i + 1
		for _, g := range heads {
			if g != h && ci.loops[g].body[h] {
				if ci.loops[h].parent == nil || len(ci.loops[g].body) < len(ci.loops[h].parent.body) {
					ci.loops[h].parent = ci.loops[g]
				}
			}
		}
	}
	return ci
}

var cfgCache = map[*ssa.Function]*cfgInfo{}

func (v *VC) cfgOf(fn *ssa.Function) *cfgInfo {
	cfgMu.Lock()
	defer cfgMu.Unlock()
	if c, ok := cfgCache[fn]; ok {
		return c
	}
	c := cfg(fn)
	cfgCache[fn] = c
	return c
}

// ---------- function bodies ----------

func (v *VC) execFunc(fn *ssa.Function, args []Val, binds []Val, st *State, parent *Frame) ([]retInfo, *Frame) {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string][]nameDef{}, parent: parent, info: v.cfgOf(fn), loopK: map[*ssa.BasicBlock]*T{}, args: args}
	if parent != nil {
		fr.site = fmt.Sprintf("%s<%p", parent.site, v.curIns)
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		fr.names[p.Name()] = append(fr.names[p.Name()], nameDef{fn.Blocks[0], args[i], false, p.Type(), 0})
	}
	for i, b := range fn.FreeVars {
		fr.env[b] = binds[i]
		pt, _ := b.Type().(*types.Pointer)
		if pt != nil {
			fr.names[b.Name()] = append(fr.names[b.Name()], nameDef{fn.Blocks[0], binds[i], true, pt.Elem(), b.Pos()})
		}
	}
	v.stack = append(v.stack, fn)
	save := v.guard
	in := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{v.guard, st, nil}}}
	v.region(fr, nil, in)
	v.guard = save
	v.stack = v.stack[:len(v.stack)-1]
	return fr.rets, fr
}

// region executes the blocks of the function (or of loop l) in reverse postorder.
func (v *VC) region(fr *Frame, l *loopInfo, in map[*ssa.BasicBlock][]edge) map[*ssa.BasicBlock][]edge {
	out := map[*ssa.BasicBlock][]edge{}
	done := map[*ssa.BasicBlock]bool{}
	cur := fr.cur
	fr.cur = l
	defer func() { fr.cur = cur }()
	for _, b := range fr.info.rpo {
		if l != nil && !l.body[b] || done[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		send := func(from *ssa.BasicBlock, to *ssa.BasicBlock, g *T, st *State) {
			if isFalse(g) {
				return
			}
			e := edge{g, st, from}
			if l != nil && (!l.body[to] || to == l.head) {
				out[to] = append(out[to], e)
			} else {
				in[to] = append(in[to], e)
			}
		}
		if lp := fr.info.loops[b]; lp != nil && lp != l {
			for x := range lp.body {
				done[x] = true
			}
			ex := v.loop(fr, lp, es)
			// deterministic order
			var tos []*ssa.BasicBlock
			for to := range ex {
				tos = append(tos, to)
			}
			sort.Slice(tos, func(i, j int) bool { return fr.info.pos[tos[i]] < fr.info.pos[tos[j]] })
			for _, to := range tos {
				for _, e := range ex[to] {
					if l != nil && (!l.body[to] || to == l.head) {
						out[to] = append(out[to], e)
					} else {
						in[to] = append(in[to], e)
					}
				}
			}
			continue
		}
		var g *T
		var st *State
		if l != nil && b == l.head {
			g, st = es[0].guard, es[0].st // phis already bound by loop()
		} else {
			g, st = v.merge(fr, b, es)
		}
		v.guard = g
		v.block(fr, b, st, send)
		done[b] = true
	}
	return out
}

func (v *VC) merge(fr *Frame, b *ssa.BasicBlock, es []edge) (*T, *State) {
	c := v.c
	if len(es) == 1 {
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			fr.env[phi] = v.phiArg(fr, phi, b, es[0].from)
			v.bindName(fr, phi, b)
		}
		return es[0].guard, es[0].st.clone()
	}
	var gs []*T
	for _, e := range es {
		gs = append(gs, e.guard)
	}
	g := c.Or(gs...)
	// phis
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var xs []Val
		for _, e := range es {
			xs = append(xs, v.phiArg(fr, phi, b, e.from))
		}
		phis = append(phis, phi)
		vals = append(vals, v.mergeVals(phi.Type(), es, xs))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
		v.bindName(fr, p, b)
	}
	return g, v.mergeStates(es)
}

func (v *VC) mergeVals(typ types.Type, es []edge, xs []Val) Val {
	same := true
	for _, x := range xs[1:] {
		if x.t != xs[0].t || x.addr != xs[0].addr || x.clo != xs[0].clo || x.it != xs[0].it || x.tup != nil {
			same = false
		}
	}
	if same {
		return xs[0]
	}
	if xs[0].tup != nil {
		n := len(xs[0].tup)
		tp := typ.(*types.Tuple)
		r := Val{tup: make([]Val, n)}
		for i := 0; i < n; i++ {
			var ys []Val
			for _, x := range xs {
				ys = append(ys, x.tup[i])
			}
			r.tup[i] = v.mergeVals(tp.At(i).Type(), es, ys)
		}
		return r
	}
	for i, x := range xs {
		if x.t == nil {
			if x.clo != nil {
				xs[i] = Val{t: v.cloTerm(x.clo)}
				continue
			}
			v.unsup("merge of interior pointers")
		}
	}
	r := xs[len(xs)-1].t
	for i := len(xs) - 2; i >= 0; i-- {
		r = v.c.Ite(es[i].guard, xs[i].t, r)
	}
	return Val{t: r}
}

func (v *VC) mergeStates(es []edge) *State {
	c := v.c
	st := es[0].st.clone()
	var held []heldLock
	for _, h := range st.held {
		all := true
		for _, e := range es[1:] {
			in := false
			for _, k := range e.st.held {
				in = in || k.key == h.key
			}
			all = all && in
		}
		if all {
			held = append(held, h)
		}
	}
	st.held = held
	sameBase := true
	for _, e := range es[1:] {
		if e.st.base != st.base {
			sameBase = false
		}
	}
	names := map[string]bool{}
	for _, e := range es {
		for n := range e.st.heaps {
			names[n] = true
		}
	}
	ns := sortedKeys(names)
	vals := make([][]*T, len(ns))
	for i, n := range ns {
		for _, e := range es {
			vals[i] = append(vals[i], v.heap(e.st, n))
		}
	}
	if !sameBase {
		v.epoch++
		st.base = fmt.Sprintf("H%d", v.epoch)
	}
	for i, n := range ns {
		xs := vals[i]
		same := true
		for _, x := range xs[1:] {
			if x != xs[0] {
				same = false
			}
		}
		if same {
			st.heaps[n] = xs[0]
			continue
		}
		if xs[0].sort.Elem == nil {
			r := xs[len(xs)-1]
			for j := len(xs) - 2; j >= 0; j-- {
				r = c.Ite(es[j].guard, xs[j], r)
			}
			st.heaps[n] = r
			continue
		}
		m := c.Fresh("m."+n, xs[0].sort)
		for j, e := range es {
			v.rawFact(c.Imp(e.guard, c.Eq(m, xs[j])))
		}
		st.heaps[n] = m
	}
	// allocation counter
	b0, _ := c.lin(es[0].st.alloc)
	mx := es[0].st.alloc
	ok := true
	for _, e := range es[1:] {
		b, k := c.lin(e.st.alloc)
		if b != b0 {
			ok = false
			break
		}
		if _, km := c.lin(mx); k.Cmp(km) > 0 {
			mx = e.st.alloc
		}
	}
	if ok {
		st.alloc = mx
	} else {
		a := v.freshAlloc()
		for _, e := range es {
			v.rawFact(c.Imp(e.guard, c.Ge(a, e.st.alloc)))
		}
		v.rawFact(c.Ge(a, v.entry.alloc))
		st.alloc = a
	}
	return st
}
func (v *VC) freshAlloc() *T {
	a := v.c.Fresh("alloc", SInt)
	v.allocBases[a] = a.birth
	return a
}

func (v *VC) phiArg(fr *Frame, phi *ssa.Phi, b, from *ssa.BasicBlock) Val {
	for i, p := range b.Preds {
		if p == from {
			return v.val(fr, phi.Edges[i])
		}
	}
	v.unsup("phi edge")
	return Val{}
}
func (v *VC) bindName(fr *Frame, phi *ssa.Phi, b *ssa.BasicBlock) {
	if phi.Comment != "" {
		fr.names[phi.Comment] = append(fr.names[phi.Comment], nameDef{b, fr.env[phi], false, phi.Type(), 0})
	}
}

func (v *VC) val(fr *Frame, x ssa.Value) Val {
	if r, ok := fr.env[x]; ok {
		return r
	}
	switch x := x.(type) {
	case *ssa.Const:
		return v.constVal(x)
	case *ssa.Global:
		pt := x.Type().(*types.Pointer)
		return Val{addr: &Addr{kind: "global", name: x.String(), typ: pt.Elem()}}
	case *ssa.Function:
		return Val{clo: &Closure{fn: x}}
	case *ssa.Builtin:
		return Val{}
	}
	// value defined on an unreachable path
	return v.freshVal("undef", x.Type(), nil)
}

// term converts a value to an SMT term.
func (v *VC) term(x Val) *T {
	if x.t != nil {
		return x.t
	}
	if x.clo != nil {
		return v.cloTerm(x.clo)
	}
	if x.addr != nil {
		if len(x.addr.path) == 0 && (x.addr.kind == "obj" || x.addr.kind == "cell" || x.addr.kind == "arr") {
			return x.addr.ref
		}
		v.unsup("interior pointer used as a value")
	}
	v.unsup("value without a term")
	return nil
}
func (v *VC) cloTerm(cl *Closure) *T {
	for t, c := range v.clos {
		if c == cl {
			return t
		}
	}
	t := v.c.Fresh("fn."+cl.fn.Name(), SInt)
	v.rawFact(v.c.Gt(t, v.c.Int(0)))
	v.clos[t] = cl
	return t
}

// ---------- loops ----------

func (v *VC) loop(fr *Frame, l *loopInfo, es []edge) map[*ssa.BasicBlock][]edge {
	c := v.c
	key := fmt.Sprintf("%p%s", l.head, fr.site)
	if v.quiet == 0 {
		if v.loopOf[key] == 0 {
			v.loopN++
			v.loopOf[key] = v.loopN
		}
	}
	v.budget -= 10
	if v.budget < 0 {
		v.unsup("execution budget exhausted")
	}
	// entry merge (phi entry values)
	var phis []*ssa.Phi
	for _, ins := range l.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	g, st := v.merge(fr, l.head, es)
	entryPhi := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entryPhi[p] = fr.env[p]
	}
	// pass 1: collect writes
	birth := c.fresh
	factsN := len(v.facts)
	rec := &recorder{}
	savedRecs := v.recs
	v.recs = append(append([]*recorder{}, v.recs...), rec)
	v.quiet++
	savedRets := fr.rets
	savedDef := fr.defers
	names := copyNames(fr.names)
	func() {
		st1 := st.clone()
		for n := range st1.heaps {
			st1.heaps[n] = c.Fresh("p."+n, v.heapSort[n])
		}
		st1.alloc = v.freshAlloc()
		v.epoch++
		st1.base = fmt.Sprintf("P%d", v.epoch)
		for _, p := range phis {
			v.havocPhi(fr, p, st1)
		}
		fr.loopK[l.head] = c.Fresh("k", SInt)
		in := map[*ssa.BasicBlock][]edge{l.head: {{g, st1, nil}}}
		v.region(fr, l, in)
	}()
	v.quiet--
	fr.rets = savedRets
	fr.defers = savedDef
	fr.names = names
	v.recs = savedRecs
	v.facts = v.facts[:factsN]
	for _, r := range v.recs {
		r.writes = append(r.writes, rec.writes...)
		r.alloc = r.alloc || rec.alloc
		r.any = r.any || rec.any
	}
	// havoc
	sh := st.clone()
	written := map[string][]*T{}
	whole := map[string]bool{}
	allInv := map[string]bool{}
	for _, w := range rec.writes {
		if _, ok := written[w.heap]; !ok {
			written[w.heap] = nil
			allInv[w.heap] = true
		}
		switch {
		case w.ref == nil:
			whole[w.heap] = true
		case w.ref.maxb <= birth:
			written[w.heap] = append(written[w.heap], w.ref)
		case v.isFresh(w.ref, birth):
			allInv[w.heap] = false
		default:
			whole[w.heap] = true
		}
	}
	if rec.any {
		v.havocAll(sh)
	}
	if rec.alloc || rec.any {
		a := v.freshAlloc()
		v.rawFact(c.Ge(a, st.alloc))
		sh.alloc = a
	}
	for _, n := range sortedKeys(written) {
		H := v.heap(st, n)
		switch {
		case rec.any:
		case H.sort.Elem == nil || whole[n]:
			sh.heaps[n] = c.Fresh("h."+n, H.sort)
		case allInv[n]:
			r := H
			seen := map[*T]bool{}
			for _, ref := range written[n] {
				if !seen[ref] {
					seen[ref] = true
					r = c.Store(r, ref, c.Fresh("h."+n, H.sort.Elem))
				}
			}
			sh.heaps[n] = r
		default:
			nh := c.Fresh("h."+n, H.sort)
			x := c.BoundVar("r", SInt)
			cond := []*T{c.Lt(x, st.alloc)}
			seen := map[*T]bool{}
			for _, ref := range written[n] {
				if !seen[ref] {
					seen[ref] = true
					cond = append(cond, c.Not(c.Eq(x, ref)))
				}
			}
			v.rawFact(c.Forall([]*T{x}, [][]*T{{c.Select(nh, x)}}, c.Imp(c.And(cond...), c.Eq(c.Select(nh, x), c.Select(H, x)))))
			sh.heaps[n] = nh
		}
	}
	// entry checks
	lname := fmt.Sprintf("loop%d", v.loopOf[key])
	v.guard = g
	fr.loopK[l.head] = c.Int(0)
	invs := v.loopInvs(fr, l)
	v.curPos = headPos(l.head)
	for i, inv := range invs {
		t, err := v.evalInv(inv, fr, l, st)
		if err != nil {
			if v.quiet == 0 {
				v.note("invariant %q not applicable at %s: %v", inv.Src, lname, err)
			}
			invs[i].E = nil
			continue
		}
		v.oblige("inv-entry", fmt.Sprintf("%s: %s", lname, inv.Src), t)
		if v.quiet == 0 {
			v.obls[len(v.obls)-1].InvKey = lname + "|" + inv.Src
		}
	}
	// an iterator function's loop finds the state of the surrounding range as it was
	type jumpInv struct {
		key string
		f   func(st *State) *T
	}
	var jumps []jumpInv
	if v.quiet == 0 {
		for _, n := range sortedKeys(written) {
			seen := map[*T]bool{}
			for _, ref := range written[n] {
				if !v.jumpRefs[ref] || seen[ref] {
					continue
				}
				seen[ref] = true
				key := fmt.Sprintf("%s|range state %d", lname, len(jumps))
				if v.dropInv[key] {
					jumps = append(jumps, jumpInv{key, nil})
					continue
				}
				at := c.Select(v.heap(st, n), ref)
				n, ref := n, ref
				jumps = append(jumps, jumpInv{key, func(st *State) *T { return c.Eq(c.Select(v.heap(st, n), ref), at) }})
			}
		}
	}
	// assume at an arbitrary iteration
	for _, p := range phis {
		v.havocPhi(fr, p, sh)
	}
	k := c.Fresh("_k", SInt)
	fr.loopK[l.head] = k
	v.rawFact(c.Ge(k, c.Int(0)))
	v.linearPhis(fr, l, phis, entryPhi, k)
	v.guard = g
	autos := v.autoInvs(fr, l, phis, entryPhi)
	for _, a := range autos {
		v.fact(a(fr))
	}
	for _, j := range jumps {
		if j.f != nil {
			v.fact(j.f(sh))
		}
	}
	for _, inv := range invs {
		if inv.E == nil {
			continue
		}
		t, err := v.evalInv(inv, fr, l, sh)
		if err == nil {
			v.fact(t)
		}
	}
	in := map[*ssa.BasicBlock][]edge{l.head: {{g, sh, nil}}}
	out := v.region(fr, l, in)
	back := out[l.head]
	delete(out, l.head)
	if len(back) > 0 {
		save := map[*ssa.Phi]Val{}
		for _, p := range phis {
			save[p] = fr.env[p]
		}
		for bi, e := range back {
			v.guard = e.guard
			v.coverPoint(fmt.Sprintf("%s back edge %d", lname, bi+1), e.guard)
			var nv []Val
			for _, p := range phis {
				nv = append(nv, v.phiArg(fr, p, l.head, e.from))
			}
			names := copyNames(fr.names)
			for i, p := range phis {
				fr.env[p] = nv[i]
				v.bindName(fr, p, l.head)
			}
			fr.loopK[l.head] = c.Add(k, c.Int(1))
			v.curPos = headPos(l.head)
			for _, j := range jumps {
				if j.f != nil {
					v.oblige("inv-preserve", fmt.Sprintf("%s: range state (back edge %d)", lname, bi+1), j.f(e.st))
					if v.quiet == 0 {
						v.obls[len(v.obls)-1].InvKey = j.key
					}
				}
			}
			for _, inv := range invs {
				if inv.E == nil {
					continue
				}
				t, err := v.evalInv(inv, fr, l, e.st)
				if err != nil {
					t = c.False()
				}
				v.oblige("inv-preserve", fmt.Sprintf("%s: %s (back edge %d)", lname, inv.Src, bi+1), t)
				if v.quiet == 0 {
					v.obls[len(v.obls)-1].InvKey = lname + "|" + inv.Src
				}
			}
			for p, x := range save {
				fr.env[p] = x
			}
			fr.names = names
		}
		fr.loopK[l.head] = k
	}
	// after the loop, names refer to header values
	for _, p := range phis {
		v.bindName(fr, p, l.head)
	}
	return out
}

func headPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos() != token.NoPos {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

func copyNames(m map[string][]nameDef) map[string][]nameDef {
	r := make(map[string][]nameDef, len(m))
	for k, x := range m {
		r[k] = x[:len(x):len(x)]
	}
	return r
}

func (v *VC) havocPhi(fr *Frame, p *ssa.Phi, st *State) {
	x := fr.env[p]
	if x.t == nil && x.clo == nil && x.addr == nil {
		fr.env[p] = v.freshVal(p.Comment, p.Type(), st)
		return
	}
	// a phi whose edges are all the same closure/address stays
	t := v.c.Fresh("phi."+p.Comment, v.sortOf(p.Type()))
	v.typeFacts(t, p.Type(), st)
	fr.env[p] = Val{t: t}
	v.bindName(fr, p, p.Block())
}

// linearPhis: phi = entry + step*k when every back edge adds the same constant.
func (v *VC) linearPhis(fr *Frame, l *loopInfo, phis []*ssa.Phi, entry map[*ssa.Phi]Val, k *T) {
	c := v.c
	for _, p := range phis {
		if v.sortOf(p.Type()) != SInt || entry[p].t == nil {
			continue
		}
		b, ok := under(p.Type()).(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		var step *big.Int
		good := true
		for i, e := range p.Edges {
			if !l.body[l.head.Preds[i]] {
				continue
			}
			s := phiStep(e, p)
			if s == nil || step != nil && s.Cmp(step) != 0 {
				good = false
				break
			}
			step = s
		}
		if !good || step == nil {
			continue
		}
		v.rawFact(c.Imp(v.guard, c.Eq(fr.env[p].t, c.Add(entry[p].t, c.Mul(k, c.BigInt(step))))))
	}
}
func phiStep(e ssa.Value, p *ssa.Phi) *big.Int {
	bo, ok := e.(*ssa.BinOp)
	if !ok {
		return nil
	}
	var k *ssa.Const
	var other ssa.Value
	if kk, ok := bo.Y.(*ssa.Const); ok {
		k, other = kk, bo.X
	} else if kk, ok := bo.X.(*ssa.Const); ok && bo.Op == token.ADD {
		k, other = kk, bo.Y
	}
	if k == nil || k.Value == nil || other != ssa.Value(p) {
		return nil
	}
	n := big.NewInt(k.Int64())
	switch bo.Op {
	case token.ADD:
		return n
	case token.SUB:
		return n.Neg(n)
	}
	return nil
}

// autoInvs: for "X < N" loop conditions with X = phi or phi+1 counting up by one and N loop
// invariant, phi stays <= max(entry, N) - inductive by construction.
func (v *VC) autoInvs(fr *Frame, l *loopInfo, phis []*ssa.Phi, entry map[*ssa.Phi]Val) []func(*Frame) *T {
	c := v.c
	var out []func(*Frame) *T
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || !l.body[l.head.Succs[0]] {
		return nil
	}
	isInv := func(x ssa.Value) bool {
		switch x := x.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
			return true
		case ssa.Instruction:
			return !l.body[x.Block()]
		}
		return false
	}
	if !isInv(cond.Y) {
		return nil
	}
	for _, p := range phis {
		step1 := true
		for i, e := range p.Edges {
			if l.body[l.head.Preds[i]] {
				if s := phiStep(e, p); s == nil || s.Int64() != 1 {
					step1 = false
				}
			}
		}
		if !step1 || entry[p].t == nil || v.sortOf(p.Type()) != SInt {
			continue
		}
		off := int64(-1)
		if cond.X == ssa.Value(p) {
			off = 0
		} else if s := phiStep(cond.X, p); s != nil && s.Int64() == 1 {
			off = 1
		}
		if off < 0 {
			continue
		}
		n := v.val(fr, cond.Y).t
		e := entry[p].t
		p := p
		out = append(out, func(fr *Frame) *T {
			x := c.Add(fr.env[p].t, c.Int(off))
			return c.Or(c.Le(x, n), c.Le(x, c.Add(e, c.Int(off))))
		})
	}
	return out
}

func (v *VC) loopInvs(fr *Frame, l *loopInfo) []Clause {
	var out []Clause
	n := v.loopOf[fmt.Sprintf("%p%s", l.head, fr.site)]
	for _, i := range v.con.Invs {
		if v.dropInv[fmt.Sprintf("loop%d|%s", n, i.Src)] {
			continue
		}
		if i.Loop == 0 || i.Loop == n || v.unpin || v.quiet > 0 {
			out = append(out, i)
		}
	}
	if v.quiet > 0 {
		return nil
	}
	return out
}

func (v *VC) evalInv(inv Clause, fr *Frame, l *loopInfo, st *State) (t *T, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	env := v.newEnv(st, v.entry)
	env.frame = fr
	env.loop = l
	top := fr
	for top.parent != nil {
		top = top.parent
	}
	for k, x := range v.topParams {
		env.vars[k] = x
	}
	if top.fn == v.fn {
		for i, p := range v.fn.Params {
			if i < len(v.con.Params) {
				if sv, ok := env.lookupName(top, p.Name()); ok {
					env.vars[v.con.Params[i]] = sv
				}
			}
		}
	}
	return env.boolT(inv.E), nil
}

// ---------- blocks ----------

func (v *VC) block(fr *Frame, b *ssa.BasicBlock, st *State, send func(from, to *ssa.BasicBlock, g *T, st *State)) {
	for _, ins := range b.Instrs {
		if ins.Pos() != token.NoPos {
			v.curPos = ins.Pos()
		}
		v.budget--
		if v.budget < 0 {
			v.unsup("execution budget exhausted")
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			cond := v.term(v.val(fr, x.Cond))
			g := v.guard
			send(b, b.Succs[0], v.c.And(g, cond), st)
			if b.Succs[0] == b.Succs[1] {
				return
			}
			send(b, b.Succs[1], v.c.And(g, v.c.Not(cond)), st.clone())
			return
		case *ssa.Jump:
			send(b, b.Succs[0], v.guard, st)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, v.val(fr, r))
			}
			fr.rets = append(fr.rets, retInfo{v.guard, st, rs, x.Pos()})
			return
		case *ssa.Panic:
			v.doPanic(fr, x)
			return
		default:
			v.instr(fr, st, ins)
			if isFalse(v.guard) {
				return
			}
		}
	}
}

func (v *VC) doPanic(fr *Frame, x *ssa.Panic) {
	if _, ok := v.con.Opts["maypanic"]; ok {
		return
	}
	if pc := v.con.Opts["panics"]; pc != "" {
		return
	}
	v.oblige("panic", "explicit panic unreachable", v.c.False())
}

func (v *VC) check(kind, name string, t *T) {
	if _, ok := v.con.Opts["norte"]; ok {
		v.note("run-time errors are not checked in this function (option norte)")
	} else {
		v.oblige(kind, name, t)
	}
	v.fact(t)
}

func (v *VC) instr(fr *Frame, st *State, ins ssa.Instruction) {
	val, isVal := ins.(ssa.Value)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			if u.msg == "execution budget exhausted" {
				panic(r)
			}
			if v.quiet == 0 {
				v.note("not modelled: %s (%s) in %s: result taken as arbitrary", strings.SplitN(fmt.Sprintf("%T", ins), ".", 2)[1], u.msg, fr.fn.Name())
			}
			if isVal {
				fr.env[val] = v.freshVal("unsup", val.Type(), st)
			}
			if _, ok := ins.(*ssa.Store); ok {
				v.havocAll(st)
			}
			if _, ok := ins.(ssa.CallInstruction); ok {
				v.havocAll(st)
			}
		}
	}()
	c := v.c
	v.curIns = ins
	set := func(x Val) { fr.env[val] = x }
	switch x := ins.(type) {
	case *ssa.DebugRef:
		if id, ok := identName(x); ok {
			y := v.val(fr, x.X)
			typ := x.X.Type()
			if !x.IsAddr { // the name of a variable in memory means its present value
				for _, d := range fr.names[id] {
					if d.addr && d.pos.IsValid() && d.pos == x.Object().Pos() {
						return
					}
				}
			}
			if x.IsAddr {
				if p, ok := under(typ).(*types.Pointer); ok {
					typ = p.Elem()
				}
			}
			fr.names[id] = append(fr.names[id], nameDef{x.Block(), y, x.IsAddr, typ, 0})
		}
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		r := v.newRef(st)
		if strings.HasPrefix(x.Comment, "jump$") { // state of a range over a function
			v.jumpRefs[r] = true
		}
		a := v.derefAddr(Val{t: r}, et)
		v.zeroInit(st, a, et)
		set(Val{t: r})
		if x.Comment != "" && !strings.Contains(x.Comment, " ") {
			fr.names[x.Comment] = append(fr.names[x.Comment], nameDef{x.Block(), Val{t: r}, true, et, x.Pos()})
		}
	case *ssa.BinOp:
		set(Val{t: v.binop(st, x.Op, v.val(fr, x.X), v.val(fr, x.Y), x.X.Type(), x.Y.Type(), x.Type())})
	case *ssa.UnOp:
		set(v.unop(fr, st, x))
	case *ssa.FieldAddr:
		pt := under(x.X.Type()).(*types.Pointer)
		base := v.val(fr, x.X)
		a := v.derefAddr(base, pt.Elem())
		v.nilCheck(base)
		na := *a
		na.path = append(append([]PathEl{}, a.path...), PathEl{field: x.Field, typ: pt.Elem()})
		v.guardedAccess(fr, st, &na, pt.Elem(), x.Field)
		set(Val{addr: &na})
	case *ssa.Field:
		y := v.term(v.val(fr, x.X))
		if y.sort.Ctor == "" {
			s := under(x.X.Type()).(*types.Struct)
			set(Val{t: c.App("xf_"+typeKey(x.X.Type())+"."+s.Field(x.Field).Name(), v.sortOf(x.Type()), y)})
			return
		}
		t := c.Sel(y, x.Field)
		v.typeFacts(t, x.Type(), st)
		set(Val{t: t})
	case *ssa.IndexAddr:
		i := v.term(v.val(fr, x.Index))
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s := v.term(v.val(fr, x.X))
			v.check("bounds", "index in range", c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.Sel(s, 2))))
			set(Val{addr: &Addr{kind: "elem", ref: c.Sel(s, 0), idx: c.Add(c.Sel(s, 1), i), typ: u.Elem()}})
		case *types.Pointer:
			arr := under(u.Elem()).(*types.Array)
			v.check("bounds", "array index in range", c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.Int(arr.Len()))))
			a := v.derefAddr(v.val(fr, x.X), u.Elem())
			na := *a
			if a.kind == "arr" && len(a.path) == 0 {
				na = Addr{kind: "elem", ref: a.ref, idx: i, typ: arr.Elem()}
			} else {
				na.path = append(append([]PathEl{}, a.path...), PathEl{idx: i, typ: u.Elem()})
			}
			set(Val{addr: &na})
		}
	case *ssa.Index:
		i := v.term(v.val(fr, x.Index))
		y := v.term(v.val(fr, x.X))
		if y.sort == SStr {
			v.check("bounds", "string index in range", c.And(c.Ge(i, c.Int(0)), c.Lt(i, v.slen(y))))
			t := v.sat(y, i)
			v.typeFacts(t, x.Type(), st)
			set(Val{t: t})
			return
		}
		if a, ok := under(x.X.Type()).(*types.Array); ok {
			v.check("bounds", "array index in range", c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.Int(a.Len()))))
		}
		set(Val{t: c.Select(y, i)})
	case *ssa.Lookup:
		if mt, ok := under(x.X.Type()).(*types.Map); ok {
			m := v.term(v.val(fr, x.X))
			k := v.term(v.val(fr, x.Index))
			v.guardedMap(fr, st, x.X)
			md, mv, _ := v.mapHeaps(mt)
			in := c.And(c.Not(c.Eq(m, c.Int(0))), c.Select(c.Select(v.heap(st, md), m), k))
			e := c.Select(c.Select(v.heap(st, mv), m), k)
			v.typeFacts(e, mt.Elem(), st)
			r := c.Ite(in, e, v.zero(mt.Elem()))
			if x.CommaOk {
				set(Val{tup: []Val{{t: r}, {t: in}}})
			} else {
				set(Val{t: r})
			}
			return
		}
		y := v.term(v.val(fr, x.X))
		i := v.term(v.val(fr, x.Index))
		v.check("bounds", "string index in range", c.And(c.Ge(i, c.Int(0)), c.Lt(i, v.slen(y))))
		t := v.sat(y, i)
		v.typeFacts(t, byteType, st)
		set(Val{t: t})
	case *ssa.Store:
		a := v.derefAddr(v.val(fr, x.Addr), under(x.Addr.Type()).(*types.Pointer).Elem())
		v.store(st, a, v.term(v.val(fr, x.Val)))
	case *ssa.MapUpdate:
		mt := under(x.Map.Type()).(*types.Map)
		m := v.term(v.val(fr, x.Map))
		v.check("nilmap", "assignment to entry in nil map", c.Not(c.Eq(m, c.Int(0))))
		v.mapPut(st, mt, m, v.term(v.val(fr, x.Key)), v.term(v.val(fr, x.Value)))
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		r := v.newRef(st)
		md, mv, ml := v.mapHeaps(mt)
		_ = mv
		v.setHeap(st, md, r, c.Store(v.heap(st, md), r, c.ConstArr(v.heapSort[md].Elem, c.False())))
		v.setHeap(st, ml, r, c.Store(v.heap(st, ml), r, c.Int(0)))
		set(Val{t: r})
	case *ssa.MakeSlice:
		et := under(x.Type()).(*types.Slice).Elem()
		n := v.term(v.val(fr, x.Len))
		cp := v.term(v.val(fr, x.Cap))
		v.check("makeslice", "make: length in range", c.And(c.Ge(n, c.Int(0)), c.Le(n, cp)))
		r := v.newRef(st)
		h := v.elemHeap(et)
		v.setHeap(st, h, r, c.Store(v.heap(st, h), r, v.constArr(v.heapSort[h].Elem, v.zero(et))))
		set(Val{t: c.Mk(SSlice, r, c.Int(0), n, cp)})
	case *ssa.MakeChan:
		r := v.newRef(st)
		n := v.setSort("GH:closed", SArray(SInt, SInt))
		v.setHeap(st, n, r, c.Store(v.heap(st, n), r, c.Int(0)))
		set(Val{t: r})
	case *ssa.MakeClosure:
		cl := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.bind = append(cl.bind, v.val(fr, b))
		}
		set(Val{clo: cl})
	case *ssa.MakeInterface:
		set(Val{t: v.makeIface(v.val(fr, x.X), x.X.Type())})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		op := *ins.Operands(nil)[0]
		y := v.val(fr, op)
		if y.t != nil {
			s := v.sortOf(val.Type())
			if s.Name != y.t.sort.Name {
				if y.t.sort.Ctor != "" && s.Ctor != "" && len(s.Fields) == len(y.t.sort.Fields) {
					var as []*T
					for i := range s.Fields {
						as = append(as, c.Sel(y.t, i))
					}
					y = Val{t: c.Mk(s, as...)}
				} else {
					v.unsup("change type %s -> %s", y.t.sort.Name, s.Name)
				}
			}
		}
		set(y)
	case *ssa.Convert:
		set(Val{t: v.convert(st, v.val(fr, x.X), x.X.Type(), x.Type())})
	case *ssa.Slice:
		set(v.slice(fr, st, x))
	case *ssa.Extract:
		y := v.val(fr, x.Tuple)
		if x.Index >= len(y.tup) {
			v.unsup("extract")
		}
		set(y.tup[x.Index])
	case *ssa.TypeAssert:
		set(v.typeAssert(st, v.term(v.val(fr, x.X)), x))
	case *ssa.Range:
		set(v.rangeInit(fr, st, x))
	case *ssa.Next:
		set(v.rangeNext(fr, st, x))
	case *ssa.Call:
		set(v.call(fr, st, &x.Call, x.Type(), x))
	case *ssa.Defer:
		d := deferred{guard: v.guard, call: x}
		if !x.Call.IsInvoke() {
			d.fn = v.val(fr, x.Call.Value)
		} else {
			d.fn = v.val(fr, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, v.val(fr, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		g := v.guard
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			gd := c.And(g, d.guard)
			if isFalse(gd) {
				continue
			}
			if isTrue(c.Imp(g, d.guard)) || d.guard == g || subsumes(g, d.guard) {
				v.callWith(fr, st, &d.call.Call, d.fn, d.args, d.call.Call.Signature().Results(), d.call)
				v.guard = g
				continue
			}
			// conditional defer
			st2 := st.clone()
			v.guard = gd
			v.callWith(fr, st2, &d.call.Call, d.fn, d.args, d.call.Call.Signature().Results(), d.call)
			m := v.mergeStates([]edge{{gd, st2, nil}, {c.And(g, c.Not(d.guard)), st.clone(), nil}})
			*st = *m
			v.guard = g
		}
	case *ssa.Go:
		v.note("goroutine started in %s: its effects are outside the sequential contract", fr.fn.Name())
	case *ssa.Send:
		v.chanSend(fr, st, v.term(v.val(fr, x.Chan)), v.val(fr, x.X), x.X.Type())
	case *ssa.Select:
		var tup []Val
		idx := c.Fresh("select", SInt)
		lo := int64(0)
		if !x.Blocking {
			lo = -1
		}
		v.fact(c.And(c.Ge(idx, c.Int(lo)), c.Lt(idx, c.Int(int64(len(x.States))))))
		tup = append(tup, Val{t: idx}, Val{t: c.Fresh("recvOk", SBool)})
		tt := x.Type().(*types.Tuple)
		for i := 2; i < tt.Len(); i++ {
			tup = append(tup, v.freshVal("recv", tt.At(i).Type(), st))
		}
		set(Val{tup: tup})
	case *ssa.SliceToArrayPointer:
		y := v.term(v.val(fr, x.X))
		_ = y
		v.unsup("slice to array pointer")
	case *ssa.MultiConvert:
		v.unsup("multiconvert")
	default:
		v.unsup("%T", ins)
	}
}

func subsumes(g, d *T) bool {
	gs := map[*T]bool{}
	for _, x := range conj(g) {
		gs[x] = true
	}
	for _, x := range conj(d) {
		if !gs[x] {
			return false
		}
	}
	return true
}

func (v *VC) zeroInit(st *State, a *Addr, et types.Type) {
	c := v.c
	if a.kind == "obj" {
		s, _ := under(a.typ).(*types.Struct)
		if v.sortOf(a.typ).Ctor == "" {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			h := v.fieldHeap(a.typ, i)
			v.setHeap(st, h, a.ref, c.Store(v.heap(st, h), a.ref, v.zero(s.Field(i).Type())))
		}
		return
	}
	if a.kind == "arr" {
		el := a.typ.(*types.Array).Elem()
		h := v.elemHeap(el)
		v.setHeap(st, h, a.ref, c.Store(v.heap(st, h), a.ref, v.constArr(v.heapSort[h].Elem, v.zero(el))))
		return
	}
	h := v.cellHeap(a.typ)
	v.setHeap(st, h, a.ref, c.Store(v.heap(st, h), a.ref, v.zero(et)))
}

func (v *VC) nilCheck(x Val) {
	if x.addr != nil {
		return
	}
	if _, ok := v.con.Opts["checknil"]; ok {
		v.check("nil", "nil dereference", v.c.Not(v.c.Eq(x.t, v.c.Int(0))))
	}
}

func (v *VC) mapPut(st *State, mt *types.Map, m, k, e *T) {
	c := v.c
	md, mv, ml := v.mapHeaps(mt)
	D, V, L := v.heap(st, md), v.heap(st, mv), v.heap(st, ml)
	in := c.Select(c.Select(D, m), k)
	v.setHeap(st, ml, m, c.Store(L, m, c.Ite(in, c.Select(L, m), c.Add(c.Select(L, m), c.Int(1)))))
	v.setHeap(st, md, m, c.Store(D, m, c.Store(c.Select(D, m), k, c.True())))
	v.setHeap(st, mv, m, c.Store(V, m, c.Store(c.Select(V, m), k, e)))
}
func (v *VC) mapDelete(st *State, mt *types.Map, m, k *T) {
	c := v.c
	md, _, ml := v.mapHeaps(mt)
	D, L := v.heap(st, md), v.heap(st, ml)
	in := c.Select(c.Select(D, m), k)
	v.setHeap(st, ml, m, c.Store(L, m, c.Ite(in, c.Add(c.Select(L, m), c.Int(-1)), c.Select(L, m))))
	v.setHeap(st, md, m, c.Store(D, m, c.Store(c.Select(D, m), k, c.False())))
}

func (v *VC) havocAll(st *State) {
	v.epoch++
	st.base = fmt.Sprintf("H%d", v.epoch)
	st.heaps = map[string]*T{}
	a := v.freshAlloc()
	v.rawFact(v.c.Ge(a, st.alloc))
	st.alloc = a
	for _, r := range v.recs {
		r.any = true
		r.alloc = true
	}
	if v.frameOn && v.quiet == 0 && !v.modsAny {
		v.oblige("frame", "unknown effects are within modifies", v.c.False())
	}
}

func identName(d *ssa.DebugRef) (string, bool) {
	if o := d.Object(); o != nil {
		if _, ok := o.(*types.Var); ok {
			return o.Name(), true
		}
	}
	return "", false
}

// ---------- interfaces ----------

func (v *VC) makeIface(x Val, typ types.Type) *T {
	c := v.c
	t := v.term(x)
	n := sanitize("box_" + typeKey(typ))
	b := c.App(n, SIface, t)
	v.boxTypes[n] = typ
	if !v.factSeen[b] && !b.open {
		v.factSeen[b] = true
		v.rawFact(c.Eq(c.App("un"+n, t.sort, b), t))
		v.rawFact(c.mk("=", SBool, c.App("typetag", SInt, b), c.Int(v.typeTag(typ))))
		v.rawFact(c.Not(c.Eq(b, c.Const("iface_nil", SIface))))
		v.rawFact(c.Eq(c.App("typetag", SInt, c.Const("iface_nil", SIface)), c.Int(0)))
	}
	return b
}
func (v *VC) typeTag(t types.Type) int64 {
	return int64(hashStr(typeKey(t))%1000000007) + 1
}
func (v *VC) typeAssert(st *State, x *T, ta *ssa.TypeAssert) Val {
	c := v.c
	at := ta.AssertedType
	var ok, r *T
	if types.IsInterface(at) {
		ok = c.Fresh("implements", SBool)
		v.fact(c.Imp(ok, c.Not(c.Eq(x, c.Const("iface_nil", SIface)))))
		r = x
		if ta.CommaOk {
			r = c.Ite(ok, x, c.Const("iface_nil", SIface))
		}
	} else {
		n := sanitize("box_" + typeKey(at))
		s := v.sortOf(at)
		v.fact(c.Eq(c.App("typetag", SInt, c.Const("iface_nil", SIface)), c.Int(0)))
		ok = c.Eq(c.App("typetag", SInt, x), c.Int(v.typeTag(at)))
		if x.op == n {
			r = x.args[0]
			ok = c.True()
		} else {
			r = c.App("un"+n, s, x)
			v.fact(c.Imp(ok, c.Eq(c.App(n, SIface, r), x)))
			if !r.open {
				v.typeFacts(r, at, st)
			}
		}
		if ta.CommaOk {
			r = c.Ite(ok, r, v.zero(at))
		}
	}
	if ta.CommaOk {
		return Val{tup: []Val{{t: r}, {t: ok}}}
	}
	if _, noPanic := v.con.Opts["norte"]; !noPanic {
		v.oblige("typeassert", "type assertion holds", ok)
	}
	v.fact(ok)
	return Val{t: r}
}

// ---------- map ranges ----------

func (v *VC) rangeInit(fr *Frame, st *State, x *ssa.Range) Val {
	mt, ok := under(x.X.Type()).(*types.Map)
	if !ok {
		return Val{it: &Iter{str: true}}
	}
	m := v.term(v.val(fr, x.X))
	v.iterN++
	md, _, _ := v.mapHeaps(mt)
	it := &Iter{m: m, typ: mt, name: fmt.Sprintf("IT:%d", v.iterN)}
	v.setSort(it.name, SArray(v.sortOf(mt.Key()), SBool))
	it.dom0 = v.c.Select(v.heap(st, md), m)
	v.setHeap(st, it.name, nil, v.c.ConstArr(v.heapSort[it.name], v.c.False()))
	fr.iters = append(fr.iters, it)
	v.lastIter = it
	return Val{it: it}
}
func (v *VC) rangeNext(fr *Frame, st *State, x *ssa.Next) Val {
	c := v.c
	it := v.val(fr, x.Iter).it
	tt := x.Type().(*types.Tuple)
	if it == nil || it.str {
		return v.freshVal("next", tt, st)
	}
	md, mv, _ := v.mapHeaps(it.typ)
	vis := v.heap(st, it.name)
	dom := c.Select(v.heap(st, md), it.m)
	ok := c.Fresh("rangeok", SBool)
	k := c.Fresh("rangekey", v.sortOf(it.typ.Key()))
	v.typeFacts(k, it.typ.Key(), st)
	v.fact(c.Imp(ok, c.And(c.Not(c.Eq(it.m, c.Int(0))), c.Select(dom, k), c.Not(c.Select(vis, k)))))
	q := c.BoundVar("q", v.sortOf(it.typ.Key()))
	v.fact(c.Imp(c.Not(ok), c.Forall([]*T{q}, [][]*T{{c.Select(dom, q)}, {c.Select(vis, q)}}, c.Imp(c.And(c.Not(c.Eq(it.m, c.Int(0))), c.Select(it.dom0, q), c.Select(dom, q)), c.Select(vis, q)))))
	e := c.Select(c.Select(v.heap(st, mv), it.m), k)
	v.typeFacts(e, it.typ.Elem(), st)
	v.setHeap(st, it.name, nil, c.Ite(ok, c.Store(vis, k, c.True()), vis))
	v.lastIter = it
	return Val{tup: []Val{{t: ok}, {t: k}, {t: e}}}
}

// ---------- slices ----------

func (v *VC) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	c := v.c
	var lo, hi *T
	lo = c.Int(0)
	if x.Low != nil {
		lo = v.term(v.val(fr, x.Low))
	}
	if x.High != nil {
		hi = v.term(v.val(fr, x.High))
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		s := v.term(v.val(fr, x.X))
		if hi == nil {
			hi = c.Sel(s, 2)
		}
		cp := c.Sel(s, 3)
		nc := c.Sub(cp, lo)
		lim := cp
		if x.Max != nil {
			mx := v.term(v.val(fr, x.Max))
			v.check("bounds", "slice max in range", c.And(c.Le(hi, mx), c.Le(mx, cp)))
			nc = c.Sub(mx, lo)
		}
		v.check("bounds", "slice bounds in range", c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, lim)))
		base := c.Sel(s, 0)
		return Val{t: c.Mk(SSlice, base, c.Add(c.Sel(s, 1), lo), c.Sub(hi, lo), nc)}
	case *types.Pointer:
		arr := under(u.Elem()).(*types.Array)
		a := v.derefAddr(v.val(fr, x.X), u.Elem())
		n := c.Int(arr.Len())
		if hi == nil {
			hi = n
		}
		v.check("bounds", "slice bounds in range", c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, n)))
		if a.kind != "arr" || len(a.path) > 0 {
			v.unsup("slice of array field")
		}
		return Val{t: c.Mk(SSlice, a.ref, lo, c.Sub(hi, lo), c.Sub(n, lo))}
	default:
		s := v.term(v.val(fr, x.X))
		if s.sort != SStr {
			v.unsup("slice of %T", u)
		}
		if hi == nil {
			hi = v.slen(s)
		}
		v.check("bounds", "string slice bounds in range", c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, v.slen(s))))
		return Val{t: c.App("str_sub", SStr, s, lo, c.Sub(hi, lo))}
	}
}

// appendSlice models append by always moving to a fresh array.
func (v *VC) appendSlice(st *State, et types.Type, s *T, addN *T, at func(j *T) *T, single []*T) *T {
	c := v.c
	h := v.elemHeap(et)
	H := v.heap(st, h)
	n := c.Sel(s, 2)
	r := v.newRef(st)
	old := c.Select(H, c.Sel(s, 0))
	off := c.Sel(s, 1)
	nl := c.Add(n, addN)
	var arr *T
	if single != nil && off.ival != nil && off.ival.Sign() == 0 {
		arr = old
		for i, x := range single {
			arr = c.Store(arr, c.Add(n, c.Int(int64(i))), x)
		}
	} else {
		arr = c.Fresh("app", H.sort.Elem)
		j := c.BoundVar("j", SInt)
		v.rawFact(c.Forall([]*T{j}, [][]*T{{c.Select(arr, j)}}, c.Imp(c.And(c.Ge(j, c.Int(0)), c.Lt(j, n)), c.Eq(c.Select(arr, j), c.Select(old, c.Add(off, j))))))
		if single != nil {
			for i, x := range single {
				v.rawFact(c.Eq(c.Select(arr, c.Add(n, c.Int(int64(i)))), x))
			}
		} else {
			j := c.BoundVar("j", SInt)
			v.rawFact(c.Forall([]*T{j}, [][]*T{{c.Select(arr, j)}}, c.Imp(c.And(c.Ge(j, n), c.Lt(j, nl)), c.Eq(c.Select(arr, j), at(c.Sub(j, n))))))
		}
		if off.ival == nil || off.ival.Sign() != 0 {
			j := c.BoundVar("j", SInt)
			v.rawFact(c.Forall([]*T{j}, [][]*T{{c.Select(old, j)}}, c.Imp(c.And(c.Ge(j, off), c.Lt(j, c.Add(off, n))), c.Eq(c.Select(arr, c.Sub(j, off)), c.Select(old, j)))))
		}
	}
	v.setHeap(st, h, r, c.Store(H, r, arr))
	cp := c.Fresh("cap", SInt)
	v.rawFact(c.Ge(cp, nl))
	base := r
	// append of nothing to a nil slice stays nil
	if single == nil {
		base = c.Ite(c.Eq(nl, c.Int(0)), c.Sel(s, 0), r)
		v.rawFact(c.Imp(c.And(c.Eq(nl, c.Int(0)), c.Eq(c.Sel(s, 0), c.Int(0))), c.Eq(cp, c.Int(0))))
	}
	v.note("append is modelled as copying to a fresh array (aliasing through spare capacity is not modelled)")
	return c.Mk(SSlice, base, c.Int(0), nl, cp)
}

func (v *VC) chanSend(fr *Frame, st *State, ch *T, x Val, typ types.Type) {
	// ghost log of sends: count per channel
	if x.t == nil {
		return
	}
	c := v.c
	s := v.sortOf(typ)
	nl := v.setSort("GH:sendlen", SArray(SInt, SInt))
	nv := v.setSort("GH:sent:"+s.Name, SArray(SInt, SArray(SInt, s)))
	L, V := v.heap(st, nl), v.heap(st, nv)
	n := c.Select(L, ch)
	v.setHeap(st, nv, ch, c.Store(V, ch, c.Store(c.Select(V, ch), n, x.t)))
	v.setHeap(st, nl, ch, c.Store(L, ch, c.Add(n, c.Int(1))))
}

// coverPoint (development aid, GVC_COVER=1) checks that a point is not unreachable in the model.
func (v *VC) coverPoint(name string, g *T) {
	if coverAll && v.quiet == 0 {
		v.obls = append(v.obls, &Obl{Fn: v.con.ID(), Kind: "cover", Name: name + " is reachable", Pos: v.posStr(), Goal: g, NFacts: len(v.facts), Cover: true, vc: v})
	}
}

var coverAll = os.Getenv("GVC_COVER") != ""

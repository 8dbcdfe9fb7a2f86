package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---------- values ----------

type Val struct {
	t    *T
	addr *Addr
	tup  []Val
	clo  *Closure
	it   *Iter
}
type Closure struct {
	fn   *ssa.Function
	bind []Val
	pure *Contract
}
type Iter struct {
	m    *T
	typ  *types.Map
	name string // heap slot holding the visited set
	dom0 *T
	str  bool
}
type PathEl struct {
	field int
	idx   *T
	typ   types.Type // type of the container at this point
}
type Addr struct {
	kind string // obj elem cell global
	ref  *T
	idx  *T
	typ  types.Type // type of the root location
	name string     // global
	path []PathEl
}

type State struct {
	heaps map[string]*T
	base  string
	alloc *T
	held  []heldLock // locks held here
}

func (s *State) clone() *State {
	n := &State{heaps: make(map[string]*T, len(s.heaps)), base: s.base, alloc: s.alloc, held: s.held}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	return n
}

type Obl struct {
	Fn     string
	Kind   string
	Name   string
	Pos    string
	Goal   *T
	NFacts int
	Cover  bool
	InvKey string
	// result
	Status string // proved / failed / unknown
	Solver string
	Ms     int64
	Out    string
	Model  map[string]string
	vc     *VC
}

type writeRec struct {
	heap string
	ref  *T // nil: whole heap
}
type recorder struct {
	writes []writeRec
	alloc  bool
	any    bool
}

type VC struct {
	errVars map[string]bool
	zeroArr map[*T]bool
	P       *Program
	S       *Specs
	c       *Terms
	fn      *ssa.Function
	con     *Contract
	facts   []*T
	obls    []*Obl
	guard   *T
	entry   *State
	// stack
	depth       int
	stack       []*ssa.Function
	allocBases  map[*T]int
	recs        []*recorder
	quiet       int
	bv          bool
	clos        map[*T]*Closure
	jumpRefs    map[*T]bool
	ub          map[*T]*big.Int
	lowz        map[*T]int
	used        map[*Contract]bool
	notes       map[string]bool
	inlined     map[string]bool
	mods        []writeRec // evaluated modifies of the contract under verification
	modsAny     bool
	frameOn     bool
	epoch       int
	heapSort    map[string]*Sort
	iterN       int
	loopN       int
	loopOf      map[string]int
	curPos      token.Pos
	curIns      ssa.Instruction
	topParams   map[string]SV
	factSeen    map[*T]bool
	lastIter    *Iter
	axioms      map[string]bool
	unpin, fast bool
	dropInv     map[string]bool
	oldBase     map[string]*T
	held        map[string]bool
	budget      int
	usesLemma   []string
	loopWrites  map[string][]writeRec
	monitors    []string
	siteN       map[string]int
	boxTypes    map[string]types.Type
	mu          sync.Mutex
}
type heldLock struct {
	key string
	ref *T
	t   types.Type
}

func NewVC(P *Program, S *Specs) *VC {
	v := &VC{zeroArr: map[*T]bool{}, P: P, S: S, c: NewTerms(), allocBases: map[*T]int{}, clos: map[*T]*Closure{}, jumpRefs: map[*T]bool{}, ub: map[*T]*big.Int{}, lowz: map[*T]int{},
		used: map[*Contract]bool{}, notes: map[string]bool{}, inlined: map[string]bool{}, heapSort: map[string]*Sort{}, loopOf: map[string]int{},
		factSeen: map[*T]bool{}, axioms: map[string]bool{}, dropInv: map[string]bool{}, budget: 60000, siteN: map[string]int{}, boxTypes: map[string]types.Type{}}
	v.guard = v.c.True()
	return v
}

type unsupported struct{ msg string }

func (v *VC) unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (v *VC) note(f string, a ...any) {
	if v.quiet == 0 {
		v.notes[fmt.Sprintf(f, a...)] = true
	}
}

func (v *VC) fact(t *T) {
	if isTrue(t) {
		return
	}
	t = v.c.Imp(v.guard, t)
	v.rawFact(t)
}
func (v *VC) rawFact(t *T) {
	if isTrue(t) || t.open {
		return
	}
	v.facts = append(v.facts, t)
}
func (v *VC) oblige(kind, name string, goal *T) {
	if v.quiet > 0 {
		return
	}
	g := v.c.Imp(v.guard, goal)
	if isTrue(g) && kind != "ensures" && kind != "cover" {
		// discharged by the term simplifier; still counted
		v.obls = append(v.obls, &Obl{Fn: v.con.ID(), Kind: kind, Name: name, Pos: v.posStr(), Goal: g, NFacts: len(v.facts), Status: "proved", Solver: "simplifier", vc: v})
		return
	}
	v.obls = append(v.obls, &Obl{Fn: v.con.ID(), Kind: kind, Name: name, Pos: v.posStr(), Goal: g, NFacts: len(v.facts), vc: v})
}
func (v *VC) posStr() string {
	if v.curPos == token.NoPos || v.P.prog == nil {
		return ""
	}
	p := v.P.prog.Fset.Position(v.curPos)
	f := p.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// ---------- types ----------

func qual(p *types.Package) string {
	return shortPkg(p.Path())
}
func typeKey(t types.Type) string {
	return byteRE.ReplaceAllString(types.TypeString(t, qual), "uint8")
}

var byteRE = regexp.MustCompile(`\bbyte\b`)

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}
func moduleType(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path())
	}
	return true
}

func structOf(t types.Type) (*types.Struct, bool) {
	if isTime(t) {
		return nil, false
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return nil, false
	}
	s, ok := under(t).(*types.Struct)
	return s, ok
}

func (v *VC) sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if isTime(t) {
		return SInt
	}
	switch u := t.(type) {
	case *types.TypeParam:
		if c := coreOf(u); c != nil {
			return v.sortOf(c)
		}
		return v.c.USort("TP_" + u.Obj().Name())
	case *types.Named:
		if s, ok := under(u).(*types.Struct); ok {
			if !moduleType(u) {
				return v.c.USort("X_" + typeKey(u))
			}
			return v.structSort(u, s)
		}
		if v.bv {
			if b, ok := under(u).(*types.Basic); ok && b.Kind() == types.Uint32 {
				return SBV32
			}
		}
		return v.sortOf(under(u))
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			if v.bv && u.Kind() == types.Uint32 {
				return SBV32
			}
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return SInt
		}
		return v.c.USort("B_" + u.Name())
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Array:
		return SArray(SInt, v.sortOf(u.Elem()))
	case *types.Interface:
		return SIface
	case *types.Struct:
		return v.structSort(u, u)
	}
	return v.c.USort("U_" + typeKey(t))
}
func (v *VC) structSort(t types.Type, s *types.Struct) *Sort {
	name := "V_" + typeKey(t)
	if len(name) > 120 {
		name = name[:120]
	}
	return v.c.Datatype(name, func() []Field {
		var fs []Field
		n := sanitize(name)
		if s.NumFields() == 0 {
			return []Field{{n + ".__unit", SInt}}
		}
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, Field{n + "." + sanitize(s.Field(i).Name()), v.sortOf(s.Field(i).Type())})
		}
		return fs
	})
}

func (v *VC) zero(t types.Type) *T {
	s := v.sortOf(t)
	return v.zeroSort(s, t)
}
func (v *VC) zeroSort(s *Sort, t types.Type) *T {
	switch {
	case t != nil && isTime(t):
		return v.timeZero()
	case s == SBool:
		return v.c.False()
	case s == SInt:
		return v.c.Int(0)
	case s == SReal:
		return v.c.mk("0.0", SReal)
	case s == SStr:
		return v.strConst("")
	case s == SIface:
		return v.c.Const("iface_nil", SIface)
	case s == SBV32:
		return v.c.mk("#x00000000", SBV32)
	case s == SSlice:
		z := v.c.Int(0)
		return v.c.Mk(SSlice, z, z, z, z)
	case s.Elem != nil:
		var et types.Type
		if t != nil {
			if a, ok := under(t).(*types.Array); ok {
				et = a.Elem()
			}
		}
		z := v.zeroSort(s.Elem, et)
		return v.constArr(s, z)
	case s.Ctor != "":
		var as []*T
		var st *types.Struct
		if t != nil {
			st, _ = under(t).(*types.Struct)
		}
		for i, f := range s.Fields {
			var ft types.Type
			if st != nil && i < st.NumFields() {
				ft = st.Field(i).Type()
			}
			as = append(as, v.zeroSort(f.Sort, ft))
		}
		return v.c.Mk(s, as...)
	}
	return v.c.Const("zero_"+s.Name, s)
}
func (v *VC) timeZero() *T {
	n, _ := new(big.Int).SetString("-62135596800000000000", 10)
	return v.c.BigInt(n)
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := under(t).(*types.Basic)
	if !ok || isTime(t) {
		return nil, nil
	}
	one := big.NewInt(1)
	sh := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	switch b.Kind() {
	case types.Uint8:
		return big.NewInt(0), new(big.Int).Sub(sh(8), one)
	case types.Uint16:
		return big.NewInt(0), new(big.Int).Sub(sh(16), one)
	case types.Uint32:
		return big.NewInt(0), new(big.Int).Sub(sh(32), one)
	case types.Uint64, types.Uint, types.Uintptr:
		return big.NewInt(0), new(big.Int).Sub(sh(64), one)
	case types.Int8:
		return new(big.Int).Neg(sh(7)), new(big.Int).Sub(sh(7), one)
	case types.Int16:
		return new(big.Int).Neg(sh(15)), new(big.Int).Sub(sh(15), one)
	case types.Int32:
		return new(big.Int).Neg(sh(31)), new(big.Int).Sub(sh(31), one)
	case types.Int64, types.Int:
		return new(big.Int).Neg(sh(63)), new(big.Int).Sub(sh(63), one)
	}
	return nil, nil
}

// typeFacts records facts that hold of every value of Go type typ.
func (v *VC) typeFacts(t *T, typ types.Type, st *State) {
	for _, f := range v.typeFactList(t, typ, st, 0) {
		if t.sym {
			v.rawFact(f) // an arbitrary value of the type
		} else {
			v.fact(f) // a computed one is only known to be of its type where it is computed
		}
	}
}
func (v *VC) typeFactList(t *T, typ types.Type, st *State, d int) []*T {
	if typ == nil || t.ival != nil {
		return nil
	}
	c := v.c
	typ = types.Unalias(typ)
	if isTime(typ) {
		return nil
	}
	if tp, ok := typ.(*types.TypeParam); ok && coreOf(tp) == nil {
		return nil
	}
	var out []*T
	switch u := under(typ).(type) {
	case *types.Basic:
		if t.sort != SInt || u.Info()&types.IsInteger == 0 {
			if t.sort == SStr {
				out = append(out, c.Ge(v.slen(t), c.Int(0)))
			}
			return out
		}
		lo, hi := intRange(typ)
		if lo != nil {
			switch u.Kind() {
			case types.Int, types.Int64:
				return nil
			case types.Uint64, types.Uint, types.Uintptr:
				v.ub[t] = hi
				return append(out, c.Ge(t, c.Int(0)))
			}
			if lo.Sign() == 0 {
				v.ub[t] = hi
			}
			return append(out, c.Ge(t, c.BigInt(lo)), c.Le(t, c.BigInt(hi)))
		}
	case *types.Pointer, *types.Map, *types.Chan:
		out = append(out, c.Ge(t, c.Int(0)))
		if st != nil {
			out = append(out, c.Lt(t, st.alloc))
		}
	case *types.Slice:
		b, o, l, cp := c.Sel(t, 0), c.Sel(t, 1), c.Sel(t, 2), c.Sel(t, 3)
		z := c.Int(0)
		out = append(out, c.Ge(b, z), c.Ge(o, z), c.Ge(l, z), c.Le(l, cp), c.Imp(c.Eq(b, z), c.Eq(cp, z)), c.Lt(cp, c.BigInt(pow2(62))))
		if st != nil {
			out = append(out, c.Lt(b, st.alloc))
		}
	case *types.Struct:
		if t.sort.Ctor != "" && d < 2 {
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, v.typeFactList(c.Sel(t, i), u.Field(i).Type(), st, d+1)...)
			}
		}
	}
	return out
}

func (v *VC) freshVal(hint string, typ types.Type, st *State) Val {
	if tp, ok := typ.(*types.Tuple); ok {
		var vs []Val
		for i := 0; i < tp.Len(); i++ {
			vs = append(vs, v.freshVal(fmt.Sprintf("%s.%d", hint, i), tp.At(i).Type(), st))
		}
		return Val{tup: vs}
	}
	t := v.c.Fresh(hint, v.sortOf(typ))
	v.typeFacts(t, typ, st)
	return Val{t: t}
}

// ---------- strings ----------

func (v *VC) slen(s *T) *T { return v.c.App("slen", SInt, s) }
func (v *VC) sat(s, i *T) *T {
	return v.c.App("sat", SInt, s, i)
}
func (v *VC) strConst(s string) *T {
	name := "str_" + fmt.Sprintf("%x", s)
	if len(name) > 60 {
		name = fmt.Sprintf("str_%d_%x", len(v.c.consts), s[:20])
		name = "str_h" + fmt.Sprintf("%x", hashStr(s))
	}
	t := v.c.Const(name, SStr)
	if !v.factSeen[t] {
		v.factSeen[t] = true
		v.rawFact(v.c.mk("=", SBool, v.slen(t), v.c.Int(int64(len(s)))))
		if len(s) <= 24 {
			for i := 0; i < len(s); i++ {
				v.rawFact(v.c.Eq(v.sat(t, v.c.Int(int64(i))), v.c.Int(int64(s[i]))))
			}
		}
	}
	return t
}
func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// view of a byte slice: its contents as a value
func (v *VC) strMk(arr, off, n *T) *T { return v.c.App("str_mk", SStr, arr, off, n) }

var byteType = types.Typ[types.Uint8]

func (v *VC) view(st *State, sl *T) *T {
	h := v.heap(st, v.elemHeap(byteType))
	c := v.c
	return v.strMk(c.Select(h, c.Sel(sl, 0)), c.Sel(sl, 1), c.Sel(sl, 2))
}

// ---------- heaps ----------

func (v *VC) heap(st *State, name string) *T {
	if t, ok := st.heaps[name]; ok {
		return t
	}
	s := v.heapSort[name]
	if s == nil {
		panic("heap without sort: " + name)
	}
	t := v.c.Const(st.base+"!"+name, s)
	st.heaps[name] = t
	return t
}
func (v *VC) setSort(name string, s *Sort) string {
	if v.heapSort[name] == nil {
		v.heapSort[name] = s
	}
	return name
}
func fieldName(st *types.Struct, i int) string { return st.Field(i).Name() }
func (v *VC) fieldHeap(t types.Type, i int) string {
	s, _ := under(t).(*types.Struct)
	n := "F:" + typeKey(t) + "." + fieldName(s, i)
	return v.setSort(n, SArray(SInt, v.sortOf(s.Field(i).Type())))
}
func (v *VC) elemHeap(t types.Type) string {
	s := v.sortOf(t)
	return v.setSort("E:"+s.Name+v.elemTag(t), SArray(SInt, SArray(SInt, s)))
}

// elemTag separates heaps of slices whose element types can never alias.
func (v *VC) elemTag(t types.Type) string {
	if v.sortOf(t) == SInt {
		return typeKey(t)
	}
	return ""
}
func (v *VC) cellHeap(t types.Type) string {
	return v.setSort("C:"+typeKey(t), SArray(SInt, v.sortOf(t)))
}
func (v *VC) mapHeaps(m *types.Map) (string, string, string) {
	k := v.sortOf(m.Key())
	e := v.sortOf(m.Elem())
	n := typeKey(m.Key()) + ">" + typeKey(m.Elem())
	return v.setSort("MD:"+n, SArray(SInt, SArray(k, SBool))), v.setSort("MV:"+n, SArray(SInt, SArray(k, e))), v.setSort("ML:"+n, SArray(SInt, SInt))
}

func (v *VC) newRef(st *State) *T {
	r := st.alloc
	st.alloc = v.c.Add(st.alloc, v.c.Int(1))
	for _, rc := range v.recs {
		rc.alloc = true
	}
	return r
}

func (v *VC) isFresh(ref *T, since int) bool {
	b, _ := v.c.lin(ref)
	if b == nil {
		return false
	}
	n, ok := v.allocBases[b]
	return ok && n > since
}

func (v *VC) setHeap(st *State, name string, ref *T, t *T) {
	st.heaps[name] = t
	for _, r := range v.recs {
		r.writes = append(r.writes, writeRec{name, ref})
	}
	v.frameCheck(st, name, ref)
}

func (v *VC) frameCheck(st *State, name string, ref *T) {
	if !v.frameOn || v.quiet > 0 || v.modsAny {
		return
	}
	if strings.HasPrefix(name, "IT:") || strings.HasPrefix(name, "GH:") {
		return
	}
	c := v.c
	var ok []*T
	if ref != nil {
		if d := c.linDiff(ref, v.entry.alloc); d != nil && d.Sign() >= 0 {
			return
		}
		if v.isFresh(ref, 0) && !(func() bool { b, _ := c.lin(ref); return b == v.entry.alloc })() {
			return // allocation counters introduced after entry are >= the entry counter
		}
		ok = append(ok, c.Ge(ref, v.entry.alloc))
	}
	for _, m := range v.mods {
		if m.heap == name {
			if m.ref == nil {
				return
			}
			if ref != nil {
				ok = append(ok, c.Eq(ref, m.ref))
			}
		}
	}
	v.oblige("frame", "write to "+name+" is within modifies", c.Or(ok...))
}

// ---------- addresses ----------

func (v *VC) derefAddr(x Val, elem types.Type) *Addr {
	if x.addr != nil {
		return x.addr
	}
	if _, ok := structOf(elem); ok {
		return &Addr{kind: "obj", ref: x.t, typ: elem}
	}
	if a, ok := under(elem).(*types.Array); ok {
		return &Addr{kind: "arr", ref: x.t, typ: a}
	}
	return &Addr{kind: "cell", ref: x.t, typ: elem}
}

func (v *VC) load(st *State, a *Addr, final types.Type) *T {
	c := v.c
	var cur *T
	var ct types.Type
	path := a.path
	switch a.kind {
	case "obj":
		s, _ := under(a.typ).(*types.Struct)
		if len(path) == 0 {
			srt := v.sortOf(a.typ)
			if srt.Ctor == "" {
				return c.Select(v.heap(st, v.cellHeap(a.typ)), a.ref)
			}
			var as []*T
			if s.NumFields() == 0 {
				as = []*T{c.Int(0)}
			}
			for i := 0; i < s.NumFields(); i++ {
				x := c.Select(v.heap(st, v.fieldHeap(a.typ, i)), a.ref)
				v.typeFacts(x, s.Field(i).Type(), st)
				as = append(as, x)
			}
			return c.Mk(srt, as...)
		}
		cur = c.Select(v.heap(st, v.fieldHeap(a.typ, path[0].field)), a.ref)
		ct = s.Field(path[0].field).Type()
		path = path[1:]
	case "elem":
		cur = c.Select(c.Select(v.heap(st, v.elemHeap(a.typ)), a.ref), a.idx)
		ct = a.typ
	case "arr":
		arr := a.typ.(*types.Array)
		cur = c.Select(v.heap(st, v.elemHeap(arr.Elem())), a.ref)
		ct = arr
	case "cell":
		cur = c.Select(v.heap(st, v.cellHeap(a.typ)), a.ref)
		ct = a.typ
	case "global":
		if g := v.constErr(a); g != nil {
			return g
		}
		cur = v.heap(st, v.setSort("G:"+a.name, v.sortOf(a.typ)))
		ct = a.typ
	}
	for _, p := range path {
		if p.idx != nil {
			cur = c.Select(cur, p.idx)
			ct = under(ct).(*types.Array).Elem()
		} else {
			s, ok := under(ct).(*types.Struct)
			if !ok || cur.sort.Ctor == "" {
				v.unsup("field path into opaque %s", typeKey(ct))
			}
			cur = c.Sel(cur, p.field)
			ct = s.Field(p.field).Type()
		}
	}
	v.typeFacts(cur, ct, st)
	return cur
}

func (v *VC) store(st *State, a *Addr, x *T) {
	c := v.c
	var upd func(cur *T, path []PathEl, x *T) *T
	upd = func(cur *T, path []PathEl, x *T) *T {
		if len(path) == 0 {
			return x
		}
		p := path[0]
		if p.idx != nil {
			return c.Store(cur, p.idx, upd(c.Select(cur, p.idx), path[1:], x))
		}
		if cur.sort.Ctor == "" {
			v.unsup("store into opaque field")
		}
		var as []*T
		for i := range cur.sort.Fields {
			if i == p.field {
				as = append(as, upd(c.Sel(cur, i), path[1:], x))
			} else {
				as = append(as, c.Sel(cur, i))
			}
		}
		return c.Mk(cur.sort, as...)
	}
	switch a.kind {
	case "obj":
		s, _ := under(a.typ).(*types.Struct)
		if len(a.path) == 0 {
			if x.sort.Ctor == "" {
				h := v.cellHeap(a.typ)
				v.setHeap(st, h, a.ref, c.Store(v.heap(st, h), a.ref, x))
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				h := v.fieldHeap(a.typ, i)
				v.setHeap(st, h, a.ref, c.Store(v.heap(st, h), a.ref, c.Sel(x, i)))
			}
			return
		}
		h := v.fieldHeap(a.typ, a.path[0].field)
		H := v.heap(st, h)
		v.setHeap(st, h, a.ref, c.Store(H, a.ref, upd(c.Select(H, a.ref), a.path[1:], x)))
	case "elem":
		h := v.elemHeap(a.typ)
		H := v.heap(st, h)
		arr := c.Select(H, a.ref)
		v.setHeap(st, h, a.ref, c.Store(H, a.ref, c.Store(arr, a.idx, upd(c.Select(arr, a.idx), a.path, x))))
	case "arr":
		h := v.elemHeap(a.typ.(*types.Array).Elem())
		H := v.heap(st, h)
		v.setHeap(st, h, a.ref, c.Store(H, a.ref, upd(c.Select(H, a.ref), a.path, x)))
	case "cell":
		h := v.cellHeap(a.typ)
		H := v.heap(st, h)
		v.setHeap(st, h, a.ref, c.Store(H, a.ref, upd(c.Select(H, a.ref), a.path, x)))
	case "global":
		h := v.setSort("G:"+a.name, v.sortOf(a.typ))
		v.setHeap(st, h, nil, upd(v.heap(st, h), a.path, x))
	}
}

// ---------- constants ----------

func (v *VC) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return Val{t: v.zero(t)}
	}
	return Val{t: v.constTerm(k.Value, t)}
}
func (v *VC) constTerm(val constant.Value, t types.Type) *T {
	s := v.sortOf(t)
	switch s {
	case SBool:
		return v.c.Bool(constant.BoolVal(val))
	case SStr:
		return v.strConst(constant.StringVal(val))
	case SInt:
		n, ok := new(big.Int).SetString(constant.ToInt(val).ExactString(), 10)
		if !ok {
			return v.c.Fresh("const", SInt)
		}
		return v.c.BigInt(n)
	case SBV32:
		n, _ := new(big.Int).SetString(constant.ToInt(val).ExactString(), 10)
		return v.c.mk(fmt.Sprintf("#x%08x", n.Uint64()&0xffffffff), SBV32)
	case SReal:
		r, ok := constant.Val(constant.ToFloat(val)).(*big.Rat)
		if ok {
			return v.c.mk(fmt.Sprintf("(/ %s.0 %s.0)", r.Num(), r.Denom()), SReal)
		}
		if f, ok := constant.Val(constant.ToFloat(val)).(*big.Float); ok {
			return v.c.mk(f.Text('f', 20), SReal)
		}
	}
	return v.c.Fresh("const", s)
}

// under is the underlying type; a type parameter with a core type stands for that type.
func under(t types.Type) types.Type {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		if c := coreOf(tp); c != nil {
			return c
		}
	}
	return t.Underlying()
}
func coreOf(tp *types.TypeParam) types.Type {
	ifc, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || ifc.NumEmbeddeds() != 1 {
		return nil
	}
	u, ok := types.Unalias(ifc.EmbeddedType(0)).(*types.Union)
	var t types.Type
	if ok {
		if u.Len() != 1 {
			return nil
		}
		t = u.Term(0).Type()
	} else {
		t = ifc.EmbeddedType(0)
	}
	switch c := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Chan, *types.Signature:
		return c
	}
	return nil
}

func (v *VC) constArr(s *Sort, z *T) *T {
	var sym func(t *T) bool
	sym = func(t *T) bool {
		for _, a := range t.args {
			if sym(a) {
				return true
			}
		}
		return t.sym || len(t.args) > 0 && v.c.funs[t.op] != nil
	}
	if sym(z) {
		// cvc5 wants a value in a constant array
		k := v.c.Const("zeroarr_"+s.Name, s)
		if !v.zeroArr[k] {
			v.zeroArr[k] = true
			i := v.c.BoundVar("i", SInt)
			v.rawFact(v.c.Forall([]*T{i}, [][]*T{{v.c.Select(k, i)}}, v.c.Eq(v.c.Select(k, i), z)))
		}
		return k
	}
	return v.c.ConstArr(s, z)
}

// constErr yields the constant for an exported or package-level error variable
// which no function of the loaded packages assigns (sentinel errors): non-nil
// and different from every other one.
func (v *VC) constErr(a *Addr) *T {
	if len(a.path) > 0 || !types.Identical(a.typ, types.Universe.Lookup("error").Type()) || v.P.storedGlobal(a.name) {
		return nil
	}
	c := v.c
	n := "errvar_" + a.name
	first := c.funs[n] == nil && !v.errVars[a.name]
	t := c.Const(n, SIface)
	if first {
		if v.errVars == nil {
			v.errVars = map[string]bool{}
		}
		v.errVars[a.name] = true
		id := 0
		for _, b := range []byte(a.name) {
			id = (id*131 + int(b)) % 1000000007
		}
		v.rawFact(c.Not(c.Eq(t, c.Const("iface_nil", SIface))))
		v.rawFact(c.Eq(c.App("errvarid", SInt, t), c.Int(int64(id))))
	}
	return t
}

// storedGlobal: some function other than a package initializer stores to it.
func (P *Program) storedGlobal(name string) bool {
	P.storedOnce.Do(func() {
		P.stored = map[string]bool{}
		for f := range ssautil.AllFunctions(P.prog) {
			if f.Synthetic == "package initializer" {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch i := i.(type) {
					case *ssa.DebugRef:
					case *ssa.Store:
						if g, ok := i.Addr.(*ssa.Global); ok {
							P.stored[g.String()] = true
						}
					default:
						for _, o := range i.Operands(nil) {
							if o == nil || *o == nil {
								continue
							}
							if g, ok := (*o).(*ssa.Global); ok {
								if u, isLoad := i.(*ssa.UnOp); !isLoad || u.X != g {
									P.stored[g.String()] = true
								}
							}
						}
					}
				}
			}
		}
	})
	return P.stored[name]
}

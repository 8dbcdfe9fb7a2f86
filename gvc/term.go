package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// ---------- sorts ----------

type Sort struct {
	Name   string // SMT-LIB text
	Idx    *Sort  // array index
	Elem   *Sort  // array element
	Fields []Field
	Ctor   string
}
type Field struct {
	Name string
	Sort *Sort
}

var (
	SBool  = &Sort{Name: "Bool"}
	SInt   = &Sort{Name: "Int"}
	SReal  = &Sort{Name: "Real"}
	SStr   = &Sort{Name: "Str"}
	SIface = &Sort{Name: "Iface"}
	SBV32  = &Sort{Name: "(_ BitVec 32)"}
	SSlice = &Sort{Name: "Slice", Ctor: "mkslice"}
)

func init() {
	SSlice.Fields = []Field{{"sl_base", SInt}, {"sl_off", SInt}, {"sl_len", SInt}, {"sl_cap", SInt}}
}

var (
	arraySorts = map[[2]*Sort]*Sort{}
	arrayMu    sync.Mutex
)

func SArray(i, e *Sort) *Sort {
	k := [2]*Sort{i, e}
	arrayMu.Lock()
	defer arrayMu.Unlock()
	if s, ok := arraySorts[k]; ok {
		return s
	}
	s := &Sort{Name: "(Array " + i.Name + " " + e.Name + ")", Idx: i, Elem: e}
	arraySorts[k] = s
	return s
}

// ---------- terms ----------

type T struct {
	id    int
	op    string
	args  []*T
	sort  *Sort
	ival  *big.Int
	bound []*T   // quantifier variables
	pats  [][]*T // quantifier patterns
	open  bool   // contains a bound variable occurring free
	sym   bool   // declared constant
	birth int    // for fresh constants / allocation refs: creation index
	maxb  int    // max birth over subterms
}

type Terms struct {
	trigVars map[[2]*T]*T
	tab      map[string]*T
	n        int
	fresh    int
	consts   []*T
	funs     map[string]*FunDecl
	funOrd   []string
	dts      map[string]*Sort
	dtOrd    []string
	usorts   map[string]bool
	usOrd    []string
}
type FunDecl struct {
	Name string
	Args []*Sort
	Ret  *Sort
	Body *T   // defined function
	Par  []*T // parameters of a defined function
	Rec  bool
}

func NewTerms() *Terms {
	return &Terms{tab: map[string]*T{}, funs: map[string]*FunDecl{}, dts: map[string]*Sort{}, usorts: map[string]bool{}}
}

func (c *Terms) mk(op string, s *Sort, args ...*T) *T {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s.Name)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &T{id: c.n, op: op, args: args, sort: s}
	for _, a := range args {
		if a.open {
			t.open = true
		}
		if a.maxb > t.maxb {
			t.maxb = a.maxb
		}
	}
	c.tab[k] = t
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("ptr_")
		case r == '[':
			b.WriteString("L_")
		case r == ']':
			b.WriteString("_J")
		case r == '/':
			b.WriteString(".")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

// Fresh declares a new constant.
func (c *Terms) Fresh(hint string, s *Sort) *T {
	c.fresh++
	t := c.mk(fmt.Sprintf("%s!%d", sanitize(hint), c.fresh), s)
	t.sym = true
	t.birth = c.fresh
	t.maxb = c.fresh
	c.consts = append(c.consts, t)
	return t
}

// Const declares a named constant once.
func (c *Terms) Const(name string, s *Sort) *T {
	t := c.mk(sanitize(name), s)
	if !t.sym {
		t.sym = true
		c.consts = append(c.consts, t)
	}
	return t
}
func (c *Terms) BoundVar(hint string, s *Sort) *T {
	c.fresh++
	t := c.mk(fmt.Sprintf("%s?%d", sanitize(hint), c.fresh), s)
	t.open = true
	return t
}

func (c *Terms) Int(v int64) *T { return c.BigInt(big.NewInt(v)) }
func (c *Terms) BigInt(v *big.Int) *T {
	n := v.String()
	op := n
	if v.Sign() < 0 {
		op = "(- " + n[1:] + ")"
	}
	t := c.mk(op, SInt)
	t.ival = v
	return t
}
func (c *Terms) True() *T  { return c.mk("true", SBool) }
func (c *Terms) False() *T { return c.mk("false", SBool) }
func (c *Terms) Bool(b bool) *T {
	if b {
		return c.True()
	}
	return c.False()
}
func isTrue(t *T) bool  { return t.op == "true" }
func isFalse(t *T) bool { return t.op == "false" }

func (c *Terms) Not(a *T) *T {
	switch {
	case isTrue(a):
		return c.False()
	case isFalse(a):
		return c.True()
	case a.op == "not":
		return a.args[0]
	}
	return c.mk("not", SBool, a)
}
func (c *Terms) And(as ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	var add func(a *T) bool
	add = func(a *T) bool {
		if isTrue(a) || seen[a] {
			return true
		}
		if isFalse(a) || seen[c.Not(a)] {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False()
		}
	}
	switch len(out) {
	case 0:
		return c.True()
	case 1:
		return out[0]
	}
	return c.mk("and", SBool, out...)
}
func (c *Terms) Or(as ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	for _, a := range as {
		if isFalse(a) || seen[a] {
			continue
		}
		if isTrue(a) || seen[c.Not(a)] {
			return c.True()
		}
		if a.op == "or" {
			for _, x := range a.args {
				if seen[c.Not(x)] {
					return c.True()
				}
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return c.False()
	case 1:
		return out[0]
	}
	// (a && b) || (a && !b) => a   (common at joins)
	if len(out) == 2 {
		if m := c.joinMerge(out[0], out[1]); m != nil {
			return m
		}
	}
	return c.mk("or", SBool, out...)
}
func conj(t *T) []*T {
	if t.op == "and" {
		return t.args
	}
	return []*T{t}
}
func (c *Terms) joinMerge(a, b *T) *T {
	x, y := conj(a), conj(b)
	if len(x) != len(y) || len(x) < 1 {
		return nil
	}
	diff := -1
	for i := range x {
		if x[i] != y[i] {
			if diff >= 0 {
				return nil
			}
			diff = i
		}
	}
	if diff < 0 || c.Not(x[diff]) != y[diff] {
		return nil
	}
	var r []*T
	for i := range x {
		if i != diff {
			r = append(r, x[i])
		}
	}
	return c.And(r...)
}
func (c *Terms) Imp(a, b *T) *T {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return c.True()
	}
	if isFalse(b) {
		return c.Not(a)
	}
	if a == b {
		return c.True()
	}
	return c.mk("=>", SBool, a, b)
}
func (c *Terms) Eq(a, b *T) *T {
	if a == b {
		return c.True()
	}
	if a.ival != nil && b.ival != nil {
		return c.Bool(a.ival.Cmp(b.ival) == 0)
	}
	if a.sort == SBool {
		switch {
		case isTrue(a):
			return b
		case isTrue(b):
			return a
		case isFalse(a):
			return c.Not(b)
		case isFalse(b):
			return c.Not(a)
		}
	}
	if a.sort != b.sort && a.sort.Name != b.sort.Name {
		panic(fmt.Sprintf("Eq sort mismatch: %s vs %s (%s , %s)", a.sort.Name, b.sort.Name, a.op, b.op))
	}
	// allocation refs created at different times differ; handled by solver facts
	if a.sort == SInt {
		if d := c.linDiff(a, b); d != nil {
			return c.Bool(d.Sign() == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}

// lin splits t into base + const.
func (c *Terms) lin(t *T) (*T, *big.Int) {
	if t.ival != nil {
		return nil, t.ival
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].ival != nil {
		return t.args[0], t.args[1].ival
	}
	return t, big.NewInt(0)
}
func (c *Terms) linDiff(a, b *T) *big.Int {
	x, k := c.lin(a)
	y, l := c.lin(b)
	if x == y {
		return new(big.Int).Sub(k, l)
	}
	return nil
}
func (c *Terms) Ite(g, a, b *T) *T {
	if isTrue(g) {
		return a
	}
	if isFalse(g) {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if isTrue(a) && isFalse(b) {
			return g
		}
		if isFalse(a) && isTrue(b) {
			return c.Not(g)
		}
		if isTrue(a) {
			return c.Or(g, b)
		}
		if isFalse(a) {
			return c.And(c.Not(g), b)
		}
		if isTrue(b) {
			return c.Or(c.Not(g), a)
		}
		if isFalse(b) {
			return c.And(g, a)
		}
	}
	if g.op == "not" {
		g, a, b = g.args[0], b, a
	}
	if a.sort.Name != b.sort.Name {
		panic("Ite sort mismatch " + a.sort.Name + " " + b.sort.Name)
	}
	return c.mk("ite", a.sort, g, a, b)
}
func (c *Terms) Add(a, b *T) *T {
	if a.sort == SReal {
		return c.mk("+", SReal, a, b)
	}
	if a.ival != nil && b.ival != nil {
		return c.BigInt(new(big.Int).Add(a.ival, b.ival))
	}
	if a.ival != nil {
		a, b = b, a
	}
	if b.ival != nil {
		if b.ival.Sign() == 0 {
			return a
		}
		x, k := c.lin(a)
		if k.Sign() != 0 {
			s := new(big.Int).Add(k, b.ival)
			if s.Sign() == 0 {
				return x
			}
			return c.mk("+", SInt, x, c.BigInt(s))
		}
		return c.mk("+", SInt, a, b)
	}
	// normalise constants outward
	x, k := c.lin(a)
	y, l := c.lin(b)
	s := new(big.Int).Add(k, l)
	if x.id > y.id {
		x, y = y, x
	}
	if x.op == "-" && len(x.args) == 2 && x.args[1] == y {
		return c.Add(x.args[0], c.BigInt(s))
	}
	if y.op == "-" && len(y.args) == 2 && y.args[1] == x {
		return c.Add(y.args[0], c.BigInt(s))
	}
	r := c.mk("+", SInt, x, y)
	if s.Sign() != 0 {
		return c.mk("+", SInt, r, c.BigInt(s))
	}
	return r
}
func (c *Terms) Sub(a, b *T) *T {
	if a.sort == SReal {
		return c.mk("-", SReal, a, b)
	}
	if b.ival != nil {
		return c.Add(a, c.BigInt(new(big.Int).Neg(b.ival)))
	}
	if d := c.linDiff(a, b); d != nil {
		return c.BigInt(d)
	}
	x, k := c.lin(a)
	y, l := c.lin(b)
	if x == nil {
		x = c.Int(0)
	}
	s := new(big.Int).Sub(k, l)
	if x.op == "+" && len(x.args) == 2 && y != nil {
		if x.args[0] == y {
			return c.Add(x.args[1], c.BigInt(s))
		}
		if x.args[1] == y {
			return c.Add(x.args[0], c.BigInt(s))
		}
	}
	r := c.mk("-", SInt, x, y)
	return c.Add(r, c.BigInt(s))
}
func (c *Terms) Mul(a, b *T) *T {
	if a.sort == SReal {
		return c.mk("*", SReal, a, b)
	}
	if a.ival != nil && b.ival != nil {
		return c.BigInt(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.ival != nil {
		a, b = b, a
	}
	if b.ival != nil {
		if b.ival.Sign() == 0 {
			return b
		}
		if b.ival.IsInt64() && b.ival.Int64() == 1 {
			return a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk("*", SInt, a, b)
}

// Euclidean div/mod by SMT-LIB; Go semantics handled by the caller.
func (c *Terms) Div(a, b *T) *T {
	if a.ival != nil && b.ival != nil && b.ival.Sign() > 0 && a.ival.Sign() >= 0 {
		return c.BigInt(new(big.Int).Div(a.ival, b.ival))
	}
	if b.ival != nil && b.ival.IsInt64() && b.ival.Int64() == 1 {
		return a
	}
	return c.mk("div", SInt, a, b)
}
func (c *Terms) Mod(a, b *T) *T {
	if a.ival != nil && b.ival != nil && b.ival.Sign() > 0 {
		return c.BigInt(new(big.Int).Mod(a.ival, b.ival))
	}
	return c.mk("mod", SInt, a, b)
}
func (c *Terms) Le(a, b *T) *T {
	if a.sort == SInt {
		if d := c.linDiff(a, b); d != nil {
			return c.Bool(d.Sign() <= 0)
		}
	}
	return c.mk("<=", SBool, a, b)
}
func (c *Terms) Lt(a, b *T) *T {
	if a.sort == SInt {
		if d := c.linDiff(a, b); d != nil {
			return c.Bool(d.Sign() < 0)
		}
	}
	return c.mk("<", SBool, a, b)
}
func (c *Terms) Ge(a, b *T) *T { return c.Le(b, a) }
func (c *Terms) Gt(a, b *T) *T { return c.Lt(b, a) }

func (c *Terms) Select(a, i *T) *T {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if c.distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[1].op == "constarr") && (a.args[2].op == "store" || a.args[2].op == "constarr") {
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	return c.mk("select", a.sort.Elem, a, i)
}
func (c *Terms) distinct(a, b *T) bool {
	if a.ival != nil && b.ival != nil {
		return a.ival.Cmp(b.ival) != 0
	}
	if a.sort == SInt {
		if d := c.linDiff(a, b); d != nil && d.Sign() != 0 {
			return true
		}
	}
	return false
}
func (c *Terms) Store(a, i, v *T) *T {
	if a.sort.Elem == nil {
		panic("store into non-array " + a.sort.Name)
	}
	if a.sort.Elem.Name != v.sort.Name {
		panic(fmt.Sprintf("store sort mismatch %s into %s", v.sort.Name, a.sort.Name))
	}
	if a.op == "store" && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk("store", a.sort, a, i, v)
}
func (c *Terms) ConstArr(s *Sort, v *T) *T { return c.mk("constarr", s, v) }

func (c *Terms) DeclFun(name string, ret *Sort, args ...*Sort) string {
	n := sanitize(name)
	if _, ok := c.funs[n]; !ok {
		c.funs[n] = &FunDecl{Name: n, Args: args, Ret: ret}
		c.funOrd = append(c.funOrd, n)
	}
	return n
}
func (c *Terms) App(name string, ret *Sort, args ...*T) *T {
	var ss []*Sort
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	n := c.DeclFun(name, ret, ss...)
	if f := c.funs[n]; len(f.Args) == len(args) {
		for i := range args {
			if f.Args[i].Name != args[i].sort.Name {
				panic(fmt.Sprintf("App %s arg %d: sort %s, want %s", n, i, args[i].sort.Name, f.Args[i].Name))
			}
		}
	}
	return c.mk(n, ret, args...)
}

func (c *Terms) USort(name string) *Sort {
	n := sanitize(name)
	if !c.usorts[n] {
		c.usorts[n] = true
		c.usOrd = append(c.usOrd, n)
	}
	if s, ok := c.dts["u:"+n]; ok {
		return s
	}
	s := &Sort{Name: n}
	c.dts["u:"+n] = s
	return s
}

// Datatype with one constructor.
func (c *Terms) Datatype(name string, mk func() []Field) *Sort {
	n := sanitize(name)
	if s, ok := c.dts[n]; ok {
		return s
	}
	s := &Sort{Name: n, Ctor: "mk_" + n}
	c.dts[n] = s
	s.Fields = mk()
	c.dtOrd = append(c.dtOrd, n)
	return s
}
func (c *Terms) Mk(s *Sort, args ...*T) *T {
	// mk(f0(x), f1(x), ...) = x
	if len(args) > 0 && len(args[0].args) == 1 && args[0].op == s.Fields[0].Name {
		x := args[0].args[0]
		ok := x.sort == s
		for i, a := range args {
			if a.op != s.Fields[i].Name || len(a.args) != 1 || a.args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	for i, a := range args {
		if a.sort.Name != s.Fields[i].Sort.Name {
			panic(fmt.Sprintf("Mk %s field %s: %s want %s", s.Name, s.Fields[i].Name, a.sort.Name, s.Fields[i].Sort.Name))
		}
	}
	return c.mk(s.Ctor, s, args...)
}
func (c *Terms) Sel(x *T, i int) *T {
	s := x.sort
	if x.op == s.Ctor {
		return x.args[i]
	}
	if x.op == "ite" {
		return c.Ite(x.args[0], c.Sel(x.args[1], i), c.Sel(x.args[2], i))
	}
	return c.mk(s.Fields[i].Name, s.Fields[i].Sort, x)
}

// Forall quantifies. Solvers match triggers syntactically and order the arguments of a sum as they
// like, so a trigger select(a, o+j) is unreliable: j is replaced by k-o, the trigger by select(a, k).
func (c *Terms) Forall(vars []*T, pats [][]*T, body *T) *T {
	if len(pats) == 0 {
		return c.quant("forall", vars, pats, body)
	}
	type group struct {
		key  string
		offs map[*T]*T
		pats [][]*T
	}
	var groups []*group
	for _, ps := range pats {
		g := &group{offs: map[*T]*T{}, pats: [][]*T{ps}}
		for _, v := range vars {
			o, ok := c.trigOffset(ps, v)
			if ok && o != nil {
				g.offs[v] = o
				g.key += fmt.Sprintf("%d:%d,", v.id, o.id)
			}
		}
		found := false
		for _, h := range groups {
			if h.key == g.key {
				h.pats = append(h.pats, ps)
				found = true
			}
		}
		if !found {
			groups = append(groups, g)
		}
	}
	var out []*T
	for _, g := range groups {
		vs, b, ps := vars, body, g.pats
		for _, v := range vars {
			o := g.offs[v]
			if o == nil {
				continue
			}
			k := c.trigVar(v, o)
			m := map[*T]*T{v: c.Sub(k, o)}
			b = c.Subst(b, m)
			var np [][]*T
			for _, p := range ps {
				var q []*T
				for _, x := range p {
					q = append(q, c.Subst(x, m))
				}
				np = append(np, q)
			}
			ps = np
			var nv []*T
			for _, x := range vs {
				if x == v {
					x = k
				}
				nv = append(nv, x)
			}
			vs = nv
			for w, p := range g.offs {
				if w != v {
					g.offs[w] = c.Subst(p, m)
				}
			}
		}
		out = append(out, c.quant("forall", vs, ps, b))
	}
	return c.And(out...)
}

func (c *Terms) trigVar(v, o *T) *T {
	if c.trigVars == nil {
		c.trigVars = map[[2]*T]*T{}
	}
	k := [2]*T{v, o}
	if c.trigVars[k] == nil {
		c.trigVars[k] = c.BoundVar("k", SInt)
	}
	return c.trigVars[k]
}

// trigOffset: v occurs in the trigger only as o+v for one o; nil when it occurs bare.
func (c *Terms) trigOffset(ps []*T, v *T) (off *T, ok bool) {
	if v.sort != SInt {
		return nil, false
	}
	ok = true
	bare := false
	set := func(o *T) {
		if o == nil {
			bare = true
		} else if off != nil && off != o {
			ok = false
		} else {
			off = o
		}
	}
	var walk func(t *T, arith bool)
	walk = func(t *T, arith bool) {
		if !t.open {
			return
		}
		if t == v {
			set(nil)
			return
		}
		if t.op == "+" && !arith {
			// flatten
			var sum []*T
			var flat func(x *T)
			flat = func(x *T) {
				if x.op == "+" {
					for _, a := range x.args {
						flat(a)
					}
				} else {
					sum = append(sum, x)
				}
			}
			flat(t)
			n := 0
			var rest *T = c.Int(0)
			for _, x := range sum {
				if x == v {
					n++
				} else {
					if c.occurs(x, v) {
						n = 2
					}
					rest = c.Add(rest, x)
				}
			}
			if n == 1 {
				set(rest)
			} else if n > 1 {
				ok = false
			}
			for _, x := range sum {
				if x != v {
					walk(x, false)
				}
			}
			return
		}
		switch t.op {
		case "-", "*", "div", "mod", "+":
			if c.occurs(t, v) {
				ok = false
			}
		}
		for _, a := range t.args {
			walk(a, false)
		}
	}
	for _, p := range ps {
		walk(p, false)
	}
	if bare && off != nil {
		ok = false
	}
	if off != nil && off.ival != nil && off.ival.Sign() == 0 {
		off = nil
	}
	return off, ok
}
func (c *Terms) occurs(t, v *T) bool {
	m := map[*T]bool{}
	c.freeBound(t, m, map[*T]bool{})
	return m[v]
}
func (c *Terms) Exists(vars []*T, pats [][]*T, body *T) *T {
	if len(pats) > 0 {
		if f := c.Forall(vars, pats, c.Not(body)); f.op != "forall" || f.args[len(f.args)-1] != c.Not(body) {
			return c.Not(f)
		}
	}
	return c.quant("exists", vars, pats, body)
}
func (c *Terms) quant(q string, vars []*T, pats [][]*T, body *T) *T {
	if isTrue(body) || isFalse(body) {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s:%d", q, body.id)
	for _, v := range vars {
		fmt.Fprintf(&b, ",%d", v.id)
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	var good [][]*T
	for _, ps := range pats {
		cover := map[*T]bool{}
		ok := true
		for _, x := range ps {
			if len(x.args) == 0 || !x.open {
				ok = false
				break
			}
			c.freeBound(x, cover, map[*T]bool{})
			c.Contains(x, func(y *T) bool {
				switch y.op {
				case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
					ok = false
					return true
				}
				return false
			})
		}
		for _, v := range vars {
			if !cover[v] {
				ok = false
			}
		}
		if ok {
			good = append(good, ps)
		}
	}
	pats = good
	c.n++
	t := &T{id: c.n, op: q, args: []*T{body}, sort: SBool, bound: vars, pats: pats, maxb: body.maxb}
	fv := map[*T]bool{}
	c.freeBound(body, fv, map[*T]bool{})
	for _, v := range vars {
		delete(fv, v)
	}
	t.open = len(fv) > 0
	c.tab[k] = t
	return t
}
func (c *Terms) freeBound(t *T, out map[*T]bool, seen map[*T]bool) {
	if !t.open || seen[t] {
		return
	}
	seen[t] = true
	if len(t.args) == 0 {
		out[t] = true
		return
	}
	for _, a := range t.args {
		c.freeBound(a, out, seen)
	}
	for _, v := range t.bound {
		delete(out, v)
	}
}

// Subst replaces constants/bound variables.
func (c *Terms) Subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var f func(t *T) *T
	f = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*T, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, na, f)
		}
		memo[t] = r
		return r
	}
	return f(t)
}
func (c *Terms) rebuild(t *T, a []*T, f func(*T) *T) *T {
	switch t.op {
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "not":
		return c.Not(a[0])
	case "=>":
		return c.Imp(a[0], a[1])
	case "=":
		return c.Eq(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "+":
		return c.Add(a[0], a[1])
	case "-":
		return c.Sub(a[0], a[1])
	case "*":
		return c.Mul(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "<":
		return c.Lt(a[0], a[1])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "forall", "exists":
		var ps [][]*T
		for _, p := range t.pats {
			var q []*T
			for _, x := range p {
				q = append(q, f(x))
			}
			ps = append(ps, q)
		}
		return c.quant(t.op, t.bound, ps, a[0])
	}
	if len(a) == 1 && a[0].sort.Ctor != "" {
		for i, fl := range a[0].sort.Fields {
			if fl.Name == t.op {
				return c.Sel(a[0], i)
			}
		}
	}
	return c.mk(t.op, t.sort, a...)
}

func (c *Terms) Contains(t *T, pred func(*T) bool) bool {
	seen := map[*T]bool{}
	var f func(t *T) bool
	f = func(t *T) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// ---------- printing ----------

type printer struct {
	c     *Terms
	b     strings.Builder
	refs  map[*T]int
	named map[*T]string
	decl  map[*T]bool
	funs  map[string]bool
	sorts map[string]bool
}

func (c *Terms) head(t *T) string {
	switch t.op {
	case "constarr":
		return "(as const " + t.sort.Name + ")"
	case "str_lt":
		return "str_lt"
	}
	return t.op
}

func (p *printer) count(t *T) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, ps := range t.pats {
		for _, x := range ps {
			p.count(x)
		}
	}
}

// str renders t using names for already-named shared subterms.
func (p *printer) str(t *T) string {
	if n, ok := p.named[t]; ok {
		return n
	}
	return p.raw(t)
}
func (p *printer) raw(t *T) string {
	if len(t.args) == 0 {
		return t.op
	}
	if t.op == "forall" || t.op == "exists" {
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bound {
			b.WriteString("(" + v.op + " " + v.sort.Name + ")")
		}
		b.WriteString(") ")
		body := p.str(t.args[0])
		if len(t.pats) > 0 {
			b.WriteString("(! " + body)
			for _, ps := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range ps {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.str(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(p.c.head(t))
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteByte(')')
	return b.String()
}
func (p *printer) define(t *T) {
	if len(t.args) == 0 {
		return
	}
	if _, ok := p.named[t]; ok {
		return
	}
	for _, a := range t.args {
		p.define(a)
	}
	for _, ps := range t.pats {
		for _, x := range ps {
			p.define(x)
		}
	}
	if t.open || p.refs[t] < 2 {
		return
	}
	if _, ok := p.named[t]; ok {
		return
	}
	n := fmt.Sprintf("$%d", t.id)
	fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.sort.Name, p.raw(t))
	p.named[t] = n
}

// Script renders assertions as an SMT-LIB script.
func (c *Terms) Script(asserts []*T, axioms []*T, prelude string) string {
	p := &printer{c: c, refs: map[*T]int{}, named: map[*T]string{}}
	all := append(append([]*T{}, axioms...), asserts...)
	for _, a := range all {
		p.count(a)
	}
	// which symbols are used
	used := map[string]bool{}
	var consts []*T
	var sorts func(s *Sort)
	usedSort := map[string]bool{}
	sorts = func(s *Sort) {
		if s == nil || usedSort[s.Name] {
			return
		}
		usedSort[s.Name] = true
		sorts(s.Idx)
		sorts(s.Elem)
		for _, f := range s.Fields {
			sorts(f.Sort)
		}
	}
	var funWork []string
	visit := func(t *T) {
		sorts(t.sort)
		for _, v := range t.bound {
			sorts(v.sort)
		}
		if len(t.args) == 0 {
			if t.sym {
				consts = append(consts, t)
			}
		} else if f, ok := c.funs[t.op]; ok && !used[t.op] {
			used[t.op] = true
			funWork = append(funWork, t.op)
			for _, s := range f.Args {
				sorts(s)
			}
			sorts(f.Ret)
		}
	}
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		visit(t)
		for _, a := range t.args {
			walk(a)
		}
		for _, ps := range t.pats {
			for _, x := range ps {
				walk(x)
			}
		}
	}
	for _, a := range all {
		walk(a)
	}
	for i := 0; i < len(funWork); i++ {
		if f := c.funs[funWork[i]]; f.Body != nil {
			walk(f.Body)
		}
	}
	var out strings.Builder
	out.WriteString(prelude)
	out.WriteString("(declare-sort Str 0)\n(declare-sort Iface 0)\n")
	out.WriteString("(declare-datatypes ((Slice 0)) (((mkslice (sl_base Int) (sl_off Int) (sl_len Int) (sl_cap Int)))))\n")
	for _, n := range c.usOrd {
		if usedSort[n] {
			fmt.Fprintf(&out, "(declare-sort %s 0)\n", n)
		}
	}
	for _, n := range c.dtOrd {
		if !usedSort[n] {
			continue
		}
		s := c.dts[n]
		fmt.Fprintf(&out, "(declare-datatypes ((%s 0)) (((%s", n, s.Ctor)
		for _, f := range s.Fields {
			fmt.Fprintf(&out, " (%s %s)", f.Name, f.Sort.Name)
		}
		out.WriteString("))))\n")
	}
	sort.Slice(consts, func(i, j int) bool { return consts[i].id < consts[j].id })
	for _, t := range consts {
		fmt.Fprintf(&out, "(declare-fun %s () %s)\n", t.op, t.sort.Name)
	}
	for _, n := range c.funOrd {
		if !used[n] {
			continue
		}
		f := c.funs[n]
		if f.Body == nil {
			fmt.Fprintf(&out, "(declare-fun %s (", n)
			for i, s := range f.Args {
				if i > 0 {
					out.WriteByte(' ')
				}
				out.WriteString(s.Name)
			}
			fmt.Fprintf(&out, ") %s)\n", f.Ret.Name)
		}
	}
	for _, n := range c.funOrd {
		if !used[n] {
			continue
		}
		f := c.funs[n]
		if f.Body != nil {
			kw := "define-fun"
			if f.Rec {
				kw = "define-fun-rec"
			}
			fmt.Fprintf(&out, "(%s %s (", kw, n)
			for _, v := range f.Par {
				fmt.Fprintf(&out, "(%s %s)", v.op, v.sort.Name)
			}
			q := &printer{c: c, refs: map[*T]int{}, named: map[*T]string{}}
			fmt.Fprintf(&out, ") %s %s)\n", f.Ret.Name, q.raw(f.Body))
		}
	}
	for _, a := range all {
		p.define(a)
		fmt.Fprintf(&p.b, "(assert %s)\n", p.str(a))
	}
	out.WriteString(p.b.String())
	return out.String()
}

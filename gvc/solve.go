package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	sem       = make(chan struct{}, 8)
	quickMs   = 4000
	slowMs    = 25000
	dumpDir   string
	solverMs  int64
	dumpN     int64
	scriptDir string
)

// ---------- axioms added when their symbols occur ----------

func (v *VC) prelude(asserts []*T) []*T {
	c := v.c
	var out []*T
	has := func(n string) bool { return c.funs[n] != nil }
	b := func(h string, s *Sort) *T { return c.BoundVar(h, s) }
	if has("str_mk") {
		A := SArray(SInt, SInt)
		a, o, n, i := b("a", A), b("o", SInt), b("n", SInt), b("i", SInt)
		m := v.strMk(a, o, n)
		out = append(out, c.Forall([]*T{a, o, n}, [][]*T{{m}}, c.Imp(c.Ge(n, c.Int(0)), c.mk("=", SBool, v.slen(m), n))))
		out = append(out, c.Forall([]*T{a, o, n, i}, [][]*T{{v.sat(m, i)}}, c.Imp(c.And(c.Ge(i, c.Int(0)), c.Lt(i, n)), c.mk("=", SBool, v.sat(m, i), c.mk("select", SInt, a, c.Add(o, i))))))
	}
	if has("str_sub") {
		s, o, n, i := b("s", SStr), b("o", SInt), b("n", SInt), b("i", SInt)
		m := c.App("str_sub", SStr, s, o, n)
		out = append(out, c.Forall([]*T{s, o, n}, [][]*T{{m}}, c.Imp(c.And(c.Ge(n, c.Int(0)), c.Ge(o, c.Int(0)), c.Le(c.Add(o, n), v.slen(s))), c.Eq(v.slen(m), n))))
		out = append(out, c.Forall([]*T{s, o, n, i}, [][]*T{{v.sat(m, i)}}, c.Imp(c.And(c.Ge(i, c.Int(0)), c.Lt(i, n)), c.Eq(v.sat(m, i), v.sat(s, c.Add(o, i))))))
	}
	if has("str_cat") {
		s, t, i := b("s", SStr), b("t", SStr), b("i", SInt)
		m := c.App("str_cat", SStr, s, t)
		out = append(out, c.Forall([]*T{s, t}, [][]*T{{m}}, c.Eq(v.slen(m), c.Add(v.slen(s), v.slen(t)))))
		out = append(out, c.Forall([]*T{s, t, i}, [][]*T{{v.sat(m, i)}}, c.And(c.Imp(c.And(c.Ge(i, c.Int(0)), c.Lt(i, v.slen(s))), c.Eq(v.sat(m, i), v.sat(s, i))),
			c.Imp(c.And(c.Ge(i, v.slen(s)), c.Lt(i, c.Add(v.slen(s), v.slen(t)))), c.Eq(v.sat(m, i), v.sat(t, c.Sub(i, v.slen(s))))))))
	}
	if has("slen") {
		s := b("s", SStr)
		out = append(out, c.Forall([]*T{s}, [][]*T{{v.slen(s)}}, c.Ge(v.slen(s), c.Int(0))))
	}
	var ltFuns []string
	for n := range c.funs {
		if strings.HasPrefix(n, "lt_TP_") {
			ltFuns = append(ltFuns, n)
		}
	}
	sort.Strings(ltFuns)
	for _, n := range ltFuns {
		s := c.funs[n].Args[0]
		x, y, z := b("x", s), b("y", s), b("z", s)
		lt := func(p, q *T) *T { return c.App(n, SBool, p, q) }
		out = append(out,
			c.Forall([]*T{x, y}, [][]*T{{lt(x, y)}}, c.And(c.Or(lt(x, y), lt(y, x), c.Eq(x, y)), c.Not(c.And(lt(x, y), lt(y, x))))),
			c.Forall([]*T{x}, [][]*T{{lt(x, x)}}, c.Not(lt(x, x))),
			c.Forall([]*T{x, y, z}, [][]*T{{lt(x, y), lt(y, z)}}, c.Imp(c.And(lt(x, y), lt(y, z)), lt(x, z))))
	}
	if has("str_lt") {
		x, y, z := b("x", SStr), b("y", SStr), b("z", SStr)
		lt := func(p, q *T) *T { return c.App("str_lt", SBool, p, q) }
		out = append(out,
			c.Forall([]*T{x, y}, [][]*T{{lt(x, y)}}, c.And(c.Or(lt(x, y), lt(y, x), c.Eq(x, y)), c.Not(c.And(lt(x, y), lt(y, x))))),
			c.Forall([]*T{x}, [][]*T{{lt(x, x)}}, c.Not(lt(x, x))),
			c.Forall([]*T{x, y, z}, [][]*T{{lt(x, y), lt(y, z)}}, c.Imp(c.And(lt(x, y), lt(y, z)), lt(x, z))))
		if _, ok := v.con.Opts["strlex"]; ok {
			l := c.App("str_lcp", SInt, x, y)
			j := b("j", SInt)
			out = append(out, c.Forall([]*T{x, y}, [][]*T{{lt(x, y)}}, c.And(c.Ge(l, c.Int(0)), c.Le(l, v.slen(x)), c.Le(l, v.slen(y)),
				c.Eq(lt(x, y), c.Or(c.And(c.Eq(l, v.slen(x)), c.Lt(l, v.slen(y))), c.And(c.Lt(l, v.slen(x)), c.Lt(l, v.slen(y)), c.Lt(v.sat(x, l), v.sat(y, l))))),
				c.Or(c.Eq(l, v.slen(x)), c.Eq(l, v.slen(y)), c.Not(c.Eq(v.sat(x, l), v.sat(y, l)))))))
			out = append(out, c.Forall([]*T{x, y, j}, [][]*T{{l, v.sat(x, j)}, {l, v.sat(y, j)}}, c.Imp(c.And(c.Ge(j, c.Int(0)), c.Lt(j, l)), c.Eq(v.sat(x, j), v.sat(y, j)))))
		}
	}
	if has("str_hasprefix") {
		x, y, j := b("x", SStr), b("y", SStr), b("j", SInt)
		hp := c.App("str_hasprefix", SBool, x, y)
		d := c.App("str_pdiff", SInt, x, y)
		out = append(out,
			c.Forall([]*T{x, y}, [][]*T{{hp}}, c.Or(hp, c.Lt(v.slen(x), v.slen(y)), c.And(c.Ge(d, c.Int(0)), c.Lt(d, v.slen(y)), c.Not(c.Eq(v.sat(x, d), v.sat(y, d)))))),
			c.Forall([]*T{x, y}, [][]*T{{hp}}, c.Imp(hp, c.Le(v.slen(y), v.slen(x)))),
			c.Forall([]*T{x, y, j}, [][]*T{{hp, v.sat(x, j)}, {hp, v.sat(y, j)}}, c.Imp(c.And(hp, c.Ge(j, c.Int(0)), c.Lt(j, v.slen(y))), c.Eq(v.sat(x, j), v.sat(y, j)))))
	}
	// extensionality, instantiated for the string equations that occur
	seen := map[*T]bool{}
	pairs := map[[2]*T]bool{}
	open := false
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "=" && len(t.args) == 2 && t.args[0].sort == SStr {
			if t.open {
				open = true
			} else {
				pairs[[2]*T{t.args[0], t.args[1]}] = true
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range asserts {
		walk(a)
	}
	ext := func(x, y *T) *T {
		d := c.App("str_diff", SInt, x, y)
		return c.Or(c.Eq(x, y), c.Not(c.Eq(v.slen(x), v.slen(y))), c.And(c.Ge(d, c.Int(0)), c.Lt(d, v.slen(x)), c.Not(c.Eq(v.sat(x, d), v.sat(y, d)))))
	}
	if len(pairs) <= 200 {
		for p := range pairs {
			out = append(out, ext(p[0], p[1]))
		}
	}
	_, want := v.con.Opts["strext"]
	if open && want || len(pairs) > 200 {
		x, y := b("x", SStr), b("y", SStr)
		out = append(out, c.Forall([]*T{x, y}, [][]*T{{v.slen(x), v.slen(y)}}, ext(x, y)))
	}
	if has("pow2") {
		n := b("n", SInt)
		p := func(t *T) *T { return c.App("pow2", SInt, t) }
		for i := int64(0); i <= 64; i++ {
			out = append(out, c.Eq(p(c.Int(i)), c.BigInt(pow2(uint(i)))))
		}
		out = append(out, c.Forall([]*T{n}, [][]*T{{p(n)}}, c.Ge(p(n), c.Int(1))))
	}
	if has("bit") {
		x, y, n, k := b("x", SInt), b("y", SInt), b("n", SInt), b("k", SInt)
		bit := func(x, n *T) *T { return c.App("bit", SBool, x, n) }
		p := func(t *T) *T { return c.App("pow2", SInt, t) }
		z := c.Int(0)
		ge := func(ts ...*T) *T {
			r := []*T{}
			for _, t := range ts {
				r = append(r, c.Ge(t, z))
			}
			return c.And(r...)
		}
		or, and := c.App("bv_or", SInt, x, y), c.App("bv_and", SInt, x, y)
		out = append(out,
			c.Forall([]*T{n}, [][]*T{{bit(z, n)}}, c.Not(bit(z, n))),
			c.Forall([]*T{k, n}, [][]*T{{bit(p(k), n)}}, c.Imp(ge(k, n), c.Eq(bit(p(k), n), c.Eq(k, n)))),
			c.Forall([]*T{x, y, n}, [][]*T{{bit(or, n)}}, c.Imp(ge(x, y, n), c.Eq(bit(or, n), c.Or(bit(x, n), bit(y, n))))),
			c.Forall([]*T{x, y, n}, [][]*T{{bit(and, n)}}, c.Imp(ge(x, y, n), c.Eq(bit(and, n), c.And(bit(x, n), bit(y, n))))))
		for _, e := range []*T{c.App("bv_and", SInt, x, p(k)), c.App("bv_and", SInt, p(k), x)} {
			out = append(out, c.Forall([]*T{x, k}, [][]*T{{e}}, c.Imp(ge(x, k), c.Eq(e, c.Ite(bit(x, k), p(k), z)))))
		}
	}
	if has("bv_xor") {
		x := b("x", SInt)
		out = append(out, c.Forall([]*T{x}, [][]*T{{c.App("bv_xor", SInt, x, x)}}, c.Eq(c.App("bv_xor", SInt, x, x), c.Int(0))))
	}
	return out
}

type answer struct {
	res    string
	solver string
	ms     int64
	out    string
}

func runSolver(ctx context.Context, name, script string, ms int, extra ...string) answer {
	var args []string
	bin := name
	switch {
	case strings.HasPrefix(name, "z3"):
		bin = strings.Split(name, "#")[0]
		args = []string{"-smt2", fmt.Sprintf("-T:%d", (ms+999)/1000), "-memory:3000"}
		args = append(args, extra...)
		args = append(args, "-in")
	case strings.HasPrefix(name, "cvc5"):
		bin = "cvc5"
		args = append([]string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}, extra...)
		args = append(args, "-")
	}
	t0 := time.Now()
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	el := time.Since(t0).Milliseconds()
	atomic.AddInt64(&solverMs, el)
	o := out.String()
	first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
	r := "unknown"
	switch first {
	case "unsat", "sat":
		r = first
	}
	return answer{r, name, el, o}
}

// discharge decides facts |= goal.
func (o *Obl) discharge() {
	if o.Status != "" {
		return
	}
	if !giveUp.IsZero() && time.Now().After(giveUp) {
		o.Status, o.Out = "failed", "time budget of the run exhausted"
		return
	}
	quickMs := quickMs
	if o.vc.fast && o.InvKey != "" {
		quickMs = 2500
	}
	v := o.vc
	c := v.c
	v.mu.Lock()
	facts := append([]*T{}, v.facts[:o.NFacts]...)
	if o.Cover {
		facts = append(facts, o.Goal)
	} else {
		facts = append(facts, c.Not(o.Goal))
	}
	facts = split(c, facts)
	script := c.Script(facts, v.prelude(facts), "(set-logic ALL)\n") + "(check-sat)\n"
	v.mu.Unlock()
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		f := filepath.Join(dumpDir, fmt.Sprintf("%s-%03d-%s.smt2", sanitize(o.Fn), n, sanitize(trunc(o.Kind+"-"+o.Name, 60))))
		os.WriteFile(f, []byte("; "+o.Kind+" "+o.Name+"\n"+script), 0o644)
	}
	if o.Cover {
		a := runSolver(context.Background(), "z3-new", script, 1000)
		o.Solver, o.Ms = a.solver, a.ms
		if a.res == "unsat" {
			o.Status, o.Out = "failed", "the assumptions are contradictory: nothing would be checked"
			return
		}
		o.Status = "proved"
		return
	}
	if abs := abstractions(script); len(abs) == 2 {
		if a := runSolver(context.Background(), "cvc5#U", abs[1], quickMs); a.res == "unsat" {
			o.Status, o.Solver, o.Ms = "proved", a.solver, a.ms
			return
		}
	}
	a := runSolver(context.Background(), "z3-new", script, quickMs)
	if a.res == "unsat" {
		o.Status, o.Solver, o.Ms = "proved", a.solver, a.ms
		return
	}
	if a.res == "unknown" || a.res == "sat" && strings.Contains(script, "forall") || true {
		if strings.Contains(a.out, "(error") {
			o.Status, o.Out = "failed", "solver error: "+trunc(a.out, 2000)
			if os.Getenv("GVC_DEBUG") != "" {
				f, _ := os.CreateTemp("", "gvcerr*.smt2")
				f.WriteString(script)
				f.Close()
				o.Out += " script " + f.Name()
			}
			return
		}
	}
	if a.res == "sat" {
		o.Status, o.Solver, o.Ms, o.Out = "failed", a.solver, a.ms, "sat (counterexample exists for the stated assumptions)"
		o.model(script)
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if o.vc.fast && o.InvKey != "" {
		ch := make(chan answer, 2)
		go func() { ch <- runSolver(ctx, "z3#1", script, quickMs) }()
		go func() { ch <- runSolver(ctx, "cvc5", script, quickMs) }()
		for range 2 {
			if a := <-ch; a.res == "unsat" {
				o.Status, o.Solver, o.Ms = "proved", a.solver, a.ms
				return
			}
		}
		o.Status, o.Solver, o.Ms, o.Out = "failed", a.solver, a.ms, "candidate not proved quickly"
		return
	}
	type job struct {
		n     string
		extra []string
	}
	jobs := []job{{"z3-new#2", []string{"smt.random_seed=7", "smt.mbqi=false"}}, {"z3#1", nil}, {"cvc5", []string{"--full-saturate-quant"}}, {"z3-new#3", []string{"smt.random_seed=3", "smt.arith.solver=2"}}}
	ch := make(chan answer, len(jobs)+8)
	for _, j := range jobs {
		go func(j job) {
			ch <- runSolver(ctx, j.n, script, slowMs, j.extra...)
		}(j)
	}
	if abs := abstractions(script); abs != nil {
		for _, ab := range abs {
			for _, n := range []string{"z3-new#U", "cvc5#U"} {
				jobs = append(jobs, job{n, nil})
				go func() {
					a := runSolver(ctx, n, ab, slowMs)
					if a.res == "sat" {
						a.res = "unknown"
					}
					ch <- a
				}()
			}
		}
	}
	if lin := linearized(script); lin != "" {
		for _, n := range []string{"z3-new#N", "cvc5#N"} {
			jobs = append(jobs, job{n, nil})
			go func() {
				a := runSolver(ctx, n, lin, slowMs)
				if a.res == "sat" {
					a.res = "unknown"
				}
				ch <- a
			}()
		}
	}
	var outs []string
	sat := false
	for range jobs {
		a := <-ch
		if a.res == "unsat" {
			o.Status, o.Solver, o.Ms = "proved", a.solver, a.ms
			return
		}
		if a.res == "sat" {
			sat = true
		}
		outs = append(outs, a.solver+": "+trunc(strings.TrimSpace(a.out), 100))
	}
	o.Status = "failed"
	o.Out = strings.Join(outs, " | ")
	if sat {
		o.Out = "sat; " + o.Out
		o.model(script)
	}
}

func (o *Obl) model(script string) {
	var names []string
	for n, s := range o.vc.topParams {
		if s.t != nil && len(s.t.args) == 0 && (s.t.sort == SInt || s.t.sort == SBool || s.t.sort == SBV32) && s.t.sym {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		return
	}
	q := "(get-value ("
	for _, n := range names {
		q += o.vc.topParams[n].t.op + " "
	}
	a := runSolver(context.Background(), "z3-new", script+q+"))\n", quickMs)
	o.Model = map[string]string{"raw": trunc(a.out, 1500)}
}

func split(c *Terms, fs []*T) []*T {
	var out []*T
	for _, f := range fs {
		out = append(out, conj(f)...)
	}
	return out
}
func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func dischargeAll(obls []*Obl) {
	var wg sync.WaitGroup
	// Script generation touches the shared term table of a VC: serialise per VC.
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obl) {
			defer wg.Done()
			defer func() { <-sem }()
			o.discharge()
		}(o)
	}
	wg.Wait()
}

// abstractions are weaker versions of a bit-vector script (an unsat answer carries over): 32-bit
// multiplication, and also the conversion of integers, as uninterpreted functions.
func abstractions(script string) []string {
	if !strings.Contains(script, "(bvmul ") {
		return nil
	}
	body := strings.Replace(strings.ReplaceAll(script, "(bvmul ", "(bvmulU "), "(set-logic ALL)\n", "", 1)
	head := "(set-logic ALL)\n(declare-fun bvmulU ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))\n"
	return []string{head + body, head + "(declare-fun i2bU (Int) (_ BitVec 32))\n" + strings.ReplaceAll(body, "((_ int2bv 32) ", "(i2bU ")}
}

// linearized is a weaker version of a script: products, quotients and remainders of unknowns are
// uninterpreted functions (what the script states about them remains). Empty: there are none.
func linearized(script string) string {
	sexp := func(i int) int { // end of the s-expression which starts at i
		d := 0
		for j := i; j < len(script); j++ {
			switch script[j] {
			case '(':
				d++
			case ')':
				if d == 0 {
					return j
				}
				if d--; d == 0 {
					return j + 1
				}
			case ' ':
				if d == 0 {
					return j
				}
			}
		}
		return len(script)
	}
	literal := func(s string) bool {
		if s == "" {
			return false
		}
		s = strings.TrimSuffix(strings.TrimPrefix(s, "(- "), ")")
		for _, r := range s {
			if r < '0' || r > '9' {
				return false
			}
		}
		return true
	}
	var b strings.Builder
	found := false
	for i := 0; i < len(script); i++ {
		b.WriteByte(script[i])
		if script[i] != '(' {
			continue
		}
		for _, op := range []string{"mod ", "div ", "* "} {
			if !strings.HasPrefix(script[i+1:], op) {
				continue
			}
			x0 := i + 1 + len(op)
			x1 := sexp(x0)
			if x1 >= len(script) || script[x1] != ' ' {
				break
			}
			y1 := sexp(x1 + 1)
			if y1 >= len(script) || script[y1] != ')' {
				break // more than two operands
			}
			if literal(script[x1+1:y1]) || op == "* " && literal(script[x0:x1]) {
				break
			}
			found = true
			b.WriteString(map[string]string{"mod ": "modU ", "div ": "divU ", "* ": "mulU "}[op])
			i = x0 - 1
			break
		}
	}
	if !found {
		return ""
	}
	decl := "(set-logic ALL)\n(declare-fun modU (Int Int) Int)\n(declare-fun divU (Int Int) Int)\n(declare-fun mulU (Int Int) Int)\n"
	return strings.Replace(b.String(), "(set-logic ALL)\n", decl, 1)
}

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type OblOut struct {
	Fn, Kind, Name, Pos, Status, Solver string
	Ms                                  int64
	Out                                 string            `json:",omitempty"`
	Model                               map[string]string `json:",omitempty"`
}
type FnOut struct {
	ID       string
	Obls     int
	Proved   int
	Inlined  []string
	Notes    []string
	Uses     []string
	Trusted  []string
	Lemmas   []string
	Rounds   int
	Ms       int64
	InvDrops []string
}
type Out struct {
	Property    string
	Functions   []FnOut
	Lemmas      []FnOut
	Obligations []OblOut
	Failed      []OblOut
	SolverMs    int64
	WallMs      int64
	Solvers     map[string]int
	Trusted     []string
	Axioms      []string
	Notes       []string
	Gone        []string `json:",omitempty"`
	Error       string   `json:",omitempty"`
}

type fnResult struct {
	con   *Contract
	v     *VC
	round int
	drops []string
	ms    int64
}

// ---------- one contract ----------

func genVC(P *Program, S *Specs, con *Contract, drop map[string]bool, fast, unpin bool) (v *VC) {
	v = NewVC(P, S)
	v.con = con
	v.dropInv = drop
	v.fast, v.unpin = fast, unpin
	_, v.bv = con.Opts["bv"]
	c := v.c
	a0 := c.Const("alloc0", SInt)
	v.allocBases[a0] = 0
	st := &State{heaps: map[string]*T{}, base: "H0", alloc: a0}
	v.entry = st.clone()
	v.rawFact(c.Gt(a0, c.Int(0)))
	v.modsAny = con.ModAny
	defer func() {
		if r := recover(); r != nil {
			var msg string
			switch u := r.(type) {
			case specErr:
				msg = u.msg
			case unsupported:
				msg = u.msg
			default:
				if os.Getenv("GVC_DEBUG") != "" {
					panic(r)
				}
				msg = fmt.Sprintf("internal: %v", r)
			}
			v.quiet = 0
			v.guard = c.True()
			v.obls = append(v.obls, &Obl{Fn: con.ID(), Kind: "generate", Name: "verification conditions can be generated: " + msg, Goal: c.False(), Status: "failed", Out: msg, vc: v})
		}
	}()
	fn := P.fns[con.Pkg+"."+con.Key]
	if fn == nil || fn.Blocks == nil {
		panic(specErr{"function " + con.ID() + " not found in the current tree"})
	}
	if len(con.Params) != len(fn.Params) {
		panic(specErr{fmt.Sprintf("%s takes %d parameters (receiver included), its contract names %d", con.ID(), len(fn.Params), len(con.Params))})
	}
	if n := fn.Signature.Results().Len(); len(con.Results) != n && len(con.Results) > 0 {
		panic(specErr{fmt.Sprintf("%s has %d results, its contract names %d", con.ID(), n, len(con.Results))})
	}
	v.fn = fn
	v.topParams = map[string]SV{}
	var args []Val
	var pts []types.Type
	for i, p := range fn.Params {
		x := v.freshVal("p."+con.Params[i], p.Type(), v.entry)
		args = append(args, x)
		pts = append(pts, p.Type())
		v.topParams[con.Params[i]] = SV{t: x.t, typ: p.Type()}
		if i == 0 && fn.Signature.Recv() != nil && con.Opts["nilrecv"] == "" {
			if _, ok := under(p.Type()).(*types.Pointer); ok {
				v.rawFact(c.Gt(x.t, c.Int(0)))
			}
		}
	}
	v.applyUses(con.Uses, con.Pkg)
	env := v.contractEnv(con, nil, args, pts, v.entry, v.entry)
	for _, r := range con.Requires {
		v.fact(env.boolT(r.E))
	}
	for _, m := range con.Modifies {
		v.mods = append(v.mods, v.modSet(env, m)...)
	}
	v.obls = append(v.obls, &Obl{Fn: con.ID(), Kind: "cover", Name: "preconditions are satisfiable", Goal: c.True(), NFacts: len(v.facts), Cover: true, vc: v})
	// heaps created while evaluating the preconditions belong to the entry state
	st = v.entry.clone()
	_, noframe := con.Opts["noframe"]
	v.frameOn = !noframe
	if noframe {
		v.note("frame (modifies) of %s is not checked", con.ID())
	}
	rets, fr := v.execFunc(fn, args, nil, st, nil)
	_ = fr
	v.frameOn = false
	var gs []*T
	for _, r := range rets {
		gs = append(gs, r.guard)
	}
	v.guard = c.True()
	if len(rets) == 0 {
		v.obls = append(v.obls, &Obl{Fn: con.ID(), Kind: "cover", Name: "some return is reachable", Goal: c.False(), NFacts: len(v.facts), Cover: true, vc: v})
	} else {
		v.obls = append(v.obls, &Obl{Fn: con.ID(), Kind: "cover", Name: "some return is reachable", Goal: c.Or(gs...), NFacts: len(v.facts), Cover: true, vc: v})
	}
	for ri, r := range rets {
		v.guard = r.guard
		v.curPos = r.pos
		v.coverPoint(fmt.Sprintf("return %d", ri+1), r.guard)
		env := v.contractEnv(con, nil, args, pts, r.st, v.entry)
		for i, rv := range r.res {
			if i < len(con.Results) {
				sv := SV{typ: fn.Signature.Results().At(i).Type(), val: rv}
				if rv.t != nil || rv.clo != nil || rv.addr != nil {
					func() {
						defer func() {
							if x := recover(); x != nil {
								if _, ok := x.(unsupported); !ok {
									panic(x)
								}
							}
						}()
						sv.t = v.term(rv)
					}()
				}
				env.vars[con.Results[i]] = sv
			}
		}
		for _, e := range con.Ensures {
			t, err := v.tryBool(env, e.E)
			if err != nil {
				v.obls = append(v.obls, &Obl{Fn: con.ID(), Kind: "spec", Name: "postcondition evaluates: " + e.Src, Goal: c.False(), Status: "failed", Out: err.Error(), vc: v})
				continue
			}
			nm := e.Src
			if e.Label != "" {
				nm = "[" + e.Label + "] " + nm
			}
			if len(rets) > 1 {
				nm = fmt.Sprintf("%s (return %d)", nm, ri+1)
			}
			for k, part := range splitGoal(c, t) {
				n2 := nm
				if k > 0 {
					n2 = fmt.Sprintf("%s #%d", nm, k+1)
				}
				v.oblige("ensures", n2, part)
			}
			v.fact(t)
		}
	}
	return v
}

func splitGoal(c *Terms, t *T) []*T {
	switch {
	case t.op == "and":
		var out []*T
		for _, a := range t.args {
			out = append(out, splitGoal(c, a)...)
		}
		return out
	case t.op == "=>":
		var out []*T
		for _, a := range splitGoal(c, t.args[1]) {
			out = append(out, c.Imp(t.args[0], a))
		}
		return out
	}
	return []*T{t}
}

func (v *VC) lemmaTerm(l *Lemma) *T {
	c := v.c
	env := v.newEnv(&State{heaps: map[string]*T{}, base: "lem", alloc: c.Const("alloc0", SInt)}, nil)
	env.pkg = v.P.tpkgs[l.Pkg]
	e := &Expr{Kind: "quant", Name: "forall", Vars: l.Vars, Args: []*Expr{l.Body}}
	if l.Body.Kind == "quant" && len(l.Vars) == 0 {
		return env.boolT(l.Body)
	}
	if len(l.Vars) == 0 {
		return env.boolT(l.Body)
	}
	return env.boolT(e)
}
func (v *VC) applyUses(uses []string, pkg string) {
	for _, u := range uses {
		found := false
		for _, l := range v.S.Lemmas {
			if l.Name == u {
				found = true
				v.rawFact(v.lemmaTerm(l))
				v.usesLemma = append(v.usesLemma, u)
			}
		}
		if !found {
			panic(specErr{"unknown lemma " + u})
		}
	}
}

func genLemma(P *Program, S *Specs, l *Lemma) (v *VC) {
	con := &Contract{Pkg: l.Pkg, Key: "lemma " + l.Name, Opts: map[string]string{}, Params: nil}
	for _, u := range l.Uses {
		if strings.HasPrefix(u, "option:") {
			con.Opts[u[7:]] = ""
		}
	}
	v = NewVC(P, S)
	v.con = con
	v.bv = false
	c := v.c
	v.entry = &State{heaps: map[string]*T{}, base: "lem", alloc: c.Const("alloc0", SInt)}
	defer func() {
		if r := recover(); r != nil {
			v.obls = append(v.obls, &Obl{Fn: con.ID(), Kind: "generate", Name: "lemma can be stated", Goal: c.False(), Status: "failed", Out: fmt.Sprint(r), vc: v})
		}
	}()
	var uses []string
	for _, u := range l.Uses {
		if !strings.HasPrefix(u, "option:") {
			uses = append(uses, u)
		}
	}
	v.applyUses(uses, l.Pkg)
	env := v.newEnv(v.entry, v.entry)
	env.pkg = P.tpkgs[l.Pkg]
	sk := map[string]SV{}
	vars := l.Vars
	body := l.Body
	for len(vars) == 0 && body.Kind == "quant" && body.Name == "forall" {
		vars, body = body.Vars, body.Args[0]
	}
	for _, q := range vars {
		s, t := env.resolveSort(q.Type)
		if s == nil {
			panic("unknown type " + q.Type)
		}
		x := c.Fresh(q.Name, s)
		if t != nil {
			v.typeFacts(x, t, v.entry)
		}
		sk[q.Name] = SV{t: x, typ: t}
	}
	v.topParams = sk
	if l.Induct != "" {
		// strong induction over a natural number: the lemma holds below, the other variables
		// fixed; hypotheses that do not mention the induction variable are assumed outright
		x := sk[l.Induct]
		hyp, concl := []*Expr{}, body
		for concl.Kind == "bin" && concl.Name == "==>" {
			hyp = append(hyp, conjuncts(concl.Args[0])...)
			concl = concl.Args[1]
		}
		full := env
		for k, y := range sk {
			full = full.with(k, y)
		}
		ind := c.BoundVar(l.Induct, SInt)
		below := full.with(l.Induct, SV{t: ind, typ: types.Typ[types.Int]})
		var hs []*T
		for _, h := range hyp {
			if mentions(h, l.Induct) {
				hs = append(hs, below.boolT(h))
			} else {
				v.rawFact(full.boolT(h))
			}
		}
		hs = append(hs, c.Ge(ind, c.Int(0)), c.Lt(ind, x.t))
		var pats [][]*T
		if l.Body.Kind == "quant" {
			for _, ps := range l.Body.Pats {
				var ts []*T
				for _, p := range ps {
					if mentions(p, l.Induct) {
						ts = append(ts, below.eval(p).t)
					}
				}
				if len(ts) > 0 {
					pats = append(pats, ts)
				}
			}
		}
		v.rawFact(c.Forall([]*T{ind}, pats, c.Imp(c.And(hs...), below.boolT(concl))))
		v.rawFact(c.Ge(x.t, c.Int(0)))
	}
	e2 := env
	for k, x := range sk {
		e2 = e2.with(k, x)
	}
	v.oblige("lemma", l.Src, e2.boolT(body))
	return v
}

// verify: candidate invariants that do not hold are dropped (Houdini). The first attempt respects
// loop pins and gives candidates little time; if it leaves anything open a second attempt tries
// every candidate at every loop with full solver time.
func verify(P *Program, S *Specs, con *Contract) *fnResult {
	t0 := time.Now()
	r := verify1(P, S, con, true, false)
	if r.failed() && len(con.Invs) > 0 && r.genOK() {
		pins := false
		for _, i := range con.Invs {
			pins = pins || i.Loop != 0
		}
		for _, unpin := range []bool{false, true} {
			if unpin && (!pins || !r.failed()) {
				break
			}
			r2 := verify1(P, S, con, false, unpin)
			if r2.nfailed() <= r.nfailed() {
				r2.round += r.round
				r = r2
			}
		}
	}
	r.ms = time.Since(t0).Milliseconds()
	return r
}
func (r *fnResult) nfailed() int {
	n := 0
	for _, o := range r.v.obls {
		if o.Status != "proved" {
			n++
		}
	}
	return n
}
func (r *fnResult) failed() bool { return r.nfailed() > 0 }
func (r *fnResult) genOK() bool {
	for _, o := range r.v.obls {
		if o.Kind == "generate" {
			return false
		}
	}
	return true
}

func verify1(P *Program, S *Specs, con *Contract, fast, unpin bool) *fnResult {
	drop := map[string]bool{}
	var r *fnResult
	for round := 1; ; round++ {
		v := genVC(P, S, con, drop, fast, unpin)
		r = &fnResult{con: con, v: v, round: round}
		var cand []*Obl
		for _, o := range v.obls {
			if o.InvKey != "" {
				cand = append(cand, o)
			}
		}
		dischargeAll(cand)
		again := false
		if round < 8 {
			for _, o := range cand {
				if o.Status == "failed" && !drop[o.InvKey] {
					drop[o.InvKey] = true
					if verboseF {
						fmt.Printf("dropped %s %s: %s\n", o.Kind, o.Name, o.Out)
					}
					again = true
				}
			}
		}
		if !again {
			dischargeAll(v.obls)
			break
		}
	}
	r.drops = sortedKeys(drop)
	return r
}

func modulePkgs(repo, scr string, pats []string) ([]string, error) {
	cfg := loadCfg(repo, scr)
	cfg.Mode = packages.NeedName | packages.NeedImports | packages.NeedDeps
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	var walk func(p *packages.Package)
	walk = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		for _, i := range p.Imports {
			if inModule(i.PkgPath) {
				walk(i)
			}
		}
	}
	for _, p := range pk {
		walk(p)
	}
	return sortedKeys(seen), nil
}

var verboseF bool
var giveUp time.Time

func main() {
	repo := flag.String("repo", "/repo", "")
	scr := flag.String("scr", os.Getenv("SCR"), "")
	specs := flag.String("specs", "/verif/contracts", "")
	prop := flag.String("prop", "", "")
	only := flag.String("only", "", "")
	outF := flag.String("json", "", "")
	verbose := &verboseF
	flag.BoolVar(verbose, "v", false, "")
	flag.StringVar(&dumpDir, "dump", "", "")
	flag.IntVar(&quickMs, "quick", quickMs, "")
	flag.IntVar(&slowMs, "slow", slowMs, "")
	budget := flag.Int("budget", 0, "seconds after which open obligations are given up")
	ssaOf := flag.String("ssa", "", "print the SSA of a function (pkg.key)")
	pkgsF := flag.String("pkgs", "", "")
	yieldF := flag.String("yield", "", "write copies of files with delay points: src=dst,...")
	module := flag.String("module", "reduction.dev/reduction", "")
	flag.Parse()
	if *yieldF != "" {
		if err := yieldFiles(*yieldF, *module); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	os.Setenv("PATH", "/opt/veriftools/go1.24.13/bin:"+os.Getenv("PATH"))
	t0 := time.Now()
	if *budget > 0 {
		giveUp = t0.Add(time.Duration(*budget) * time.Second)
	}
	out := &Out{Property: *prop, Solvers: map[string]int{}}
	finish := func(code int) {
		out.WallMs = time.Since(t0).Milliseconds()
		out.SolverMs = solverMs
		if *outF != "" {
			b, _ := json.MarshalIndent(out, "", " ")
			os.WriteFile(*outF, b, 0o644)
		}
		os.Exit(code)
	}
	fail := func(err error) {
		out.Error = err.Error()
		fmt.Fprintln(os.Stderr, "gvc:", err)
		finish(3)
	}
	S, err := loadSpecs(*specs)
	if err != nil {
		fail(err)
	}
	var todo []*Contract
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	has := func(ps []string) bool {
		for _, p := range ps {
			if p == *prop {
				return true
			}
		}
		return false
	}
	pkgs := map[string]bool{}
	for _, c := range S.Order {
		if c.Trusted {
			continue
		}
		if *prop != "" && !has(c.Props) || re != nil && !re.MatchString(c.ID()) {
			continue
		}
		todo = append(todo, c)
		pkgs[c.Pkg] = true
	}
	var lem []*Lemma
	lemSeen := map[string]bool{}
	for _, l := range S.Lemmas {
		if l.Axiom {
			continue
		}
		if *prop != "" && !has(l.Props) || re != nil && !re.MatchString("lemma "+l.Name) {
			continue
		}
		lem = append(lem, l)
		lemSeen[l.Name] = true
		pkgs[l.Pkg] = true
	}
	if *pkgsF != "" {
		for _, p := range strings.Split(*pkgsF, ",") {
			pkgs[modPrefix+"/"+p] = true
		}
	}
	if len(pkgs) == 0 {
		fail(fmt.Errorf("nothing to verify"))
	}
	all, err := modulePkgs(*repo, *scr, sortedKeys(pkgs))
	if err != nil {
		fail(err)
	}
	P, err := load(*repo, *scr, append(all, "maps", "slices"))
	if err != nil {
		fail(err)
	}
	if *ssaOf != "" {
		for k, f := range P.fns {
			if strings.HasSuffix(k, *ssaOf) {
				f.WriteTo(os.Stdout)
			}
		}
		_ = ssa.BuilderMode(0)
		return
	}
	// a contract on an unexported helper that is no longer there (or has another signature) is put
	// aside: callers then inline whatever replaced it
	for id, c := range S.Contracts {
		if c.Trusted || P.pkgs[c.Pkg] == nil {
			continue
		}
		name := c.Key[strings.LastIndex(c.Key, ".")+1:]
		if name == "" || !(name[0] >= 'a' && name[0] <= 'z') {
			continue
		}
		fn := P.fns[id]
		if fn == nil || len(fn.Params) != len(c.Params) || len(c.Results) > 0 && fn.Signature.Results().Len() != len(c.Results) {
			delete(S.Contracts, id)
			out.Gone = append(out.Gone, c.ID())
			for i, t := range todo {
				if t == c {
					todo = append(todo[:i], todo[i+1:]...)
					break
				}
			}
		}
	}
	sort.Strings(out.Gone)
	fmt.Fprintf(os.Stderr, "loaded %d packages in %v\n", len(all), time.Since(t0).Round(time.Millisecond))
	done := map[*Contract]bool{}
	trusted := map[string]bool{}
	notes := map[string]bool{}
	axioms := map[string]bool{}
	bad := 0
	record := func(f *FnOut, v *VC) {
		for _, o := range v.obls {
			f.Obls++
			oo := OblOut{Fn: o.Fn, Kind: o.Kind, Name: o.Name, Pos: o.Pos, Status: o.Status, Solver: o.Solver, Ms: o.Ms, Out: o.Out, Model: o.Model}
			out.Obligations = append(out.Obligations, oo)
			if o.Status == "proved" {
				f.Proved++
				out.Solvers[strings.Split(o.Solver, "#")[0]]++
			} else {
				bad++
				out.Failed = append(out.Failed, oo)
			}
			if *verbose || o.Status != "proved" {
				fmt.Printf("%-7s %-12s %s [%s %dms] %s %s\n", o.Status, o.Kind, o.Name, o.Solver, o.Ms, o.Pos, o.Out)
			}
		}
	}
	for len(todo) > 0 || len(lem) > 0 {
		batch, lb := todo, lem
		todo, lem = nil, nil
		res := make([]*fnResult, len(batch))
		lres := make([]*VC, len(lb))
		var wg sync.WaitGroup
		gate := make(chan struct{}, 8)
		for i, c := range batch {
			done[c] = true
			wg.Add(1)
			go func() {
				defer wg.Done()
				gate <- struct{}{}
				defer func() { <-gate }()
				res[i] = verify(P, S, c)
			}()
		}
		for i, l := range lb {
			wg.Add(1)
			go func() {
				defer wg.Done()
				gate <- struct{}{}
				defer func() { <-gate }()
				lres[i] = genLemma(P, S, l)
				dischargeAll(lres[i].obls)
			}()
		}
		wg.Wait()
		lastChance(res, lres)
		addLem := func(names []string) {
			for _, n := range names {
				if lemSeen[n] {
					continue
				}
				lemSeen[n] = true
				for _, l := range S.Lemmas {
					if l.Name == n {
						if l.Axiom {
							axioms[l.Name+": "+l.Src] = true
						} else {
							lem = append(lem, l)
						}
					}
				}
			}
		}
		for _, r := range res {
			f := FnOut{ID: r.con.ID(), Rounds: r.round, Ms: r.ms, InvDrops: r.drops, Notes: sortedKeys(r.v.notes), Inlined: sortedKeys(r.v.inlined), Lemmas: r.v.usesLemma}
			for c := range r.v.used {
				if c.Trusted {
					f.Trusted = append(f.Trusted, c.ID())
					trusted[c.ID()] = true
				} else {
					f.Uses = append(f.Uses, c.ID())
					if !done[c] {
						done[c] = true
						todo = append(todo, c)
					}
				}
			}
			sort.Strings(f.Uses)
			sort.Strings(f.Trusted)
			for _, n := range f.Notes {
				notes[n] = true
			}
			record(&f, r.v)
			out.Functions = append(out.Functions, f)
			fmt.Printf("%s: %d/%d obligations (%d round(s), %d ms)\n", f.ID, f.Proved, f.Obls, f.Rounds, f.Ms)
			if *verbose {
				for _, n := range f.Notes {
					fmt.Println("   note:", n)
				}
				if len(f.Inlined) > 0 {
					fmt.Println("   inlined:", strings.Join(f.Inlined, ", "))
				}
			}
			addLem(f.Lemmas)
		}
		for i, v := range lres {
			f := FnOut{ID: "lemma " + lb[i].Name, Lemmas: v.usesLemma}
			record(&f, v)
			out.Lemmas = append(out.Lemmas, f)
			fmt.Printf("%s: %d/%d\n", f.ID, f.Proved, f.Obls)
			addLem(v.usesLemma)
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].ID() < todo[j].ID() })
	}
	out.Trusted, out.Notes, out.Axioms = sortedKeys(trusted), sortedKeys(notes), sortedKeys(axioms)
	fmt.Printf("total: %d functions, %d obligations, %d failed, %v\n", len(out.Functions), len(out.Obligations), bad, time.Since(t0).Round(time.Millisecond))
	if bad > 0 {
		finish(1)
	}
	finish(0)
}

func conjuncts(x *Expr) []*Expr {
	if x.Kind == "bin" && x.Name == "&&" {
		return append(conjuncts(x.Args[0]), conjuncts(x.Args[1])...)
	}
	return []*Expr{x}
}
func mentions(x *Expr, n string) bool {
	if x == nil {
		return false
	}
	if x.Kind == "id" && x.Name == n {
		return true
	}
	for _, a := range x.Args {
		if mentions(a, n) {
			return true
		}
	}
	for _, ps := range x.Pats {
		for _, p := range ps {
			if mentions(p, n) {
				return true
			}
		}
	}
	return false
}

// lastChance gives the last few obligations on which the solvers only ran out of time more of it
// (on a loaded machine the usual limits may be too short).
func lastChance(res []*fnResult, lres []*VC) {
	var late []*Obl
	failed := 0
	add := func(os []*Obl) {
		for _, o := range os {
			if o.Status == "failed" {
				failed++
				if strings.Contains(o.Out, "time") && !strings.HasPrefix(o.Out, "sat") && !strings.HasPrefix(o.Out, "time budget") {
					late = append(late, o)
				}
			}
		}
	}
	for _, r := range res {
		add(r.v.obls)
	}
	for _, v := range lres {
		add(v.obls)
	}
	if failed != len(late) || len(late) > 2 {
		return
	}
	defer func(ms int) { slowMs = ms }(slowMs)
	slowMs *= 3
	for _, o := range late {
		o.Status, o.Out = "", ""
		o.discharge()
	}
}

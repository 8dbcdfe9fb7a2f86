package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------- specification expressions ----------

type Expr struct {
	Kind string // id int str bool un bin field index call old quant cond slice let
	Name string
	Val  *big.Int
	Args []*Expr
	Vars []QVar
	Pats [][]*Expr
	Line int
	File string
}
type QVar struct{ Name, Type string }

type Clause struct {
	Label string
	E     *Expr
	Props []string
	Src   string
	Loop  int // invariant: loop ordinal, 0 = pool
	Pat   []string
}

type Contract struct {
	Pkg, Key string // Key: "Name", "(*T).Name", "(T).Name"
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Modifies []Clause
	ModAny   bool
	Invs     []Clause
	Asserts  []Clause
	Opts     map[string]string
	Props    []string
	Trusted  bool // assumed (external or interface) contract
	Pure     bool // result is a function of the arguments
	Uses     []string
	File     string
	Line     int
}

func (c *Contract) ID() string { return shortPkg(c.Pkg) + "." + c.Key }
func shortPkg(p string) string { return strings.TrimPrefix(p, "reduction.dev/reduction/") }

type Macro struct {
	Name   string
	Params []string
	Body   *Expr
}
type UFun struct {
	Name string
	Args []string
	Ret  string
	Pkg  string
	Par  []string
	Body *Expr // recursive definition
}
type Lemma struct {
	Name   string
	Pkg    string
	Vars   []QVar
	Body   *Expr
	Axiom  bool
	Induct string
	Props  []string
	Src    string
	Uses   []string
}
type Monitor struct {
	Pkg, Type, Field string
	Guards           []string
	Inv              *Expr // over "self"
	Src              string
}

type Specs struct {
	Contracts map[string]*Contract // pkg + "." + key
	Macros    map[string]*Macro
	UFuns     map[string]*UFun
	Lemmas    []*Lemma
	Monitors  map[string]*Monitor // pkg.Type
	Order     []*Contract
}

// ---------- lexer ----------

type tok struct {
	k    string // id int str op eof
	s    string
	line int
}

func lex(src, file string, line0 int) []tok {
	var ts []tok
	line := line0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":=", "++", "..", "(", ")", "[", "]", "{", "}", ",", ".", "+", "-", "*", "/", "%", "<", ">", "!", "?", ":", "=", "&", "|", "^", ";"}
	i := 0
	for i < len(src) {
		ch := src[i]
		if ch == '\n' {
			line++
			i++
			continue
		}
		if ch == ' ' || ch == '\t' || ch == '\r' {
			i++
			continue
		}
		if strings.HasPrefix(src[i:], "//") {
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		if unicode.IsLetter(rune(ch)) || ch == '_' || ch == '$' || ch == '#' {
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '#') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line})
			i = j
			continue
		}
		if unicode.IsDigit(rune(ch)) {
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j]))) {
				j++
			}
			ts = append(ts, tok{"int", src[i:j], line})
			i = j
			continue
		}
		if ch == '"' {
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			ts = append(ts, tok{"str", src[i+1 : j], line})
			i = j + 1
			continue
		}
		ok := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				ts = append(ts, tok{"op", o, line})
				i += len(o)
				ok = true
				break
			}
		}
		if !ok {
			panic(fmt.Sprintf("%s:%d: bad character %q", file, line, ch))
		}
	}
	return append(ts, tok{"eof", "", line})
}

type parser struct {
	ts   []tok
	i    int
	file string
}

func (p *parser) peek() tok { return p.ts[p.i] }
func (p *parser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	return p.ts[p.i].s == s && p.ts[p.i].k != "str"
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, found %q", s, p.peek().s)
	}
}
func (p *parser) fail(f string, a ...any) {
	panic(fmt.Sprintf("%s:%d: %s", p.file, p.peek().line, fmt.Sprintf(f, a...)))
}

func (p *parser) expr() *Expr { return p.iff() }
func (p *parser) mk(k, n string, a ...*Expr) *Expr {
	return &Expr{Kind: k, Name: n, Args: a, Line: p.peek().line, File: p.file}
}
func (p *parser) iff() *Expr {
	x := p.imp()
	for p.accept("<==>") {
		x = p.mk("bin", "<==>", x, p.imp())
	}
	return x
}
func (p *parser) imp() *Expr {
	x := p.cond()
	if p.accept("==>") {
		return p.mk("bin", "==>", x, p.imp())
	}
	return x
}
func (p *parser) cond() *Expr {
	x := p.or()
	if p.accept("?") {
		a := p.cond()
		p.expect(":")
		b := p.cond()
		return p.mk("cond", "", x, a, b)
	}
	return x
}
func (p *parser) or() *Expr {
	x := p.and()
	for p.accept("||") {
		x = p.mk("bin", "||", x, p.and())
	}
	return x
}
func (p *parser) and() *Expr {
	x := p.cmp()
	for p.accept("&&") {
		x = p.mk("bin", "&&", x, p.cmp())
	}
	return x
}
func (p *parser) cmp() *Expr {
	x := p.add()
	var res *Expr
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.next()
			y := p.add()
			e := p.mk("bin", t.s, x, y)
			if res == nil {
				res = e
			} else {
				res = p.mk("bin", "&&", res, e)
			}
			x = y
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return x
}
func (p *parser) add() *Expr {
	x := p.mul()
	for p.is("+") || p.is("-") || p.is("|") || p.is("^") {
		o := p.next().s
		x = p.mk("bin", o, x, p.mul())
	}
	return x
}
func (p *parser) mul() *Expr {
	x := p.unary()
	for p.is("*") || p.is("/") || p.is("%") || p.is("&") {
		o := p.next().s
		x = p.mk("bin", o, x, p.unary())
	}
	return x
}
func (p *parser) unary() *Expr {
	if p.is("!") || p.is("-") {
		o := p.next().s
		return p.mk("un", o, p.unary())
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	x := p.primary()
	for {
		switch {
		case p.is("."):
			p.next()
			n := p.next()
			x = p.mk("field", n.s, x)
		case p.is("["):
			p.next()
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				x = p.mk("slice", "", x, nil, hi)
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				x = p.mk("slice", "", x, i, hi)
				continue
			}
			p.expect("]")
			x = p.mk("index", "", x, i)
		case p.is("("):
			p.next()
			var as []*Expr
			for !p.is(")") {
				as = append(as, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if x.Kind == "id" {
				if x.Name == "old" {
					x = p.mk("old", "", as...)
				} else {
					x = p.mk("call", x.Name, as...)
				}
			} else if x.Kind == "field" {
				x = p.mk("mcall", x.Name, append([]*Expr{x.Args[0]}, as...)...)
			} else {
				p.fail("cannot call")
			}
		default:
			return x
		}
	}
}
func (p *parser) typ() string {
	s := ""
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "*" || t.s == "[" || t.s == "]" || t.s == "." || t.s == "/") {
			s += p.next().s
			continue
		}
		if t.k == "id" {
			s += p.next().s
			if p.is(".") || p.is("/") || p.is("[") {
				continue
			}
			return s
		}
		return s
	}
}
func (p *parser) primary() *Expr {
	t := p.next()
	switch {
	case t.k == "int":
		v, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("bad int %q", t.s)
		}
		return &Expr{Kind: "int", Val: v, Line: t.line, File: p.file}
	case t.k == "str":
		return &Expr{Kind: "str", Name: t.s, Line: t.line, File: p.file}
	case t.s == "(":
		e := p.expr()
		p.expect(")")
		return e
	case t.s == "forall" || t.s == "exists":
		e := &Expr{Kind: "quant", Name: t.s, Line: t.line, File: p.file}
		for {
			n := p.next()
			q := QVar{Name: n.s, Type: "int"}
			if p.accept(":") {
				q.Type = p.typ()
			}
			e.Vars = append(e.Vars, q)
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var ps []*Expr
			for !p.is("}") {
				ps = append(ps, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Pats = append(e.Pats, ps)
		}
		p.expect("::")
		e.Args = []*Expr{p.expr()}
		return e
	case t.s == "let":
		n := p.next()
		p.expect("=")
		v := p.expr()
		p.expect(";")
		b := p.expr()
		return &Expr{Kind: "let", Name: n.s, Args: []*Expr{v, b}, Line: t.line, File: p.file}
	case t.k == "id":
		switch t.s {
		case "true", "false":
			return &Expr{Kind: "bool", Name: t.s, Line: t.line, File: p.file}
		}
		return &Expr{Kind: "id", Name: t.s, Line: t.line, File: p.file}
	}
	p.i--
	p.fail("unexpected %q", t.s)
	return nil
}

func parseExpr(s, file string, line int) *Expr {
	p := &parser{ts: lex(s, file, line), file: file}
	e := p.expr()
	if p.peek().k != "eof" {
		p.fail("trailing %q", p.peek().s)
	}
	return e
}

// ---------- contract files ----------

var keywords = map[string]bool{"package": true, "func": true, "extern": true, "iface": true, "define": true, "ufun": true, "rec": true,
	"axiom": true, "lemma": true, "monitor": true, "requires": true, "ensures": true, "modifies": true, "invariant": true,
	"option": true, "props": true, "pure": true, "uses": true, "assert": true}

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, UFuns: map[string]*UFun{}, Monitors: map[string]*Monitor{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.loadFile(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Specs) loadFile(f string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	data, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	base := filepath.Base(f)
	type chunk struct {
		kw, text string
		line     int
	}
	var chunks []chunk
	for i, l := range strings.Split(string(data), "\n") {
		tr := strings.TrimSpace(l)
		if tr == "" || strings.HasPrefix(tr, "//") {
			continue
		}
		w := tr
		if k := strings.IndexFunc(tr, func(r rune) bool { return !unicode.IsLetter(r) }); k > 0 {
			w = tr[:k]
		}
		if keywords[w] {
			chunks = append(chunks, chunk{w, tr[len(w):], i + 1})
		} else if len(chunks) > 0 {
			chunks[len(chunks)-1].text += "\n" + l
		} else {
			return fmt.Errorf("%s:%d: text before keyword", base, i+1)
		}
	}
	pkg := ""
	var cur *Contract
	var curLemma *Lemma
	var fileProps []string
	for _, c := range chunks {
		text := c.text
		tag := ""
		if strings.HasPrefix(text, "[") {
			k := strings.Index(text, "]")
			tag = text[1:k]
			text = text[k+1:]
		}
		src := strings.Join(strings.Fields(text), " ")
		mkClause := func() Clause {
			cl := Clause{Label: tag, Src: src}
			cl.E = parseExpr(text, base, c.line)
			return cl
		}
		switch c.kw {
		case "package":
			pkg = strings.TrimSpace(text)
			if !strings.Contains(strings.Split(pkg, "/")[0], ".") {
				pkg = "reduction.dev/reduction/" + pkg
			}
			cur, curLemma = nil, nil
			fileProps = nil
		case "props":
			ps := strings.Fields(text)
			switch {
			case cur != nil:
				cur.Props = ps
			case curLemma != nil:
				curLemma.Props = ps
			default:
				fileProps = ps
			}
		case "func", "extern", "iface", "pure":
			cur = parseSig(text, base, c.line)
			cur.Pkg = pkg
			curLemma = nil
			if c.kw != "func" {
				cur.Trusted = true
				if k := strings.LastIndex(cur.Key, "/"); k >= 0 || c.kw == "extern" {
					// extern keys carry their package: path.Func or path.(T).M
					cur.Pkg, cur.Key = splitExtern(cur.Key)
				}
			}
			cur.Pure = c.kw == "pure"
			cur.Props = fileProps
			id := cur.Pkg + "." + cur.Key
			if _, dup := sp.Contracts[id]; dup {
				return fmt.Errorf("%s:%d: duplicate contract %s", base, c.line, id)
			}
			sp.Contracts[id] = cur
			sp.Order = append(sp.Order, cur)
		case "requires":
			cur.Requires = append(cur.Requires, mkClause())
		case "ensures":
			cur.Ensures = append(cur.Ensures, mkClause())
		case "assert":
			cur.Asserts = append(cur.Asserts, mkClause())
		case "modifies":
			for _, part := range splitTop(text) {
				part = strings.TrimSpace(part)
				if part == "nothing" {
					continue
				}
				if part == "any" {
					cur.ModAny = true
					continue
				}
				cur.Modifies = append(cur.Modifies, Clause{Src: part, E: parseExpr(part, base, c.line)})
			}
		case "invariant":
			cl := mkClauseInv(text, tag, base, c.line)
			cur.Invs = append(cur.Invs, cl)
		case "uses":
			if curLemma != nil {
				curLemma.Uses = append(curLemma.Uses, strings.Fields(text)...)
			} else {
				cur.Uses = append(cur.Uses, strings.Fields(text)...)
			}
		case "option":
			for _, o := range strings.Fields(text) {
				k, v, _ := strings.Cut(o, "=")
				cur.Opts[k] = v
			}
		case "define":
			p := &parser{ts: lex(text, base, c.line), file: base}
			n := p.next().s
			m := &Macro{Name: n}
			p.expect("(")
			for !p.is(")") {
				m.Params = append(m.Params, p.next().s)
				if p.accept(":") {
					p.typ()
				}
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			p.expect("=")
			m.Body = p.expr()
			if p.peek().k != "eof" {
				p.fail("trailing %q", p.peek().s)
			}
			if sp.Macros[n] != nil {
				return fmt.Errorf("%s:%d: duplicate define %s", base, c.line, n)
			}
			sp.Macros[n] = m
		case "ufun", "rec":
			p := &parser{ts: lex(text, base, c.line), file: base}
			u := &UFun{Name: p.next().s, Pkg: pkg}
			p.expect("(")
			for !p.is(")") {
				a := p.next().s
				if p.accept(":") {
					u.Par = append(u.Par, a)
					u.Args = append(u.Args, p.typ())
				} else {
					p.i--
					u.Args = append(u.Args, p.typ())
				}
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			u.Ret = p.typ()
			if p.accept("=") {
				u.Body = p.expr()
			}
			sp.UFuns[u.Name] = u
		case "axiom", "lemma":
			p := &parser{ts: lex(text, base, c.line), file: base}
			l := &Lemma{Name: p.next().s, Pkg: pkg, Axiom: c.kw == "axiom", Src: src, Props: fileProps, Induct: tag}
			if p.accept("(") {
				for !p.is(")") {
					q := QVar{Name: p.next().s, Type: "int"}
					if p.accept(":") {
						q.Type = p.typ()
					}
					l.Vars = append(l.Vars, q)
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
			}
			p.expect(":")
			l.Body = p.expr()
			if p.peek().k != "eof" {
				p.fail("trailing %q", p.peek().s)
			}
			sp.Lemmas = append(sp.Lemmas, l)
			curLemma, cur = l, nil
		case "monitor":
			// monitor Type.field guards f,g : invariant
			head, inv, _ := strings.Cut(text, "::")
			fs := strings.Fields(head)
			t, f, _ := strings.Cut(fs[0], ".")
			m := &Monitor{Pkg: pkg, Type: t, Field: f, Src: src}
			if len(fs) > 2 {
				m.Guards = strings.Split(strings.Join(fs[2:], ""), ",")
			}
			if strings.TrimSpace(inv) != "" {
				m.Inv = parseExpr(inv, base, c.line)
			}
			sp.Monitors[pkg+"."+t] = m
		}
	}
	return nil
}

func mkClauseInv(text, tag, base string, line int) Clause {
	cl := Clause{Src: strings.Join(strings.Fields(text), " ")}
	// tag: "n" loop ordinal, or "x,y" pattern variables, or "n;x,y"
	for _, part := range strings.Split(tag, ";") {
		part = strings.TrimSpace(part)
		if part == "" {
			continue
		}
		n := 0
		if _, err := fmt.Sscanf(part, "%d", &n); err == nil {
			cl.Loop = n
		} else {
			for _, v := range strings.Split(part, ",") {
				cl.Pat = append(cl.Pat, strings.TrimSpace(v))
			}
		}
	}
	cl.E = parseExpr(text, base, line)
	return cl
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func splitExtern(k string) (string, string) {
	// "time.(Time).After" / "encoding/binary.Read" / "sync.(*Mutex).Lock"
	if i := strings.Index(k, ".("); i >= 0 {
		return k[:i], k[i+1:]
	}
	i := strings.LastIndex(k, ".")
	return k[:i], k[i+1:]
}

// parseSig: "(*T).Name(a, b) (r)" ; receiver is the first parameter name.
func parseSig(text, file string, line int) *Contract {
	c := &Contract{Opts: map[string]string{}, File: file, Line: line}
	s := strings.TrimSpace(text)
	// key ends at the '(' opening the parameter list
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s, ")") + 1
	} else if k := strings.Index(s, ".("); k >= 0 && k < strings.Index(s, "(") {
		i = k + strings.Index(s[k:], ")") + 1
	}
	j := i + strings.Index(s[i:], "(")
	c.Key = strings.TrimSpace(s[:j])
	e := j + strings.Index(s[j:], ")")
	for _, p := range strings.Split(s[j+1:e], ",") {
		if p = strings.TrimSpace(p); p != "" {
			c.Params = append(c.Params, p)
		}
	}
	rest := strings.TrimSpace(s[e+1:])
	if strings.HasPrefix(rest, "(") {
		for _, p := range strings.Split(strings.Trim(rest, "()"), ",") {
			if p = strings.TrimSpace(p); p != "" {
				c.Results = append(c.Results, p)
			}
		}
	} else if rest != "" {
		panic(fmt.Sprintf("%s:%d: bad signature tail %q", file, line, rest))
	}
	return c
}

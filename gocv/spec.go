package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---- AST of contract expressions

type Expr struct {
	Op   string // ident int str call index slice field un bin forall exists ite old let
	Str  string
	Kids []*Expr
	Vars []Var     // for quantifiers
	Trig [][]*Expr // triggers
}

type Var struct{ Name, Type string }

type Clause struct {
	Label string
	Props []string
	E     *Expr
	Src   string
	Line  int
}

type ClosureSpec struct {
	FuncType string
	Defs     []Clause // definitional equations about the result, evaluated at creation
	Inv      []Clause // invariant over captured variables and ghost state
	Asserts  []Clause // proof hints, proved at return
	Self     string   // name bound to the closure value
	Modifies []*Expr
	Ghost    [][2]*Expr
	Ord      string // which closure ($1...) ; "" = any returned
}

type Contract struct {
	Key      string
	Kind     string // func, iface, functype, extern
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Panics   []Clause
	Modifies []*Expr
	ModAll   bool
	Inv      []Clause // loop invariant candidates
	Asserts  []Clause // lemma facts to prove at entry-exit (proof hints)
	Closures []*ClosureSpec
	Opts     map[string]string
	File     string
	Ghost    [][2]*Expr // ghost assignments performed at return: lhs := rhs
	GhostAt  []GhostAt
	Locals   []Var
	Uses     []string
}

type GhostAt struct {
	Callee string
	L, R   *Expr
}

type Macro struct {
	Name   string
	Params []Var
	Ret    string
	Body   *Expr
}

type LogicFn struct {
	Name string
	Args []string // spec types
	Ret  string
}

type Axiom struct {
	Name string
	E    *Expr
	Raw  string
	Keys []string
}

type GhostVar struct {
	Name string
	Idx  []string
	Val  string
}

type Spec struct {
	Contracts map[string]*Contract
	Macros    map[string]*Macro
	Logic     map[string]*LogicFn
	Ghosts    map[string]*GhostVar
	Axioms    []*Axiom
	Lemmas    []*Axiom
	Order     []string
	Wild      []string
	Guards    []Guard
}

// Guard: a field that may only be used while the named lock of the same object is held.
type Guard struct{ Heap, Lock, Type string }

// ---- lexer

type tok struct {
	k, s string // k: id int str op eof
	line int
}

func lex(src string, line0 int) ([]tok, error) {
	var r []tok
	i, line := 0, line0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":=", "..", "(", ")", "[", "]", "{", "}", ",", ".", "+", "-", "*", "/", "%", "<", ">", "!", ":", "=", "?", "&", "$", "@", ";"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || (c == '/' && i+1 < len(src) && src[i+1] == '/'):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"' || c == '`':
			j := i + 1
			var b strings.Builder
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && c == '"' {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(src[j])
					}
					j++
					continue
				}
				b.WriteByte(src[j])
				j++
			}
			r = append(r, tok{"str", b.String(), line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '_') {
				j++
			}
			r = append(r, tok{"int", strings.ReplaceAll(src[i:j], "_", ""), line})
			i = j
		case isIdent(c):
			j := i
			for j < len(src) && (isIdent(src[j]) || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			r = append(r, tok{"id", src[i:j], line})
			i = j
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					r = append(r, tok{"op", o, line})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("line %d: bad character %q", line, c)
			}
		}
	}
	return append(r, tok{"eof", "", line}), nil
}

func isIdent(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

type parser struct {
	t []tok
	i int
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) isOp(s string) bool {
	return p.peek().k == "op" && p.peek().s == s
}
func (p *parser) accept(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) fail(f string, a ...interface{}) {
	panic(specErr(fmt.Sprintf("line %d near %q: ", p.peek().line, p.peek().s) + fmt.Sprintf(f, a...)))
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) isId(s string) bool { return p.peek().k == "id" && p.peek().s == s }

func bin(op string, a, b *Expr) *Expr { return &Expr{Op: "bin", Str: op, Kids: []*Expr{a, b}} }

func (p *parser) expr() *Expr {
	l := p.imp()
	for p.accept("<==>") {
		l = bin("<==>", l, p.imp())
	}
	return l
}
func (p *parser) imp() *Expr {
	l := p.or()
	if p.accept("==>") {
		return bin("==>", l, p.imp())
	}
	return l
}
func (p *parser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		l = bin("||", l, p.and())
	}
	return l
}
func (p *parser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		l = bin("&&", l, p.cmp())
	}
	return l
}
func (p *parser) cmp() *Expr {
	l := p.add()
	var res *Expr
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.isOp(o) {
				op = o
			}
		}
		if p.isId("in") {
			op = "in"
		}
		if op == "" {
			break
		}
		p.next()
		r := p.add()
		c := bin(op, l, r)
		if res == nil {
			res = c
		} else {
			res = bin("&&", res, c)
		}
		l = r
	}
	if res != nil {
		return res
	}
	return l
}
func (p *parser) add() *Expr {
	l := p.mul()
	for p.isOp("+") || p.isOp("-") {
		o := p.next().s
		l = bin(o, l, p.mul())
	}
	return l
}
func (p *parser) mul() *Expr {
	l := p.unary()
	for p.isOp("*") || p.isOp("/") || p.isOp("%") {
		o := p.next().s
		l = bin(o, l, p.unary())
	}
	return l
}
func (p *parser) unary() *Expr {
	if p.isOp("!") || p.isOp("-") || p.isOp("*") || p.isOp("&") {
		o := p.next().s
		return &Expr{Op: "un", Str: o, Kids: []*Expr{p.unary()}}
	}
	return p.postfix()
}

// typeStr parses a Go-ish type: *pkg/path.Name, []T, [T]T, map..., ident
func (p *parser) typeStr() string {
	if p.peek().k == "str" {
		return p.next().s
	}
	if p.accept("*") {
		return "*" + p.typeStr()
	}
	if p.accept("[") {
		if p.accept("]") {
			return "[]" + p.typeStr()
		}
		k := p.typeStr()
		p.expect("]")
		return "[" + k + "]" + p.typeStr()
	}
	if p.peek().k != "id" {
		p.fail("type expected")
	}
	s := p.next().s
	for p.isOp("/") || p.isOp(".") {
		s += p.next().s + p.next().s
	}
	return s
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			e = &Expr{Op: "field", Str: p.next().s, Kids: []*Expr{e}}
		case p.accept("["):
			if p.accept(":") {
				h := p.expr()
				p.expect("]")
				e = &Expr{Op: "slice", Kids: []*Expr{e, nil, h}}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var h *Expr
				if !p.isOp("]") {
					h = p.expr()
				}
				p.expect("]")
				e = &Expr{Op: "slice", Kids: []*Expr{e, i, h}}
				continue
			}
			if p.accept(":=") {
				v := p.expr()
				p.expect("]")
				e = &Expr{Op: "upd", Kids: []*Expr{e, i, v}}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Kids: []*Expr{e, i}}
		case p.isOp("(") && e.Op == "ident":
			p.next()
			var a []*Expr
			for !p.isOp(")") {
				a = append(a, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = &Expr{Op: "call", Str: e.Str, Kids: a}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.peek()
	switch {
	case t.k == "int":
		p.next()
		return &Expr{Op: "int", Str: t.s}
	case t.k == "str":
		p.next()
		return &Expr{Op: "str", Str: t.s}
	case p.accept("("):
		e := p.expr()
		p.expect(")")
		return e
	case p.accept("@"): // @g : globals, types as strings
		return &Expr{Op: "global", Str: p.next().s}
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		p.next()
		e := &Expr{Op: t.s}
		for {
			n := p.next().s
			names := []string{n}
			for p.accept(",") {
				names = append(names, p.next().s)
			}
			ty := "int"
			if p.accept(":") {
				ty = p.typeStr()
			}
			for _, n := range names {
				e.Vars = append(e.Vars, Var{n, ty})
			}
			if p.accept(";") {
				continue
			}
			break
		}
		p.expect("::")
		for p.accept("{") {
			var tr []*Expr
			for !p.isOp("}") {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Trig = append(e.Trig, tr)
		}
		e.Kids = []*Expr{p.expr()}
		return e
	case t.k == "id" && t.s == "if":
		p.next()
		c := p.expr()
		if !p.isId("then") {
			p.fail("then expected")
		}
		p.next()
		a := p.expr()
		if !p.isId("else") {
			p.fail("else expected")
		}
		p.next()
		b := p.expr()
		return &Expr{Op: "ite", Kids: []*Expr{c, a, b}}
	case t.k == "id" && t.s == "let":
		p.next()
		n := p.next().s
		p.expect("=")
		v := p.expr()
		if !p.isId("in_") {
			p.fail("in_ expected")
		}
		p.next()
		b := p.expr()
		return &Expr{Op: "let", Str: n, Kids: []*Expr{v, b}}
	case t.k == "id" && t.s == "old" && p.t[p.i+1].s == "(":
		p.next()
		p.next()
		e := p.expr()
		p.expect(")")
		return &Expr{Op: "old", Kids: []*Expr{e}}
	case t.k == "id":
		p.next()
		return &Expr{Op: "ident", Str: t.s}
	}
	p.fail("expression expected")
	return nil
}

func parseExpr(src string, line int) (*Expr, error) {
	var e *Expr
	err := catch(func() {
		ts, err := lex(src, line)
		if err != nil {
			panic(specErr(err.Error()))
		}
		p := &parser{t: ts}
		e = p.expr()
		if p.peek().k != "eof" {
			p.fail("trailing input")
		}
	})
	return e, err
}

func catch(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = s
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// ---- spec files: one directive per line; continuation lines are indented deeper
// than the directive with a leading '|' or simply start with whitespace twice as deep.

func loadSpecs(dir string) (*Spec, error) {
	s := &Spec{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, Logic: map[string]*LogicFn{}, Ghosts: map[string]*GhostVar{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := s.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
	}
	return s, nil
}

type dir struct {
	indent int
	text   string
	line   int
}

func splitDirectives(src string) []dir {
	var r []dir
	for n, l := range strings.Split(src, "\n") {
		tr := strings.TrimSpace(l)
		if tr == "" || strings.HasPrefix(tr, "#") {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		if tr[0] == '|' && len(r) > 0 {
			r[len(r)-1].text += "\n" + tr[1:]
			continue
		}
		r = append(r, dir{ind, tr, n + 1})
	}
	return r
}

func word(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := strings.IndexAny(s, " \t\n")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i:])
}

// splitLabel parses "[label]" after a clause keyword.
func splitKw(w string) (kw, label string) {
	if i := strings.Index(w, "["); i > 0 && strings.HasSuffix(w, "]") {
		return w[:i], w[i+1 : len(w)-1]
	}
	return w, ""
}

func mkClause(label, src string, line int) (Clause, error) {
	e, err := parseExpr(src, line)
	c := Clause{Label: label, E: e, Src: src, Line: line}
	if i := strings.Index(label, "@"); i >= 0 {
		c.Label = label[:i]
		c.Props = strings.Split(label[i+1:], ",")
	}
	return c, err
}

func (s *Spec) parseFile(file, src string) error {
	var cur *Contract
	var clo *ClosureSpec
	for _, d := range splitDirectives(src) {
		w, rest := word(d.text)
		kw, label := splitKw(w)
		fail := func(err error) error { return fmt.Errorf("line %d: %w (in %q)", d.line, err, d.text) }
		switch kw {
		case "func", "iface", "functype", "extern":
			c, err := parseHeader(kw, rest)
			if err != nil {
				return fail(err)
			}
			c.File = file
			if _, dup := s.Contracts[c.Key]; dup {
				return fail(fmt.Errorf("duplicate contract %s", c.Key))
			}
			s.Contracts[c.Key] = c
			s.Order = append(s.Order, c.Key)
			if strings.HasSuffix(c.Key, "*") {
				s.Wild = append(s.Wild, c.Key)
			}
			cur, clo = c, nil
		case "ghost":
			// ghost name [int][int]int
			n, ty := word(rest)
			g := &GhostVar{Name: n}
			ts := ty
			for strings.HasPrefix(ts, "[") {
				j := matchBracket(ts)
				g.Idx = append(g.Idx, ts[1:j])
				ts = ts[j+1:]
			}
			g.Val = ts
			s.Ghosts[n] = g
			cur, clo = nil, nil
		case "logic":
			// logic f(int, str) bool
			i, j := strings.Index(rest, "("), strings.LastIndex(rest, ")")
			l := &LogicFn{Name: strings.TrimSpace(rest[:i]), Ret: strings.TrimSpace(rest[j+1:])}
			for _, a := range strings.Split(rest[i+1:j], ",") {
				if a = strings.TrimSpace(a); a != "" {
					l.Args = append(l.Args, a)
				}
			}
			s.Logic[l.Name] = l
			cur, clo = nil, nil
		case "axiom", "lemma":
			n, ex := word(rest)
			a := &Axiom{Name: n}
			if i := strings.Index(n, "{"); i > 0 {
				a.Name = n[:i]
				a.Keys = strings.Split(strings.Trim(n[i:], "{}"), ",")
			}
			e, err := parseExpr(ex, d.line)
			if err != nil {
				return fail(err)
			}
			a.E = e
			if kw == "axiom" {
				s.Axioms = append(s.Axioms, a)
			} else {
				s.Lemmas = append(s.Lemmas, a)
			}
			cur, clo = nil, nil
		case "macro":
			// macro name(a: T, b: T): ret = expr
			i := strings.Index(rest, "(")
			j := i + matchParen(rest[i:])
			m := &Macro{Name: strings.TrimSpace(rest[:i])}
			for _, a := range splitComma(rest[i+1 : j]) {
				k := strings.Index(a, ":")
				if k < 0 {
					return fail(fmt.Errorf("macro parameter without type"))
				}
				m.Params = append(m.Params, Var{strings.TrimSpace(a[:k]), strings.TrimSpace(a[k+1:])})
			}
			k := strings.Index(rest[j:], "=")
			m.Ret = strings.Trim(strings.TrimSpace(rest[j+1:j+k]), ": ")
			e, err := parseExpr(rest[j+k+1:], d.line)
			if err != nil {
				return fail(err)
			}
			m.Body = e
			s.Macros[m.Name] = m
			cur, clo = nil, nil
		case "guarded":
			// guarded pkg.Type.field by lockfield
			f := strings.Fields(rest)
			i := strings.LastIndex(f[0], ".")
			s.Guards = append(s.Guards, Guard{Heap: "F!" + f[0][:i] + "!" + f[0][i+1:], Lock: f[2], Type: f[0][:i]})
		case "prop", "props":
			cur.Props = append(cur.Props, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
		case "opt":
			for _, o := range strings.Fields(rest) {
				kv := strings.SplitN(o, "=", 2)
				v := "1"
				if len(kv) == 2 {
					v = kv[1]
				}
				cur.Opts[kv[0]] = v
			}
		case "uses":
			cur.Uses = append(cur.Uses, strings.Fields(rest)...)
		case "local":
			n, ty := word(rest)
			cur.Locals = append(cur.Locals, Var{n, ty})
		case "requires", "ensures", "invariant", "assert", "define", "closureinv":
			c, err := mkClause(label, rest, d.line)
			if err != nil {
				return fail(err)
			}
			if c.Label == "" {
				c.Label = fmt.Sprintf("L%d", d.line)
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "invariant":
				cur.Inv = append(cur.Inv, c)
			case "assert":
				if clo != nil {
					clo.Asserts = append(clo.Asserts, c)
				} else {
					cur.Asserts = append(cur.Asserts, c)
				}
			case "define":
				clo.Defs = append(clo.Defs, c)
			case "closureinv":
				clo.Inv = append(clo.Inv, c)
			}
		case "ghostset":
			// ghostset LHS := RHS   (executed at normal return)
			i := strings.Index(rest, ":=")
			l, err := parseExpr(rest[:i], d.line)
			if err != nil {
				return fail(err)
			}
			r, err := parseExpr(rest[i+2:], d.line)
			if err != nil {
				return fail(err)
			}
			if clo != nil {
				clo.Ghost = append(clo.Ghost, [2]*Expr{l, r})
			} else {
				cur.Ghost = append(cur.Ghost, [2]*Expr{l, r})
			}
		case "closure":
			// closure <self> : <functype> [$n]
			f := strings.Fields(rest)
			clo = &ClosureSpec{Self: f[0], FuncType: f[1]}
			if len(f) > 2 {
				clo.Ord = f[2]
			}
			cur.Closures = append(cur.Closures, clo)
		case "modifies":
			if rest == "*" {
				cur.ModAll = true
				break
			}
			if rest == "nothing" {
				break
			}
			for _, m := range splitComma(rest) {
				e, err := parseExpr(m, d.line)
				if err != nil {
					return fail(err)
				}
				if clo != nil {
					clo.Modifies = append(clo.Modifies, e)
				} else {
					cur.Modifies = append(cur.Modifies, e)
				}
			}
		default:
			return fail(fmt.Errorf("unknown directive %q", kw))
		}
	}
	return nil
}

func matchBracket(s string) int { return matchPair(s, '[', ']') }
func matchParen(s string) int   { return matchPair(s, '(', ')') }
func matchPair(s string, a, b byte) int {
	d := 0
	for i := 0; i < len(s); i++ {
		if s[i] == a {
			d++
		}
		if s[i] == b {
			d--
			if d == 0 {
				return i
			}
		}
	}
	panic(specErr("unbalanced " + s))
}

func splitComma(s string) []string {
	var r []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		r = append(r, t)
	}
	return r
}

// parseHeader parses `KEY ! p1 p2 -> r1 r2`.
func parseHeader(kind, s string) (*Contract, error) {
	c := &Contract{Kind: kind, Opts: map[string]string{}}
	i := strings.Index(s, " !")
	if i < 0 {
		c.Key = strings.TrimSpace(s)
		return c, nil
	}
	c.Key = strings.TrimSpace(s[:i])
	rest := s[i+2:]
	parts := strings.SplitN(rest, "->", 2)
	c.Params = strings.Fields(parts[0])
	if len(parts) == 2 {
		c.Results = strings.Fields(parts[1])
	}
	return c, nil
}

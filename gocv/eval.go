package main

import (
	"fmt"
	"go/types"
	"strings"
)

// stype is the type of a contract expression.
type stype struct {
	Sort string
	Go   types.Type
	K, V *stype // arrays
}

type SV struct {
	T   Term
	Ty  *stype
	Loc *Loc
}

// Ctx is where a contract expression is evaluated.
type Ctx struct {
	x     *Exec
	st    *State
	old   *State
	pre   *State
	fr    *frame // for locals
	preFr *frame
	binds map[string]SV
	bound map[string]SV
	depth int
	// locals shadows binds
	useLocals bool
	visited   string // heap name of the visited set of the innermost map range
	hole      map[string]SV
	axiom     bool
	sink      *State
	quant     int
}

// fact records what every Go value of the type satisfies (not under quantifiers).
func (c *Ctx) fact(v Term, t types.Type) {
	if c.axiom || c.quant > 0 || t == nil {
		return
	}
	s := c.sink
	if s == nil {
		s = c.st
	}
	if strings.Contains(v.S, "?") {
		return
	}
	s.assume(c.x.typeFacts(c.st, v, t))
}

func (c *Ctx) fail(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

func goType(t types.Type) *stype { return &stype{Go: t} }

func (c *Ctx) sv(t Term, g types.Type) SV { return SV{T: t, Ty: c.x.goST(g)} }

func (x *Exec) goST(g types.Type) *stype {
	if g == nil {
		return &stype{}
	}
	s := &stype{Go: g, Sort: x.W.sort(g)}
	if a, ok := types.Unalias(g).Underlying().(*types.Array); ok {
		s.K, s.V = intST, x.goST(a.Elem())
	}
	return s
}

var intST = &stype{Sort: SInt, Go: types.Typ[types.Int]}
var boolST = &stype{Sort: SBool, Go: types.Typ[types.Bool]}
var strST = &stype{Sort: SStr, Go: types.Typ[types.String]}
var anyST = &stype{Sort: SAny, Go: types.NewInterfaceType(nil, nil)}
var fltST = &stype{Sort: SFlt, Go: types.Typ[types.Float64]}

func (x *Exec) parseType(s string) *stype {
	s = strings.TrimSpace(s)
	switch s {
	case "int", "ref":
		return intST
	case "bool":
		return boolST
	case "string", "str":
		return strST
	case "any", "error":
		return anyST
	case "float":
		return fltST
	case "slice":
		return &stype{Sort: SSlice}
	}
	if strings.HasPrefix(s, "[") && !strings.HasPrefix(s, "[]") {
		j := matchBracket(s)
		k, v := x.parseType(s[1:j]), x.parseType(s[j+1:])
		return &stype{Sort: arr(k.Sort, v.Sort), K: k, V: v}
	}
	t := x.P.typeByName(s)
	if t == nil {
		panic(specErr("unknown type " + s))
	}
	return x.goST(t)
}

// typeByName resolves "*pkg/path.Name", "[]T", "map...".
func (P *Program) typeByName(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		if t := P.typeByName(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if t := P.typeByName(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(s, "map["):
		j := matchBracket(s[3:]) + 3
		k, v := P.typeByName(s[4:j]), P.typeByName(s[j+1:])
		if k == nil || v == nil {
			return nil
		}
		return types.NewMap(k, v)
	case s == "any":
		return types.NewInterfaceType(nil, nil)
	case s == "byte":
		return types.Typ[types.Uint8]
	case s == "error":
		return types.Universe.Lookup("error").Type()
	}
	for _, b := range types.Typ {
		if b.Name() == s {
			return b
		}
	}
	i := strings.LastIndex(s, ".")
	if i < 0 {
		return nil
	}
	pk, n := s[:i], s[i+1:]
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.byPath == nil {
		P.byPath = map[string]*types.Package{}
		var add func(p *types.Package)
		add = func(p *types.Package) {
			if p == nil || P.byPath[shortPath(p.Path())] != nil {
				return
			}
			P.byPath[shortPath(p.Path())] = p
			for _, q := range p.Imports() {
				add(q)
			}
		}
		for _, sp := range P.Pkgs {
			if sp != nil {
				add(sp.Pkg)
			}
		}
	}
	p := P.byPath[pk]
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(n)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (c *Ctx) evalBool(e *Expr) Term {
	v := c.eval(e)
	if v.T.Sort != SBool {
		c.fail("expected a boolean, got %s", v.T.Sort)
	}
	return v.T
}

func (c *Ctx) with(st *State) *Ctx {
	d := *c
	if d.sink == nil {
		d.sink = c.st
	}
	d.st = st
	return &d
}

func (c *Ctx) bind(n string, v SV) *Ctx {
	d := *c
	d.bound = make(map[string]SV, len(c.bound)+1)
	for k, b := range c.bound {
		d.bound[k] = b
	}
	d.bound[n] = v
	return &d
}

func (c *Ctx) local(n string) (SV, bool) {
	if !c.useLocals || c.fr == nil {
		return SV{}, false
	}
	for fr := c.fr; fr != nil; fr = fr.parent {
		m := c.st.names[fr.id]
		if v, ok := m["&"+n]; ok {
			if l := c.x.deref(v); l != nil {
				return SV{T: c.x.load(c.st, l), Ty: c.x.goST(l.Typ), Loc: l}, true
			}
			el := ptrElem(v.Typ)
			if isStructLike(el) {
				return SV{T: c.x.loadAt(c.st, v.T, el), Ty: c.x.goST(el)}, true
			}
		}
		if v, ok := m[n]; ok && (v.T.Sort != "" && v.T.Sort != "Tuple" || v.Loc != nil) {
			return SV{T: c.x.termOf(c.st, v), Ty: c.x.goST(v.Typ)}, true
		}
	}
	return SV{}, false
}

func (c *Ctx) ident(n string) SV {
	if v, ok := c.bound[n]; ok {
		return v
	}
	switch n {
	case "true":
		return SV{T: tTrue, Ty: boolST}
	case "false":
		return SV{T: tFalse, Ty: boolST}
	case "nil":
		return SV{T: Term{"nil", "Nil"}, Ty: &stype{Sort: "Nil"}}
	case "maxint":
		return SV{T: Term{"9223372036854775807", SInt}, Ty: intST}
	}
	if v, ok := c.hole[n]; ok {
		return v
	}
	if v, ok := c.local(n); ok {
		return v
	}
	if v, ok := c.binds[n]; ok {
		if v.Loc != nil {
			return SV{T: c.x.load(c.st, v.Loc), Ty: v.Ty, Loc: v.Loc}
		}
		return v
	}
	if g, ok := c.x.S.Ghosts[n]; ok {
		return c.ghost(g)
	}
	if l, ok := c.x.S.Logic[n]; ok && len(l.Args) == 0 {
		ty := c.x.parseType(l.Ret)
		return SV{T: Term{l.Name, ty.Sort}, Ty: ty}
	}
	if m, ok := c.x.S.Macros[n]; ok && len(m.Params) == 0 {
		return c.macro(m, nil)
	}
	c.fail("unknown name %q", n)
	return SV{}
}

func (c *Ctx) ghost(g *GhostVar) SV {
	ty := c.x.parseType(g.Val)
	for i := len(g.Idx) - 1; i >= 0; i-- {
		k := c.x.parseType(g.Idx[i])
		ty = &stype{Sort: arr(k.Sort, ty.Sort), K: k, V: ty}
	}
	name := "GH!" + g.Name
	if len(g.Idx) == 0 {
		name = "G!ghost:" + g.Name
	}
	if c.axiom {
		c.fail("ghost state in an axiom")
	}
	return SV{T: c.x.heap(c.st, name, ty.Sort), Ty: ty, Loc: &Loc{Heap: name}}
}

func (c *Ctx) macro(m *Macro, args []SV) SV {
	if c.depth > 40 {
		c.fail("macro recursion in %s", m.Name)
	}
	if len(args) != len(m.Params) {
		c.fail("macro %s: %d arguments expected", m.Name, len(m.Params))
	}
	d := *c
	d.depth++
	d.bound = map[string]SV{}
	d.useLocals = false
	d.binds = nil
	d.hole = nil
	for i, p := range m.Params {
		ty := c.x.parseType(p.Type)
		a := c.coerce(args[i], ty)
		if ty.Go != nil {
			a.Ty = ty
		}
		a.Loc = nil
		d.bound[p.Name] = a
	}
	r := d.eval(m.Body)
	return r
}

// coerce adapts nil and boxes concrete values when an interface is expected.
func (c *Ctx) coerce(v SV, ty *stype) SV {
	if v.T.Sort == ty.Sort {
		return v
	}
	if v.T.Sort == "Nil" {
		switch ty.Sort {
		case SInt:
			return SV{T: num(0), Ty: ty}
		case SAny:
			return SV{T: nilAny, Ty: ty}
		case SSlice:
			return SV{T: nilSlice, Ty: ty}
		}
	}
	if ty.Sort == SAny && v.Ty.Go != nil {
		return SV{T: c.x.W.toAny(v.T, v.Ty.Go), Ty: ty}
	}
	c.fail("cannot use %s (%s) as %s", v.T.S, v.T.Sort, ty.Sort)
	return SV{}
}

func (c *Ctx) eval(e *Expr) SV {
	x := c.x
	switch e.Op {
	case "int":
		return SV{T: Term{e.Str, SInt}, Ty: intST}
	case "str":
		return SV{T: x.W.str(e.Str), Ty: strST}
	case "ident":
		return c.ident(e.Str)
	case "global":
		return c.global(e.Str)
	case "ite":
		a, b := c.eval(e.Kids[1]), c.eval(e.Kids[2])
		a, b = c.unify(a, b)
		return SV{T: ite(c.evalBool(e.Kids[0]), a.T, b.T), Ty: a.Ty}
	case "let":
		v := c.eval(e.Kids[0])
		v.Loc = nil
		return c.bind(e.Str, v).eval(e.Kids[1])
	case "old":
		if c.old == nil {
			c.fail("old() not available here")
		}
		d := *c
		if d.sink == nil {
			d.sink = c.st
		}
		d.st = c.old
		d.useLocals = false
		return d.eval(e.Kids[0])
	case "forall", "exists":
		d := c
		var vs []string
		for _, v := range e.Vars {
			ty := x.parseType(v.Type)
			x.n++
			n := fmt.Sprintf("%s?%d", v.Name, x.n)
			vs = append(vs, fmt.Sprintf("(%s %s)", n, ty.Sort))
			d = d.bind(v.Name, SV{T: Term{n, ty.Sort}, Ty: ty})
		}
		body := d.evalBool(e.Kids[0])
		if body.S == "true" || body.S == "false" {
			return SV{T: body, Ty: boolST}
		}
		pats := ""
		for _, tr := range e.Trig {
			var ts []string
			for _, t := range tr {
				ts = append(ts, d.eval(t).T.S)
			}
			pats += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		s := body.S
		if pats != "" {
			s = "(! " + s + pats + ")"
		}
		return SV{T: T(SBool, "(%s (%s) %s)", e.Op, strings.Join(vs, " "), s), Ty: boolST}
	case "un":
		switch e.Str {
		case "!":
			return SV{T: not(c.evalBool(e.Kids[0])), Ty: boolST}
		case "-":
			return SV{T: sub(num(0), c.eval(e.Kids[0]).T), Ty: intST}
		case "*":
			v := c.eval(e.Kids[0])
			if v.Ty.Go == nil {
				c.fail("dereference of untyped value")
			}
			el := ptrElem(v.Ty.Go)
			return c.sv(x.loadPtr(c.st, Val{T: v.T}, el).T, el)
		case "&":
			return c.addr(e.Kids[0])
		}
	case "bin":
		return c.binary(e)
	case "field":
		return c.field(c.eval(e.Kids[0]), e.Str)
	case "index":
		return c.index(c.eval(e.Kids[0]), e.Kids[1])
	case "slice":
		return c.slice(e)
	case "upd":
		a := c.eval(e.Kids[0])
		i := c.eval(e.Kids[1])
		v := c.eval(e.Kids[2])
		if a.Ty.K == nil {
			c.fail("update of a non-array")
		}
		return SV{T: store(a.T, c.coerce(i, a.Ty.K).T, c.coerce(v, a.Ty.V).T), Ty: a.Ty}
	case "call":
		return c.call(e)
	}
	c.fail("cannot evaluate %s", e.Op)
	return SV{}
}

func (c *Ctx) addr(e *Expr) SV {
	if e.Op != "field" {
		if e.Op == "global" {
			return SV{T: c.x.globalAddr(e.Str), Ty: intST}
		}
		c.fail("& needs a field")
	}
	b := c.eval(e.Kids[0])
	st := ptrElem(b.Ty.Go)
	s := types.Unalias(st).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == e.Str {
			return SV{T: c.x.ptrTerm(c.x.fieldAddr(b.T, st, i, types.NewPointer(s.Field(i).Type()))), Ty: c.x.goST(types.NewPointer(s.Field(i).Type()))}
		}
	}
	c.fail("no field %s", e.Str)
	return SV{}
}

func (c *Ctx) global(n string) SV {
	i := strings.LastIndex(n, ".")
	for _, sp := range c.x.P.Pkgs {
		if sp == nil || i < 0 || shortPath(sp.Pkg.Path()) != n[:i] {
			continue
		}
		if g := sp.Var(n[i+1:]); g != nil {
			elem := ptrElem(g.Type())
			if isStructLike(elem) {
				return SV{T: c.x.globalAddr(n), Ty: c.x.goST(g.Type())}
			}
			h := "G!" + n
			return SV{T: c.x.heap(c.st, h, c.x.W.sort(elem)), Ty: c.x.goST(elem), Loc: &Loc{Heap: h, Typ: elem}}
		}
	}
	if t := c.x.P.typeByName(n); t != nil { // foreign global such as io.EOF
		h := "G!" + n
		return SV{T: c.x.heap(c.st, h, c.x.W.sort(t)), Ty: c.x.goST(t)}
	}
	c.fail("unknown global %s", n)
	return SV{}
}

func (c *Ctx) unify(a, b SV) (SV, SV) {
	if a.T.Sort == b.T.Sort {
		return a, b
	}
	switch {
	case a.T.Sort == "Nil":
		return c.coerce(a, b.Ty), b
	case b.T.Sort == "Nil":
		return a, c.coerce(b, a.Ty)
	case a.T.Sort == SAny:
		return a, c.coerce(b, a.Ty)
	case b.T.Sort == SAny:
		return c.coerce(a, b.Ty), b
	}
	c.fail("sort mismatch: %s : %s and %s : %s", a.T.S, a.T.Sort, b.T.S, b.T.Sort)
	return a, b
}

func (c *Ctx) binary(e *Expr) SV {
	x := c.x
	switch e.Str {
	case "&&":
		return SV{T: and(c.evalBool(e.Kids[0]), c.evalBool(e.Kids[1])), Ty: boolST}
	case "||":
		return SV{T: or(c.evalBool(e.Kids[0]), c.evalBool(e.Kids[1])), Ty: boolST}
	case "==>":
		return SV{T: implies(c.evalBool(e.Kids[0]), c.evalBool(e.Kids[1])), Ty: boolST}
	case "<==>":
		return SV{T: T(SBool, "(= %s %s)", c.evalBool(e.Kids[0]).S, c.evalBool(e.Kids[1]).S), Ty: boolST}
	}
	a, b := c.eval(e.Kids[0]), c.eval(e.Kids[1])
	switch e.Str {
	case "==", "!=":
		var t Term
		if a.T.Sort == SSlice && b.T.Sort == "Nil" {
			t = eq(sBase(a.T), num(0))
		} else if b.T.Sort == SSlice && a.T.Sort == "Nil" {
			t = eq(sBase(b.T), num(0))
		} else {
			a, b = c.unify(a, b)
			if a.T.Sort == "Nil" {
				t = tTrue
			} else {
				t = eq(a.T, b.T)
			}
		}
		if e.Str == "!=" {
			t = not(t)
		}
		return SV{T: t, Ty: boolST}
	case "<", "<=", ">", ">=":
		if a.T.Sort == SStr {
			switch e.Str {
			case "<":
				return SV{T: app(SBool, "strLt", a.T, b.T), Ty: boolST}
			case ">":
				return SV{T: app(SBool, "strLt", b.T, a.T), Ty: boolST}
			}
			c.fail("string comparison %s", e.Str)
		}
		if a.T.Sort == SFlt {
			switch e.Str {
			case "<":
				return SV{T: app(SBool, "fltLt", a.T, b.T), Ty: boolST}
			case ">":
				return SV{T: app(SBool, "fltLt", b.T, a.T), Ty: boolST}
			}
		}
		if a.T.Sort != SInt || b.T.Sort != SInt {
			c.fail("comparison of %s and %s", a.T.Sort, b.T.Sort)
		}
		return SV{T: T(SBool, "(%s %s %s)", e.Str, a.T.S, b.T.S), Ty: boolST}
	case "+":
		if a.T.Sort == SStr {
			return SV{T: app(SStr, "strCat", a.T, b.T), Ty: strST}
		}
		return SV{T: add(a.T, b.T), Ty: intST}
	case "-":
		return SV{T: sub(a.T, b.T), Ty: intST}
	case "*":
		return SV{T: T(SInt, "(* %s %s)", a.T.S, b.T.S), Ty: intST}
	case "/":
		return SV{T: T(SInt, "(div %s %s)", a.T.S, b.T.S), Ty: intST}
	case "%":
		return SV{T: T(SInt, "(mod %s %s)", a.T.S, b.T.S), Ty: intST}
	case "in": // key in map / element of set
		if b.Ty.K != nil {
			return SV{T: sel(b.T, c.coerce(a, b.Ty.K).T), Ty: boolST}
		}
		if b.Ty.Go != nil {
			if m, ok := types.Unalias(b.Ty.Go).Underlying().(*types.Map); ok {
				k := c.coerce(a, x.goST(m.Key()))
				d, _, _ := x.mapHeaps(m)
				return SV{T: sel(sel(x.heap(c.st, d, x.hsort[d]), b.T), k.T), Ty: boolST}
			}
		}
		c.fail("'in' on %s", b.T.Sort)
	}
	c.fail("operator %s", e.Str)
	return SV{}
}

func (c *Ctx) field(v SV, f string) SV {
	x := c.x
	if v.Ty == nil || v.Ty.Go == nil {
		c.fail("field %s of untyped value %s", f, v.T.S)
	}
	t := v.Ty.Go
	obj, path, _ := types.LookupFieldOrMethod(t, true, x.P.pkgOf(t), f)
	if obj == nil {
		c.fail("no field %s in %s", f, t)
	}
	cur, term := t, v.T
	var loc *Loc
	for _, i := range path {
		if p, ok := types.Unalias(cur).Underlying().(*types.Pointer); ok {
			el := p.Elem()
			ft := types.Unalias(el).Underlying().(*types.Struct).Field(i).Type()
			if isStructLike(ft) && isRepoOrAnonStruct(ft) {
				// keep as an address so that nested fields can be read
				term = x.fieldRef(el, i, term)
				cur = types.NewPointer(ft)
				loc = nil
				continue
			}
			if isStructLike(ft) {
				term = x.loadAt(c.st, x.fieldRef(el, i, term), ft)
				cur, loc = ft, nil
				continue
			}
			h, _ := x.fieldHeap(el, i)
			loc = &Loc{Heap: h, Ref: term, Typ: ft}
			term = x.load(c.st, loc)
			c.fact(term, ft)
			cur = ft
			continue
		}
		ft := types.Unalias(cur).Underlying().(*types.Struct).Field(i).Type()
		term = x.structGet(term, cur, i)
		cur, loc = ft, nil
	}
	return SV{T: term, Ty: x.goST(cur), Loc: loc}
}

func (c *Ctx) index(v SV, ie *Expr) SV {
	x := c.x
	i := c.eval(ie)
	if v.Ty.K != nil {
		r := SV{T: sel(v.T, c.coerce(i, v.Ty.K).T), Ty: v.Ty.V}
		if v.Loc != nil && strings.HasPrefix(v.Loc.Heap, "GH!") && v.Loc.Ref.S == "" {
			r.Loc = &Loc{Heap: v.Loc.Heap, Ref: c.coerce(i, v.Ty.K).T}
		}
		return r
	}
	if v.T.Sort == SStr {
		return SV{T: app(SInt, "strAt", v.T, i.T), Ty: intST}
	}
	if v.Ty.Go != nil {
		switch u := types.Unalias(v.Ty.Go).Underlying().(type) {
		case *types.Slice:
			h := x.elemHeap(u.Elem())
			r := c.sv(sel(sel(x.heap(c.st, h, x.hsort[h]), sBase(v.T)), add(sOff(v.T), i.T)), u.Elem())
			c.fact(r.T, u.Elem())
			return r
		case *types.Map:
			_, vh, _ := x.mapHeaps(u)
			k := c.coerce(i, x.goST(u.Key()))
			return c.sv(sel(sel(x.heap(c.st, vh, x.hsort[vh]), v.T), k.T), u.Elem())
		}
	}
	c.fail("index of %s", v.T.Sort)
	return SV{}
}

func (c *Ctx) slice(e *Expr) SV {
	v := c.eval(e.Kids[0])
	lo := num(0)
	if e.Kids[1] != nil {
		lo = c.eval(e.Kids[1]).T
	}
	if v.T.Sort == SStr {
		hi := app(SInt, "strLen", v.T)
		if e.Kids[2] != nil {
			hi = c.eval(e.Kids[2]).T
		}
		return SV{T: app(SStr, "strSub", v.T, lo, hi), Ty: strST}
	}
	hi := sLen(v.T)
	if e.Kids[2] != nil {
		hi = c.eval(e.Kids[2]).T
	}
	return SV{T: mkSlice(sBase(v.T), add(sOff(v.T), lo), sub(hi, lo), sub(sCap(v.T), lo)), Ty: v.Ty}
}

func (c *Ctx) typeArg(e *Expr) types.Type {
	if e.Op != "str" {
		c.fail("type name string expected")
	}
	t := c.x.P.typeByName(e.Str)
	if t == nil {
		c.fail("unknown type %q", e.Str)
	}
	return t
}

func (c *Ctx) call(e *Expr) SV {
	x := c.x
	arg := func(i int) SV {
		if i >= len(e.Kids) {
			c.fail("%s: missing argument", e.Str)
		}
		return c.eval(e.Kids[i])
	}
	b := func(t Term) SV { return SV{T: t, Ty: boolST} }
	n := func(t Term) SV { return SV{T: t, Ty: intST} }
	switch e.Str {
	case "len":
		v := arg(0)
		switch v.T.Sort {
		case SSlice:
			return n(sLen(v.T))
		case SStr:
			return n(app(SInt, "strLen", v.T))
		case SInt:
			if m, ok := types.Unalias(v.Ty.Go).Underlying().(*types.Map); ok {
				_, _, l := x.mapHeaps(m)
				return n(sel(x.heap(c.st, l, x.hsort[l]), v.T))
			}
		}
		c.fail("len of %s", v.T.Sort)
	case "cap":
		return n(sCap(arg(0).T))
	case "base":
		return n(sBase(arg(0).T))
	case "off":
		return n(sOff(arg(0).T))
	case "elems": // the backing array of a slice
		v := arg(0)
		u := types.Unalias(v.Ty.Go).Underlying().(*types.Slice)
		h := x.elemHeap(u.Elem())
		es := x.goST(u.Elem())
		return SV{T: sel(x.heap(c.st, h, x.hsort[h]), sBase(v.T)), Ty: &stype{Sort: arr(SInt, es.Sort), K: intST, V: es}, Loc: &Loc{Heap: h, Ref: sBase(v.T)}}
	case "cell": // the content of a pointer cell, as a location
		v := arg(0)
		el := ptrElem(v.Ty.Go)
		h := x.cellHeap(el)
		return SV{T: sel(x.heap(c.st, h, x.hsort[h]), v.T), Ty: x.goST(el), Loc: &Loc{Heap: h, Ref: v.T}}
	case "keys":
		v := arg(0)
		m := types.Unalias(v.Ty.Go).Underlying().(*types.Map)
		d, _, _ := x.mapHeaps(m)
		k := x.goST(m.Key())
		return SV{T: sel(x.heap(c.st, d, x.hsort[d]), v.T), Ty: &stype{Sort: arr(k.Sort, SBool), K: k, V: boolST}, Loc: &Loc{Heap: d, Ref: v.T}}
	case "vals":
		v := arg(0)
		m := types.Unalias(v.Ty.Go).Underlying().(*types.Map)
		_, vh, _ := x.mapHeaps(m)
		k, vv := x.goST(m.Key()), x.goST(m.Elem())
		return SV{T: sel(x.heap(c.st, vh, x.hsort[vh]), v.T), Ty: &stype{Sort: arr(k.Sort, vv.Sort), K: k, V: vv}, Loc: &Loc{Heap: vh, Ref: v.T}}
	case "box":
		v := arg(0)
		if len(e.Kids) == 2 {
			t := c.typeArg(e.Kids[1])
			return SV{T: x.W.toAny(c.coerce(v, x.goST(t)).T, t), Ty: anyST}
		}
		return c.coerce(v, anyST)
	case "is":
		return b(x.W.isType(arg(0).T, c.typeArg(e.Kids[1])))
	case "as":
		t := c.typeArg(e.Kids[1])
		return c.sv(x.W.fromAny(arg(0).T, t), t)
	case "cast": // reinterpret an int reference as a Go pointer type
		t := c.typeArg(e.Kids[1])
		return c.sv(arg(0).T, t)
	case "isnum": // any numeric/basic kinds
		return b(T(SBool, "((_ is AInt) %s)", arg(0).T.S))
	case "isref":
		return b(T(SBool, "((_ is ARef) %s)", arg(0).T.S))
	case "refof":
		return n(app(SInt, "ar", arg(0).T))
	case "comparable":
		return b(not(app(SBool, "uncomparable", c.coerce(arg(0), anyST).T)))
	case "goeq":
		return b(app(SBool, "anyEq", c.coerce(arg(0), anyST).T, c.coerce(arg(1), anyST).T))
	case "strOf":
		v := arg(0)
		if v.T.Sort == SSlice {
			u := types.Unalias(v.Ty.Go).Underlying().(*types.Slice)
			h := x.elemHeap(u.Elem())
			return SV{T: app(SStr, "strOf", sel(x.heap(c.st, h, x.hsort[h]), sBase(v.T)), sOff(v.T), sLen(v.T)), Ty: strST}
		}
		return SV{T: app(SStr, "strOf", v.T, arg(1).T, arg(2).T), Ty: strST}
	case "flteq":
		return b(app(SBool, "fltEq", arg(0).T, arg(1).T))
	case "u64":
		return n(app(SInt, "u64", arg(0).T))
	case "s64":
		return n(app(SInt, "s64", arg(0).T))
	case "fltlit": // a float constant, as Go prints its exact value
		return SV{T: x.W.flt(e.Kids[0].Str), Ty: fltST}
	case "fltint": // conversion to an integer
		return n(app(SInt, "intOfFlt", arg(0).T))
	case "fltof":
		return SV{T: app(SFlt, "fltOfInt", arg(0).T), Ty: fltST}
	case "fresh":
		v := arg(0)
		o := c.old
		if o == nil {
			c.fail("fresh() needs an old state")
		}
		t := v.T
		if t.Sort == SSlice {
			t = sBase(t)
		}
		if t.Sort == SAny {
			t = app(SInt, "ar", t)
		}
		return b(T(SBool, "(> %s %s)", t.S, o.alloc.S))
	case "allocated": // exists in the current state
		v := arg(0)
		t := v.T
		if t.Sort == SSlice {
			t = sBase(t)
		}
		return b(T(SBool, "(and (< 0 %s) (<= %s %s))", t.S, t.S, c.st.alloc.S))
	case "strId":
		return n(app(SInt, "strId", arg(0).T))
	case "zero":
		t := c.typeArg(e.Kids[0])
		return c.sv(x.W.zero(t), t)
	case "rangepos": // byte position of the innermost range over a string
		h, ok := c.st.heaps[c.visited]
		if c.visited == "" || !ok || h.Sort != SInt {
			c.fail("rangepos: no string range here")
		}
		return n(h)
	case "strrune":
		return n(app(SInt, "strRune", arg(0).T, arg(1).T))
	case "strnext":
		return n(app(SInt, "strNext", arg(0).T, arg(1).T))
	case "strofrune":
		return SV{T: app(SStr, "strOfRune", arg(0).T), Ty: strST}
	case "visited":
		if c.visited == "" {
			return b(tTrue)
		}
		h, ok := c.st.heaps[c.visited]
		if !ok {
			c.fail("visited: no map range here")
		}
		if h.Sort == SInt {
			c.fail("visited: no map range here")
		}
		k, _ := arrSort(h.Sort)
		v := arg(0)
		if v.T.Sort != k {
			c.fail("visited: key sort %s", v.T.Sort)
		}
		return b(sel(h, v.T))
	case "pre":
		if c.pre == nil {
			c.fail("pre() outside a loop invariant")
		}
		return c.with(c.pre).eval(e.Kids[0])
	case "heap":
		name := e.Kids[0].Str
		s, ok := x.hsort[name]
		if !ok {
			c.fail("heap %s not in use", name)
		}
		k, v := arrSort(s)
		ty := &stype{Sort: s, K: &stype{Sort: k}, V: &stype{Sort: v}}
		if k2, v2 := arrSort(v); k2 != "" {
			ty.V = &stype{Sort: v, K: &stype{Sort: k2}, V: &stype{Sort: v2}}
		}
		return SV{T: x.heap(c.st, name, s), Ty: ty, Loc: &Loc{Heap: name}}
	case "eh": // heap of slice elements of the given type
		t := c.typeArg(e.Kids[0])
		name := x.elemHeap(t)
		es := x.goST(t)
		return SV{T: x.heap(c.st, name, x.hsort[name]), Ty: &stype{Sort: x.hsort[name], K: intST, V: &stype{Sort: arr(SInt, es.Sort), K: intST, V: es}}, Loc: &Loc{Heap: name}}
	case "mkh", "mvh": // heaps of the keys and of the values of the maps of the given type
		t := c.typeArg(e.Kids[0])
		m := types.Unalias(t).Underlying().(*types.Map)
		d, vh, _ := x.mapHeaps(m)
		k, v := x.goST(m.Key()), x.goST(m.Elem())
		if e.Str == "mkh" {
			v = boolST
		} else {
			d = vh
		}
		return SV{T: x.heap(c.st, d, x.hsort[d]), Ty: &stype{Sort: x.hsort[d], K: intST, V: &stype{Sort: arr(k.Sort, v.Sort), K: k, V: v}}, Loc: &Loc{Heap: d}}
	case "fh": // heap of a field: fh("pkg.T","f")
		t := c.typeArg(e.Kids[0])
		st := types.Unalias(t).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.Kids[1].Str {
				name, ft := x.fieldHeap(t, i)
				return SV{T: x.heap(c.st, name, x.hsort[name]), Ty: &stype{Sort: x.hsort[name], K: intST, V: x.goST(ft)}, Loc: &Loc{Heap: name}}
			}
		}
		c.fail("no field %s", e.Kids[1].Str)
	case "ch": // heap of pointer cells of the given type
		t := c.typeArg(e.Kids[0])
		name := x.cellHeap(t)
		return SV{T: x.heap(c.st, name, x.hsort[name]), Ty: &stype{Sort: x.hsort[name], K: intST, V: x.goST(t)}, Loc: &Loc{Heap: name}}
	case "fn": // the value of a named function
		return n(num(int64(-1000000 - x.W.fnID(e.Kids[0].Str))))
	case "implements":
		return b(x.implementsTerm(c.st, arg(0).T, c.typeArg(e.Kids[1])))
	}
	if m, ok := x.S.Macros[e.Str]; ok {
		var as []SV
		for i := range e.Kids {
			as = append(as, arg(i))
		}
		return c.macro(m, as)
	}
	if l, ok := x.S.Logic[e.Str]; ok {
		if len(e.Kids) != len(l.Args) {
			c.fail("%s: %d arguments expected", e.Str, len(l.Args))
		}
		var ts []Term
		for i := range e.Kids {
			ts = append(ts, c.coerce(arg(i), x.parseType(l.Args[i])).T)
		}
		r := x.parseType(l.Ret)
		return SV{T: app(r.Sort, l.Name, ts...), Ty: r}
	}
	c.fail("unknown function %q", e.Str)
	return SV{}
}

// target is one element of a modifies clause.
type target struct {
	heap  string
	ref   Term
	whole bool
}

// targets evaluates a modifies expression.
func (c *Ctx) targets(e *Expr) []target {
	x := c.x
	if e.Op == "call" && e.Str == "fields" {
		v := c.eval(e.Kids[0])
		t := ptrElem(v.Ty.Go)
		return x.fieldTargets(t, v.T)
	}
	if e.Op == "call" && e.Str == "entries" {
		v := c.eval(e.Kids[0])
		m := types.Unalias(v.Ty.Go).Underlying().(*types.Map)
		d, vv, l := x.mapHeaps(m)
		return []target{{heap: d, ref: v.T}, {heap: vv, ref: v.T}, {heap: l, ref: v.T}}
	}
	if e.Op == "call" && e.Str == "allentries" {
		m := types.Unalias(c.typeArg(e.Kids[0])).Underlying().(*types.Map)
		d, vv, l := x.mapHeaps(m)
		return []target{{heap: d, whole: true}, {heap: vv, whole: true}, {heap: l, whole: true}}
	}
	if e.Op == "un" && e.Str == "*" {
		v := c.eval(e.Kids[0])
		el := ptrElem(v.Ty.Go)
		if isStructLike(el) && isRepoOrAnonStruct(el) {
			return x.fieldTargets(el, v.T)
		}
		return []target{{heap: x.cellHeap(el), ref: v.T}}
	}
	v := c.eval(e)
	if v.Loc == nil {
		// a field holding a foreign struct, or nested struct
		if e.Op == "field" {
			b := c.eval(e.Kids[0])
			if p, ok := types.Unalias(b.Ty.Go).Underlying().(*types.Pointer); ok {
				st := types.Unalias(p.Elem()).Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == e.Str {
						fr := x.fieldRef(p.Elem(), i, b.T)
						if isRepoOrAnonStruct(st.Field(i).Type()) {
							return x.fieldTargets(st.Field(i).Type(), fr)
						}
						return []target{{heap: x.cellHeap(st.Field(i).Type()), ref: fr}}
					}
				}
			}
		}
		c.fail("not a location")
	}
	if v.Loc.Ref.S == "" {
		return []target{{heap: v.Loc.Heap, whole: true}}
	}
	return []target{{heap: v.Loc.Heap, ref: v.Loc.Ref}}
}

func (x *Exec) fieldTargets(t types.Type, ref Term) []target {
	var r []target
	s := types.Unalias(t).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if x.fieldIsStruct(ft) {
			if isRepoOrAnonStruct(ft) {
				r = append(r, x.fieldTargets(ft, x.fieldRef(t, i, ref))...)
			} else {
				r = append(r, target{heap: x.cellHeap(ft), ref: x.fieldRef(t, i, ref)})
			}
			continue
		}
		h, _ := x.fieldHeap(t, i)
		r = append(r, target{heap: h, ref: ref})
	}
	return r
}

func (P *Program) pkgOf(t types.Type) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

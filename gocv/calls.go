package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// noteFn remembers which function a cell holds.
func (x *Exec) noteFn(st *State, p Val, v Val) {
	l := x.deref(p)
	if l == nil || l.Idx != nil {
		return
	}
	if v.Fn != nil {
		st.fnCells[l.Heap+"@"+l.Ref.S] = v
	}
}

func (x *Exec) call(fr *frame, st *State, c *ssa.CallCommon, pos token.Pos, k func(*State, []Val)) {
	var fn Val
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fn = x.val(fr, st, c.Value)
	}
	var args []Val
	for _, a := range c.Args {
		v := x.val(fr, st, a)
		v.Typ = a.Type()
		args = append(args, v)
	}
	x.callVals(fr, st, c, fn, args, pos, k)
}

func (x *Exec) callVals(fr *frame, st *State, c *ssa.CallCommon, fn Val, args []Val, pos token.Pos, k func(*State, []Val)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(fr, st, b, c, args, pos, k)
		return
	}
	if c.IsInvoke() {
		x.invoke(fr, st, c, fn, args, pos, k)
		return
	}
	if f := c.StaticCallee(); f != nil && f.Parent() == nil {
		x.callFunc(fr, st, f, nil, args, pos, k)
		return
	}
	if fn.Fn != nil {
		x.callFunc(fr, st, fn.Fn, fn.Binds, args, pos, k)
		return
	}
	// unknown function value
	x.safety(st, "nil-function-call", not(eq(fn.T, num(0))), pos)
	sig := types.Unalias(c.Value.Type()).Underlying().(*types.Signature)
	con := x.S.Contracts[typeKey(c.Value.Type())]
	if con == nil {
		con = x.S.Contracts[typeKey(sig)]
	}
	if con == nil || con.Kind != "functype" {
		x.unsup("call of a function value of type %s without a contract", typeKey(c.Value.Type()))
	}
	self := fn
	self.Typ = c.Value.Type()
	x.callContract(fr, st, con, append([]Val{self}, args...), sig, pos, k)
}

func (x *Exec) invoke(fr *frame, st *State, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos, k func(*State, []Val)) {
	x.safety(st, "nil-interface-call:"+c.Method.Name(), not(eq(recv.T, nilAny)), pos)
	if d := x.dynType(recv.T); d != nil {
		if m := x.P.Prog.LookupMethod(d, c.Method.Pkg(), c.Method.Name()); m != nil {
			r := Val{T: x.W.fromAny(recv.T, d), Typ: d}
			x.callFunc(fr, st, m, nil, append([]Val{r}, args...), pos, k)
			return
		}
	}
	it := c.Value.Type()
	sig := c.Method.Type().(*types.Signature)
	keys := []string{typeKey(it) + "." + c.Method.Name()}
	if r := sig.Recv(); r != nil {
		keys = append(keys, typeKey(r.Type())+"."+c.Method.Name())
	}
	recv.Typ = it
	for _, key := range keys {
		if con := x.S.lookup(key); con != nil {
			x.callContract(fr, st, con, append([]Val{recv}, args...), sig, pos, k)
			return
		}
	}
	x.callUnknown(fr, st, keys[0], sig, append([]Val{recv}, args...), pos, k)
}

// lookup finds a contract by key, allowing a trailing '*' in extern keys.
func (s *Spec) lookup(key string) *Contract {
	if c, ok := s.Contracts[key]; ok {
		return c
	}
	for _, k := range s.Wild {
		if strings.HasPrefix(key, strings.TrimSuffix(k, "*")) {
			return s.Contracts[k]
		}
	}
	return nil
}

func isRepoFn(f *ssa.Function) bool {
	for p := f; p != nil; p = p.Parent() {
		if p.Pkg != nil {
			return strings.HasPrefix(p.Pkg.Pkg.Path(), "github.com/rodb-io/rodb")
		}
		if p.Synthetic != "" && p.Object() != nil && p.Object().Pkg() != nil {
			return strings.HasPrefix(p.Object().Pkg().Path(), "github.com/rodb-io/rodb")
		}
	}
	return false
}

func (x *Exec) callFunc(fr *frame, st *State, f *ssa.Function, binds []Val, args []Val, pos token.Pos, k func(*State, []Val)) {
	key := funcKey(f)
	// library functions taking an interface may have a contract per dynamic argument type
	if n := len(args); n > 0 && !isRepoFn(f) && args[n-1].T.Sort == SAny {
		if d := x.dynType(args[n-1].T); d != nil {
			if con, ok := x.S.Contracts[key+"<"+typeKey(d)+">"]; ok {
				a2 := append([]Val(nil), args...)
				a2[n-1] = Val{T: x.W.fromAny(args[n-1].T, d), Typ: d}
				x.callContract(fr, st, con, a2, f.Signature, pos, k)
				return
			}
		}
	}
	if con := x.S.lookup(key); con != nil && !(con.Opts["inline"] != "" && f.Blocks != nil) {
		sig := f.Signature
		if sig.Recv() != nil && len(args) > 0 && con.Kind == "func" && con.Opts["nilrecv"] == "" {
			x.nonNilRecv(st, args[0], key, pos)
		}
		if f.Parent() != nil {
			x.unsup("call of contracted closure %s", key)
		}
		x.callContract(fr, st, con, args, sig, pos, k)
		return
	}
	if f.Blocks == nil || !isRepoFn(f) {
		if f.Blocks != nil && f.Synthetic != "" && f.Parent() == nil {
			// a promoted method wrapper or bound method: step inside
		} else {
			x.callUnknown(fr, st, key, f.Signature, args, pos, k)
			return
		}
	}
	for p := fr; p != nil; p = p.parent {
		if p.fn == f {
			x.unsup("recursive call of %s needs a contract", key)
		}
	}
	if fr.depth > 8 {
		x.unsup("inlining too deep at %s", key)
	}
	x.inlined[key] = true
	nf := x.newFrame(f, fr)
	for i, p := range f.Params {
		v := args[i]
		v.Typ = p.Type()
		st.env[envKey{nf.id, p}] = v
		if p.Name() != "" {
			x.setName(nf, st, p.Name(), v)
		}
	}
	for i, p := range f.FreeVars {
		b := binds[i]
		b.Typ = p.Type()
		st.env[envKey{nf.id, p}] = b
		x.setName(nf, st, "&"+p.Name(), b)
	}
	nf.ret = func(st *State, res []Val) {
		delete(st.names, nf.id)
		k(st, res)
	}
	st.note("%s: inlining %s", x.pos(pos), key)
	x.run(nf, st, f.Blocks[0], 0)
}

func (x *Exec) nonNilRecv(st *State, v Val, key string, pos token.Pos) {
	if v.T.Sort != SInt || v.Loc != nil {
		return
	}
	if _, ok := types.Unalias(v.Typ).Underlying().(*types.Pointer); !ok {
		return
	}
	x.nonNil(st, v, "receiver of "+key, pos)
}

// freshVal makes an arbitrary value of type t.
func (x *Exec) freshVal(st *State, t types.Type, hint string) Val {
	v := Val{T: x.fresh(st, x.W.sort(t), hint), Typ: t}
	st.assume(x.typeFacts(st, v.T, t))
	x.deepFacts(st, v.T, t)
	return v
}

func (x *Exec) bumpAlloc(st *State) {
	a := x.fresh(st, SInt, "alloc")
	st.assume(T(SBool, "(>= %s %s)", a.S, st.alloc.S))
	st.alloc = a
}

func (x *Exec) paramSV(st *State, v Val) SV {
	return SV{T: x.termOf(st, v), Ty: x.goST(v.Typ)}
}

// callContract replaces a call by the callee's contract.
func (x *Exec) callContract(fr *frame, st *State, con *Contract, args []Val, sig *types.Signature, pos token.Pos, k func(*State, []Val)) {
	x.usedCon[con.Key] = true
	binds := map[string]SV{}
	for i, a := range args {
		if i < len(con.Params) && con.Params[i] != "_" {
			binds[con.Params[i]] = x.paramSV(st, a)
		}
	}
	st.note("%s: call of %s (by contract)", x.pos(pos), con.Key)
	ctx := &Ctx{x: x, st: st, binds: binds}
	for _, r := range con.Requires {
		t := x.specBool(ctx, con, r, "requires")
		x.oblig(st, "requires", con.Key+" requires "+r.Label, t, pos, r.Props)
	}
	preSt := st.clone()
	var ts []target
	for _, m := range con.Modifies {
		err := catch(func() { ts = append(ts, ctx.targets(m)...) })
		if err != nil {
			x.unsup("modifies of %s: %v", con.Key, err)
		}
	}
	x.bumpAlloc(st) // results of pure functions may be new objects too
	if con.ModAll {
		for h := range x.hsort {
			if !strings.HasPrefix(h, "V!") {
				x.havocHeap(st, h, nil)
			}
		}
	}
	x.havocTargets(st, ts)
	if con.Opts["havocargs"] != "" {
		for _, a := range args {
			x.havocArg(st, a)
		}
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		n := "r"
		if i < len(con.Results) {
			n = con.Results[i]
		}
		rv := x.freshVal(st, sig.Results().At(i).Type(), n)
		res = append(res, rv)
		binds[n] = x.paramSV(st, rv)
	}
	ctx2 := &Ctx{x: x, st: st, old: preSt, binds: binds}
	for _, e := range con.Ensures {
		st.assume(x.specBool(ctx2, con, e, "ensures"))
	}
	if con.Opts["noreturn"] != "" {
		return
	}
	k(st, res)
}

func (x *Exec) specBool(c *Ctx, con *Contract, cl Clause, what string) Term {
	var t Term
	if err := catch(func() { t = c.evalBool(cl.E) }); err != nil {
		x.unsup("%s %s of %s: %v", what, cl.Label, con.Key, err)
	}
	return t
}

func (x *Exec) havocTargets(st *State, ts []target) {
	byHeap := map[string][]Term{}
	whole := map[string]bool{}
	var order []string
	for _, t := range ts {
		if _, ok := byHeap[t.heap]; !ok {
			order = append(order, t.heap)
			byHeap[t.heap] = nil
		}
		if t.whole {
			whole[t.heap] = true
		} else {
			byHeap[t.heap] = append(byHeap[t.heap], t.ref)
		}
	}
	for _, h := range order {
		if whole[h] || strings.HasPrefix(h, "G!") {
			x.havocHeap(st, h, nil)
		} else {
			x.havocHeap(st, h, byHeap[h])
		}
	}
}

// havocHeap gives a heap an arbitrary new content, at the given references or everywhere.
func (x *Exec) havocHeap(st *State, name string, refs []Term) {
	h := x.heap(st, name, x.hsort[name])
	for k := range st.fnCells {
		if strings.HasPrefix(k, name+"@") {
			delete(st.fnCells, k)
		}
	}
	if refs == nil {
		x.recordWrite(name, Term{})
		st.heaps[name] = x.fresh(st, h.Sort, "h."+lastPart(name))
		return
	}
	_, vs := arrSort(h.Sort)
	seen := map[string]bool{}
	for _, r := range refs {
		if seen[r.S] {
			continue
		}
		seen[r.S] = true
		x.recordWrite(name, r)
		f := x.fresh(st, vs, "hv."+lastPart(name))
		if strings.HasPrefix(name, "F!") {
			x.fieldFacts(st, name, f)
		}
		h = store(h, r, f)
	}
	x.setHeap(st, name, h)
}

// fieldFacts: values read later get their type facts at the load.
func (x *Exec) fieldFacts(st *State, name string, v Term) {}

// callUnknown: a call the verifier has no contract for.
func (x *Exec) callUnknown(fr *frame, st *State, key string, sig *types.Signature, args []Val, pos token.Pos, k func(*State, []Val)) {
	x.assumed["unmodelled external "+key+": arbitrary result, may change only memory its arguments point at, does not panic"] = true
	st.note("%s: call of %s (unmodelled)", x.pos(pos), key)
	x.bumpAlloc(st)
	for _, a := range args {
		x.havocArg(st, a)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.freshVal(st, sig.Results().At(i).Type(), "ext"))
	}
	k(st, res)
}

func (x *Exec) havocArg(st *State, a Val) {
	t := a.Typ
	v := a
	if a.T.Sort == SAny && a.Loc == nil {
		if d := x.dynType(a.T); d != nil {
			t = d
			v = Val{T: x.W.fromAny(a.T, d), Typ: d}
		} else {
			return
		}
	}
	if t == nil {
		return
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		x.havocHeap(st, x.elemHeap(u.Elem()), []Term{sBase(v.T)})
	case *types.Map:
		d, vv, l := x.mapHeaps(u)
		for _, h := range []string{d, vv, l} {
			x.havocHeap(st, h, []Term{v.T})
		}
	case *types.Pointer:
		el := u.Elem()
		if l := x.deref(v); l != nil {
			f := x.fresh(st, x.W.sort(l.Typ), "ha")
			st.assume(x.typeFacts(st, f, l.Typ))
			x.storeLoc(st, l, f)
			return
		}
		if isStructLike(el) {
			if isRepoOrAnonStruct(el) {
				x.havocTargets(st, x.fieldTargets(el, v.T))
			}
			return
		}
		x.havocHeap(st, x.cellHeap(el), []Term{v.T})
	}
}

// ---- builtins

func (x *Exec) builtin(fr *frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, k func(*State, []Val)) {
	one := func(t Term, ty types.Type) { k(st, []Val{{T: t, Typ: ty}}) }
	switch b.Name() {
	case "len", "cap":
		switch u := types.Unalias(args[0].Typ).Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				one(sCap(args[0].T), types.Typ[types.Int])
				return
			}
			one(sLen(args[0].T), types.Typ[types.Int])
		case *types.Basic:
			n := app(SInt, "strLen", args[0].T)
			st.assume(T(SBool, "(>= %s 0)", n.S))
			one(n, types.Typ[types.Int])
		case *types.Map:
			_, _, l := x.mapHeaps(u)
			x.nilMapFact(st, u)
			n := sel(x.heap(st, l, x.hsort[l]), args[0].T)
			d, _, _ := x.mapHeaps(u)
			dm := sel(x.heap(st, d, x.hsort[d]), args[0].T)
			ks, _ := arrSort(dm.Sort)
			st.assume(T(SBool, "(>= %s 0)", n.S))
			st.assume(T(SBool, "(= (= %s 0) (= %s ((as const (Array %s Bool)) false)))", n.S, dm.S, ks))
			st.assume(or(eq(n, num(0)), sel(dm, x.fresh(st, ks, "somekey"))))
			one(n, types.Typ[types.Int])
		case *types.Array:
			one(num(u.Len()), types.Typ[types.Int])
		case *types.Pointer:
			one(num(types.Unalias(u.Elem()).Underlying().(*types.Array).Len()), types.Typ[types.Int])
		default:
			one(x.fresh(st, SInt, "len"), types.Typ[types.Int])
		}
	case "append":
		x.appendOp(st, args, c, pos, k)
	case "copy":
		x.copyOp(st, args, pos, k)
	case "delete":
		m := types.Unalias(args[0].Typ).Underlying().(*types.Map)
		d, _, l := x.mapHeaps(m)
		kt := x.termOf(st, args[1])
		if args[1].T.Sort != SAny && x.W.sort(m.Key()) == SAny {
			kt = x.W.toAny(kt, args[1].Typ)
		}
		hd, hl := x.heap(st, d, x.hsort[d]), x.heap(st, l, x.hsort[l])
		x.nilMapFact(st, m)
		x.recordWrite(d, args[0].T)
		x.recordWrite(l, args[0].T)
		x.setHeap(st, l, store(hl, args[0].T, ite(sel(sel(hd, args[0].T), kt), sub(sel(hl, args[0].T), num(1)), sel(hl, args[0].T))))
		x.setHeap(st, d, store(hd, args[0].T, store(sel(hd, args[0].T), kt, tFalse)))
		k(st, nil)
	case "close", "print", "println":
		k(st, nil)
	case "recover":
		one(nilAny, anyST.Go)
	case "min", "max":
		a := args[0].T
		for _, o := range args[1:] {
			cond := cmpT("<=", a, o.T)
			if b.Name() == "max" {
				cond = cmpT(">=", a, o.T)
			}
			a = ite(cond, a, o.T)
		}
		one(a, args[0].Typ)
	case "ssa:wrapnilchk":
		k(st, []Val{args[0]})
	default:
		x.unsup("builtin %s", b.Name())
	}
}

// appendOp models append without forking: the result shares the backing array exactly
// when the capacity suffices; a fresh array is used otherwise.
func (x *Exec) appendOp(st *State, args []Val, c *ssa.CallCommon, pos token.Pos, k func(*State, []Val)) {
	st1 := types.Unalias(args[0].Typ).Underlying().(*types.Slice)
	hn := x.elemHeap(st1.Elem())
	s := args[0].T
	if s.Sort != SSlice {
		s = nilSlice
	}
	var n Term
	var src func(j Term) Term
	single := false
	h := x.heap(st, hn, x.hsort[hn])
	if args[1].T.Sort == SStr {
		n = app(SInt, "strLen", args[1].T)
		src = func(j Term) Term { return app(SInt, "strAt", args[1].T, j) }
	} else {
		t := args[1].T
		if t.S == nilSlice.S {
			k(st, []Val{{T: s, Typ: args[0].Typ}})
			return
		}
		n = sLen(t)
		src = func(j Term) Term { return sel(sel(h, sBase(t)), add(sOff(t), j)) }
		if v, ok := lit(n); ok && v == 1 {
			single = true
		}
	}
	nl := add(sLen(s), n)
	inplace := and(le(nl, sCap(s)))
	if lit0, ok := lit(n); ok && lit0 == 0 {
		k(st, []Val{{T: s, Typ: args[0].Typ}})
		return
	}
	r := x.newRef(st, "app")
	nc := x.fresh(st, SInt, "cap")
	st.assume(le(nl, nc))
	_, as := arrSort(h.Sort)
	base := x.fresh(st, SInt, "abase")
	// when nothing is appended to a nil slice the result stays nil
	st.assume(eq(base, ite(inplace, sBase(s), r)))
	off := sOff(s)
	cp := x.fresh(st, SInt, "acap")
	st.assume(eq(cp, ite(inplace, sCap(s), nc)))
	oldA := sel(h, sBase(s))
	var na Term
	if single {
		na = store(oldA, add(off, sLen(s)), src(num(0)))
	} else {
		na = x.fresh(st, as, "arr")
		start := add(off, sLen(s))
		st.assume(T(SBool, "(forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) %s (select %s i))) :pattern ((select %s i))))",
			na.S, start.S, start.S, n.S, src(Term{fmt.Sprintf("(- i %s)", start.S), SInt}).S, oldA.S, na.S))
	}
	x.recordWrite(hn, sBase(s))
	x.recordWrite(hn, base)
	x.setHeap(st, hn, store(h, base, na))
	res := mkSlice(base, off, nl, cp)
	k(st, []Val{{T: res, Typ: args[0].Typ}})
}

func (x *Exec) copyOp(st *State, args []Val, pos token.Pos, k func(*State, []Val)) {
	st1 := types.Unalias(args[0].Typ).Underlying().(*types.Slice)
	hn := x.elemHeap(st1.Elem())
	h := x.heap(st, hn, x.hsort[hn])
	d, s := args[0].T, args[1].T
	var sl Term
	var src func(j string) string
	if s.Sort == SStr {
		sl = app(SInt, "strLen", s)
		src = func(j string) string { return fmt.Sprintf("(strAt %s %s)", s.S, j) }
	} else {
		sl = sLen(s)
		src = func(j string) string { return fmt.Sprintf("(select (select %s %s) (+ %s %s))", h.S, sBase(s).S, sOff(s).S, j) }
	}
	n := x.fresh(st, SInt, "ncopy")
	st.assume(eq(n, ite(le(sl, sLen(d)), sl, sLen(d))))
	_, as := arrSort(h.Sort)
	na := x.fresh(st, as, "cpy")
	st.assume(T(SBool, "(forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) %s (select (select %s %s) i))) :pattern ((select %s i))))",
		na.S, sOff(d).S, sOff(d).S, n.S, src(fmt.Sprintf("(- i %s)", sOff(d).S)), h.S, sBase(d).S, na.S))
	x.recordWrite(hn, sBase(d))
	x.setHeap(st, hn, store(h, sBase(d), na))
	k(st, []Val{{T: n, Typ: types.Typ[types.Int]}})
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation: the path's assumptions entail the goal.
type Obl struct {
	Unit   string
	Label  string // stable name: kind/label, never a line number
	Kind   string // requires ensures frame safety invariant assert panic unsupported
	Props  []string
	PC     *node
	Goal   Term
	Pos    string
	Result string // proved | failed | unknown
	Solver string
	Time   float64
	Out    string
	Query  string
}

type frame struct {
	id     int
	fn     *ssa.Function
	args   []Val
	ret    func(st *State, res []Val)
	depth  int
	loops  map[*ssa.BasicBlock]*loopInfo
	parent *frame
	con    *Contract // invariants offered to loops of this frame
	binds  []Val
	stop   *ssa.BasicBlock // where joined branches meet
	arrive func(st *State, from *ssa.BasicBlock)
}

type unsupported string

// Exec symbolically executes one unit (a function under contract).
type Exec struct {
	merges    map[*ssa.BasicBlock]*ssa.BasicBlock
	W         *World
	P         *Program
	S         *Spec
	V         *Verifier
	n         int
	frames    int
	hsort     map[string]string
	declared  map[string]bool
	globals   []string
	locOf     map[string]*Loc
	allocated map[string]bool
	recorders []*[]write

	unit     string
	con      *Contract
	top      *frame
	entry    *State
	alloc0   Term
	preludes []string // assumptions common to all paths (globals)
	obls     []*Obl
	probe    int // >0: body is being explored to infer loop invariants; no obligations recorded
	paths    int
	nonNilFn map[string]bool
	assumed  map[string]bool // names of trusted contracts used
	inlined  map[string]bool
	usedCon  map[string]bool
	dropped  map[string]bool
	binds    map[string]SV // names for spec evaluation at the top level (entry values)
	steps    int
	maxSteps int
	closures  map[string]Val
	dry       int
	surv      map[string]map[string]bool
	kept      map[string]bool
	invObls   int
	cover     map[string]bool
	closureSelf *Term
	cloSpec  *ClosureSpec
	u        *unit
	cells    []target
	modTargets []target
	covers   []*node
	backs    []*node // ends of loop iterations
	axs      []axText
	provingLemma string
}


func (x *Exec) oblig(st *State, kind, label string, goal Term, pos token.Pos, props []string) {
	if goal.S == "true" || x.probe > 0 {
		if goal.S != "true" {
			st.assume(goal)
		}
		return
	}
	if st.known[goal.S] {
		return
	}
	x.obls = append(x.obls, &Obl{Unit: x.unit, Kind: kind, Label: label, Goal: goal, PC: st.pc, Pos: x.pos(pos), Props: props})
	// subsequent code may rely on it: if it fails it is reported here
	st.assume(goal)
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.P.Prog.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, x.P.Repo+"/") + ":" + fmt.Sprint(q.Line)
}

func (x *Exec) unsup(f string, a ...interface{}) { panic(unsupported(fmt.Sprintf(f, a...))) }

func (x *Exec) newFrame(fn *ssa.Function, parent *frame) *frame {
	x.frames++
	fr := &frame{id: x.frames, fn: fn, parent: parent}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	fr.loops = x.V.loopsOf(fn)
	return fr
}

// val evaluates an SSA operand.
func (x *Exec) val(fr *frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		fv := Val{T: num(int64(-1000000 - x.W.fnID(funcKey(v)))), Fn: v, Typ: v.Type()}
		if v.Parent() != nil {
			x.closureCreated(fr, st, fv, 0)
		}
		return fv
	case *ssa.Global:
		elem := types.Unalias(v.Type()).Underlying().(*types.Pointer).Elem()
		key := shortPath(v.Pkg.Pkg.Path()) + "." + v.Name()
		if isStructLike(elem) {
			return Val{T: x.globalAddr(key), Typ: v.Type()}
		}
		name := "G!" + key
		x.hsort[name] = x.W.sort(elem)
		return Val{Loc: &Loc{Heap: name, Typ: elem}, Typ: v.Type()}
	case *ssa.Builtin:
		return Val{Typ: v.Type()}
	}
	if r, ok := st.env[envKey{fr.id, v}]; ok {
		return r
	}
	x.unsup("value %s of %s not available", v.Name(), funcKey(fr.fn))
	return Val{}
}

func (x *Exec) globalAddr(key string) Term {
	f := q("ga:" + key)
	if !x.declared[f] {
		x.declared[f] = true
		x.globals = append(x.globals, fmt.Sprintf("(declare-const %s Int)\n(assert (< %s 0))", f, f))
	}
	return Term{f, SInt}
}

func isStructLike(t types.Type) bool {
	t = types.Unalias(t)
	if _, ok := t.Underlying().(*types.Struct); ok {
		return true
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return true
	}
	return false
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return Val{T: x.W.zero(t), Typ: t}
	}
	switch x.W.sort(t) {
	case SBool:
		if constant.BoolVal(c.Value) {
			return Val{T: tTrue, Typ: t}
		}
		return Val{T: tFalse, Typ: t}
	case SStr:
		return Val{T: x.W.str(constant.StringVal(c.Value)), Typ: t}
	case SInt:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Val{T: num(i), Typ: t}
		}
		s := constant.ToInt(c.Value).ExactString()
		if strings.HasPrefix(s, "-") {
			s = "(- " + s[1:] + ")"
		}
		return Val{T: Term{s, SInt}, Typ: t}
	case SFlt:
		return Val{T: x.W.flt(c.Value.ExactString()), Typ: t}
	}
	x.unsup("constant %s", c)
	return Val{}
}

func (x *Exec) set(fr *frame, st *State, v ssa.Value, r Val) {
	if r.Typ == nil {
		r.Typ = v.Type()
	}
	if len(r.T.S) > 90 && r.T.Sort != "Tuple" && !strings.HasPrefix(r.T.S, "(mkSlice ") && !(strings.HasPrefix(r.T.S, "(A") && r.T.Sort == SAny) && !strings.HasPrefix(r.T.S, "(|mk:") {
		n := x.fresh(st, r.T.Sort, "t."+v.Name())
		st.assume(T(SBool, "(= %s %s)", n.S, r.T.S))
		if l, ok := x.locOf[r.T.S]; ok {
			x.locOf[n.S] = l
		}
		r.T = n
	}
	st.env[envKey{fr.id, v}] = r
}

// deref turns a pointer value into a location (or a struct/array address).
func (x *Exec) deref(v Val) *Loc {
	if v.Loc != nil {
		return v.Loc
	}
	if l, ok := x.locOf[v.T.S]; ok {
		return l
	}
	return nil
}

func ptrElem(t types.Type) types.Type {
	return types.Unalias(t).Underlying().(*types.Pointer).Elem()
}

func (x *Exec) loadPtr(st *State, p Val, elem types.Type) Val {
	if l := x.deref(p); l != nil {
		return Val{T: x.load(st, l), Typ: elem}
	}
	t := x.loadAt(st, p.T, elem)
	return Val{T: t, Typ: elem}
}

func (x *Exec) storePtr(st *State, p Val, elem types.Type, v Term) {
	if l := x.deref(p); l != nil {
		x.storeLoc(st, l, v)
		return
	}
	x.storeAt(st, p.T, elem, v)
}

// nonNil emits the obligation that a pointer is not nil.
func (x *Exec) nonNil(st *State, p Val, what string, pos token.Pos) {
	if p.Loc != nil || x.allocated[p.T.S] || strings.HasPrefix(p.T.S, "(|fa:") || strings.HasPrefix(p.T.S, "(|ea:") || strings.HasPrefix(p.T.S, "|ga:") {
		return
	}
	if p.Fn != nil {
		return
	}
	x.safety(st, "nil-dereference:"+what, not(eq(p.T, num(0))), pos)
}

func (x *Exec) safety(st *State, what string, goal Term, pos token.Pos) {
	if x.con != nil && x.con.Opts["nosafety"] != "" {
		st.assume(goal)
		return
	}
	x.oblig(st, "safety", "no-panic:"+what, goal, pos, x.con.propsFor(x.con.Opts["safetyprops"]))
}

func (c *Contract) propsFor(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

// ---------------------------------------------------------------- control flow

func (x *Exec) step(st *State) {
	x.steps++
	if x.steps > x.maxSteps {
		x.unsup("path explosion: more than %d steps", x.maxSteps)
	}
}

// run executes block b from instruction i.
func (x *Exec) run(fr *frame, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		x.step(st)
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Jump:
			x.enter(fr, st, b, b.Succs[0])
			return
		case *ssa.If:
			c := x.val(fr, st, in.Cond).T
			nc := not(c)
			switch {
			case c.S == "true" || st.known[c.S]:
				x.enter(fr, st, b, b.Succs[0])
				return
			case c.S == "false" || st.known[nc.S]:
				x.enter(fr, st, b, b.Succs[1])
				return
			}
			if j := x.mergePoint(fr, b); j != nil && (x.con == nil || x.con.Opts["nomerge"] == "") {
				x.mergeIf(fr, st, b, j, c)
				return
			}
			s2 := st.clone()
			st.assume(c)
			st.note("%s: branch taken: %s", x.pos(in.Cond.Pos()), "condition true")
			if x.feasible(st) {
				x.enter(fr, st, b, b.Succs[0])
			}
			s2.assume(nc)
			s2.note("%s: branch taken: %s", x.pos(in.Cond.Pos()), "condition false")
			if x.feasible(s2) {
				x.enter(fr, s2, b, b.Succs[1])
			}
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				v := x.val(fr, st, r)
				v.Typ = r.Type()
				res = append(res, v)
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			x.safety(st, "explicit-panic", tFalse, in.Pos())
			return
		case *ssa.Phi:
			x.unsup("phi out of place")
		case *ssa.RunDefers:
			ds := st.defers[fr.id]
			st.defers[fr.id] = nil
			bb, ii := b, i
			x.runDefers(fr, st, ds, func(st *State) { x.run(fr, st, bb, ii+1) })
			return
		case *ssa.Call:
			bb, ii := b, i
			inn := in
			x.call(fr, st, &in.Call, in.Pos(), func(st *State, res []Val) {
				sig := inn.Call.Signature()
				switch sig.Results().Len() {
				case 0:
					st.env[envKey{fr.id, inn}] = Val{Typ: inn.Type()}
				case 1:
					x.set(fr, st, inn, res[0])
				default:
					st.env[envKey{fr.id, inn}] = Val{Tup: res, T: Term{"", "Tuple"}, Typ: inn.Type()}
				}
				x.run(fr, st, bb, ii+1)
			})
			return
		case *ssa.TypeAssert:
			if x.typeAssertForks(in) {
				bb, ii := b, i
				x.typeAssert(fr, st, in, func(st *State) { x.run(fr, st, bb, ii+1) })
				return
			}
			x.typeAssert(fr, st, in, nil)
		default:
			x.instr(fr, st, in)
		}
	}
}

func (x *Exec) runDefers(fr *frame, st *State, ds []deferred, k func(st *State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	x.callVals(fr, st, d.call, d.fn, d.args, d.pos, func(st *State, _ []Val) {
		x.runDefers(fr, st, ds[:len(ds)-1], k)
	})
}

// enter transfers control along the edge from->to.
func (x *Exec) enter(fr *frame, st *State, from, to *ssa.BasicBlock) {
	for k, lc := range st.loops {
		if k.fr == fr.id && lc.stopExit && !lc.li.body[to] {
			return
		}
	}
	if fr.stop == to {
		fr.arrive(st, from)
		return
	}
	li := fr.loops[to]
	if li == nil {
		x.doPhis(fr, st, from, to)
		x.run(fr, st, to, countPhis(to))
		return
	}
	k := loopKey{fr.id, to}
	if lc := st.loops[k]; lc != nil && li.body[from] {
		lc.backedge(st, from)
		return
	}
	x.loop(fr, st, li, from)
}

func countPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (x *Exec) phiVals(fr *frame, st *State, from, to *ssa.BasicBlock) []Val {
	pi := predIndex(from, to)
	var vs []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := x.val(fr, st, p.Edges[pi])
		v.Typ = p.Type()
		vs = append(vs, v)
	}
	return vs
}

func (x *Exec) doPhis(fr *frame, st *State, from, to *ssa.BasicBlock) {
	x.setPhis(fr, st, to, x.phiVals(fr, st, from, to))
}

func (x *Exec) setPhis(fr *frame, st *State, to *ssa.BasicBlock, vs []Val) {
	for i, v := range vs {
		p := to.Instrs[i].(*ssa.Phi)
		st.env[envKey{fr.id, p}] = v
		if p.Comment != "" {
			x.setName(fr, st, p.Comment, v)
		}
	}
}

func (x *Exec) setName(fr *frame, st *State, n string, v Val) {
	m := st.names[fr.id]
	if m == nil {
		m = map[string]Val{}
		st.names[fr.id] = m
	}
	m[n] = v
}

func (x *Exec) feasible(st *State) bool {
	return true
}

// ---------------------------------------------------------------- instructions

func (x *Exec) instr(fr *frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
		if in.Object() != nil {
			if _, isVar := in.Object().(*types.Var); isVar {
				if r, ok := st.env[envKey{fr.id, in.X}]; ok {
					if in.IsAddr {
						r.Typ = in.X.Type()
					} else {
						r.Typ = in.X.Type()
					}
					n := in.Object().Name()
					if in.IsAddr {
						x.setName(fr, st, "&"+n, r)
					} else {
						x.setName(fr, st, n, r)
					}
				} else if c, ok := in.X.(*ssa.Const); ok {
					x.setName(fr, st, in.Object().Name(), x.constVal(c))
				}
			}
		}
	case *ssa.Alloc:
		elem := ptrElem(in.Type())
		r := x.newRef(st, "new."+in.Comment)
		if isStructLike(elem) && (isRepoOrAnonStruct(elem) || isArray(elem)) {
			x.storeAt(st, r, elem, x.W.zero(elem))
			st.env[envKey{fr.id, in}] = Val{T: r, Typ: in.Type()}
		} else {
			l := &Loc{Heap: x.cellHeap(elem), Ref: r, Typ: elem}
			x.storeLoc(st, l, x.W.zero(elem))
			st.env[envKey{fr.id, in}] = Val{T: r, Loc: l, Typ: in.Type()}
			if con, ok := x.S.Contracts["alloc:"+typeKey(elem)]; ok {
				// ghost state of a newly allocated library object
				c := &Ctx{x: x, st: st, binds: map[string]SV{con.Params[0]: {T: r, Ty: x.goST(in.Type())}}}
				for _, e := range con.Ensures {
					st.assume(x.specBool(c, con, e, "ensures"))
				}
				x.usedCon[con.Key] = true
			}
		}
		if in.Comment != "" {
			x.setName(fr, st, "&"+in.Comment, st.env[envKey{fr.id, in}])
		}
	case *ssa.Store:
		p := x.val(fr, st, in.Addr)
		elem := ptrElem(in.Addr.Type())
		v := x.val(fr, st, in.Val)
		x.nonNil(st, p, "store", in.Pos())
		x.guardCheck(fr, st, p, in.Pos())
		x.storePtr(st, p, elem, x.termOf(st, v))
		x.noteFn(st, p, v)
	case *ssa.UnOp:
		x.unop(fr, st, in)
	case *ssa.BinOp:
		x.set(fr, st, in, Val{T: x.binop(st, in.Op, x.val(fr, st, in.X), x.val(fr, st, in.Y), in.X.Type(), in.Type(), in.Pos())})
	case *ssa.ChangeType:
		v := x.val(fr, st, in.X)
		v.Typ = in.Type()
		if _, ok := in.Type().Underlying().(*types.Struct); ok && v.T.Sort != x.W.sort(in.Type()) {
			x.unsup("struct conversion")
		}
		st.env[envKey{fr.id, in}] = v
	case *ssa.ChangeInterface:
		v := x.val(fr, st, in.X)
		v.Typ = in.Type()
		st.env[envKey{fr.id, in}] = v
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		st.env[envKey{fr.id, in}] = Val{T: x.W.toAny(x.termOf(st, v), in.X.Type()), Typ: in.Type()}
	case *ssa.Convert:
		x.set(fr, st, in, Val{T: x.convert(st, x.val(fr, st, in.X), in.X.Type(), in.Type())})
	case *ssa.Extract:
		t := x.val(fr, st, in.Tuple)
		if in.Index >= len(t.Tup) {
			x.unsup("extract from non-tuple")
		}
		v := t.Tup[in.Index]
		if v.Typ == nil {
			v.Typ = in.Type()
		}
		st.env[envKey{fr.id, in}] = v
	case *ssa.Field:
		v := x.val(fr, st, in.X)
		st.env[envKey{fr.id, in}] = Val{T: x.structGet(v.T, in.X.Type(), in.Field), Typ: in.Type()}
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X)
		stT := ptrElem(in.X.Type())
		sname := types.Unalias(stT).Underlying().(*types.Struct).Field(in.Field).Name()
		x.nonNil(st, p, "field "+sname, in.Pos())
		if l := x.deref(p); l != nil {
			ft := types.Unalias(stT).Underlying().(*types.Struct).Field(in.Field).Type()
			l2 := *l
			l2.Path = append(append([]pathElem(nil), l.Path...), pathElem{stT, in.Field})
			l2.Typ = ft
			st.env[envKey{fr.id, in}] = Val{Loc: &l2, Typ: in.Type()}
			return
		}
		st.env[envKey{fr.id, in}] = x.fieldAddr(p.T, stT, in.Field, in.Type())
	case *ssa.Index:
		v := x.val(fr, st, in.X)
		i := x.val(fr, st, in.Index).T
		switch u := types.Unalias(in.X.Type()).Underlying().(type) {
		case *types.Array:
			x.safety(st, "index", and(le(num(0), i), lt(i, num(u.Len()))), in.Pos())
			x.set(fr, st, in, Val{T: sel(v.T, i)})
		default: // string
			x.safety(st, "string-index", and(le(num(0), i), lt(i, app(SInt, "strLen", v.T))), in.Pos())
			x.set(fr, st, in, Val{T: app(SInt, "strAt", v.T, i)})
		}
	case *ssa.IndexAddr:
		v := x.val(fr, st, in.X)
		i := x.val(fr, st, in.Index).T
		switch u := types.Unalias(in.X.Type()).Underlying().(type) {
		case *types.Slice:
			x.safety(st, "index", and(le(num(0), i), lt(i, sLen(v.T))), in.Pos())
			st.env[envKey{fr.id, in}] = x.elemAddr(sBase(v.T), add(sOff(v.T), i), u.Elem(), in.Type())
		case *types.Pointer:
			a := types.Unalias(u.Elem()).Underlying().(*types.Array)
			x.nonNil(st, v, "array", in.Pos())
			x.safety(st, "index", and(le(num(0), i), lt(i, num(a.Len()))), in.Pos())
			st.env[envKey{fr.id, in}] = x.elemAddr(v.T, i, a.Elem(), in.Type())
		}
	case *ssa.Lookup:
		v := x.val(fr, st, in.X)
		k := x.val(fr, st, in.Index)
		if m, ok := types.Unalias(in.X.Type()).Underlying().(*types.Map); ok {
			kt := x.termOf(st, k)
			x.hashable(st, kt, m.Key(), in.Pos())
			val, ok := x.mapGet(st, v.T, kt, m)
			if in.CommaOk {
				st.env[envKey{fr.id, in}] = Val{Tup: []Val{val, {T: ok, Typ: types.Typ[types.Bool]}}, T: Term{"", "Tuple"}, Typ: in.Type()}
			} else {
				x.set(fr, st, in, val)
			}
			return
		}
		i := k.T
		x.safety(st, "string-index", and(le(num(0), i), lt(i, app(SInt, "strLen", v.T))), in.Pos())
		x.set(fr, st, in, Val{T: app(SInt, "strAt", v.T, i)})
	case *ssa.MakeSlice:
		u := types.Unalias(in.Type()).Underlying().(*types.Slice)
		l := x.val(fr, st, in.Len).T
		c := x.val(fr, st, in.Cap).T
		x.safety(st, "makeslice", and(le(num(0), l), le(l, c)), in.Pos())
		if opt := x.con.Opts["maxalloc"]; opt != "" {
			x.safety(st, "allocation-size", le(c, Term{opt, SInt}), in.Pos())
		}
		r := x.newRef(st, "mk")
		hn := x.elemHeap(u.Elem())
		x.zeroArray(st, hn, r, u.Elem())
		st.env[envKey{fr.id, in}] = Val{T: mkSlice(r, num(0), l, c), Typ: in.Type()}
	case *ssa.MakeMap:
		u := types.Unalias(in.Type()).Underlying().(*types.Map)
		r := x.newRef(st, "map")
		x.initMap(st, r, u)
		st.env[envKey{fr.id, in}] = Val{T: r, Typ: in.Type()}
	case *ssa.MapUpdate:
		m := types.Unalias(in.Map.Type()).Underlying().(*types.Map)
		mv := x.val(fr, st, in.Map)
		k := x.termOf(st, x.val(fr, st, in.Key))
		v := x.termOf(st, x.val(fr, st, in.Value))
		x.safety(st, "nil-map-write", not(eq(mv.T, num(0))), in.Pos())
		x.hashable(st, k, m.Key(), in.Pos())
		x.mapSet(st, mv.T, k, v, m)
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		var b []Val
		for _, e := range in.Bindings {
			b = append(b, x.val(fr, st, e))
		}
		r := x.newRef(st, "fn")
		v := Val{T: r, Fn: f, Binds: b, Typ: in.Type()}
		x.closures[r.S] = v
		st.env[envKey{fr.id, in}] = v
		x.closureCreated(fr, st, v, in.Pos())
	case *ssa.Slice:
		x.sliceOp(fr, st, in)
	case *ssa.Range:
		v := x.val(fr, st, in.X)
		ri := &rangeIter{m: v.T, pos: in.Name()}
		if m, ok := types.Unalias(in.X.Type()).Underlying().(*types.Map); ok {
			ri.typ = m
			d, _, _ := x.mapHeaps(m)
			ri.dom0 = sel(x.heap(st, d, x.hsort[d]), v.T)
			x.nilMapFact(st, m)
			ri.key = fmt.Sprintf("V!%d!%s", fr.id, in.Name())
			k := x.W.sort(m.Key())
			x.hsort[ri.key] = arr(k, SBool)
			x.recordWrite(ri.key, Term{})
			st.heaps[ri.key] = T(arr(k, SBool), "((as const %s) false)", arr(k, SBool))
		} else {
			ri.str = true
			ri.key = fmt.Sprintf("V!%d!%s", fr.id, in.Name())
			x.hsort[ri.key] = SInt
			x.recordWrite(ri.key, Term{})
			st.heaps[ri.key] = num(0)
		}
		st.env[envKey{fr.id, in}] = Val{Rng: ri, Typ: in.Type()}
	case *ssa.Next:
		x.next(fr, st, in)
	case *ssa.Defer:
		var args []Val
		fnv := Val{}
		if in.Call.IsInvoke() {
			fnv = x.val(fr, st, in.Call.Value)
		} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			fnv = x.val(fr, st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			args = append(args, x.val(fr, st, a))
		}
		st.defers[fr.id] = append(st.defers[fr.id], deferred{call: &in.Call, fn: fnv, args: args, pos: in.Pos()})
	case *ssa.Go:
		st.note("%s: goroutine not followed", x.pos(in.Pos()))
		x.assumed["goroutine started in "+x.unit+" is not followed"] = true
	case *ssa.Send:
	case *ssa.MakeChan:
		st.env[envKey{fr.id, in}] = Val{T: x.newRef(st, "chan"), Typ: in.Type()}
	default:
		x.unsup("instruction %T in %s", in, funcKey(fr.fn))
	}
}

func isArray(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Array)
	return ok
}

func (x *Exec) termOf(st *State, v Val) Term {
	if v.Loc != nil {
		return x.ptrTerm(v)
	}
	if v.T.Sort == "" {
		x.unsup("value without a term (%v)", v.Typ)
	}
	return v.T
}

func (x *Exec) structGet(v Term, t types.Type, i int) Term {
	si := x.W.structOf(t)
	ft := si.st.Field(i).Type()
	mk := q("mk:" + si.key)
	if strings.HasPrefix(v.S, "("+mk+" ") {
		p := splitTop(v.S[len(mk)+2 : len(v.S)-1])
		return Term{p[i], x.W.sort(ft)}
	}
	return app(x.W.sort(ft), q("get:"+si.key+"."+si.fields[i]), v)
}

func (x *Exec) fieldAddr(ref Term, stT types.Type, i int, pt types.Type) Val {
	ft := types.Unalias(stT).Underlying().(*types.Struct).Field(i).Type()
	if isStructLike(ft) {
		return Val{T: x.fieldRef(stT, i, ref), Typ: pt}
	}
	h, _ := x.fieldHeap(stT, i)
	return Val{Loc: &Loc{Heap: h, Ref: ref, Typ: ft}, Typ: pt}
}

func (x *Exec) elemAddr(base, idx Term, elem types.Type, pt types.Type) Val {
	h := x.elemHeap(elem)
	i := idx
	return Val{Loc: &Loc{Heap: h, Ref: base, Idx: &i, Typ: elem}, Typ: pt}
}

func (x *Exec) zeroArray(st *State, hn string, r Term, elem types.Type) {
	h := x.heap(st, hn, x.hsort[hn])
	_, as := arrSort(h.Sort)
	x.recordWrite(hn, r)
	x.setHeap(st, hn, store(h, r, T(as, "((as const %s) %s)", as, x.W.zero(elem).S)))
}

// ---- maps

func (x *Exec) nilMapFact(st *State, m *types.Map) {
	d, _, l := x.mapHeaps(m)
	hd := x.heap(st, d, x.hsort[d])
	hl := x.heap(st, l, x.hsort[l])
	_, ds := arrSort(hd.Sort)
	st.assume(T(SBool, "(= (select %s 0) ((as const %s) false))", hd.S, ds))
	st.assume(T(SBool, "(= (select %s 0) 0)", hl.S))
}

func (x *Exec) initMap(st *State, r Term, m *types.Map) {
	d, _, l := x.mapHeaps(m)
	hd := x.heap(st, d, x.hsort[d])
	_, ds := arrSort(hd.Sort)
	x.recordWrite(d, r)
	x.recordWrite(l, r)
	x.setHeap(st, d, store(hd, r, T(ds, "((as const %s) false)", ds)))
	x.setHeap(st, l, store(x.heap(st, l, x.hsort[l]), r, num(0)))
}

func (x *Exec) hashable(st *State, k Term, kt types.Type, pos token.Pos) {
	if k.Sort == SAny {
		if strings.HasPrefix(k.S, "(AStr ") || strings.HasPrefix(k.S, "(AInt ") || strings.HasPrefix(k.S, "(ABool ") {
			return
		}
		x.safety(st, "unhashable-map-key", not(app(SBool, "uncomparable", k)), pos)
	}
}

// keyNorm: float keys etc. are not normalised; interface keys compare with SMT equality.
func (x *Exec) mapGet(st *State, m, k Term, mt *types.Map) (Val, Term) {
	d, v, _ := x.mapHeaps(mt)
	x.nilMapFact(st, mt)
	ok := sel(sel(x.heap(st, d, x.hsort[d]), m), k)
	val := ite(ok, sel(sel(x.heap(st, v, x.hsort[v]), m), k), x.W.zero(mt.Elem()))
	n := x.fresh(st, val.Sort, "mv")
	st.assume(eq(n, val))
	st.assume(implies(ok, x.typeFacts(st, n, mt.Elem())))
	return Val{T: n, Typ: mt.Elem()}, ok
}

func (x *Exec) mapSet(st *State, m, k, v Term, mt *types.Map) {
	d, vh, l := x.mapHeaps(mt)
	hd, hv, hl := x.heap(st, d, x.hsort[d]), x.heap(st, vh, x.hsort[vh]), x.heap(st, l, x.hsort[l])
	x.recordWrite(d, m)
	x.recordWrite(vh, m)
	x.recordWrite(l, m)
	x.setHeap(st, l, store(hl, m, ite(sel(sel(hd, m), k), sel(hl, m), add(sel(hl, m), num(1)))))
	x.setHeap(st, vh, store(hv, m, store(sel(hv, m), k, v)))
	x.setHeap(st, d, store(hd, m, store(sel(hd, m), k, tTrue)))
}

func (x *Exec) next(fr *frame, st *State, in *ssa.Next) {
	r := x.val(fr, st, in.Iter).Rng
	ok := x.fresh(st, SBool, "ok")
	tup := types.Unalias(in.Type()).(*types.Tuple)
	if r.str {
		i := st.heaps[r.key]
		c := app(SInt, "strRune", r.m, i)
		nx := app(SInt, "strNext", r.m, i)
		st.assume(and(le(num(0), i), le(i, app(SInt, "strLen", r.m))))
		st.assume(eq(ok, lt(i, app(SInt, "strLen", r.m))))
		st.assume(implies(ok, and(le(num(0), c), le(c, num(0x10FFFF)), lt(i, nx), le(nx, app(SInt, "strLen", r.m)))))
		x.recordWrite(r.key, Term{})
		x.setHeap(st, r.key, ite(ok, nx, i))
		st.env[envKey{fr.id, in}] = Val{Tup: []Val{{T: ok, Typ: types.Typ[types.Bool]}, {T: i, Typ: types.Typ[types.Int]}, {T: c, Typ: types.Typ[types.Rune]}}, T: Term{"", "Tuple"}}
		return
	}
	d, v, _ := x.mapHeaps(r.typ)
	hd := x.heap(st, d, x.hsort[d])
	hv := x.heap(st, v, x.hsort[v])
	vis := st.heaps[r.key]
	k := x.fresh(st, x.W.sort(r.typ.Key()), "rk")
	st.assume(implies(ok, and(sel(sel(hd, r.m), k), not(sel(vis, k)))))
	st.assume(implies(not(ok), T(SBool, "(forall ((k %s)) (! (=> (and (select %s k) (select (select %s %s) k)) (select %s k)) :pattern ((select %s k)) :pattern ((select (select %s %s) k))))",
		k.Sort, r.dom0.S, hd.S, r.m.S, vis.S, vis.S, hd.S, r.m.S)))
	val := x.fresh(st, x.W.sort(r.typ.Elem()), "rv")
	st.assume(implies(ok, eq(val, sel(sel(hv, r.m), k))))
	st.assume(implies(ok, x.typeFacts(st, val, r.typ.Elem())))
	st.assume(implies(ok, x.typeFacts(st, k, r.typ.Key())))
	x.recordWrite(r.key, Term{})
	x.setHeap(st, r.key, ite(ok, store(vis, k, tTrue), vis))
	kt, vt := r.typ.Key(), r.typ.Elem()
	_ = tup
	st.env[envKey{fr.id, in}] = Val{Tup: []Val{{T: ok, Typ: types.Typ[types.Bool]}, {T: k, Typ: kt}, {T: val, Typ: vt}}, T: Term{"", "Tuple"}}
}

// ---- operators

func (x *Exec) unop(fr *frame, st *State, in *ssa.UnOp) {
	v := x.val(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		elem := in.Type()
		x.nonNil(st, v, "load", in.Pos())
		x.guardCheck(fr, st, v, in.Pos())
		r := x.loadPtr(st, v, elem)
		if l := x.deref(v); l != nil {
			if f, ok := st.fnCells[l.Heap+"@"+l.Ref.S]; ok && l.Idx == nil {
				r.Fn, r.Binds = f.Fn, f.Binds
			}
		}
		if g, ok := in.X.(*ssa.Global); ok {
			x.globalLoad(st, g, &r)
		}
		x.set(fr, st, in, r)
		r2 := st.env[envKey{fr.id, in}]
		x.noteLoaded(st, &r2, elem)
		st.env[envKey{fr.id, in}] = r2
	case token.NOT:
		x.set(fr, st, in, Val{T: not(v.T)})
	case token.SUB:
		if v.T.Sort == SFlt {
			x.set(fr, st, in, Val{T: app(SFlt, "fltOp", num(9), v.T, v.T)})
			return
		}
		x.set(fr, st, in, Val{T: sub(num(0), v.T)})
	case token.XOR:
		r := x.fresh(st, SInt, "xor")
		st.assume(x.typeFacts(st, r, in.Type()))
		x.set(fr, st, in, Val{T: r})
	case token.ARROW:
		if in.CommaOk {
			x.unsup("channel receive with ok")
		}
		r := x.fresh(st, x.W.sort(in.Type()), "recv")
		st.assume(x.typeFacts(st, r, in.Type()))
		x.set(fr, st, in, Val{T: r})
	default:
		x.unsup("unop %s", in.Op)
	}
}

// noteLoaded adds type facts and resolves function values.
func (x *Exec) noteLoaded(st *State, r *Val, t types.Type) {
	st.assume(x.typeFacts(st, r.T, t))
	x.deepFacts(st, r.T, t)
	if f, ok := x.closures[r.T.S]; ok {
		r.Fn, r.Binds = f.Fn, f.Binds
	}
}

func (x *Exec) deepFacts(st *State, v Term, t types.Type) {
	if s, ok := types.Unalias(t).Underlying().(*types.Struct); ok && isRepoOrAnonStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			f := x.structGet(v, t, i)
			if isNum(f.S) {
				continue
			}
			st.assume(x.typeFacts(st, f, s.Field(i).Type()))
		}
	}
}

func (x *Exec) globalLoad(st *State, g *ssa.Global, r *Val) {
	// package level error values and the like are never nil once initialised
	if !x.P.MutGlobals[g] && types.IsInterface(r.Typ) {
		if x.V.P.isErrorVar(g) {
			st.assume(not(eq(r.T, nilAny)))
			st.assume(T(SBool, "((_ is ARef) %s)", r.T.S))
		}
	}
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, at, rt types.Type, pos token.Pos) Term {
	at = types.Unalias(at)
	A, B := x.termOf(st, a), x.termOf(st, b)
	if A.Sort != B.Sort && (op == token.EQL || op == token.NEQ) {
		// comparison of an interface with a concrete value
		if A.Sort == SAny {
			B = x.W.toAny(B, b.Typ)
		} else if B.Sort == SAny {
			A = x.W.toAny(A, a.Typ)
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		var e Term
		switch A.Sort {
		case SSlice: // only comparison with nil
			if A.S == nilSlice.S {
				A = B
			}
			e = eq(sBase(A), num(0))
		case SAny:
			if A.S != "ANil" && B.S != "ANil" {
				x.comparable(st, A, B, pos)
			}
			e = anyEq(A, B)
		case SFlt:
			e = app(SBool, "fltEq", A, B)
		default:
			e = eq(A, B)
		}
		if op == token.NEQ {
			return not(e)
		}
		return e
	}
	switch A.Sort {
	case SStr:
		switch op {
		case token.ADD:
			if A.S == x.W.str("").S {
				return B
			}
			return app(SStr, "strCat", A, B)
		case token.LSS:
			return app(SBool, "strLt", A, B)
		case token.GTR:
			return app(SBool, "strLt", B, A)
		case token.LEQ:
			return not(app(SBool, "strLt", B, A))
		case token.GEQ:
			return not(app(SBool, "strLt", A, B))
		}
	case SFlt:
		switch op {
		case token.LSS:
			return app(SBool, "fltLt", A, B)
		case token.GTR:
			return app(SBool, "fltLt", B, A)
		case token.LEQ:
			return or(app(SBool, "fltLt", A, B), app(SBool, "fltEq", A, B))
		case token.GEQ:
			return or(app(SBool, "fltLt", B, A), app(SBool, "fltEq", A, B))
		}
		return app(SFlt, "fltOp", num(int64(op)), A, B)
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return and(A, B)
		case token.OR, token.LOR:
			return or(A, B)
		}
	case SInt:
		switch op {
		case token.LSS:
			return cmpT("<", A, B)
		case token.LEQ:
			return cmpT("<=", A, B)
		case token.GTR:
			return cmpT(">", A, B)
		case token.GEQ:
			return cmpT(">=", A, B)
		case token.ADD:
			return x.wrap(st, add(A, B), rt)
		case token.SUB:
			return x.wrap(st, sub(A, B), rt)
		case token.MUL:
			return x.wrap(st, T(SInt, "(* %s %s)", A.S, B.S), rt)
		case token.QUO:
			x.safety(st, "division-by-zero", not(eq(B, num(0))), pos)
			return app(SInt, "goDiv", A, B)
		case token.REM:
			x.safety(st, "division-by-zero", not(eq(B, num(0))), pos)
			return app(SInt, "goMod", A, B)
		default:
			r := x.fresh(st, SInt, "bit")
			st.assume(eq(r, app(SInt, "bitOp", num(int64(op)), A, B)))
			st.assume(x.typeFacts(st, r, rt))
			return r
		}
	}
	x.unsup("binop %s on %s", op, A.Sort)
	return Term{}
}

// wrap: unsigned arithmetic wraps; signed arithmetic is mathematical (assumption).
func (x *Exec) wrap(st *State, t Term, rt types.Type) Term {
	b, ok := types.Unalias(rt).Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned == 0 || isNum(t.S) {
		return t
	}
	switch b.Kind() {
	case types.Uint, types.Uint64, types.Uintptr:
		return T(SInt, "(mod %s 18446744073709551616)", t.S)
	case types.Uint32:
		return T(SInt, "(mod %s 4294967296)", t.S)
	case types.Uint16:
		return T(SInt, "(mod %s 65536)", t.S)
	case types.Uint8:
		return T(SInt, "(mod %s 256)", t.S)
	}
	return t
}

// comparable: comparing interface values holding uncomparable dynamic values panics
// when the dynamic types are identical.
func (x *Exec) comparable(st *State, a, b Term, pos token.Pos) {
	safeLit := func(t Term) bool {
		return strings.HasPrefix(t.S, "(AStr ") || strings.HasPrefix(t.S, "(AInt ") || strings.HasPrefix(t.S, "(ABool ") || strings.HasPrefix(t.S, "|ge:")
	}
	if safeLit(a) || safeLit(b) {
		return
	}
	x.safety(st, "compare-uncomparable", or(not(app(SBool, "uncomparable", a)), not(app(SBool, "uncomparable", b)), not(eq(app(SInt, "anyTag", a), app(SInt, "anyTag", b)))), pos)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Term {
	from, to = types.Unalias(from), types.Unalias(to)
	fs, ts := x.W.sort(from), x.W.sort(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fs == SInt && ts == SInt && fb != nil && tb != nil:
		return intConvert(v.T, fb, tb)
	case fs == SStr && ts == SStr:
		return v.T
	case fs == SFlt && ts == SFlt:
		return v.T
	case fs == SInt && ts == SFlt:
		return app(SFlt, "fltOfInt", v.T)
	case fs == SFlt && ts == SInt:
		return app(SInt, "intOfFlt", v.T)
	case fs == SStr && ts == SSlice:
		el := to.Underlying().(*types.Slice).Elem()
		r := x.newRef(st, "bytes")
		hn := x.elemHeap(el)
		h := x.heap(st, hn, x.hsort[hn])
		_, as := arrSort(h.Sort)
		a := x.fresh(st, as, "ba")
		n := app(SInt, "strLen", v.T)
		if typeKey(el) == "byte" {
			st.assume(T(SBool, "(forall ((i Int)) (! (=> (and (<= 0 i) (< i (strLen %s))) (= (select %s i) (strAt %s i))) :pattern ((select %s i))))", v.T.S, a.S, v.T.S, a.S))
			st.assume(T(SBool, "(>= (strLen %s) 0)", v.T.S))
		} else {
			l := x.fresh(st, SInt, "runes")
			st.assume(and(le(num(0), l), le(l, n)))
			st.assume(T(SBool, "(=> (> %s 0) (and (> %s 0) (= (select %s 0) (strRune %s 0))))", n.S, l.S, a.S, v.T.S))
			st.assume(T(SBool, "(= (= %s 0) (= %s %s))", n.S, v.T.S, x.W.str("").S))
			n = l
		}
		x.recordWrite(hn, r)
		x.setHeap(st, hn, store(h, r, a))
		return mkSlice(r, num(0), n, n)
	case fs == SSlice && ts == SStr:
		el := from.Underlying().(*types.Slice).Elem()
		if typeKey(el) != "byte" {
			return x.fresh(st, SStr, "str")
		}
		hn := x.elemHeap(el)
		a := sel(x.heap(st, hn, x.hsort[hn]), sBase(v.T))
		return app(SStr, "strOf", a, sOff(v.T), sLen(v.T))
	case fs == SInt && ts == SStr:
		return app(SStr, "strOfRune", v.T)
	case fs == ts:
		return x.termOf(st, v)
	}
	x.unsup("conversion %s to %s", from, to)
	return Term{}
}

func intConvert(v Term, f, t *types.Basic) Term {
	fl, fh, _ := intRange(f)
	tl, th, _ := intRange(t)
	if fl == tl && fh == th {
		return v
	}
	contains := func(k types.BasicKind) bool { return t.Kind() == k }
	fu := f.Info()&types.IsUnsigned != 0
	tu := t.Info()&types.IsUnsigned != 0
	bits := map[string]string{"18446744073709551615": "18446744073709551616", "4294967295": "4294967296", "65535": "65536", "255": "256",
		"9223372036854775807": "18446744073709551616", "2147483647": "4294967296", "32767": "65536", "127": "256"}
	size := func(h string) int {
		switch bits[h] {
		case "18446744073709551616":
			return 8
		case "4294967296":
			return 4
		case "65536":
			return 2
		}
		return 1
	}
	_ = contains
	fsz, tsz := size(fh), size(th)
	switch {
	case fu == tu && tsz >= fsz, fu && !tu && tsz > fsz:
		return v
	case isNum(v.S) && !strings.HasPrefix(v.S, "(") && len(v.S) < 3:
		return v
	case fsz == 8 && tsz == 8 && !fu && tu:
		return app(SInt, "u64", v)
	case fsz == 8 && tsz == 8 && fu && !tu:
		return app(SInt, "s64", v)
	case tu:
		return T(SInt, "(mod %s %s)", v.S, bits[th])
	}
	m := bits[th]
	return T(SInt, "(let ((m (mod %s %s))) (ite (> m %s) (- m %s) m))", v.S, m, th, m)
}

func (x *Exec) sliceOp(fr *frame, st *State, in *ssa.Slice) {
	v := x.val(fr, st, in.X)
	lo := num(0)
	if in.Low != nil {
		lo = x.val(fr, st, in.Low).T
	}
	switch u := types.Unalias(in.X.Type()).Underlying().(type) {
	case *types.Basic: // string
		n := app(SInt, "strLen", v.T)
		hi := n
		if in.High != nil {
			hi = x.val(fr, st, in.High).T
		}
		st.assume(T(SBool, "(>= %s 0)", n.S))
		x.safety(st, "slice-bounds", and(le(num(0), lo), le(lo, hi), le(hi, n)), in.Pos())
		x.set(fr, st, in, Val{T: app(SStr, "strSub", v.T, lo, hi)})
	case *types.Slice:
		hi := sLen(v.T)
		mx := sCap(v.T)
		if in.High != nil {
			hi = x.val(fr, st, in.High).T
		}
		if in.Max != nil {
			mx = x.val(fr, st, in.Max).T
		}
		lim := sLen(v.T) // stricter than Go: reslicing past the length is flagged
		if x.con != nil && x.con.Opts["reslicecap"] != "" {
			lim = sCap(v.T)
		}
		x.safety(st, "slice-bounds", and(le(num(0), lo), le(lo, hi), le(hi, lim)), in.Pos())
		st.env[envKey{fr.id, in}] = Val{T: mkSlice(sBase(v.T), add(sOff(v.T), lo), sub(hi, lo), sub(mx, lo)), Typ: in.Type()}
	case *types.Pointer:
		a := types.Unalias(u.Elem()).Underlying().(*types.Array)
		hi := num(a.Len())
		if in.High != nil {
			hi = x.val(fr, st, in.High).T
		}
		x.safety(st, "slice-bounds", and(le(num(0), lo), le(lo, hi), le(hi, num(a.Len()))), in.Pos())
		st.env[envKey{fr.id, in}] = Val{T: mkSlice(v.T, lo, sub(hi, lo), sub(num(a.Len()), lo)), Typ: in.Type()}
	default:
		x.unsup("slice of %s", in.X.Type())
	}
}

// typeAssert: v.(T)
func (x *Exec) typeAssertForks(in *ssa.TypeAssert) bool { return false }

func (x *Exec) typeAssert(fr *frame, st *State, in *ssa.TypeAssert, k func(*State)) {
	v := x.val(fr, st, in.X)
	t := in.AssertedType
	var ok Term
	var r Val
	if types.IsInterface(t) {
		if types.Unalias(t).Underlying().(*types.Interface).NumMethods() == 0 {
			ok = not(eq(v.T, nilAny))
		} else {
			ok = x.implementsTerm(st, v.T, t)
		}
		r = Val{T: v.T, Typ: t}
		if in.CommaOk {
			r.T = ite(ok, v.T, nilAny)
		}
	} else {
		ok = x.W.isType(v.T, t)
		val := x.W.fromAny(v.T, t)
		r = Val{T: val, Typ: t}
		if in.CommaOk {
			r.T = ite(ok, val, x.W.zero(t))
			if r.T.Sort == SSlice || len(r.T.S) > 60 {
				n := x.fresh(st, r.T.Sort, "ta")
				st.assume(eq(n, r.T))
				r.T = n
			}
			st.assume(x.typeFacts(st, r.T, t))
		}
	}
	if !in.CommaOk {
		x.safety(st, "type-assertion", ok, in.Pos())
		st.assume(x.typeFacts(st, r.T, t))
		x.set(fr, st, in, r)
		return
	}
	st.env[envKey{fr.id, in}] = Val{Tup: []Val{r, {T: ok, Typ: types.Typ[types.Bool]}}, T: Term{"", "Tuple"}, Typ: in.Type()}
}

// implementsTerm: dynamic type of v implements interface t.
func (x *Exec) implementsTerm(st *State, v Term, t types.Type) Term {
	it := types.Unalias(t).Underlying().(*types.Interface)
	if d := x.dynType(v); d != nil {
		if types.Implements(d, it) {
			return tTrue
		}
		return tFalse
	}
	f := q("impl:" + typeKey(t))
	if !x.declared[f] {
		x.declared[f] = true
		x.globals = append(x.globals, fmt.Sprintf("(declare-fun %s (Int) Bool)", f))
	}
	x.W.implKeys[f] = it
	return and(not(eq(v, nilAny)), app(SBool, f, app(SInt, "anyTag", v)))
}

// dynType returns the dynamic type of a syntactically boxed value.
func (x *Exec) dynType(v Term) types.Type {
	for _, c := range []string{"AInt", "ABool", "AStr", "AFlt", "ASl", "ARef", "AOp"} {
		if strings.HasPrefix(v.S, "("+c+" ") {
			p := splitTop(v.S[len(c)+2 : len(v.S)-1])
			for k, n := range x.W.tags {
				if fmt.Sprint(n) == p[0] {
					return x.W.tagType[k]
				}
			}
		}
	}
	return nil
}

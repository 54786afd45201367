package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Verifier struct {
	P         *Program
	S         *Spec
	Sol       *solverCfg
	mu        sync.Mutex
	loopCache map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	Verbose   int
	usedAx    map[string]bool
}

func newVerifier(P *Program, S *Spec) *Verifier {
	return &Verifier{P: P, S: S, usedAx: map[string]bool{}, loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		Sol: &solverCfg{sem: make(chan struct{}, 8), cache: map[string]solveRes{}, time: map[string]float64{}, count: map[string]int{}, quick: 4 * time.Second, full: 20 * time.Second}}
}

func implementsIface(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (P *Program) isErrorVar(g *ssa.Global) bool {
	t := ptrElem(g.Type())
	return typeKey(t) == "error"
}

func (v *Verifier) newExec(unit string) *Exec {
	return &Exec{W: newWorld(), P: v.P, S: v.S, V: v, hsort: map[string]string{}, declared: map[string]bool{}, locOf: map[string]*Loc{},
		allocated: map[string]bool{}, unit: unit, assumed: map[string]bool{}, inlined: map[string]bool{}, usedCon: map[string]bool{},
		dropped: map[string]bool{}, kept: map[string]bool{}, closures: map[string]Val{}, maxSteps: 400000, binds: map[string]SV{}}
}

// UnitResult is what verifying one function gave.
type UnitResult struct {
	Key      string
	Obls     []*Obl
	Assumed  []string
	Inlined  []string
	Used     []string
	Dropped  []string
	Kept     []string
	InvObls  int
	Paths    int
	Covered  int
	Dead     []string
	Secs     float64
	Missing  bool
	Vacuous  bool
	Aborted  string
	exec     *Exec
}

// unit is a verification task.
type unit struct {
	key     string
	fn      *ssa.Function
	con     *Contract
	clo     *ClosureSpec // set when fn is a closure verified against a functype contract
	cloCon  *Contract    // the enclosing contract
	ft      *Contract
	implOf  *Contract
}

func newState() *State {
	return &State{heaps: map[string]Term{}, env: map[envKey]Val{}, names: map[int]map[string]Val{}, known: map[string]bool{}, loops: map[loopKey]*loopCtx{}, defers: map[int][]deferred{}, fnCells: map[string]Val{}}
}

func (v *Verifier) verifyUnit(u *unit) (res *UnitResult) {
	t0 := time.Now()
	x := v.newExec(u.key)
	res = &UnitResult{Key: u.key, exec: x}
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch e := r.(type) {
			case unsupported:
				msg = string(e)
			case specErr:
				msg = string(e)
			default:
				if v.Verbose > 0 {
					panic(r)
				}
				msg = fmt.Sprint("internal: ", r)
			}
			res.Aborted = msg
			x.obls = append(x.obls, &Obl{Unit: u.key, Kind: "unsupported", Label: "translation: " + msg, Goal: tFalse, Result: "failed", Out: msg})
		}
		res.Obls = x.obls
		res.Assumed = keysOf(x.assumed)
		res.Inlined = keysOf(x.inlined)
		res.Used = keysOf(x.usedCon)
		res.Dropped = keysOf(x.dropped)
		res.Kept = keysOf(x.kept)
		res.InvObls = x.invObls
		res.Paths = x.paths
		res.Secs = time.Since(t0).Seconds()
	}()
	x.con = u.con
	x.cloSpec = u.clo
	st := newState()
	x.globals = append(x.globals, "(declare-const alloc0 Int)\n(assert (> alloc0 0))")
	st.alloc = Term{"alloc0", SInt}
	x.alloc0 = st.alloc
	fr := x.newFrame(u.fn, nil)
	x.top = fr
	var args []Val
	names := u.con.Params
	off := 0
	if u.ft != nil {
		names = u.ft.Params
		off = 1
		self := x.fresh(st, SInt, "self")
		st.assume(T(SBool, "(and (< 0 %s) (<= %s alloc0))", self.S, self.S))
		x.binds[names[0]] = SV{T: self, Ty: intST}
		x.binds[u.clo.Self] = SV{T: self, Ty: intST}
	}
	for i, p := range u.fn.Params {
		val := x.freshVal(st, p.Type(), "p."+p.Name())
		if i == 0 && u.fn.Signature.Recv() != nil && u.con.Opts["nilrecv"] == "" {
			if _, ok := types.Unalias(p.Type()).Underlying().(*types.Pointer); ok {
				st.assume(T(SBool, "(> %s 0)", val.T.S))
			}
		}
		st.env[envKey{fr.id, p}] = val
		x.setName(fr, st, p.Name(), val)
		if i+off < len(names) && names[i+off] != "_" {
			x.binds[names[i+off]] = x.paramSV(st, val)
		}
		args = append(args, val)
	}
	if len(u.fn.Params)+off != len(names) && !(len(names) == 0) {
		x.unsup("contract of %s names %d parameters, the function has %d", u.key, len(names), len(u.fn.Params)+off)
	}
	// captured variables: distinct private cells
	var cells []target
	prev := Term{}
	for _, f := range u.fn.FreeVars {
		el := ptrElemOrNil(f.Type())
		if el == nil {
			x.unsup("captured value %s", f.Name())
		}
		r := x.fresh(st, SInt, "cap."+f.Name())
		st.assume(T(SBool, "(and (< 0 %s) (<= %s alloc0))", r.S, r.S))
		if prev.S != "" {
			st.assume(T(SBool, "(< %s %s)", prev.S, r.S))
		}
		prev = r
		var val Val
		if isStructLike(el) {
			val = Val{T: r, Typ: f.Type()}
			x.binds[f.Name()] = SV{T: r, Ty: x.goST(f.Type())}
		} else {
			l := &Loc{Heap: x.cellHeap(el), Ref: r, Typ: el}
			val = Val{T: r, Loc: l, Typ: f.Type()}
			x.binds[f.Name()] = SV{Ty: x.goST(el), Loc: l}
			cells = append(cells, target{heap: l.Heap, ref: r})
			st.assume(x.typeFacts(st, x.load(st, l), el))
		}
		st.env[envKey{fr.id, f}] = val
		x.setName(fr, st, "&"+f.Name(), val)
	}
	x.cells = cells
	ctx := &Ctx{x: x, st: st, binds: x.binds}
	for _, r := range u.con.Requires {
		st.assume(x.specBool(ctx, u.con, r, "requires"))
	}
	if u.ft != nil {
		for _, r := range u.ft.Requires {
			st.assume(x.specBool(ctx, u.ft, r, "requires"))
		}
		for _, r := range u.clo.Inv {
			st.assume(x.specBool(ctx, u.con, r, "closureinv"))
		}
	}
	if u.con.Opts["implements"] != "" {
		u.implOf = v.S.Contracts[u.con.Opts["implements"]]
		if u.implOf == nil {
			x.unsup("unknown contract %s", u.con.Opts["implements"])
		}
	}
	x.entry = st.clone()
	x.u = u
	// vacuity of the precondition
	if r := v.Sol.solve(x.queryText(query{pc: st.pc, goal: tFalse}), true); r.status == "unsat" {
		res.Vacuous = true
		x.obls = append(x.obls, &Obl{Unit: u.key, Kind: "vacuity", Label: "precondition is satisfiable", Goal: tFalse, Result: "failed", Out: "the precondition is contradictory"})
		return
	}
	x.evalEntryTargets()
	fr.ret = func(s *State, rs []Val) { x.atReturn(s, rs) }
	x.run(fr, st, u.fn.Blocks[0], 0)
	if x.paths == 0 && u.con.Opts["noreturn"] == "" {
		x.obls = append(x.obls, &Obl{Unit: u.key, Kind: "vacuity", Label: "a return is reachable", Goal: tFalse, Result: "failed", Out: "no path reaches a return"})
	}
	v.discharge(x, res)
	return
}

func ptrElemOrNil(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func keysOf(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (x *Exec) evalEntryTargets() {
	ctx := &Ctx{x: x, st: x.entry, binds: x.binds}
	var ts []target
	es := append([]*Expr(nil), x.con.Modifies...)
	if x.u.ft != nil {
		es = append(es, x.u.ft.Modifies...)
		es = append(es, x.u.clo.Modifies...)
	}
	for _, m := range es {
		if err := catch(func() { ts = append(ts, ctx.targets(m)...) }); err != nil {
			x.unsup("modifies: %v", err)
		}
	}
	ts = append(ts, x.cells...)
	x.modTargets = ts
}

func (x *Exec) entryTargets(h string) []target {
	var r []target
	for _, t := range x.modTargets {
		if t.heap == h {
			r = append(r, t)
		}
	}
	return r
}

// frameGuard: r existed at entry and is not in the modifies set.
func (x *Exec) frameGuard(r Term, ks string, ts []target) Term {
	var cs []Term
	if ks == SInt {
		cs = append(cs, T(SBool, "(<= %s %s)", r.S, x.entry.alloc.S))
		cs = append(cs, T(SBool, "(=> (< %s 0) (<= (faRoot %s) %s))", r.S, r.S, x.entry.alloc.S))
	}
	if ks == SAny {
		cs = append(cs, T(SBool, "(=> ((_ is ARef) %s) (<= (ar %s) %s))", r.S, r.S, x.entry.alloc.S))
	}
	for _, t := range ts {
		if t.whole {
			return tFalse
		}
		cs = append(cs, not(eq(r, t.ref)))
	}
	return and(cs...)
}

// atReturn: the function under verification returns.
func (x *Exec) atReturn(st *State, rs []Val) {
	u := x.u
	x.paths++
	binds := map[string]SV{}
	for k, b := range x.binds {
		binds[k] = b
	}
	bindRes := func(names []string) {
		for i, r := range rs {
			if i < len(names) {
				binds[names[i]] = SV{T: x.termOf(st, r), Ty: x.goST(r.Typ)}
			}
		}
	}
	bindRes(u.con.Results)
	ghost := u.con.Ghost
	gcon := u.con
	if u.ft != nil {
		bindRes(u.ft.Results)
		ghost = u.ft.Ghost
		gcon = u.ft
	}
	ctx := &Ctx{x: x, st: st, old: x.entry, binds: binds, fr: x.top, useLocals: false}
	for _, g := range ghost {
		x.ghostAssign(ctx, gcon, g)
	}
	if x.probe > 0 {
		return
	}
	for _, a := range u.con.Asserts {
		var t Term
		if err := catch(func() { c2 := *ctx; c2.useLocals = true; t = c2.evalBool(a.E) }); err != nil {
			continue // a proof hint that does not apply here
		}
		x.oblig(st, "assert", a.Label, t, 0, a.Props)
	}
	for _, e := range u.con.Ensures {
		x.oblig(st, "ensures", e.Label, x.specBool(ctx, u.con, e, "ensures"), 0, e.Props)
	}
	if u.implOf != nil {
		b2 := map[string]SV{}
		for i, p := range u.fn.Params {
			if i < len(u.implOf.Params) {
				v := st.env[envKey{x.top.id, p}]
				s := x.paramSV(st, v)
				if i == 0 {
					s = SV{T: x.W.toAny(s.T, p.Type()), Ty: anyST}
				}
				b2[u.implOf.Params[i]] = s
			}
		}
		for i, r := range rs {
			if i < len(u.implOf.Results) {
				b2[u.implOf.Results[i]] = SV{T: x.termOf(st, r), Ty: x.goST(r.Typ)}
			}
		}
		c2 := &Ctx{x: x, st: st, old: x.entry, binds: b2}
		for _, e := range u.implOf.Ensures {
			x.oblig(st, "ensures", "as "+u.implOf.Key+": "+e.Label, x.specBool(c2, u.implOf, e, "ensures"), 0, e.Props)
		}
	}
	if u.ft != nil {
		for _, e := range u.ft.Ensures {
			x.oblig(st, "ensures", "as "+u.ft.Key+": "+e.Label, x.specBool(ctx, u.ft, e, "ensures"), 0, e.Props)
		}
		for _, e := range u.clo.Inv {
			x.oblig(st, "closureinv", e.Label, x.specBool(ctx, u.con, e, "closureinv"), 0, e.Props)
		}
	}
	if u.con.ModAll {
		return
	}
	var hs []string
	for h := range st.heaps {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		if strings.HasPrefix(h, "V!") {
			continue
		}
		cur := st.heaps[h]
		old := x.heap(x.entry, h, x.hsort[h])
		if cur.S == old.S {
			continue
		}
		ts := x.entryTargets(h)
		if strings.HasPrefix(h, "G!") {
			if len(ts) == 0 {
				x.oblig(st, "frame", "only the declared state changes: "+h, eq(cur, old), 0, nil)
			}
			continue
		}
		whole := false
		for _, t := range ts {
			whole = whole || t.whole
		}
		if whole {
			continue
		}
		ks, _ := arrSort(cur.Sort)
		r := x.fresh(st, ks, "fr")
		x.oblig(st, "frame", "only the declared state changes: "+h, implies(x.frameGuard(r, ks, ts), eq(sel(cur, r), sel(old, r))), 0, nil)
	}
	x.covers = append(x.covers, st.pc)
}

func (x *Exec) ghostAssign(ctx *Ctx, con *Contract, g [2]*Expr) {
	if err := catch(func() {
		r := ctx.eval(g[1])
		l := ctx.eval(g[0])
		if l.Loc == nil || !strings.Contains(l.Loc.Heap, "GH!") && !strings.HasPrefix(l.Loc.Heap, "G!ghost") {
			panic(specErr("ghostset needs a ghost location"))
		}
		r = ctx.coerce(r, l.Ty)
		if l.Loc.Ref.S == "" {
			x.recordWrite(l.Loc.Heap, Term{})
			x.setHeap(ctx.st, l.Loc.Heap, r.T)
			return
		}
		x.storeLoc(ctx.st, &Loc{Heap: l.Loc.Heap, Ref: l.Loc.Ref}, r.T)
	}); err != nil {
		x.unsup("ghost update in %s: %v", con.Key, err)
	}
}

// closureCreated checks the closure invariant of a closure with a specification.
func (x *Exec) closureCreated(fr *frame, st *State, v Val, pos token.Pos) {
	if x.con == nil {
		return
	}
	for _, cs := range x.con.Closures {
		if !x.V.closureMatches(cs, v.Fn) {
			continue
		}
		ft := x.S.Contracts[cs.FuncType]
		binds := map[string]SV{}
		for k, b := range x.binds {
			binds[k] = b
		}
		binds[cs.Self] = SV{T: v.T, Ty: intST}
		if len(ft.Params) > 0 {
			binds[ft.Params[0]] = binds[cs.Self]
		}
		for i, f := range v.Fn.FreeVars {
			b := v.Binds[i]
			if l := x.deref(b); l != nil {
				binds[f.Name()] = SV{Ty: x.goST(l.Typ), Loc: l}
			} else {
				binds[f.Name()] = SV{T: b.T, Ty: x.goST(f.Type())}
			}
		}
		ctx := &Ctx{x: x, st: st, old: x.entry, binds: binds}
		for _, g := range cs.Ghost {
			x.ghostAssign(ctx, x.con, g)
		}
		for _, d := range cs.Defs {
			st.assume(x.specBool(ctx, x.con, d, "define"))
		}
		for _, i := range cs.Inv {
			x.oblig(st, "closureinv", "established: "+i.Label, x.specBool(ctx, x.con, i, "closureinv"), pos, i.Props)
		}
		return
	}
}

func (v *Verifier) closureMatches(cs *ClosureSpec, f *ssa.Function) bool {
	if strings.HasPrefix(cs.Ord, "$") {
		return strings.HasSuffix(f.Name(), cs.Ord)
	}
	if cs.Ord != "" {
		// "+name": captures name; "-": captures nothing
		has := cs.Ord == "-" && len(f.FreeVars) == 0
		for _, fv := range f.FreeVars {
			has = has || cs.Ord == "+"+fv.Name()
		}
		if !has {
			return false
		}
	}
	if typeKey(f.Signature) == cs.FuncType {
		return true
	}
	t := v.P.typeByName(cs.FuncType)
	if t == nil {
		return false
	}
	return types.Identical(types.Unalias(t).Underlying(), f.Signature)
}

// discharge proves the obligations of a unit.
func (v *Verifier) discharge(x *Exec, res *UnitResult) {
	type job struct {
		o    *Obl
		text string
	}
	var jobs []job
	for _, o := range x.obls {
		if o.Result != "" {
			continue
		}
		jobs = append(jobs, job{o, x.queryText(query{pc: o.PC, goal: o.Goal})})
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			r := v.Sol.solve(j.text, false)
			j.o.Solver, j.o.Time, j.o.Out = r.solver, r.secs, r.out
			switch r.status {
			case "unsat":
				j.o.Result = "proved"
			case "sat":
				j.o.Result = "failed"
				j.o.Query = j.text
			default:
				j.o.Result = "unknown"
				j.o.Query = j.text
			}
		}(j)
	}
	// reachability of returns: the path condition must not be contradictory on every path
	cov := 0
	var mu sync.Mutex
	covers := x.covers
	if os.Getenv("GOCV_DEAD") != "" {
		covers = append(covers[:len(covers):len(covers)], x.backs...)
	}
	for i, pc := range covers {
		if i >= 24 && os.Getenv("GOCV_DEAD") == "" {
			break
		}
		pc := pc
		text := x.queryText(query{pc: pc, goal: tFalse})
		wg.Add(1)
		go func(text string) {
			defer wg.Done()
			sec := v.Sol.solveCover(text)
			if sec {
				mu.Lock()
				cov++
				mu.Unlock()
			} else if os.Getenv("GOCV_DEAD") != "" {
				d := v.deadEnd(x, pc)
				if v.Sol.dir != "" {
					mu.Lock()
					f := fmt.Sprintf("%s/dead%d.smt2", v.Sol.dir, len(res.Dead))
					mu.Unlock()
					os.WriteFile(f, []byte(text), 0o644)
					d = f + " " + d
				}
				mu.Lock()
				res.Dead = append(res.Dead, d)
				mu.Unlock()
			}
		}(text)
	}
	wg.Wait()
	res.Covered = cov
	if len(x.covers) > 0 && cov == 0 && x.con.Opts["noreturn"] == "" {
		x.obls = append(x.obls, &Obl{Unit: x.unit, Kind: "vacuity", Label: "a return is reachable", Goal: tFalse, Result: "failed", Out: "every path to a return is contradictory"})
	}
}

// deadEnd names the first assumption that makes a path contradictory.
func (v *Verifier) deadEnd(x *Exec, pc *node) string {
	var ns []*node
	for n := pc; n != nil; n = n.up {
		ns = append([]*node{n}, ns...)
	}
	lo, hi := 0, len(ns)-1
	for lo < hi {
		m := (lo + hi) / 2
		if v.Sol.solveCover(x.queryText(query{pc: ns[m], goal: tFalse})) {
			lo = m + 1
		} else {
			hi = m
		}
	}
	note := ""
	for i := hi; i >= 0; i-- {
		if ns[i].note != "" {
			note = ns[i].note
			break
		}
	}
	return "after " + note + ": " + clip(ns[hi].text, 600)
}

// solveCover: true unless the path is provably contradictory.
func (s *solverCfg) solveCover(text string) bool {
	st, _ := s.run(solverCmd("z3-new", time.Second), text, time.Second)
	return st != "unsat"
}

// guardCheck: fields declared as guarded are used only while the lock is held.
func (x *Exec) guardCheck(fr *frame, st *State, p Val, pos token.Pos) {
	l := x.deref(p)
	if l == nil || x.probe > 0 && false {
		return
	}
	for _, g := range x.S.Guards {
		if g.Heap != l.Heap {
			continue
		}
		if x.allocated[l.Ref.S] || x.con.Opts["noguard"] != "" {
			continue
		}
		t := x.P.typeByName(g.Type)
		if t == nil {
			x.unsup("guarded type %s", g.Type)
		}
		s := types.Unalias(t).Underlying().(*types.Struct)
		idx := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == g.Lock {
				idx = i
			}
		}
		if idx < 0 {
			x.oblig(st, "safety", "guarded field "+lastPart(l.Heap)+" is used under its lock", tFalse, pos, nil)
			continue
		}
		lock := x.fieldRef(t, idx, l.Ref)
		h := x.heap(st, "GH!locked", arr(SInt, SBool))
		x.oblig(st, "safety", "guarded field "+lastPart(l.Heap)+" is used under its lock", sel(h, lock), pos, nil)
	}
}

// units lists the verification tasks for a property ("" = all).
func (v *Verifier) units(prop string) (us []*unit, missing []string) {
	for _, k := range v.S.Order {
		c := v.S.Contracts[k]
		if c.Kind != "func" || c.Opts["trusted"] != "" {
			continue
		}
		if prop != "" && !contains(c.Props, prop) {
			continue
		}
		f := v.P.Funcs[k]
		if f == nil || f.Blocks == nil {
			missing = append(missing, k)
			continue
		}
		us = append(us, &unit{key: k, fn: f, con: c})
		for _, cs := range c.Closures {
			ft := v.S.Contracts[cs.FuncType]
			if ft == nil {
				missing = append(missing, k+" (functype "+cs.FuncType+")")
				continue
			}
			n := 0
			for _, a := range allAnon(f) {
				if v.closureMatches(cs, a) {
					n++
					c2 := *c
					c2.Requires, c2.Ensures, c2.Modifies, c2.Ghost = nil, nil, nil, nil
					c2.Asserts = cs.Asserts
					us = append(us, &unit{key: funcKey(a), fn: a, con: &c2, clo: cs, cloCon: c, ft: ft})
				}
			}
			if n == 0 {
				missing = append(missing, k+" (closure "+cs.Self+")")
			}
		}
	}
	return
}

func allAnon(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, a := range f.AnonFuncs {
		r = append(r, a)
		r = append(r, allAnon(a)...)
	}
	return r
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// proveLemmas proves the spec's lemmas that the given units may use.
func (v *Verifier) proveLemma(l *Axiom) *UnitResult {
	x := v.newExec("lemma " + l.Name)
	x.provingLemma = l.Name
	res := &UnitResult{Key: x.unit, exec: x}
	st := newState()
	x.entry = st
	x.con = &Contract{Opts: map[string]string{}}
	var t Term
	err := catch(func() {
		c := &Ctx{x: x, st: st, axiom: true}
		t = c.evalBool(l.E)
	})
	if err != nil {
		res.Obls = append(res.Obls, &Obl{Unit: x.unit, Kind: "unsupported", Label: err.Error(), Result: "failed"})
		return res
	}
	x.obls = append(x.obls, &Obl{Unit: x.unit, Kind: "lemma", Label: l.Name, Goal: t, PC: st.pc})
	v.discharge(x, res)
	res.Obls = x.obls
	return res
}

func trace(o *Obl) string {
	var ns []string
	for n := o.PC; n != nil; n = n.up {
		if n.note != "" {
			ns = append(ns, n.note)
		}
	}
	var b strings.Builder
	for i := len(ns) - 1; i >= 0; i-- {
		b.WriteString("  " + ns[i] + "\n")
	}
	return b.String()
}

var _ = os.Stderr

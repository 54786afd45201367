package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

type loopCtx struct {
	li       *loopInfo
	stopExit bool
	backedge func(st *State, from *ssa.BasicBlock)
}

// loopsOf finds the natural loops of f.
func (v *Verifier) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	v.mu.Lock()
	defer v.mu.Unlock()
	if r, ok := v.loopCache[f]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := r[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					r[s] = li
				}
				var stack []*ssa.BasicBlock
				if !li.body[b] {
					li.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !li.body[p] {
							li.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	v.loopCache[f] = r
	return r
}

type modset struct {
	refs  map[string]map[string]Term
	whole map[string]bool
}

func (m *modset) add(ws []write, limit int) bool {
	ch := false
	for _, w := range ws {
		if m.whole[w.heap] {
			continue
		}
		if w.ref.S == "" || newestSym(w.ref.S) > limit {
			m.whole[w.heap] = true
			ch = true
			continue
		}
		if m.refs[w.heap] == nil {
			m.refs[w.heap] = map[string]Term{}
		}
		if _, ok := m.refs[w.heap][w.ref.S]; !ok {
			m.refs[w.heap][w.ref.S] = w.ref
			ch = true
		}
	}
	return ch
}

func (m *modset) heaps() []string {
	s := map[string]bool{}
	for h := range m.whole {
		s[h] = true
	}
	for h := range m.refs {
		s[h] = true
	}
	var r []string
	for h := range s {
		r = append(r, h)
	}
	sort.Strings(r)
	return r
}

type cand struct {
	name string
	user bool
	eval func(st *State) (Term, error)
	dead bool
	key  string
}

// loop handles an arrival at a loop header from outside the loop.
func (x *Exec) loop(fr *frame, st *State, li *loopInfo, from *ssa.BasicBlock) {
	hdr := li.header
	key := loopKey{fr.id, hdr}
	np := countPhis(hdr)
	entryVals := x.phiVals(fr, st, from, hdr)
	x.setPhis(fr, st, hdr, entryVals)
	// phis that never change keep their entry value
	fixed := make([]bool, np)
	for i := 0; i < np; i++ {
		p := hdr.Instrs[i].(*ssa.Phi)
		ok := true
		for j, pr := range hdr.Preds {
			if li.body[pr] && p.Edges[j] != ssa.Value(p) {
				ok = false
			}
		}
		fixed[i] = ok
	}
	limit := x.n
	mods := &modset{map[string]map[string]Term{}, map[string]bool{}}
	havoc := func(s *State) {
		// allocation may have advanced
		x.bumpAlloc(s)
		for _, h := range mods.heaps() {
			if mods.whole[h] {
				x.havocHeap(s, h, nil)
				continue
			}
			var refs []Term
			var ks []string
			for k := range mods.refs[h] {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				refs = append(refs, mods.refs[h][k])
			}
			if strings.HasPrefix(h, "G!") || strings.HasPrefix(h, "V!") {
				refs = nil
			}
			x.havocHeap(s, h, refs)
		}
		var vs []Val
		for i := 0; i < np; i++ {
			p := hdr.Instrs[i].(*ssa.Phi)
			if fixed[i] {
				vs = append(vs, entryVals[i])
				continue
			}
			hint := p.Comment
			if hint == "" {
				hint = p.Name()
			}
			vs = append(vs, x.freshVal(s, p.Type(), hint))
		}
		x.setPhis(fr, s, hdr, vs)
	}
	// 1. what can the body modify?
	for round := 0; ; round++ {
		var rec []write
		x.recorders = append(x.recorders, &rec)
		x.probe++
		x.dry++
		s := st.clone()
		savedRec := x.recorders
		x.recorders = nil
		havoc(s)
		x.recorders = savedRec
		s.loops[key] = &loopCtx{li: li, stopExit: true, backedge: func(*State, *ssa.BasicBlock) {}}
		x.run(fr, s, hdr, np)
		x.dry--
		x.probe--
		x.recorders = x.recorders[:len(x.recorders)-1]
		if !mods.add(rec, limit) {
			break
		}
		if round > 6 {
			x.unsup("loop frame does not stabilise in %s", funcKey(fr.fn))
		}
	}
	for _, r := range x.recorders {
		for _, h := range mods.heaps() {
			if mods.whole[h] {
				*r = append(*r, write{h, Term{}})
			}
			for _, t := range mods.refs[h] {
				*r = append(*r, write{h, t})
			}
		}
	}
	hs := st.clone()
	saved := x.recorders
	x.recorders = nil
	havoc(hs)
	x.recorders = saved
	if x.dry > 0 {
		// only the frame matters: run the body and what follows once
		s := hs.clone()
		s.loops[key] = &loopCtx{li: li, backedge: func(*State, *ssa.BasicBlock) {}}
		x.run(fr, s, hdr, np)
		return
	}
	// 2. candidate invariants
	cands := x.candidates(fr, st, hs, li, mods, entryVals, fixed, limit)
	sig := x.loopSig(fr, li)
	if prev, ok := x.V.survivors(x, sig); ok {
		for _, c := range cands {
			if !prev[c.key] {
				c.dead = true
			}
		}
	}
	// entry
	var qs []query
	var qc []*cand
	for _, c := range cands {
		if c.dead {
			continue
		}
		t, err := c.eval(st)
		if err != nil {
			c.dead = true
			continue
		}
		if t.S == "true" || st.known[t.S] {
			continue
		}
		qs = append(qs, query{pc: st.pc, goal: t, auto: !c.user})
		qc = append(qc, c)
	}
	for i, ok := range x.V.checkMany(x, qs, true) {
		if !ok {
			qc[i].dead = true
			dropNote(x, fr, hdr, qc[i], "entry", qs[i])
		}
	}
	// preservation, to a fixpoint
	for round := 0; ; round++ {
		if round > 40 {
			x.unsup("invariant inference does not stabilise in %s", funcKey(fr.fn))
		}
		s := hs.clone()
		alive := 0
		for _, c := range cands {
			if c.dead {
				continue
			}
			t, err := c.eval(s)
			if err != nil {
				c.dead = true
				continue
			}
			s.assume(t)
			alive++
		}
		if alive == 0 {
			break
		}
		var qs []query
		var qc []*cand
		s.loops[key] = &loopCtx{li: li, stopExit: true, backedge: func(b *State, from *ssa.BasicBlock) {
			vs := x.phiVals(fr, b, from, hdr)
			// names mean the same thing at every arrival: variables bound before the
			// loop and the loop's own variables
			m := map[string]Val{}
			for k, v := range hs.names[fr.id] {
				m[k] = v
			}
			b.names[fr.id] = m
			x.setPhis(fr, b, hdr, vs)
			for _, c := range cands {
				if c.dead {
					continue
				}
				t, err := c.eval(b)
				if err != nil {
					c.dead = true
					continue
				}
				if t.S == "true" || b.known[t.S] {
					continue
				}
				qs = append(qs, query{pc: b.pc, goal: t, auto: !c.user})
				qc = append(qc, c)
			}
		}}
		x.probe++
		saved := x.recorders
		x.recorders = nil
		x.run(fr, s, hdr, np)
		x.recorders = saved
		x.probe--
		drop := false
		for i, ok := range x.V.checkMany(x, qs, true) {
			if !ok && !qc[i].dead {
				qc[i].dead = true
				drop = true
				dropNote(x, fr, hdr, qc[i], fmt.Sprint("preservation round ", round), qs[i])
			}
		}
		if !drop {
			if x.probe == 0 {
				x.invObls += len(qs)
			}
			break
		}
	}
	x.V.setSurvivors(x, sig, cands)
	// 3. continue with what is known at the header
	s := hs.clone()
	for _, c := range cands {
		if c.dead {
			if c.user && x.probe == 0 {
				x.dropped[c.name] = true
			}
			continue
		}
		t, err := c.eval(s)
		if err != nil {
			continue
		}
		s.assume(t)
		if c.user && x.probe == 0 {
			x.kept[c.name] = true
		}
	}
	s.note("%s: loop entered (arbitrary iteration)", x.pos(firstPos(hdr)))
	s.loops[key] = &loopCtx{li: li, backedge: func(b *State, _ *ssa.BasicBlock) {
		if x.probe == 0 {
			x.backs = append(x.backs, b.pc)
		}
	}}
	x.run(fr, s, hdr, np)
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

// loopSig identifies a loop within the unit by its call chain.
func (x *Exec) loopSig(fr *frame, li *loopInfo) string {
	s := fmt.Sprintf("%d", li.header.Index)
	for f := fr; f != nil; f = f.parent {
		s = funcKey(f.fn) + "/" + s
	}
	return s
}

var muSurv sync.Mutex

// survivors: candidates that failed in an enclosing probe are not retried when the enclosing
// loop is explored again; the enclosing hypotheses only get weaker.
func (v *Verifier) survivors(x *Exec, sig string) (map[string]bool, bool) {
	return nil, false
}

func (v *Verifier) setSurvivors(x *Exec, sig string, cs []*cand) {
	if x.surv == nil {
		return
	}
	// several paths may reach the loop: only remember what failed on all of them is
	// not tracked, so keep the union of survivors
	m := x.surv[sig]
	if m == nil {
		m = map[string]bool{}
	}
	for _, c := range cs {
		if !c.dead {
			m[c.key] = true
		}
	}
	x.surv[sig] = m
}

func (x *Exec) candidates(fr *frame, entry, hs *State, li *loopInfo, mods *modset, entryVals []Val, fixed []bool, limit int) []*cand {
	var r []*cand
	addT := func(name string, f func(st *State) (Term, error)) {
		r = append(r, &cand{name: name, key: name, eval: f})
	}
	hdr := li.header
	pre := entry.clone()
	phi := func(st *State, i int) Val { return st.env[envKey{fr.id, hdr.Instrs[i].(*ssa.Phi)}] }
	// innermost map range visited set
	visited := ""
	for _, in := range hdr.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if v, ok := entry.env[envKey{fr.id, n.Iter}]; ok && v.Rng != nil {
				visited = v.Rng.key
			}
		}
	}
	// contract invariants
	con := x.con
	if con != nil {
		for ci, cl := range con.Inv {
			cl := cl
			if strings.HasPrefix(cl.Label, "!") {
				if _, in := hs.names[fr.id][cl.Label[1:]]; in {
					continue
				}
			}
			if strings.HasPrefix(cl.Label, "?") {
				if _, in := hs.names[fr.id][cl.Label[1:]]; !in {
					continue
				}
			}
			mk := func(name string, hole map[string]SV, evalHole func(st *State) map[string]SV) {
				c := &cand{name: fmt.Sprintf("invariant %s@%d", cl.Label, cl.Line), user: true, key: name}
				c.eval = func(st *State) (t Term, err error) {
					ctx := &Ctx{x: x, st: st, old: x.entry, pre: pre, fr: fr, binds: x.binds, useLocals: true, visited: visited}
					if evalHole != nil {
						ctx.hole = evalHole(st)
					}
					err = catch(func() { t = ctx.evalBool(cl.E) })
					return
				}
				r = append(r, c)
			}
			holes := x.holesFor(con, cl)
			if len(holes) == 0 {
				mk(fmt.Sprintf("u%d", ci), nil, nil)
				continue
			}
			for n, combo := range x.holeCombos(fr, hs, hdr, holes) {
				combo := combo
				mk(fmt.Sprintf("u%d.%d", ci, n), nil, func(st *State) map[string]SV {
					m := map[string]SV{}
					for i, h := range holes {
						if v, ok := combo[i](st); ok {
							m[h.Name] = v
						}
					}
					return m
				})
			}
		}
	}
	// integer counters
	for i := range entryVals {
		if fixed[i] {
			continue
		}
		i := i
		p := hdr.Instrs[i].(*ssa.Phi)
		ev := entryVals[i]
		switch x.W.sort(p.Type()) {
		case SInt:
			if _, ok := types.Unalias(p.Type()).Underlying().(*types.Basic); !ok {
				// pointer: not nil, or fresh
				if ev.Loc == nil {
					addT(fmt.Sprintf("auto:%s!=nil", p.Comment), func(st *State) (Term, error) { return not(eq(x.termOf(st, phi(st, i)), num(0))), nil })
				}
				continue
			}
			addT(fmt.Sprintf("auto%d:>=entry", i), func(st *State) (Term, error) { return le(ev.T, phi(st, i).T), nil })
			addT(fmt.Sprintf("auto%d:<=entry", i), func(st *State) (Term, error) { return le(phi(st, i).T, ev.T), nil })
			addT(fmt.Sprintf("auto%d:>=0", i), func(st *State) (Term, error) { return le(num(0), phi(st, i).T), nil })
		case SSlice:
			addT(fmt.Sprintf("auto%d:fresh-slice", i), func(st *State) (Term, error) {
				b := sBase(phi(st, i).T)
				return or(eq(b, num(0)), T(SBool, "(> %s %s)", b.S, x.entry.alloc.S)), nil
			})
			addT(fmt.Sprintf("auto%d:fresh-slice-loop", i), func(st *State) (Term, error) {
				b := sBase(phi(st, i).T)
				return or(eq(b, num(0)), T(SBool, "(> %s %s)", b.S, pre.alloc.S)), nil
			})
			addT(fmt.Sprintf("auto%d:same-or-fresh-slice", i), func(st *State) (Term, error) {
				b := sBase(phi(st, i).T)
				return or(eq(b, sBase(ev.T)), T(SBool, "(> %s %s)", b.S, pre.alloc.S)), nil
			})
			addT(fmt.Sprintf("auto%d:soff", i), func(st *State) (Term, error) { return eq(sOff(phi(st, i).T), sOff(ev.T)), nil })
			addT(fmt.Sprintf("auto%d:slen>=", i), func(st *State) (Term, error) { return le(sLen(ev.T), sLen(phi(st, i).T)), nil })
		case SAny:
			addT(fmt.Sprintf("auto%d:=nil", i), func(st *State) (Term, error) { return eq(phi(st, i).T, nilAny), nil })
		}
	}
	// comparisons made by the loop, as they stand at the header
	for bi, b := range x.compares(li) {
		b := b
		for _, op := range []string{"<=", "<", ">="} {
			op := op
			addT(fmt.Sprintf("auto-cmp%d:%s", bi, op), func(st *State) (Term, error) {
				var a, c Term
				ok := true
				if err := catch(func() { a, ok = x.pureAt(fr, st, hs, li, b.X, 0) }); err != nil || !ok {
					return Term{}, specErr("not pure")
				}
				if err := catch(func() { c, ok = x.pureAt(fr, st, hs, li, b.Y, 0) }); err != nil || !ok {
					return Term{}, specErr("not pure")
				}
				return cmpT(op, a, c), nil
			})
		}
	}
	// frames of heaps changed at varying references
	for h := range mods.whole {
		h := h
		if strings.HasPrefix(h, "V!") || strings.HasPrefix(h, "G!") {
			continue
		}
		if strings.HasPrefix(h, "GH!") {
			whole := false
			for _, t := range x.entryTargets(h) {
				whole = whole || t.whole
			}
			if whole {
				continue // ghost state that any part of the function may change
			}
		}
		h0 := x.heap(pre, h, x.hsort[h])
		hE := x.heap(x.entry, h, x.hsort[h])
		ks, _ := arrSort(h0.Sort)
		mk := func(name string, base Term, guard func(r Term) Term) {
			addT("frame:"+h+":"+name, func(st *State) (Term, error) {
				cur := x.heap(st, h, x.hsort[h])
				if cur.S == base.S {
					return tTrue, nil
				}
				rr := Term{"r", ks}
				return T(SBool, "(forall ((r %s)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", ks, guard(rr).S, cur.S, base.S, cur.S), nil
			})
		}
		if ks == SInt {
			mk("loop", h0, func(r Term) Term { return le(r, pre.alloc) })
			if strings.HasPrefix(h, "E!") {
				var bases []Term
				for i, ev := range entryVals {
					if !fixed[i] && ev.T.Sort == SSlice && ev.T.S != nilSlice.S {
						bases = append(bases, sBase(ev.T))
					}
				}
				if len(bases) > 0 {
					mk("loop-but-own", h0, func(r Term) Term {
						c := []Term{le(r, pre.alloc)}
						for _, b := range bases {
							c = append(c, not(eq(r, b)))
						}
						return and(c...)
					})
				}
			}
			mk("entry", hE, func(r Term) Term { return le(r, x.entry.alloc) })
			mk("loop-entry", h0, func(r Term) Term { return le(r, x.entry.alloc) })
		}
		if ex := x.entryTargets(h); len(ex) > 0 {
			mk("modset", hE, func(r Term) Term { return x.frameGuard(r, ks, ex) })
			mk("modset-loop", h0, func(r Term) Term { return x.frameGuard(r, ks, ex) })
		} else if ks != SInt {
			mk("none", hE, func(r Term) Term { return tTrue })
			mk("none-loop", h0, func(r Term) Term { return tTrue })
		}
	}
	return r
}

// compares lists the integer comparisons in the loop body.
func (x *Exec) compares(li *loopInfo) []*ssa.BinOp {
	var r []*ssa.BinOp
	for _, b := range li.header.Parent().Blocks {
		if !li.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					if _, isB := types.Unalias(bo.X.Type()).Underlying().(*types.Basic); isB && x.W.sort(bo.X.Type()) == SInt {
						r = append(r, bo)
					}
				}
			}
		}
	}
	if len(r) > 6 {
		r = r[:6]
	}
	return r
}

// pureAt re-evaluates a side-effect free expression of the loop body in the state at the header.
func (x *Exec) pureAt(fr *frame, st, hs *State, li *loopInfo, v ssa.Value, d int) (Term, bool) {
	if d > 8 {
		return Term{}, false
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c).T, true
	case *ssa.Global, *ssa.Function, *ssa.Builtin:
		return Term{}, false
	}
	in, isIn := v.(ssa.Instruction)
	if !isIn || !li.body[in.Block()] {
		r, ok := hs.env[envKey{fr.id, v}]
		if !ok || r.Loc != nil || r.T.Sort == "" || r.T.Sort == "Tuple" {
			return Term{}, false
		}
		return r.T, true
	}
	switch in := in.(type) {
	case *ssa.Phi:
		if in.Block() != li.header {
			return Term{}, false
		}
		r := st.env[envKey{fr.id, in}]
		return r.T, r.Loc == nil && r.T.Sort != ""
	case *ssa.BinOp:
		a, ok1 := x.pureAt(fr, st, hs, li, in.X, d+1)
		b, ok2 := x.pureAt(fr, st, hs, li, in.Y, d+1)
		if !ok1 || !ok2 || a.Sort != SInt {
			return Term{}, false
		}
		switch in.Op {
		case token.ADD:
			return add(a, b), true
		case token.SUB:
			return sub(a, b), true
		}
	case *ssa.Convert:
		a, ok := x.pureAt(fr, st, hs, li, in.X, d+1)
		if ok && a.Sort == SInt && x.W.sort(in.Type()) == SInt {
			return x.convert(st, Val{T: a}, in.X.Type(), in.Type()), true
		}
	case *ssa.ChangeType:
		return x.pureAt(fr, st, hs, li, in.X, d+1)
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return Term{}, false
		}
		if fa, ok := in.X.(*ssa.FieldAddr); ok {
			p, ok := x.pureAt(fr, st, hs, li, fa.X, d+1)
			if !ok || isStructLike(in.Type()) {
				return Term{}, false
			}
			h, _ := x.fieldHeap(ptrElem(fa.X.Type()), fa.Field)
			return sel(x.heap(st, h, x.hsort[h]), p), true
		}
		if r, ok := hs.env[envKey{fr.id, in.X}]; ok && r.Loc != nil && r.Loc.Idx == nil {
			if _, isIn := in.X.(ssa.Instruction); !isIn || !li.body[in.X.(ssa.Instruction).Block()] {
				return x.load(st, r.Loc), true
			}
		}
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a, ok := x.pureAt(fr, st, hs, li, in.Call.Args[0], d+1)
			if ok && a.Sort == SSlice {
				return sLen(a), true
			}
			if ok && a.Sort == SStr {
				return app(SInt, "strLen", a), true
			}
		}
	}
	return Term{}, false
}

// holesFor: contract locals mentioned in the clause that should be matched by type.
func (x *Exec) holesFor(con *Contract, cl Clause) []Var {
	var r []Var
	for _, l := range con.Locals {
		if mentions(cl.E, l.Name) {
			r = append(r, l)
		}
	}
	return r
}

func mentions(e *Expr, n string) bool {
	if e == nil {
		return false
	}
	if e.Op == "ident" && e.Str == n {
		return true
	}
	for _, k := range e.Kids {
		if mentions(k, n) {
			return true
		}
	}
	for _, t := range e.Trig {
		for _, k := range t {
			if mentions(k, n) {
				return true
			}
		}
	}
	return false
}

type holeFn func(st *State) (SV, bool)

// holeCombos enumerates assignments of holes to values in scope of matching type.
func (x *Exec) holeCombos(fr *frame, hs *State, hdr *ssa.BasicBlock, holes []Var) [][]holeFn {
	var choices [][]holeFn
	for _, h := range holes {
		ty := x.parseType(h.Type)
		var cs []holeFn
		seen := map[string]bool{}
		var byName []holeFn
		add := func(pref bool, f holeFn) {
			v, ok := f(hs)
			if !ok || v.T.Sort != ty.Sort || seen[v.T.S] {
				return
			}
			if ty.Go != nil && v.Ty.Go != nil && ty.Sort != SInt && !types.Identical(types.Unalias(ty.Go), types.Unalias(v.Ty.Go)) && typeKey(ty.Go) != typeKey(v.Ty.Go) {
				return
			}
			if ty.Go != nil && v.Ty.Go != nil && ty.Sort == SInt {
				_, b1 := types.Unalias(ty.Go).Underlying().(*types.Basic)
				_, b2 := types.Unalias(v.Ty.Go).Underlying().(*types.Basic)
				if b1 != b2 {
					return
				}
				if !b1 && typeKey(ty.Go) != typeKey(v.Ty.Go) {
					return
				}
			}
			seen[v.T.S] = true
			if pref {
				byName = append(byName, f)
			} else {
				cs = append(cs, f)
			}
		}
		name := h.Name
		add(true, func(st *State) (SV, bool) {
			c := &Ctx{x: x, st: st, fr: fr, useLocals: true}
			var v SV
			ok := false
			if catch(func() { v, ok = c.local(name) }) != nil {
				return SV{}, false
			}
			return v, ok
		})
		for i := 0; i < countPhis(hdr); i++ {
			p := hdr.Instrs[i].(*ssa.Phi)
			get := func(st *State) (Val, bool) { v, ok := st.env[envKey{fr.id, p}]; return v, ok && v.T.Sort != "" }
			add(false, func(st *State) (SV, bool) {
				v, ok := get(st)
				if !ok {
					return SV{}, false
				}
				return SV{T: v.T, Ty: x.goST(p.Type())}, true
			})
			if x.W.sort(p.Type()) == SInt {
				if _, ok := types.Unalias(p.Type()).Underlying().(*types.Basic); ok {
					add(false, func(st *State) (SV, bool) {
						v, ok := get(st)
						if !ok {
							return SV{}, false
						}
						return SV{T: add1(v.T), Ty: intST}, true
					})
				}
			}
		}
		// other named locals
		var names []string
		for n := range hs.names[fr.id] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			n := strings.TrimPrefix(n, "&")
			add(false, func(st *State) (SV, bool) {
				c := &Ctx{x: x, st: st, fr: fr, useLocals: true}
				var v SV
				ok := false
				if catch(func() { v, ok = c.local(n) }) != nil {
					return SV{}, false
				}
				return v, ok
			})
		}
		all := append(byName, cs...)
		if len(all) > 14 {
			all = all[:14]
		}
		choices = append(choices, all)
	}
	combos := [][]holeFn{{}}
	for _, ch := range choices {
		var n [][]holeFn
		for _, c := range combos {
			for _, f := range ch {
				n = append(n, append(append([]holeFn(nil), c...), f))
			}
		}
		combos = n
		if len(combos) > 200 {
			combos = combos[:200]
		}
	}
	return combos
}

func add1(t Term) Term { return add(t, num(1)) }

// dropNote tells (when asked to) which candidate invariants do not hold.
func dropNote(x *Exec, fr *frame, hdr *ssa.BasicBlock, c *cand, when string, q query) {
	if d := os.Getenv("GOCV_INV"); d != "" {
		p := ""
		for _, i := range hdr.Instrs {
			if i.Pos().IsValid() {
				p = x.pos(i.Pos())
				break
			}
		}
		f := ""
		if d != "1" {
			os.MkdirAll(d, 0o755)
			f = fmt.Sprintf("%s/%s-%s-%d.smt2", d, strings.ReplaceAll(c.name, " ", "_"), strings.ReplaceAll(when, " ", "_"), len(p)+len(q.goal.S))
			os.WriteFile(f, []byte(x.queryText(q)), 0o644)
		}
		fmt.Fprintf(os.Stderr, "DROP %s %s probe=%d loop %s %s %s\n", fr.fn.Name(), c.name, x.probe, p, when, f)
	}
}

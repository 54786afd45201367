package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Branches that only compute values (no call, no write) are joined again where they
// meet, so that they do not multiply the paths. The joined state keeps every
// assumption of each branch under a guard, exactly one of which holds.

type arrival struct {
	st   *State
	from *ssa.BasicBlock
}

func simpleBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 40 {
		return false
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.UnOp, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Extract, *ssa.Lookup, *ssa.Jump, *ssa.If, *ssa.DebugRef:
			if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
				return false
			}
		case *ssa.Call:
			f, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || (f.Name() != "len" && f.Name() != "cap") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// mergePoint: where the branches of the If ending b meet again, if they only compute values.
func (x *Exec) mergePoint(fr *frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	if j, ok := x.merges[b]; ok {
		return j
	}
	if x.merges == nil {
		x.merges = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	x.merges[b] = nil
	region := map[*ssa.BasicBlock]bool{}
	for n := 0; n < 12; n++ {
		exits := map[*ssa.BasicBlock]bool{}
		for _, s := range b.Succs {
			exits[s] = true
		}
		for r := range region {
			for _, s := range r.Succs {
				exits[s] = true
			}
		}
		var best *ssa.BasicBlock
		out := 0
		var exit *ssa.BasicBlock
		for e := range exits {
			if region[e] {
				continue
			}
			out++
			exit = e
			if e == b || fr.loops[e] != nil || !simpleBlock(e) {
				continue
			}
			ok := true
			for _, p := range e.Preds {
				if p != b && !region[p] {
					ok = false
				}
			}
			if ok && (best == nil || e.Index < best.Index) {
				best = e
			}
		}
		if out == 1 && len(region) > 0 {
			if exit == b || fr.loops[exit] != nil {
				return nil
			}
			x.merges[b] = exit
			return exit
		}
		if best == nil {
			return nil
		}
		region[best] = true
	}
	return nil
}

// mergeIf runs both branches up to j and joins them.
func (x *Exec) mergeIf(fr *frame, st *State, b, j *ssa.BasicBlock, c Term) {
	base := st.pc
	var arr []arrival
	s0, a0 := fr.stop, fr.arrive
	fr.stop = j
	fr.arrive = func(st *State, from *ssa.BasicBlock) { arr = append(arr, arrival{st, from}) }
	orig := st.clone()
	s2 := st.clone()
	st.assume(c)
	x.enter(fr, st, b, b.Succs[0])
	s2.assume(not(c))
	x.enter(fr, s2, b, b.Succs[1])
	fr.stop, fr.arrive = s0, a0
	if len(arr) == 0 {
		return
	}
	m := x.joinStates(fr, orig, base, arr, j)
	if m == nil {
		for _, a := range arr {
			x.enter(fr, a.st, a.from, j)
		}
		return
	}
	x.run(fr, m, j, countPhis(j))
}

func (x *Exec) joinStates(fr *frame, orig *State, base *node, arr []arrival, j *ssa.BasicBlock) *State {
	if len(arr) < 2 || fr.stop == j {
		return nil
	}
	// nothing may have been written
	heaps := map[string]Term{}
	for k, v := range orig.heaps {
		heaps[k] = v
	}
	for _, a := range arr {
		if a.st.alloc.S != orig.alloc.S {
			return nil
		}
		for k, v := range a.st.heaps {
			if h, ok := heaps[k]; ok && h.S != v.S {
				return nil
			}
			heaps[k] = v
		}
	}
	var phis [][]Val
	np := countPhis(j)
	for _, a := range arr {
		vs := x.phiVals(fr, a.st, a.from, j)
		for _, v := range vs {
			if v.Tup != nil || v.Rng != nil || v.T.Sort == "Tuple" || v.T.S == "" {
				return nil
			}
		}
		phis = append(phis, vs)
	}
	for i := 0; i < np; i++ {
		for k := 1; k < len(arr); k++ {
			a, b := phis[0][i], phis[k][i]
			if a.T.S != b.T.S && (a.Loc != nil || b.Loc != nil || a.Fn != nil || b.Fn != nil || x.locOf[a.T.S] != nil || x.locOf[b.T.S] != nil || a.T.Sort != b.T.Sort) {
				return nil
			}
		}
	}
	m := orig
	m.heaps = heaps
	for _, a := range arr {
		if a.st.steps > m.steps {
			m.steps = a.st.steps
		}
	}
	var guards []Term
	declared := map[*node]bool{}
	for _, a := range arr {
		g := x.fresh(m, SBool, "via")
		guards = append(guards, g)
		var ns []*node
		for n := a.st.pc; n != base && n != nil; n = n.up {
			ns = append(ns, n)
		}
		for i := len(ns) - 1; i >= 0; i-- {
			n := ns[i]
			switch {
			case n.text == "":
			case len(n.text) > 8 && n.text[:8] == "(assert ":
				m.pc = &node{up: m.pc, text: "(assert (=> " + g.S + " " + n.text[8:len(n.text)-1] + "))"}
			default:
				if !declared[n] {
					declared[n] = true
					m.pc = &node{up: m.pc, text: n.text}
				}
			}
		}
	}
	or := "(or"
	for _, g := range guards {
		or += " " + g.S
	}
	m.pc = &node{up: m.pc, text: "(assert " + or + "))"}
	m.note("%s: branches that only compute values are joined here", x.pos(j.Instrs[0].Pos()))
	// names on which every branch agrees
	names := map[string]Val{}
	for n, v := range arr[0].st.names[fr.id] {
		same := true
		for _, a := range arr[1:] {
			if w, ok := a.st.names[fr.id][n]; !ok || w.T.S != v.T.S {
				same = false
			}
		}
		if same {
			names[n] = v
		}
	}
	m.names[fr.id] = names
	var vs []Val
	for i := 0; i < np; i++ {
		v := phis[len(arr)-1][i]
		t := v.T
		for k := len(arr) - 2; k >= 0; k-- {
			t = ite(guards[k], phis[k][i].T, t)
		}
		if t.S != v.T.S {
			n := x.fresh(m, t.Sort, "join")
			m.assume(Term{fmt.Sprintf("(= %s %s)", n.S, t.S), SBool})
			v = Val{T: n, Typ: v.Typ}
		}
		vs = append(vs, v)
	}
	x.setPhis(fr, m, j, vs)
	return m
}

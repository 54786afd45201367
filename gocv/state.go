package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// node is a persistent list of declarations and assumptions along a path.
type node struct {
	up   *node
	text string // an SMT command
	note string // human readable trace entry
}

type Loc struct {
	Heap string
	Ref  Term
	Idx  *Term
	Typ  types.Type // type of the stored value
	Path []pathElem // fields inside a struct stored by value
}

type pathElem struct {
	t types.Type
	i int
}

type Val struct {
	T     Term
	Loc   *Loc
	Tup   []Val
	Fn    *ssa.Function
	Binds []Val
	Rng   *rangeIter
	Typ   types.Type
}

type rangeIter struct {
	key  string // state heap with the visited set
	m    Term
	typ  *types.Map
	dom0 Term
	str  bool
	pos  string
}

type envKey struct {
	fr int
	v  ssa.Value
}

type loopKey struct {
	fr int
	h  *ssa.BasicBlock
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type State struct {
	heaps  map[string]Term
	env    map[envKey]Val
	names  map[int]map[string]Val
	pc     *node
	known  map[string]bool
	alloc  Term
	loops  map[loopKey]*loopCtx
	defers map[int][]deferred
	steps  int
	fnCells map[string]Val
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, steps: s.steps}
	n.heaps = make(map[string]Term, len(s.heaps)+4)
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.env = make(map[envKey]Val, len(s.env)+16)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.known = make(map[string]bool, len(s.known)+4)
	for k, v := range s.known {
		n.known[k] = v
	}
	n.fnCells = make(map[string]Val, len(s.fnCells))
	for k, v := range s.fnCells {
		n.fnCells[k] = v
	}
	n.names = map[int]map[string]Val{}
	for k, v := range s.names {
		m := make(map[string]Val, len(v)+2)
		for a, b := range v {
			m[a] = b
		}
		n.names[k] = m
	}
	n.loops = map[loopKey]*loopCtx{}
	for k, v := range s.loops {
		n.loops[k] = v
	}
	n.defers = map[int][]deferred{}
	for k, v := range s.defers {
		n.defers[k] = append([]deferred(nil), v...)
	}
	return n
}

func (s *State) assume(t Term) {
	if t.S == "true" || s.known[t.S] {
		return
	}
	s.known[t.S] = true
	s.pc = &node{up: s.pc, text: "(assert " + t.S + ")"}
}

func (s *State) note(f string, a ...interface{}) {
	s.pc = &node{up: s.pc, note: fmt.Sprintf(f, a...)}
}

func (x *Exec) fresh(st *State, sort, hint string) Term {
	x.n++
	name := fmt.Sprintf("%s!%d", regexp.MustCompile(`[^A-Za-z0-9_.]`).ReplaceAllString(hint, "_"), x.n)
	if name[0] >= '0' && name[0] <= '9' {
		name = "v" + name
	}
	st.pc = &node{up: st.pc, text: fmt.Sprintf("(declare-const %s %s)", name, sort)}
	return Term{name, sort}
}

var reSym = regexp.MustCompile(`!(\d+)`)

func newestSym(s string) int {
	m := 0
	for _, g := range reSym.FindAllStringSubmatch(s, -1) {
		n, _ := strconv.Atoi(g[1])
		if n > m {
			m = n
		}
	}
	return m
}

// ---- heaps

func (x *Exec) heapSort(name string) string {
	if s, ok := x.hsort[name]; ok {
		return s
	}
	panic(specErr("unknown heap " + name))
}

func (x *Exec) heap(st *State, name string, sort string) Term {
	x.hsort[name] = sort
	if h, ok := st.heaps[name]; ok {
		return h
	}
	n := q("h0:" + name)
	if !x.declared[n] {
		x.declared[n] = true
		x.globals = append(x.globals, fmt.Sprintf("(declare-const %s %s)", n, sort))
	}
	return Term{n, sort}
}

// setHeap installs a new version of a heap.
func (x *Exec) setHeap(st *State, name string, v Term) {
	if len(v.S) > 40 {
		h := x.fresh(st, v.Sort, "h."+lastPart(name))
		st.assume(T(SBool, "(= %s %s)", h.S, v.S))
		v = h
	}
	st.heaps[name] = v
}

func lastPart(s string) string {
	if i := strings.LastIndexAny(s, "./!"); i >= 0 {
		return s[i+1:]
	}
	return s
}

type write struct {
	heap string
	ref  Term // "" = whole heap
}

func (x *Exec) recordWrite(heap string, ref Term) {
	for _, r := range x.recorders {
		*r = append(*r, write{heap, ref})
	}
}

func (x *Exec) fieldHeap(structT types.Type, i int) (string, types.Type) {
	st := types.Unalias(structT).Underlying().(*types.Struct)
	f := st.Field(i)
	name := "F!" + typeKey(structT) + "!" + f.Name()
	x.hsort[name] = arr(SInt, x.W.sort(f.Type()))
	return name, f.Type()
}

func (x *Exec) elemHeap(t types.Type) string {
	name := "E!" + heapKey(t)
	x.hsort[name] = arr(SInt, arr(SInt, x.W.sort(t)))
	return name
}

func (x *Exec) cellHeap(t types.Type) string {
	name := "C!" + heapKey(t)
	x.hsort[name] = arr(SInt, x.W.sort(t))
	return name
}

func (x *Exec) mapHeaps(m *types.Map) (dom, val, ln string) {
	k, v := x.W.sort(m.Key()), x.W.sort(m.Elem())
	kk := typeKey(m.Key()) + "!" + typeKey(m.Elem())
	dom, val, ln = "MD!"+kk, "MV!"+kk, "ML!"+kk
	x.hsort[dom] = arr(SInt, arr(k, SBool))
	x.hsort[val] = arr(SInt, arr(k, v))
	x.hsort[ln] = arr(SInt, SInt)
	return
}

func (x *Exec) load(st *State, l *Loc) Term {
	h := x.heap(st, l.Heap, x.hsort[l.Heap])
	v := h
	if !strings.HasPrefix(l.Heap, "G!") {
		v = sel(h, l.Ref)
		if l.Idx != nil {
			v = sel(v, *l.Idx)
		}
	}
	for _, p := range l.Path {
		v = x.structGet(v, p.t, p.i)
	}
	return v
}

// structSet rebuilds a struct value with the field at path replaced.
func (x *Exec) structSet(cur Term, path []pathElem, v Term) Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	si := x.W.structOf(p.t)
	var args []Term
	for i := 0; i < si.st.NumFields(); i++ {
		f := x.structGet(cur, p.t, i)
		if i == p.i {
			f = x.structSet(f, path[1:], v)
		}
		args = append(args, f)
	}
	return app(si.sort, q("mk:"+si.key), args...)
}

func (x *Exec) storeLoc(st *State, l *Loc, v Term) {
	h := x.heap(st, l.Heap, x.hsort[l.Heap])
	if len(l.Path) > 0 {
		l2 := *l
		l2.Path = nil
		v = x.structSet(x.load(st, &l2), l.Path, v)
	}
	x.recordWrite(l.Heap, l.Ref)
	delete(st.fnCells, l.Heap+"@"+l.Ref.S)
	if strings.HasPrefix(l.Heap, "G!") {
		x.setHeap(st, l.Heap, v)
		return
	}
	if l.Idx != nil {
		v = store(sel(h, l.Ref), *l.Idx, v)
	}
	x.setHeap(st, l.Heap, store(h, l.Ref, v))
}

// structured access: pointer p to a struct type
func (x *Exec) loadStruct(st *State, ref Term, t types.Type) Term {
	si := x.W.structOf(t)
	var args []Term
	for i := 0; i < si.st.NumFields(); i++ {
		args = append(args, x.loadField(st, ref, t, i))
	}
	if len(args) == 0 {
		return Term{q("mk:" + si.key), si.sort}
	}
	return app(si.sort, q("mk:"+si.key), args...)
}

func (x *Exec) fieldIsStruct(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Struct)
	return ok
}

func (x *Exec) fieldRef(structT types.Type, i int, ref Term) Term {
	st := types.Unalias(structT).Underlying().(*types.Struct)
	f := q("fa:" + typeKey(structT) + "." + st.Field(i).Name())
	x.W.faFns[f] = true
	return app(SInt, f, ref)
}

func (x *Exec) loadField(st *State, ref Term, t types.Type, i int) Term {
	ft := types.Unalias(t).Underlying().(*types.Struct).Field(i).Type()
	if x.fieldIsStruct(ft) {
		return x.loadAt(st, x.fieldRef(t, i, ref), ft)
	}
	h, _ := x.fieldHeap(t, i)
	return x.load(st, &Loc{Heap: h, Ref: ref, Typ: ft})
}

// loadAt reads the value of type t stored at address ref (ref is a plain pointer term).
func (x *Exec) loadAt(st *State, ref Term, t types.Type) Term {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		if isRepoOrAnonStruct(t) {
			return x.loadStruct(st, ref, t)
		}
	case *types.Array:
		return sel(x.heap(st, x.elemHeap(u.Elem()), arr(SInt, arr(SInt, x.W.sort(u.Elem())))), ref)
	}
	return x.load(st, &Loc{Heap: x.cellHeap(t), Ref: ref, Typ: t})
}

func (x *Exec) storeAt(st *State, ref Term, t types.Type, v Term) {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		if isRepoOrAnonStruct(t) {
			si := x.W.structOf(t)
			for i := 0; i < si.st.NumFields(); i++ {
				ft := si.st.Field(i).Type()
				fv := app(x.W.sort(ft), q("get:"+si.key+"."+si.fields[i]), v)
				if strings.HasPrefix(v.S, "("+q("mk:"+si.key)+" ") {
					p := splitTop(v.S[len(q("mk:"+si.key))+2 : len(v.S)-1])
					fv = Term{p[i], x.W.sort(ft)}
				}
				if x.fieldIsStruct(ft) {
					x.storeAt(st, x.fieldRef(t, i, ref), ft, fv)
				} else {
					h, _ := x.fieldHeap(t, i)
					x.storeLoc(st, &Loc{Heap: h, Ref: ref, Typ: ft}, fv)
				}
			}
			return
		}
	case *types.Array:
		hn := x.elemHeap(u.Elem())
		h := x.heap(st, hn, x.hsort[hn])
		x.recordWrite(hn, ref)
		x.setHeap(st, hn, store(h, ref, v))
		return
	}
	x.storeLoc(st, &Loc{Heap: x.cellHeap(t), Ref: ref, Typ: t}, v)
}

// ptrTerm gives a term for a pointer value that may be symbolic.
func (x *Exec) ptrTerm(v Val) Term {
	if v.Loc == nil {
		return v.T
	}
	l := v.Loc
	if len(l.Path) > 0 {
		x.unsup("address of a field of a struct held by value")
	}
	switch {
	case l.Idx != nil:
		f := q("ea:" + l.Heap)
		x.W.faFns[f] = true
		t := app(SInt, f, l.Ref, *l.Idx)
		x.locOf[t.S] = l
		return t
	case strings.HasPrefix(l.Heap, "C!"):
		return l.Ref
	case strings.HasPrefix(l.Heap, "G!"):
		f := q("ga:" + l.Heap)
		if !x.declared[f] {
			x.declared[f] = true
			x.globals = append(x.globals, fmt.Sprintf("(declare-const %s Int)\n(assert (< %s 0))", f, f))
		}
		t := Term{f, SInt}
		x.locOf[t.S] = l
		return t
	}
	f := q("fa:" + strings.TrimPrefix(l.Heap, "F!"))
	x.W.faFns[f] = true
	t := app(SInt, f, l.Ref)
	x.locOf[t.S] = l
	return t
}

// newRef allocates a fresh reference.
func (x *Exec) newRef(st *State, hint string) Term {
	r := x.fresh(st, SInt, hint)
	st.assume(T(SBool, "(= %s (+ %s 1))", r.S, st.alloc.S))
	st.assume(T(SBool, "(> %s 0)", r.S))
	st.alloc = r
	x.allocated[r.S] = true
	return r
}

// typeFacts are the facts every Go value of type t satisfies.
func (x *Exec) typeFacts(st *State, v Term, t types.Type) Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok {
			if isNum(v.S) {
				return tTrue
			}
			return T(SBool, "(and (<= %s %s) (<= %s %s))", lo, v.S, v.S, hi)
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		if v.Sort == SInt && !isNum(v.S) && !x.allocated[v.S] {
			if _, isP := u.(*types.Pointer); isP {
				return T(SBool, "(<= %s %s)", v.S, st.alloc.S)
			}
			return T(SBool, "(<= %s %s)", v.S, st.alloc.S)
		}
	case *types.Slice:
		if strings.HasPrefix(v.S, "(mkSlice ") {
			return tTrue
		}
		b, o, l, c := sBase(v), sOff(v), sLen(v), sCap(v)
		return T(SBool, "(and (<= 0 %s) (<= %s %s) (<= 0 %s) (<= 0 %s) (<= %s %s) (=> (= %s 0) (and (= %s 0) (= %s 0))))", b.S, b.S, st.alloc.S, o.S, l.S, l.S, c.S, b.S, c.S, o.S)
	case *types.Interface:
		if v.S == "ANil" || strings.HasPrefix(v.S, "(A") {
			return tTrue
		}
		return T(SBool, "(and (=> ((_ is ARef) %[1]s) (<= (ar %[1]s) %[2]s)) (=> ((_ is ASl) %[1]s) (and (<= 0 (sbase (al %[1]s))) (<= (sbase (al %[1]s)) %[2]s) (<= 0 (soff (al %[1]s))) (<= 0 (slen (al %[1]s))) (<= (slen (al %[1]s)) (scap (al %[1]s))))))", v.S, st.alloc.S)
	}
	return tTrue
}

func intRange(b *types.Basic) (lo, hi string, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64:
		return "(- 9223372036854775808)", "9223372036854775807", true
	case types.Int32:
		return "(- 2147483648)", "2147483647", true
	case types.Int16:
		return "(- 32768)", "32767", true
	case types.Int8:
		return "(- 128)", "127", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint8:
		return "0", "255", true
	}
	return "", "", false
}

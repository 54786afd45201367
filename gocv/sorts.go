package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// Term is an SMT-LIB term with its sort.
type Term struct {
	S    string
	Sort string
}

func T(sort, f string, a ...interface{}) Term { return Term{fmt.Sprintf(f, a...), sort} }

const (
	SInt   = "Int"
	SBool  = "Bool"
	SStr   = "Str"
	SFlt   = "Flt"
	SSlice = "Slice"
	SAny   = "Any"
)

var (
	tTrue  = Term{"true", SBool}
	tFalse = Term{"false", SBool}
)

func num(n int64) Term {
	if n < 0 {
		return Term{fmt.Sprintf("(- %d)", -n), SInt}
	}
	return Term{fmt.Sprintf("%d", n), SInt}
}

func not(t Term) Term {
	switch {
	case t.S == "true":
		return tFalse
	case t.S == "false":
		return tTrue
	case strings.HasPrefix(t.S, "(not ") && balanced(t.S[5:len(t.S)-1]):
		return Term{t.S[5 : len(t.S)-1], SBool}
	}
	return T(SBool, "(not %s)", t.S)
}

func balanced(s string) bool {
	d := 0
	q := false
	for _, c := range s {
		if c == '|' {
			q = !q
		}
		if q {
			continue
		}
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
			if d < 0 {
				return false
			}
		}
		if c == ' ' && d == 0 {
			return false
		}
	}
	return d == 0
}

func and(ts ...Term) Term {
	var r []string
	for _, t := range ts {
		if t.S == "true" {
			continue
		}
		if t.S == "false" {
			return tFalse
		}
		r = append(r, t.S)
	}
	switch len(r) {
	case 0:
		return tTrue
	case 1:
		return Term{r[0], SBool}
	}
	return Term{"(and " + strings.Join(r, " ") + ")", SBool}
}

func or(ts ...Term) Term {
	var r []string
	for _, t := range ts {
		if t.S == "false" {
			continue
		}
		if t.S == "true" {
			return tTrue
		}
		r = append(r, t.S)
	}
	switch len(r) {
	case 0:
		return tFalse
	case 1:
		return Term{r[0], SBool}
	}
	return Term{"(or " + strings.Join(r, " ") + ")", SBool}
}

func implies(a, b Term) Term {
	if a.S == "true" {
		return b
	}
	if a.S == "false" || b.S == "true" {
		return tTrue
	}
	return T(SBool, "(=> %s %s)", a.S, b.S)
}

func eq(a, b Term) Term {
	if a.S == b.S {
		return tTrue
	}
	if isNum(a.S) && isNum(b.S) {
		return tFalse
	}
	return T(SBool, "(= %s %s)", a.S, b.S)
}

var reNum = regexp.MustCompile(`^(\d+|\(- \d+\))$`)

func isNum(s string) bool { return reNum.MatchString(s) }

func ite(c, a, b Term) Term {
	if c.S == "true" {
		return a
	}
	if c.S == "false" {
		return b
	}
	if a.S == b.S {
		return a
	}
	return T(a.Sort, "(ite %s %s %s)", c.S, a.S, b.S)
}

func app(sort, f string, args ...Term) Term {
	if len(args) == 0 {
		return Term{f, sort}
	}
	var b strings.Builder
	b.WriteString("(" + f)
	for _, a := range args {
		b.WriteString(" " + a.S)
	}
	b.WriteString(")")
	return Term{b.String(), sort}
}

// arrSort parses "(Array K V)".
func arrSort(s string) (k, v string) {
	if !strings.HasPrefix(s, "(Array ") {
		return "", ""
	}
	in := s[7 : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
		}
		if c == ' ' && d == 0 {
			return in[:i], in[i+1:]
		}
	}
	return "", ""
}

func sel(a, i Term) Term {
	_, v := arrSort(a.Sort)
	if v == "" {
		panic(specErr("select on non-array " + a.S + " : " + a.Sort))
	}
	// select over a syntactic store on the same index
	return T(v, "(select %s %s)", a.S, i.S)
}

func store(a, i, v Term) Term { return T(a.Sort, "(store %s %s %s)", a.S, i.S, v.S) }

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

func sBase(s Term) Term { return slicePart("sbase", s) }
func sOff(s Term) Term  { return slicePart("soff", s) }
func sLen(s Term) Term  { return slicePart("slen", s) }
func sCap(s Term) Term  { return slicePart("scap", s) }

func slicePart(f string, s Term) Term {
	if strings.HasPrefix(s.S, "(mkSlice ") {
		parts := splitTop(s.S[9 : len(s.S)-1])
		if len(parts) == 4 {
			switch f {
			case "sbase":
				return Term{parts[0], SInt}
			case "soff":
				return Term{parts[1], SInt}
			case "slen":
				return Term{parts[2], SInt}
			case "scap":
				return Term{parts[3], SInt}
			}
		}
	}
	return app(SInt, f, s)
}

func splitTop(s string) []string {
	var r []string
	d, st := 0, 0
	q := false
	for i, c := range s {
		if c == '|' {
			q = !q
		}
		if q {
			continue
		}
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				r = append(r, s[st:i])
				st = i + 1
			}
		}
	}
	return append(r, s[st:])
}

func mkSlice(b, o, l, c Term) Term { return app(SSlice, "mkSlice", b, o, l, c) }

var nilSlice = Term{"(mkSlice 0 0 0 0)", SSlice}
var nilAny = Term{"ANil", SAny}

func add(a, b Term) Term {
	if b.S == "0" {
		return a
	}
	if a.S == "0" {
		return b
	}
	if x, ok := lit(a); ok {
		if y, ok := lit(b); ok {
			return num(x + y)
		}
	}
	return T(SInt, "(+ %s %s)", a.S, b.S)
}
func sub(a, b Term) Term {
	if b.S == "0" {
		return a
	}
	if x, ok := lit(a); ok {
		if y, ok := lit(b); ok {
			return num(x - y)
		}
	}
	if a.S == b.S {
		return num(0)
	}
	return T(SInt, "(- %s %s)", a.S, b.S)
}
func lit(t Term) (int64, bool) {
	var x int64
	if len(t.S) > 17 {
		return 0, false
	}
	if strings.HasPrefix(t.S, "(- ") {
		if n, _ := fmt.Sscanf(t.S, "(- %d)", &x); n == 1 && isNum(t.S) {
			return -x, true
		}
		return 0, false
	}
	if isNum(t.S) {
		fmt.Sscanf(t.S, "%d", &x)
		return x, true
	}
	return 0, false
}
func le(a, b Term) Term { return cmpT("<=", a, b) }
func lt(a, b Term) Term { return cmpT("<", a, b) }
func cmpT(op string, a, b Term) Term {
	if x, ok := lit(a); ok {
		if y, ok := lit(b); ok {
			r := false
			switch op {
			case "<=":
				r = x <= y
			case "<":
				r = x < y
			case ">":
				r = x > y
			case ">=":
				r = x >= y
			}
			if r {
				return tTrue
			}
			return tFalse
		}
	}
	return T(SBool, "(%s %s %s)", op, a.S, b.S)
}

type specErr string

func (e specErr) Error() string { return string(e) }

func q(s string) string { return "|" + strings.Map(func(r rune) rune {
	if r == '|' || r == '\\' {
		return '!'
	}
	return r
}, s) + "|" }

// ---------------------------------------------------------------- Go types

// World holds the sort declarations and type identifiers needed so far.
type World struct {
	structs map[string]*structInfo // repo struct types by key
	order   []string
	tags    map[string]int
	tagKind map[string]string
	strLits map[string]string // literal -> const name
	strOrd  []string
	opaque  map[string]bool
	faFns   map[string]bool
	boxes   map[string]string // box function sort by tag name
	fnIDs   map[string]int
	fltLits map[string]string
	logic   map[string]*LogicFn
	tagType map[string]types.Type
	implKeys map[string]*types.Interface
}

type structInfo struct {
	key    string
	st     *types.Struct
	sort   string
	fields []string
}

func newWorld() *World {
	return &World{structs: map[string]*structInfo{}, tags: map[string]int{}, tagKind: map[string]string{}, strLits: map[string]string{},
		opaque: map[string]bool{}, faFns: map[string]bool{}, boxes: map[string]string{}, fnIDs: map[string]int{}, fltLits: map[string]string{}, logic: map[string]*LogicFn{}, tagType: map[string]types.Type{}, implKeys: map[string]*types.Interface{}}
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return "byte"
		case types.Int32:
			return "int32"
		}
		return strings.TrimPrefix(u.Name(), "untyped ")
	case *types.Named:
		s := u.Obj().Name()
		if p := u.Obj().Pkg(); p != nil {
			s = shortPath(p.Path()) + "." + s
		}
		return s
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeKey(u.Elem()))
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "any"
		}
	case *types.Signature:
		var a, r []string
		for i := 0; i < u.Params().Len(); i++ {
			a = append(a, typeKey(u.Params().At(i).Type()))
		}
		for i := 0; i < u.Results().Len(); i++ {
			r = append(r, typeKey(u.Results().At(i).Type()))
		}
		return "func(" + strings.Join(a, ",") + ")(" + strings.Join(r, ",") + ")"
	}
	return shortPath(types.TypeString(t, nil))
}

// elemKey keys heaps by the underlying representation for basic types.
func heapKey(t types.Type) string {
	t = types.Unalias(t)
	return typeKey(t)
}

func isRepoOrAnonStruct(t types.Type) bool {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); !ok {
			return false
		}
		p := n.Obj().Pkg()
		if p == nil {
			return false
		}
		if strings.HasPrefix(p.Path(), "github.com/rodb-io/rodb/") {
			return true
		}
		// foreign structs whose exported fields the code uses directly
		return exposedForeign[p.Path()+"."+n.Obj().Name()]
	}
	_, ok := t.(*types.Struct)
	return ok
}

var exposedForeign = map[string]bool{"encoding/csv.Reader": true, "net/http.Request": true, "net/url.URL": true, "net/http.Server": true}

func (w *World) structOf(t types.Type) *structInfo {
	t = types.Unalias(t)
	k := typeKey(t)
	if s, ok := w.structs[k]; ok {
		return s
	}
	st := t.Underlying().(*types.Struct)
	si := &structInfo{key: k, st: st, sort: q("S:" + k)}
	w.structs[k] = si
	for i := 0; i < st.NumFields(); i++ {
		si.fields = append(si.fields, st.Field(i).Name())
		w.sort(st.Field(i).Type())
	}
	w.order = append(w.order, k)
	return si
}

func (w *World) sort(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		}
		return SInt
	case *types.Pointer, *types.Signature, *types.Chan, *types.Map:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SAny
	case *types.Array:
		return arr(SInt, w.sort(u.Elem()))
	case *types.Struct:
		if isRepoOrAnonStruct(t) {
			return w.structOf(t).sort
		}
		s := q("O:" + typeKey(t))
		w.opaque[s] = true
		return s
	case *types.Tuple:
		return "Tuple"
	}
	return SInt
}

func (w *World) tag(t types.Type) int {
	t = types.Unalias(t)
	k := typeKey(t)
	if n, ok := w.tags[k]; ok {
		return n
	}
	n := len(w.tags) + 1
	w.tags[k] = n
	w.tagType[k] = t
	switch t.Underlying().(type) {
	case *types.Map, *types.Signature, *types.Slice:
		w.tagKind[k] = "uncomparable"
	default:
		w.tagKind[k] = "comparable"
	}
	return n
}

func (w *World) zero(t types.Type) Term {
	t = types.Unalias(t)
	s := w.sort(t)
	switch s {
	case SInt:
		return num(0)
	case SBool:
		return tFalse
	case SStr:
		return w.str("")
	case SFlt:
		return Term{"fltZero", SFlt}
	case SSlice:
		return nilSlice
	case SAny:
		return nilAny
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return T(s, "((as const %s) %s)", s, w.zero(a.Elem()).S)
	}
	if strings.HasPrefix(s, "|S:") {
		si := w.structOf(t)
		var args []Term
		for i := 0; i < si.st.NumFields(); i++ {
			args = append(args, w.zero(si.st.Field(i).Type()))
		}
		if len(args) == 0 {
			return Term{q("mk:" + si.key), s}
		}
		return app(s, q("mk:"+si.key), args...)
	}
	return Term{q("zero:" + strings.Trim(s, "|")), s}
}

func (w *World) str(s string) Term {
	if n, ok := w.strLits[s]; ok {
		return Term{n, SStr}
	}
	d := s
	if len(d) > 24 {
		d = d[:24]
	}
	d = regexp.MustCompile(`[^A-Za-z0-9_.,:/ -]`).ReplaceAllString(d, "_")
	n := q(fmt.Sprintf("str%d:%s", len(w.strLits), d))
	w.strLits[s] = n
	w.strOrd = append(w.strOrd, s)
	return Term{n, SStr}
}

func (w *World) flt(s string) Term {
	if n, ok := w.fltLits[s]; ok {
		return Term{n, SFlt}
	}
	if s == "0" {
		return Term{"fltZero", SFlt}
	}
	n := q("flt:" + s)
	w.fltLits[s] = n
	return Term{n, SFlt}
}

func (w *World) fnID(k string) int {
	if n, ok := w.fnIDs[k]; ok {
		return n
	}
	w.fnIDs[k] = len(w.fnIDs) + 1
	return w.fnIDs[k]
}

// toAny boxes a value of static (non-interface) type t.
func (w *World) toAny(v Term, t types.Type) Term {
	if v.Sort == SAny {
		return v
	}
	tag := num(int64(w.tag(t)))
	switch v.Sort {
	case SInt:
		switch types.Unalias(t).Underlying().(type) {
		case *types.Basic:
			return app(SAny, "AInt", tag, v)
		}
		return app(SAny, "ARef", tag, v)
	case SBool:
		return app(SAny, "ABool", tag, v)
	case SStr:
		return app(SAny, "AStr", tag, v)
	case SFlt:
		return app(SAny, "AFlt", tag, v)
	case SSlice:
		return app(SAny, "ASl", tag, v)
	}
	w.boxes[v.Sort] = v.Sort
	return app(SAny, "AOp", tag, app(SInt, boxName(v.Sort), v))
}

func boxName(s string) string   { return q("box:" + strings.ReplaceAll(s, "|", "'")) }
func unboxName(s string) string { return q("unbox:" + strings.ReplaceAll(s, "|", "'")) }

// isType: the dynamic type of interface value a is exactly t.
func (w *World) isType(a Term, t types.Type) Term {
	tag := num(int64(w.tag(t)))
	c, tg := w.anyCons(t)
	return and(T(SBool, "((_ is %s) %s)", c, a.S), eq(app(SInt, tg, a), tag))
}

func (w *World) anyCons(t types.Type) (string, string) {
	switch w.sort(t) {
	case SInt:
		if _, ok := types.Unalias(t).Underlying().(*types.Basic); ok {
			return "AInt", "aiT"
		}
		return "ARef", "arT"
	case SBool:
		return "ABool", "abT"
	case SStr:
		return "AStr", "asT"
	case SFlt:
		return "AFlt", "afT"
	case SSlice:
		return "ASl", "alT"
	}
	return "AOp", "aoT"
}

func (w *World) fromAny(a Term, t types.Type) Term {
	s := w.sort(t)
	switch s {
	case SAny:
		return a
	case SInt:
		if _, ok := types.Unalias(t).Underlying().(*types.Basic); ok {
			return anySel("AInt", "ai", SInt, a)
		}
		return anySel("ARef", "ar", SInt, a)
	case SBool:
		return anySel("ABool", "ab", SBool, a)
	case SStr:
		return anySel("AStr", "asv", SStr, a)
	case SFlt:
		return anySel("AFlt", "af", SFlt, a)
	case SSlice:
		return anySel("ASl", "al", SSlice, a)
	}
	w.boxes[s] = s
	return app(s, unboxName(s), app(SInt, "ao", a))
}

func anySel(cons, f, sort string, a Term) Term {
	if strings.HasPrefix(a.S, "("+cons+" ") {
		p := splitTop(a.S[len(cons)+2 : len(a.S)-1])
		if len(p) == 2 {
			return Term{p[1], sort}
		}
	}
	return app(sort, f, a)
}

// anyEq is Go's == on two interface values (assuming comparable).
func anyEq(a, b Term) Term {
	if a.S == "ANil" {
		return T(SBool, "((_ is ANil) %s)", b.S)
	}
	if b.S == "ANil" {
		return T(SBool, "((_ is ANil) %s)", a.S)
	}
	return app(SBool, "anyEq", a, b)
}

// preamble emits the background theory.
func (w *World) preamble() string {
	var b strings.Builder
	p := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	p("(declare-sort Str 0)")
	p("(declare-sort Flt 0)")
	p("(declare-datatypes ((Slice 0)) (((mkSlice (sbase Int) (soff Int) (slen Int) (scap Int)))))")
	p("(declare-datatypes ((Any 0)) (((ANil) (AInt (aiT Int) (ai Int)) (ABool (abT Int) (ab Bool)) (AStr (asT Int) (asv Str)) (AFlt (afT Int) (af Flt)) (ASl (alT Int) (al Slice)) (ARef (arT Int) (ar Int)) (AOp (aoT Int) (ao Int)))))")
	var ops []string
	for o := range w.opaque {
		ops = append(ops, o)
	}
	sort.Strings(ops)
	for _, o := range ops {
		p("(declare-sort %s 0)", o)
		p("(declare-const %s %s)", q("zero:"+strings.Trim(o, "|")), o)
	}
	for _, k := range w.order {
		si := w.structs[k]
		var fs []string
		for i, f := range si.fields {
			fs = append(fs, fmt.Sprintf("(%s %s)", q("get:"+k+"."+f), w.sort(si.st.Field(i).Type())))
		}
		p("(declare-datatypes ((%s 0)) (((%s %s))))", si.sort, q("mk:"+k), strings.Join(fs, " "))
	}
	return b.String()
}

// axiom groups: included only when one of the keys occurs in the query
type axGroup struct {
	keys []string
	text string
}

var bgDecls = `(declare-fun strLen (Str) Int)
(declare-fun strAt (Str Int) Int)
(declare-fun strId (Str) Int)
(declare-fun strCat (Str Str) Str)
(declare-fun strSub (Str Int Int) Str)
(declare-fun strLt (Str Str) Bool)
(declare-fun strDiff (Str Str) Int)
(declare-fun strRune (Str Int) Int)
(declare-fun strNext (Str Int) Int)
(declare-fun strOfRune (Int) Str)
(declare-fun strOf ((Array Int Int) Int Int) Str)
(declare-const fltZero Flt)
(declare-fun fltEq (Flt Flt) Bool)
(declare-fun fltLt (Flt Flt) Bool)
(declare-fun fltOp (Int Flt Flt) Flt)
(declare-fun fltOfInt (Int) Flt)
(declare-fun intOfFlt (Flt) Int)
(declare-fun uncomparableTag (Int) Bool)
(declare-fun fnOf (Int) Int)
(declare-fun faKind (Int) Int)
(declare-fun faBase (Int) Int)
(declare-fun faIdx (Int) Int)
(declare-fun faRoot (Int) Int)
(define-fun anyEq ((a Any) (b Any)) Bool (ite (and ((_ is AFlt) a) ((_ is AFlt) b)) (and (= (afT a) (afT b)) (fltEq (af a) (af b))) (= a b)))
(define-fun uncomparable ((a Any)) Bool (or ((_ is ASl) a) (and ((_ is ARef) a) (uncomparableTag (arT a))) (and ((_ is AOp) a) (uncomparableTag (aoT a)))))
(define-fun anyTag ((a Any)) Int (ite ((_ is AInt) a) (aiT a) (ite ((_ is ABool) a) (abT a) (ite ((_ is AStr) a) (asT a) (ite ((_ is AFlt) a) (afT a) (ite ((_ is ASl) a) (alT a) (ite ((_ is ARef) a) (arT a) (ite ((_ is AOp) a) (aoT a) 0))))))))
(define-fun u64 ((x Int)) Int (ite (< x 0) (+ x 18446744073709551616) x))
(define-fun s64 ((x Int)) Int (ite (>= x 9223372036854775808) (- x 18446744073709551616) x))
(define-fun goDiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun goMod ((a Int) (b Int)) Int (- a (* b (goDiv a b))))
(declare-fun bitOp (Int Int Int) Int)
`

var bgAxioms = []axGroup{
	{[]string{"faRoot"}, "(assert (forall ((r Int)) (! (=> (>= r 0) (= (faRoot r) r)) :pattern ((faRoot r)))))"},
	{[]string{"strLen"}, "(assert (forall ((s Str)) (! (>= (strLen s) 0) :pattern ((strLen s)))))"},
	{[]string{"strAt"}, "(assert (forall ((s Str) (i Int)) (! (and (<= 0 (strAt s i)) (< (strAt s i) 256)) :pattern ((strAt s i)))))"},
	{[]string{"strDiff"}, "(assert (forall ((a Str) (b Str)) (! (or (= a b) (not (= (strLen a) (strLen b))) (and (<= 0 (strDiff a b)) (< (strDiff a b) (strLen a)) (not (= (strAt a (strDiff a b)) (strAt b (strDiff a b)))))) :pattern ((strDiff a b)))))"},
	{[]string{"strCat"}, "(assert (forall ((a Str) (b Str)) (! (= (strLen (strCat a b)) (+ (strLen a) (strLen b))) :pattern ((strCat a b)))))\n(assert (forall ((a Str) (b Str) (i Int)) (! (= (strAt (strCat a b) i) (ite (< i (strLen a)) (strAt a i) (strAt b (- i (strLen a))))) :pattern ((strAt (strCat a b) i)))))"},
	{[]string{"strSub"}, "(assert (forall ((a Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (strLen a))) (= (strLen (strSub a i j)) (- j i))) :pattern ((strSub a i j)))))\n(assert (forall ((a Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (strLen a)) (<= 0 k) (< k (- j i))) (= (strAt (strSub a i j) k) (strAt a (+ i k)))) :pattern ((strAt (strSub a i j) k)))))"},
	{[]string{"strOf"}, "(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (strLen (strOf a o n)) n)) :pattern ((strOf a o n)))))\n(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select a (+ o i))) (< (select a (+ o i)) 256)) (= (strAt (strOf a o n) i) (select a (+ o i)))) :pattern ((strAt (strOf a o n) i)))))"},
	{[]string{"strLt"}, "(assert (forall ((a Str) (b Str)) (! (not (and (strLt a b) (strLt b a))) :pattern ((strLt a b)))))\n(assert (forall ((a Str) (b Str)) (! (or (= a b) (strLt a b) (strLt b a)) :pattern ((strLt a b)))))\n(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (strLt a b) (strLt b c)) (strLt a c)) :pattern ((strLt a b) (strLt b c)))))"},
	{[]string{"fltLt", "fltEq"}, `(declare-fun fltNaN (Flt) Bool)
(assert (forall ((a Flt)) (! (= (fltEq a a) (not (fltNaN a))) :pattern ((fltNaN a)))))
(assert (forall ((a Flt) (b Flt)) (! (and (= (fltEq a b) (fltEq b a)) (=> (fltEq a b) (not (fltNaN a))) (=> (fltEq a b) (not (fltNaN b))) (not (and (fltEq a b) (fltLt a b)))) :pattern ((fltEq a b)))))
(assert (forall ((a Flt) (b Flt)) (! (and (=> (fltLt a b) (not (fltLt b a))) (=> (fltLt a b) (and (not (fltNaN a)) (not (fltNaN b)) (not (fltEq a b)))) (=> (and (not (fltNaN a)) (not (fltNaN b))) (or (fltEq a b) (fltLt a b) (fltLt b a)))) :pattern ((fltLt a b)))))
(assert (forall ((a Flt) (b Flt) (c Flt)) (! (=> (and (fltLt a b) (fltLt b c)) (fltLt a c)) :pattern ((fltLt a b) (fltLt b c)))))
(assert (forall ((a Flt) (b Flt) (c Flt)) (! (=> (and (fltEq a b) (fltEq b c)) (fltEq a c)) :pattern ((fltEq a b) (fltEq b c)))))
(assert (forall ((a Flt) (b Flt) (c Flt)) (! (=> (and (fltEq a b) (fltLt b c)) (fltLt a c)) :pattern ((fltEq a b) (fltLt b c)))))`},
}

// tail emits literal facts and type-tag facts, given the symbols used.
func (w *World) facts(uses func(string) bool) string {
	var b strings.Builder
	p := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	useAt := uses("strAt") || uses("strOf") || uses("strDiff")
	useLen := uses("strLen")
	for i, s := range w.strOrd {
		n := w.strLits[s]
		if !uses(n) {
			continue
		}
		p("(declare-const %s Str)", n)
		p("(assert (= (strId %s) %d))", n, i+1)
		if useLen || useAt {
			p("(assert (= (strLen %s) %d))", n, len(s))
		}
		if useAt && len(s) <= 40 {
			for j := 0; j < len(s); j++ {
				p("(assert (= (strAt %s %d) %d))", n, j, s[j])
			}
		}
	}
	var fl []string
	for _, n := range w.fltLits {
		fl = append(fl, n)
	}
	sort.Strings(fl)
	for _, n := range fl {
		if uses(n) {
			p("(declare-const %s Flt)", n)
			p("(assert (fltEq %s %s))", n, n)
		}
	}
	var ts []string
	for k := range w.tags {
		ts = append(ts, k)
	}
	sort.Strings(ts)
	if uses("uncomparable") || uses("uncomparableTag") {
		for _, k := range ts {
			if w.tagKind[k] == "uncomparable" {
				p("(assert (uncomparableTag %d))", w.tags[k])
			} else {
				p("(assert (not (uncomparableTag %d)))", w.tags[k])
			}
		}
	}
	var bs []string
	for s := range w.boxes {
		bs = append(bs, s)
	}
	sort.Strings(bs)
	for _, s := range bs {
		if uses(boxName(s)) || uses(unboxName(s)) {
			p("(declare-fun %s (%s) Int)", boxName(s), s)
			p("(declare-fun %s (Int) %s)", unboxName(s), s)
			p("(assert (forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x)))))", s, unboxName(s), boxName(s), boxName(s))
		}
	}
	var fa []string
	for f := range w.faFns {
		fa = append(fa, f)
	}
	sort.Strings(fa)
	for i, f := range fa {
		if !uses(f) {
			continue
		}
		if strings.HasPrefix(f, "|ea:") {
			p("(declare-fun %s (Int Int) Int)", f)
			p("(assert (forall ((r Int) (i Int)) (! (and (< (%[1]s r i) 0) (= (faKind (%[1]s r i)) %[2]d) (= (faBase (%[1]s r i)) r) (= (faRoot (%[1]s r i)) (faRoot r)) (= (faIdx (%[1]s r i)) i)) :pattern ((%[1]s r i)))))", f, i+1)
		} else {
			p("(declare-fun %s (Int) Int)", f)
			p("(assert (forall ((r Int)) (! (and (< (%[1]s r) 0) (= (faKind (%[1]s r)) %[2]d) (= (faBase (%[1]s r)) r) (= (faRoot (%[1]s r)) (faRoot r))) :pattern ((%[1]s r)))))", f, i+1)
		}
	}
	return b.String()
}

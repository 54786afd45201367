package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type query struct {
	pc   *node
	goal Term
	auto bool
}

type solveRes struct {
	status string // unsat sat unknown
	solver string
	out    string
	secs   float64
}

type solverCfg struct {
	sem     chan struct{}
	mu      sync.Mutex
	cache   map[string]solveRes
	nq      int64
	time    map[string]float64
	count   map[string]int
	dir     string
	quick   time.Duration
	full    time.Duration
}

var reIdx = regexp.MustCompile(`[!?](\d+)`)

// normalise renames generated symbols by order of appearance so that equal
// problems have equal texts.
func normalise(s string) string {
	m := map[string]string{}
	return reIdx.ReplaceAllStringFunc(s, func(t string) string {
		if r, ok := m[t]; ok {
			return r
		}
		r := fmt.Sprintf("%c%d", t[0], len(m))
		m[t] = r
		return r
	})
}

func (s *solverCfg) run(bin []string, text string, to time.Duration) (string, string) {
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	ctx, cancel := context.WithTimeout(context.Background(), to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin[0], bin[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return "unsat", o
		case "sat":
			return "sat", o
		case "unknown", "timeout":
			return "unknown", o
		}
	}
	return "unknown", o
}

func solverCmd(name string, to time.Duration) []string {
	ms := int(to / time.Millisecond)
	switch name {
	case "z3-new":
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)}
	case "z3":
		return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms)}
	case "cvc5":
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant"}
	}
	return nil
}

func (s *solverCfg) note(name string, d time.Duration, ok bool) {
	s.mu.Lock()
	s.time[name] += d.Seconds()
	if ok {
		s.count[name]++
	}
	s.mu.Unlock()
}

// solve decides a query: unsat means the goal is proved.
func (s *solverCfg) solve(text string, quick bool) solveRes { return s.solve2(text, quick, false) }

func (s *solverCfg) solve2(text string, quick, auto bool) solveRes {
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(normalise(text))))
	s.mu.Lock()
	if r, ok := s.cache[h]; ok && (r.status == "unsat" || quick || r.out == "full") {
		s.mu.Unlock()
		return r
	}
	s.mu.Unlock()
	atomic.AddInt64(&s.nq, 1)
	var r solveRes
	t0 := time.Now()
	if s.dir != "" {
		os.WriteFile(fmt.Sprintf("%s/%s.smt2", s.dir, h[:12]), []byte(text), 0o644)
	}
	to := s.full
	if quick {
		to = s.quick
	}
	first := to
	if !quick && first > 8*time.Second {
		first = 8 * time.Second
	}
	if auto && first > 3*time.Second {
		first = 3 * time.Second
	}
	st, out := s.run(solverCmd("z3-new", first), text, first)
	s.note("z3-new", time.Since(t0), st == "unsat")
	r = solveRes{st, "z3-new", out, 0}
	if st != "unsat" {
		type ans struct {
			n, st, out string
		}
		names := []string{"cvc5", "z3"}
		if !quick {
			names = append(names, "z3-new")
		}
		if quick && (st == "sat" || auto) {
			names = nil
		}
		ch := make(chan ans, 4)
		for _, n := range names {
			go func(n string) {
				t1 := time.Now()
				tx := text
				if n == "z3-new" {
					tx = "(set-option :smt.random_seed 7)\n" + text
				}
				st, out := s.run(solverCmd(n, to), tx, to)
				s.note(n, time.Since(t1), st == "unsat")
				ch <- ans{n, st, out}
			}(n)
		}
		for range names {
			a := <-ch
			if a.st == "unsat" {
				r = solveRes{"unsat", a.n, a.out, 0}
				break
			}
			if a.st == "sat" && r.status == "unknown" {
				r = solveRes{"sat", a.n, a.out, 0}
			}
		}
	}
	r.secs = time.Since(t0).Seconds()
	s.mu.Lock()
	s.cache[h] = r
	s.mu.Unlock()
	return r
}

// queryText assembles the SMT problem for pc |= goal.
func (x *Exec) queryText(q query) string {
	var cmds []string
	for n := q.pc; n != nil; n = n.up {
		if n.text != "" {
			cmds = append(cmds, n.text)
		}
	}
	var body strings.Builder
	for i := len(cmds) - 1; i >= 0; i-- {
		body.WriteString(cmds[i])
		body.WriteString("\n")
	}
	body.WriteString("(assert (not " + q.goal.S + "))\n")
	main := body.String()
	globals := strings.Join(x.globals, "\n") + "\n"
	// spec axioms by relevance, to a fixpoint
	used := map[int]bool{}
	logicUsed := main + globals
	var axText strings.Builder
	axs := x.axiomTexts()
	for {
		ch := false
		for i, a := range axs {
			if used[i] {
				continue
			}
			ok := len(a.keys) == 0
			if a.all {
				ok = true
				for _, k := range a.keys {
					if !hasWord(logicUsed, k) {
						ok = false
					}
				}
			} else {
				for _, k := range a.keys {
					if hasWord(logicUsed, k) {
						ok = true
					}
				}
			}
			if ok {
				used[i] = true
				ch = true
				x.V.mu.Lock()
				x.V.usedAx[a.name] = true
				x.V.mu.Unlock()
				axText.WriteString("(assert " + a.text + ") ; axiom " + a.name + "\n")
				logicUsed += a.text
			}
		}
		if !ch {
			break
		}
	}
	usesF := func(s string) bool { return strings.Contains(logicUsed, s) }
	var bg strings.Builder
	inc := map[int]bool{}
	for {
		ch := false
		for i, g := range bgAxioms {
			if inc[i] {
				continue
			}
			for _, k := range g.keys {
				if usesF(k) {
					inc[i] = true
					ch = true
					bg.WriteString(g.text + "\n")
					logicUsed += g.text
					break
				}
			}
		}
		if !ch {
			break
		}
	}
	if strings.Contains(logicUsed, "anyEq") {
		logicUsed += " fltEq fltLt"
		if !strings.Contains(bg.String(), "fltNaN") {
			for _, g := range bgAxioms {
				if g.keys[0] == "fltLt" {
					bg.WriteString(g.text + "\n")
				}
			}
		}
	}
	facts := x.W.facts(usesF)
	// implementation facts
	var impl strings.Builder
	for f, it := range x.W.implKeys {
		if !usesF(f) {
			continue
		}
		var ks []string
		for k := range x.W.tags {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if implementsIface(x.W.tagType[k], it) {
				fmt.Fprintf(&impl, "(assert (%s %d))\n", f, x.W.tags[k])
			} else {
				fmt.Fprintf(&impl, "(assert (not (%s %d)))\n", f, x.W.tags[k])
			}
		}
	}
	var out strings.Builder
	out.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	out.WriteString(x.W.preamble())
	out.WriteString(bgDecls)
	names := make([]string, 0, len(x.S.Logic))
	for n := range x.S.Logic {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		l := x.S.Logic[n]
		if !hasWord(logicUsed, n) {
			continue
		}
		var as []string
		for _, a := range l.Args {
			as = append(as, x.parseType(a).Sort)
		}
		fmt.Fprintf(&out, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), x.parseType(l.Ret).Sort)
	}
	out.WriteString(facts)
	out.WriteString(bg.String())
	out.WriteString(globals)
	out.WriteString(impl.String())
	out.WriteString(axText.String())
	out.WriteString(main)
	out.WriteString("(check-sat)\n")
	return out.String()
}

func hasWord(s, w string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], w)
		if j < 0 {
			return false
		}
		j += i
		e := j + len(w)
		okL := j == 0 || !isSymChar(s[j-1])
		okR := e >= len(s) || !isSymChar(s[e])
		if okL && okR {
			return true
		}
		i = j + 1
	}
}

func isSymChar(c byte) bool {
	return c == '_' || c == '!' || c == '.' || c == '|' || c == ':' || c == '\'' || c == '?' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

type axText struct {
	name, text string
	keys       []string
	all        bool
}

// axiomTexts evaluates the spec's axioms in this unit's sorts (cached).
func (x *Exec) axiomTexts() []axText {
	if x.axs != nil {
		return x.axs
	}
	r := []axText{}
	all := append(append([]*Axiom(nil), x.S.Axioms...), x.lemmas()...)
	for _, a := range all {
		a := a
		if a.Name == x.provingLemma {
			continue
		}
		var t Term
		err := catch(func() {
			c := &Ctx{x: x, axiom: true, st: &State{heaps: map[string]Term{}}}
			t = c.evalBool(a.E)
		})
		if err != nil {
			panic(unsupported("axiom " + a.Name + ": " + err.Error()))
		}
		ax := axText{name: a.Name, text: t.S, keys: a.Keys, all: len(a.Keys) > 0}
		if len(a.Keys) == 0 {
			for n := range x.S.Logic {
				if hasWord(t.S, n) {
					ax.keys = append(ax.keys, n)
				}
			}
		}
		r = append(r, ax)
	}
	x.axs = r
	return r
}

// lemmas available to this unit (each is proved as its own obligation).
func (x *Exec) lemmas() []*Axiom {
	var r []*Axiom
	for _, l := range x.S.Lemmas {
		if x.provingLemma != "" {
			// earlier lemmas only
			if l.Name == x.provingLemma {
				break
			}
		}
		r = append(r, l)
	}
	return r
}

func (v *Verifier) checkMany(x *Exec, qs []query, quick bool) []bool {
	res := make([]bool, len(qs))
	texts := make([]string, len(qs))
	for i, q := range qs {
		texts[i] = x.queryText(q)
	}
	var wg sync.WaitGroup
	for i := range qs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := v.Sol.solve2(texts[i], quick, qs[i].auto)
			res[i] = r.status == "unsat"
		}(i)
	}
	wg.Wait()
	if v.Verbose > 1 {
		for i := range qs {
			if !res[i] {
				fmt.Fprintf(os.Stderr, "  [%s] candidate not inductive: %.200s\n", x.unit, qs[i].goal.S)
			}
		}
	}
	return res
}

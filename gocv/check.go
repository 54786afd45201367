package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// runCheck decides one property: every obligation generated from the current source of repo
// must be discharged; the replay harness runs the real code (bounded) beside it.
func runCheck(repo, verif, prop, tier string) int {
	t0 := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), prop)
	h := newHarness(repo, verif, prop, seed)
	hch := make(chan harnessRes, 1)
	go func() { hch <- h.run(tier, 240*time.Second) }()

	var results []*UnitResult
	var missing []string
	var loadErr string
	var v *Verifier
	P, err := loadProgram(repo)
	if err != nil {
		loadErr = "the source cannot be loaded: " + err.Error()
	} else if S, err := loadSpecs(filepath.Join(verif, "specs")); err != nil {
		loadErr = "the contracts cannot be read: " + err.Error()
	} else {
		v = newVerifier(P, S)
		if tier == "thorough" {
			v.Sol.full = 60 * time.Second
			v.Sol.quick = 8 * time.Second
		}
		limit := 480 * time.Second
		results, missing = v.runAll(prop, limit)
	}
	hr := <-hch

	// failures of obligations
	type fail struct{ key, text string }
	var fails []fail
	nobl, ndis := 0, 0
	by := map[string]int{}
	trusted := map[string]bool{}
	var fns, dropped []string
	secs := 0.0
	inv := 0
	inl := map[string]bool{}
	for _, r := range results {
		if !strings.HasPrefix(r.Key, "lemma ") {
			fns = append(fns, fmt.Sprintf("%s: %d obligations on %d paths, %d loop invariant obligations", r.Key, len(r.Obls), r.Paths, r.InvObls))
		} else {
			fns = append(fns, fmt.Sprintf("%s: %d obligations", r.Key, len(r.Obls)))
		}
		inv += r.InvObls
		for _, k := range r.Inlined {
			inl[k] = true
		}
		for _, a := range r.Assumed {
			trusted[a] = true
		}
		for _, k := range r.Used {
			if c := v.S.lookup(k); c != nil && (c.Kind == "extern" || c.Opts["trusted"] != "") {
				trusted["assumed contract of "+k] = true
			}
			if c := v.S.lookup(k); c != nil && c.Kind == "iface" {
				trusted["interface contract assumed at calls of "+k+" (verified for the implementations that are units of some property)"] = true
			}
		}
		for _, d := range r.Dropped {
			dropped = append(dropped, r.Key+": "+d)
		}
		seen := map[string]bool{}
		for _, o := range r.Obls {
			nobl++
			secs += o.Time
			if o.Result == "proved" {
				ndis++
				s := o.Solver
				if s == "" {
					s = "simplifier"
				}
				by[s]++
				continue
			}
			k := o.Unit + "|" + o.Kind + "|" + o.Label
			if seen[k] {
				continue
			}
			seen[k] = true
			fails = append(fails, fail{k, fmt.Sprintf("obligation %s (%s) at %s: %s by %s\npath:\n%s\nsolver output:\n%s\n", k, o.Kind, o.Pos, o.Result, o.Solver, trace(o), clip(o.Out, 2000))})
		}
	}
	if loadErr != "" {
		fails = append(fails, fail{"load", loadErr})
	}
	var skipped []string
	for _, m := range missing {
		if exportedKey(m) {
			fails = append(fails, fail{"missing|" + m, "the function under contract does not exist any more: " + m})
		} else {
			skipped = append(skipped, m)
		}
	}
	if len(results) == 0 && loadErr == "" && v != nil && v.hasUnits(prop) {
		fails = append(fails, fail{"vacuity|no unit", "no function under contract was verified"})
	}
	// known findings
	var open []fail
	printed := map[string]bool{}
	knownHit := func(key string) bool {
		for _, k := range known {
			if k.match != "" && strings.Contains(key, k.match) {
				if !printed[k.text] {
					printed[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
				return true
			}
		}
		return false
	}
	for _, f := range fails {
		if !knownHit("obligation:" + f.key) {
			open = append(open, f)
		}
	}
	filter := func(r harnessRes) []harnessFail {
		var o []harnessFail
		for _, f := range r.fails {
			if !knownHit("case:" + f.id) {
				o = append(o, f)
			}
		}
		return o
	}
	hf := filter(hr)
	deep := harnessRes{}
	if len(open) > 0 && len(hf) == 0 && len(h.files) > 0 {
		// search longer for a failing input of the real code
		deep = h.run("search", 150*time.Second)
		hf = filter(deep)
	}
	code := 0
	if len(open) > 0 || len(hf) > 0 {
		code = 1
		rp := filepath.Join(verif, "evidence", prop+".replay.txt")
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s on %s\n\n", prop, repo)
		for _, f := range hf {
			fmt.Fprintf(&b, "FAILING INPUT on the real code, case %s:\n%s\n\nto run it again: %s\n\n", f.id, f.msg, h.cmdline())
		}
		for _, f := range open {
			fmt.Fprintf(&b, "FAILED OBLIGATION\n%s\n", f.text)
		}
		if hr.broken != "" {
			fmt.Fprintf(&b, "\nthe replay harness did not build or run: %s\n", clip(hr.broken, 4000))
		}
		os.MkdirAll(filepath.Dir(rp), 0o755)
		os.WriteFile(rp, b.Bytes(), 0o644)
		for i, f := range open {
			if i >= 12 {
				fmt.Printf("... %d more\n", len(open)-i)
				break
			}
			fmt.Printf("FAILED obligation %s\n", f.key)
		}
		for _, f := range hf {
			fmt.Printf("FAILED case %s: %s\n", f.id, clip(f.msg, 400))
		}
		if len(hf) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		}
	}
	// evidence
	var tb []string
	for k := range trusted {
		tb = append(tb, k)
	}
	sort.Strings(tb)
	tb = append(tb, "the translation of Go SSA (golang.org/x/tools/go/ssa) to verification conditions in /verif/gocv",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (one unsat answer discharges an obligation)",
		"int64 arithmetic is treated as mathematical (no overflow); unsigned arithmetic wraps; memory allocation does not fail; each function is verified for sequential execution")
	if P != nil && v != nil {
		var as []string
		for _, a := range v.S.Axioms {
			if v.usedAx[a.Name] {
				as = append(as, a.Name)
			}
		}
		if len(as) > 0 {
			tb = append(tb, "axioms about mathematical functions and library values (specs/*.spec): "+strings.Join(as, ", "))
		}
	}
	level := "proof"
	cov := map[string]interface{}{
		"obligations": nobl, "discharged": ndis, "checker_cmd": fmt.Sprintf("bin/gocv check -prop %s -tier %s", prop, tier),
		"trusted_base": tb, "functions_under_contract": nonNil(fns), "discharged_by": by, "solver_seconds": round1(secs),
		"loop_invariant_obligations": inv, "inlined_functions": keysOf(inl), "invariants_not_inductive": nonNil(dropped),
		"contracts_without_function": nonNil(skipped),
		"bounded_replay": map[string]interface{}{"label": "bounded cross-check on the real code, not counted as proved", "cases": hr.count, "distinct": hr.distinct, "rule": hr.rule, "samples": nonNil(hr.samples), "status": hr.status()},
	}
	if nobl == 0 {
		level = "exploration"
		cov = map[string]interface{}{"evaluations": hr.count, "distinct_nontrivial": hr.distinct, "rule": hr.rule, "samples": nonNil(hr.samples), "label": "bounded stand-in, nothing proved"}
	}
	if lv := os.Getenv("VERIF_LEVEL"); lv != "" {
		level = lv
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round1(time.Since(t0).Seconds()), "violations": len(open) + len(hf),
		"assumptions": tb}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(js, '\n'), 0o644)
	fmt.Printf("%s %s: %d/%d obligations discharged in %d units, replay harness: %s (%d cases), %.0fs\n", prop, tier, ndis, nobl, len(results), hr.status(), hr.count, time.Since(t0).Seconds())
	return code
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func round1(f float64) float64 { return float64(int(f*10)) / 10 }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// exportedKey: the function is part of the package's interface, so it cannot vanish by refactoring.
func exportedKey(k string) bool {
	k = strings.SplitN(k, " ", 2)[0]
	n := k[strings.LastIndexAny(k, ".")+1:]
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

func (v *Verifier) hasUnits(prop string) bool {
	for _, k := range v.S.Order {
		c := v.S.Contracts[k]
		if c.Kind == "func" && contains(c.Props, prop) {
			return true
		}
	}
	return false
}

// runAll verifies the units of a property and the lemmas they may use.
func (v *Verifier) runAll(prop string, limit time.Duration) ([]*UnitResult, []string) {
	us, missing := v.units(prop)
	var mu sync.Mutex
	var rs []*UnitResult
	done := make(chan struct{})
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	pend := map[string]bool{}
	add := func(key string, f func() *UnitResult) {
		mu.Lock()
		pend[key] = true
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r := f()
			mu.Lock()
			delete(pend, key)
			rs = append(rs, r)
			mu.Unlock()
		}()
	}
	for _, u := range us {
		u := u
		add(u.key, func() *UnitResult { return v.verifyUnit(u) })
	}
	go func() {
		wg.Wait()
		// the lemmas the proofs used
		started := map[string]bool{}
		for again := true; again; {
			again = false
			for _, l := range v.S.Lemmas {
				l := l
				v.mu.Lock()
				used := v.usedAx[l.Name]
				v.mu.Unlock()
				if used && !started[l.Name] {
					started[l.Name] = true
					again = true
					add("lemma "+l.Name, func() *UnitResult { return v.proveLemma(l) })
				}
			}
			wg.Wait()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(limit):
		mu.Lock()
		for k := range pend {
			rs = append(rs, &UnitResult{Key: k, Obls: []*Obl{{Unit: k, Kind: "timeout", Label: "verification finished in time", Result: "unknown"}}})
		}
		defer mu.Unlock()
	}
	out := append([]*UnitResult(nil), rs...)
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out, missing
}

// ---- known findings

type knownFinding struct{ match, text string }

// loadKnown reads lines "known: property=<id> match=<substring> :: <what fails>".
func loadKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownFinding
	re := regexp.MustCompile(`^known: property=(\S+) match=(.+?) :: (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == prop {
			r = append(r, knownFinding{m[2], m[3]})
		}
	}
	return r
}

// ---- replay harness

type harness struct {
	repo, verif, prop string
	seed              int
	files             map[string]string // target in repo -> source
	pkgs              []string
}

type harnessFail struct{ id, msg string }

type harnessRes struct {
	fails    []harnessFail
	broken   string
	count    int
	distinct int
	rule     string
	samples  []string
	ran      bool
}

func (r harnessRes) status() string {
	switch {
	case !r.ran:
		return "none"
	case len(r.fails) > 0:
		return "failing input found"
	case r.broken != "":
		return "did not run"
	}
	return "passed"
}

func newHarness(repo, verif, prop string, seed int) *harness {
	h := &harness{repo: repo, verif: verif, prop: prop, seed: seed, files: map[string]string{}}
	root := filepath.Join(verif, "replay")
	low := strings.ToLower(prop)
	pk := map[string]bool{}
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return nil
		}
		n := filepath.Base(p)
		if strings.HasPrefix(n, low) && strings.HasSuffix(n, "_test.go.txt") {
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			h.files[filepath.Join(repo, rel, "verif_"+strings.TrimSuffix(n, ".txt"))] = p
			pk[rel] = true
		}
		return nil
	})
	for p := range pk {
		h.pkgs = append(h.pkgs, p)
	}
	sort.Strings(h.pkgs)
	return h
}

func (h *harness) cmdline() string {
	return fmt.Sprintf("VERIF_SEED=%d %s/bin/gocv harness -prop %s", h.seed, h.verif, h.prop)
}

var reInclude = regexp.MustCompile(`(?m)^//verif:include (\w+)`)

var rePkgClause = regexp.MustCompile(`(?m)^package (\w+)`)

func (h *harness) run(tier string, limit time.Duration) (res harnessRes) {
	if len(h.files) == 0 {
		return
	}
	res.ran = true
	tmp, err := os.MkdirTemp("", "verif-"+h.prop+"-")
	if err != nil {
		res.broken = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	util, err := os.ReadFile(filepath.Join(h.verif, "replay", "util_test.go.txt"))
	if err != nil {
		res.broken = err.Error()
		return
	}
	for t, s := range h.files {
		repl[t] = s
		b, _ := os.ReadFile(s)
		m := rePkgClause.FindSubmatch(b)
		if m == nil {
			continue
		}
		u := filepath.Join(tmp, strings.ReplaceAll(strings.TrimPrefix(filepath.Dir(t), "/"), "/", "_")+"_util_test.go")
		os.WriteFile(u, rePkgClause.ReplaceAll(util, []byte("package "+string(m[1]))), 0o644)
		repl[filepath.Join(filepath.Dir(t), "verif_util_test.go")] = u
		// shared helpers named by "//verif:include NAME" lines
		for _, inc := range reInclude.FindAllSubmatch(b, -1) {
			text, err := os.ReadFile(filepath.Join(h.verif, "replay", string(inc[1])+"_test.go.txt"))
			if err != nil {
				res.broken = err.Error()
				return
			}
			f := strings.TrimSuffix(u, "_util_test.go") + "_" + string(inc[1]) + "_test.go"
			os.WriteFile(f, rePkgClause.ReplaceAll(text, []byte("package "+string(m[1]))), 0o644)
			repl[filepath.Join(filepath.Dir(t), "verif_"+string(inc[1])+"_test.go")] = f
		}
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	scratch := filepath.Join(tmp, "scratch")
	os.MkdirAll(scratch, 0o755)
	// packages with a "//verif:race" file run under the race detector, in a command of their own
	race := map[string]bool{}
	for t, s := range h.files {
		if b, _ := os.ReadFile(s); bytes.Contains(b, []byte("\n//verif:race\n")) {
			rel, _ := filepath.Rel(h.repo, filepath.Dir(t))
			race[rel] = true
		}
	}
	var runErr error
	var text string
	for _, group := range []bool{false, true} {
		args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-v", "-tags", "sqlite_fts5", fmt.Sprintf("-timeout=%ds", int(limit.Seconds())-20), "-run", "^TestVerif" + h.prop}
		if group {
			args = append(args, "-race")
		}
		n := len(args)
		for _, p := range h.pkgs {
			if race[p] == group {
				args = append(args, "./"+p)
			}
		}
		if len(args) == n {
			continue
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = h.repo
		cmd.WaitDelay = 5 * time.Second
		cmd.Env = append(os.Environ(), "TMPDIR="+scratch, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "CGO_ENABLED=1", "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", h.seed), "GOTMPDIR="+tmp)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Run(); err != nil {
			runErr = err
		}
		cancel()
		text += out.String()
	}
	sc := bufio.NewScanner(strings.NewReader(text))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	var rules []string
	for sc.Scan() {
		f := strings.Split(sc.Text(), "\t")
		i := strings.Index(f[0], "VERIF")
		if i < 0 {
			continue
		}
		switch f[0][i:] {
		case "VERIFFAIL":
			if len(f) >= 3 {
				m, err := strconv.Unquote(f[2])
				if err != nil {
					m = f[2]
				}
				res.fails = append(res.fails, harnessFail{f[1], m})
			}
		case "VERIFCOUNT":
			if len(f) >= 4 {
				a, _ := strconv.Atoi(f[1])
				d, _ := strconv.Atoi(f[2])
				res.count += a
				res.distinct += d
				r, _ := strconv.Unquote(f[3])
				if r != "" {
					rules = append(rules, r)
				}
			}
		case "VERIFSAMPLE":
			if len(f) >= 2 {
				m, _ := strconv.Unquote(f[1])
				res.samples = append(res.samples, clip(m, 300))
			}
		}
	}
	res.rule = strings.Join(rules, "; ")
	if runErr != nil && len(res.fails) == 0 {
		switch {
		case strings.Contains(text, "[build failed]") || strings.Contains(text, "[setup failed]"):
			res.broken = tail(text, 4000)
		case strings.Contains(text, "panic: test timed out"):
			res.fails = append(res.fails, harnessFail{"hang", "the code under test does not terminate:\n" + tail(text, 3000)})
		case strings.Contains(text, "panic: ") || strings.Contains(text, "fatal error: ") || strings.Contains(text, "WARNING: DATA RACE"):
			i := strings.Index(text, "panic: ")
			if i < 0 {
				i = strings.Index(text, "fatal error: ")
			}
			if i < 0 {
				i = strings.Index(text, "WARNING: DATA RACE")
			}
			if i < 0 {
				i = 0
			}
			res.fails = append(res.fails, harnessFail{"crash", "the code under test crashes:\n" + clip(text[i:], 3000)})
		case strings.Contains(text, "--- FAIL"):
			res.fails = append(res.fails, harnessFail{"fail", tail(text, 3000)})
		default:
			res.broken = tail(text, 4000)
		}
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

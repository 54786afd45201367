package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) > 1 && (os.Args[1] == "check" || os.Args[1] == "harness") {
		fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		prop := fs.String("prop", "", "")
		tier := fs.String("tier", "quick", "")
		fs.Parse(os.Args[2:])
		if os.Args[1] == "harness" {
			seed := 1
			fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
			r := newHarness(*repo, *verif, *prop, seed).run(*tier, 300*time.Second)
			fmt.Println(r.status(), r.count, r.distinct, r.rule)
			for _, s := range r.samples {
				fmt.Println("sample:", s)
			}
			for _, f := range r.fails {
				fmt.Println("FAIL", f.id, f.msg)
			}
			fmt.Println(r.broken)
			if len(r.fails) > 0 {
				os.Exit(1)
			}
			return
		}
		os.Exit(runCheck(*repo, *verif, *prop, *tier))
	}
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "/verif/specs", "")
	prop := flag.String("prop", "", "")
	fn := flag.String("func", "", "substring of unit keys")
	verbose := flag.Int("v", 0, "")
	dump := flag.String("dump", "", "dump SSA of a key")
	keys := flag.Bool("keys", false, "list function keys")
	smt := flag.String("smt", "", "dump queries here")
	full := flag.Int("t", 20, "seconds per obligation")
	flag.Parse()
	P, err := loadProgram(*repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if *keys {
		for _, k := range P.keys() {
			fmt.Println(k)
		}
		return
	}
	if *dump != "" {
		P.Funcs[*dump].WriteTo(os.Stdout)
		return
	}
	S, err := loadSpecs(*specs)
	if err != nil {
		fmt.Println("spec:", err)
		os.Exit(2)
	}
	v := newVerifier(P, S)
	v.Verbose = *verbose
	v.Sol.dir = *smt
	v.Sol.full = time.Duration(*full) * time.Second
	us, missing := v.units(*prop)
	for _, m := range missing {
		fmt.Println("MISSING", m)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	tot, ok := 0, 0
	run := func(f func() *UnitResult) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := f()
			mu.Lock()
			defer mu.Unlock()
			np := 0
			for _, o := range r.Obls {
				tot++
				if o.Result == "proved" {
					np++
					ok++
				}
			}
			fmt.Printf("%-60s %3d/%3d paths=%d cov=%d inv=%d %.1fs\n", r.Key, np, len(r.Obls), r.Paths, r.Covered, r.InvObls, r.Secs)
			if *verbose > 0 {
				fmt.Println("   kept:", strings.Join(r.Kept, "; "), " dropped:", strings.Join(r.Dropped, "; "))
				fmt.Println("   inlined:", r.Inlined, "used:", r.Used, "assumed:", r.Assumed)
			}
			for _, d := range r.Dead {
				fmt.Println("   DEAD", d)
			}
			for _, o := range r.Obls {
				if o.Result != "proved" {
					fmt.Printf("   %s %s [%s] %s %s (%.1fs)\n", strings.ToUpper(o.Result), o.Kind, o.Label, o.Pos, o.Solver, o.Time)
					if *verbose > 0 {
						fmt.Println(trace(o), "   goal:", o.Goal.S)
					}
				} else if *verbose > 2 {
					fmt.Printf("   ok %s [%s] %s %.2fs\n", o.Kind, o.Label, o.Solver, o.Time)
				}
			}
		}()
	}
	for _, u := range us {
		u := u
		if *fn != "" && !strings.Contains(u.key, *fn) {
			continue
		}
		run(func() *UnitResult { return v.verifyUnit(u) })
	}
	if *prop == "" && *fn == "" || *fn == "lemma" {
		for _, l := range S.Lemmas {
			l := l
			run(func() *UnitResult { return v.proveLemma(l) })
		}
	}
	wg.Wait()
	fmt.Printf("total %d/%d queries=%d %v\n", ok, tot, v.Sol.nq, v.Sol.count)
}

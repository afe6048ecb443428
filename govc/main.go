package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	flagRepo   = flag.String("repo", "/repo", "")
	flagSpecs  = flag.String("specs", "/verif/contracts", "")
	flagProp   = flag.String("prop", "", "property id (all when empty)")
	flagOnly   = flag.String("only", "", "only targets containing this text")
	flagDebug  = flag.Bool("debug", false, "")
	flagV      = flag.Bool("v", false, "list obligations")
	flagQuick  = flag.Duration("quick", 3*time.Second, "")
	flagLong   = flag.Duration("long", 20*time.Second, "")
	flagPlans  = flag.String("plans", "", "file that says which solver discharged an obligation before (tried first)")
	flagHints  = flag.String("hints", "", "file with loop invariants found before (a starting point only)")
	flagWrite  = flag.Bool("write-hints", false, "")
	flagDump   = flag.String("dump", "", "directory for the scripts of failed obligations")
	flagOut    = flag.String("out", "", "result file (json)")
	flagExport = flag.String("export", "", "write the contracts as json and stop")
	flagHarn   = flag.String("harness", "", "write the in-package test harness (overlay) to this directory and stop")
	flagRT     = flag.String("harness-rt", "/verif/harness", "run-time part of the harness")
	flagBudget = flag.Duration("budget", 10*time.Minute, "")
)

func (sp *FuncSpec) hasProp(p string) bool {
	if p == "" {
		return true
	}
	for _, x := range sp.Props {
		if x == p {
			return true
		}
	}
	for _, e := range sp.Ensures {
		for _, x := range e.Props {
			if x == p {
				return true
			}
		}
	}
	return false
}

func main() {
	flag.Parse()
	t0 := time.Now()
	if *flagExport != "" {
		v := &Verifier{specs: map[string]*FuncSpec{}, defs: map[string]*Def{}, chans: map[string]*ChanDecl{}}
		v.loadSpecs(*flagSpecs)
		if err := v.export(*flagExport); err != nil {
			fatal("%v", err)
		}
		return
	}
	v, err := load(*flagRepo)
	if err != nil {
		fatal("load: %v", err)
	}
	v.debug = *flagDebug
	v.loadSpecs(*flagSpecs)
	if *flagHarn != "" {
		if err := v.genHarness(*flagHarn, *flagRT); err != nil {
			fatal("%v", err)
		}
		return
	}
	pool = newPool(8)
	defer pool.close()
	hints := map[string][]string{}
	if *flagPlans != "" {
		if b, err := os.ReadFile(*flagPlans); err == nil {
			if err := json.Unmarshal(b, &plans); err != nil {
				fatal("plans: %v", err)
			}
		}
	}
	if *flagHints != "" {
		if b, err := os.ReadFile(*flagHints); err == nil {
			json.Unmarshal(b, &hints)
		}
	}
	ts, notes := v.targets()
	for _, n := range notes {
		fmt.Println("NOTE", n)
	}
	deadline := time.Now().Add(*flagBudget)
	results := map[string]*TargetResult{}
	var rmu sync.Mutex
	done := map[string]bool{}
	run := func(t *Target, all bool) *TargetResult {
		te := time.Now()
		v.mu.Lock()
		c := newCtx(v, t)
		var err error
		if t.Spec.OnlyBounded != "" && t.Fn != nil {
			what := []string{}
			nb := 0
			for _, e := range t.Spec.Ensures {
				if e.Bounded {
					nb++
				}
			}
			if nb > 0 {
				what = append(what, fmt.Sprintf("%d of %d postconditions", nb, len(t.Spec.Ensures)))
			}
			if !t.Spec.ViaSafe {
				what = append(what, "index safety and call preconditions")
			}
			if t.Spec.HasMod && !t.Spec.ViaFrame {
				what = append(what, "the frame")
			}
			if len(what) > 0 {
				c.note("not proved: " + strings.Join(what, ", ") + " of " + t.Name + " (" + t.Spec.OnlyBounded + ")")
			}
			for _, w := range t.Spec.Via {
				c.modular[w] = true
			}
			v.mu.Unlock()
			return &TargetResult{T: t, C: c}
		}
		if t.Fn == nil {
			err = fmt.Errorf("not found")
		} else {
			err = c.exec()
		}
		v.mu.Unlock()
		ems := time.Since(te).Milliseconds()
		if err != nil {
			return &TargetResult{T: t, C: c, Err: err, ExecMs: ems}
		}
		opt := proveOpts{quick: *flagQuick, long: *flagLong, deadline: deadline}
		if h, ok := hints[t.Name]; ok {
			opt.hints = map[string]bool{}
			for _, x := range h {
				opt.hints[x] = true
			}
		}
		if !all && *flagProp != "" {
			opt.want = func(o *Obl) bool {
				if o.Kind != "post" && o.Kind != "frame" {
					return true
				}
				if len(o.Props) == 0 {
					return true
				}
				for _, p := range o.Props {
					if p == *flagProp {
						return true
					}
				}
				return false
			}
		}
		r := c.prove(opt)
		r.ExecMs = ems
		return r
	}
	var todo []*Target
	for _, t := range ts {
		if t.Spec.hasProp(*flagProp) && strings.Contains(t.Name, *flagOnly) {
			todo = append(todo, t)
			done[t.Name] = true
		}
	}
	all := false
	for len(todo) > 0 {
		var wg sync.WaitGroup
		sem := make(chan struct{}, 4)
		for _, t := range todo {
			wg.Add(1)
			go func(t *Target, all bool) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				r := run(t, all)
				rmu.Lock()
				results[t.Name] = r
				rmu.Unlock()
			}(t, all)
		}
		wg.Wait()
		// contracts used at calls must be proved too
		todo = nil
		if *flagOnly != "" {
			break
		}
		all = true
		for _, r := range results {
			for m := range r.C.modular {
				if done[m] {
					continue
				}
				for _, t := range ts {
					if t.Name == m {
						done[m] = true
						todo = append(todo, t)
					}
				}
			}
		}
	}
	var names []string
	for n := range results {
		names = append(names, n)
	}
	sort.Strings(names)
	bad := 0
	for _, n := range names {
		r := results[n]
		if r.Err != nil {
			bad++
			fmt.Printf("ERROR %s: %v\n", n, r.Err)
			continue
		}
		fmt.Printf("%-70s obl=%d failed=%d cands=%d/%d rounds=%d exec=%dms solve=%dms\n", n, len(r.Obls), len(r.Failed), len(r.Active), r.Cands, r.Rounds, r.ExecMs, r.SolveMs)
		if *flagV {
			for _, o := range r.Obls {
				fmt.Printf("   ok? %-8s %-9s %6dms %-12s %s %s\n", o.Kind, o.Status, o.Ms, o.Solver, o.Pos, trunc(o.Label+" "+o.Loop, 120))
			}
		}
		for _, o := range r.Failed {
			bad++
			fmt.Printf("   FAILED %s [%s] %s %s %s (%dms)\n", o.Kind, o.Status, o.Pos, o.Label, o.Model, o.Ms)
			if *flagDump != "" {
				os.MkdirAll(*flagDump, 0o755)
				g := o.Goal
				if o.failGoal != nil {
					g = o.failGoal
				}
				act := map[string]bool{}
				for _, a := range r.Active {
					act[a] = true
				}
				f := filepath.Join(*flagDump, sanitize(n+"_"+o.Kind+"_"+trunc(o.Label, 40))+".smt2")
				os.WriteFile(f, []byte(r.C.tf.Script(r.C.assertsFor(o, g, act))), 0o644)
			}
		}
		if *flagDebug {
			sort.Strings(r.Active)
			for _, a := range r.Active {
				fmt.Println("     inv", a)
			}
		}
	}
	if *flagPlans != "" && *flagWrite {
		all := map[string]map[string]*plan{}
		for k, v := range plans {
			all[k] = v
		}
		for k, v := range newPlans {
			if r := results[k]; r != nil && r.Err == nil {
				all[k] = v
			}
		}
		b, _ := json.MarshalIndent(all, "", " ")
		os.WriteFile(*flagPlans, b, 0o644)
	}
	if *flagWrite {
		if err := writeHints(*flagHints, hints, results); err != nil {
			fatal("%v", err)
		}
	}
	if *flagDebug || *flagV {
		uses := map[string]bool{}
		for _, r := range results {
			for n := range r.C.notes {
				uses["note: "+n] = true
			}
			for n := range r.C.trusted {
				uses["trusted: "+n] = true
			}
			for n := range r.C.touched {
				uses["external: "+n] = true
			}
		}
		var us []string
		for u := range uses {
			us = append(us, u)
		}
		sort.Strings(us)
		for _, u := range us {
			fmt.Println(u)
		}
	}
	if *flagOut != "" {
		if err := writeOut(*flagOut, v, ts, notes, results, time.Since(t0)); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("total %s, %d solver calls, %d ms solver\n", time.Since(t0).Round(time.Millisecond), pool.calls, pool.ms)
	if bad > 0 {
		pool.close()
		os.Exit(1)
	}
}

func writeHints(f string, old map[string][]string, results map[string]*TargetResult) error {
	for n, r := range results {
		if r.Err == nil {
			sort.Strings(r.Active)
			if r.Active == nil {
				r.Active = []string{}
			}
			old[n] = r.Active
		}
	}
	b, _ := json.MarshalIndent(old, "", " ")
	return os.WriteFile(f, b, 0o644)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solverPool struct {
	sem   chan struct{}
	dir   string
	n     int64
	ms    int64
	calls int64
	memo  sync.Map
	by    map[string]int
	mu    sync.Mutex
}

func newPool(n int) *solverPool {
	d, err := os.MkdirTemp("", "govc")
	if err != nil {
		fatal("%v", err)
	}
	return &solverPool{sem: make(chan struct{}, n), dir: d, by: map[string]int{}}
}
func (p *solverPool) close() { os.RemoveAll(p.dir) }

var pool *solverPool

type sconf struct {
	name string
	args []string
}

var fast = sconf{"z3-new", []string{"z3-new", "-smt2"}}
var fast2 = sconf{"z3-new/ematch", []string{"z3-new", "-smt2", "smt.mbqi=false", "smt.auto_config=false"}}
var second = []sconf{
	{"cvc5", []string{"cvc5", "--lang=smt2"}},
	{"z3-4.8/ematch", []string{"z3", "-smt2", "smt.mbqi=false", "smt.auto_config=false"}},
}
var portfolio = []sconf{
	{"z3-new", []string{"z3-new", "-smt2", "smt.random_seed=7"}},
	{"z3-new/ematch", []string{"z3-new", "-smt2", "smt.mbqi=false", "smt.auto_config=false"}},
	{"z3-new/marks", []string{"z3-new", "-smt2", "smt.mbqi=false", "smt.auto_config=false"}},
	{"z3-new/arith2", []string{"z3-new", "-smt2", "smt.mbqi=false", "smt.arith.solver=2"}},
	{"cvc5/enum", []string{"cvc5", "--lang=smt2", "--enum-inst"}},
	{"cvc5", []string{"cvc5", "--lang=smt2"}},
	{"z3-4.8/ematch", []string{"z3", "-smt2", "smt.mbqi=false", "smt.auto_config=false"}},
}

func (p *solverPool) run(ctx context.Context, cf sconf, script string, timeout time.Duration) string {
	if strings.HasSuffix(cf.name, "/marks") {
		script = strings.ReplaceAll(script, "\n;@mark ", "\n")
	}
	h := fnv.New128a()
	fmt.Fprintf(h, "%s|", cf.name)
	io.WriteString(h, script)
	var key [16]byte
	copy(key[:], h.Sum(nil))
	type memoT struct {
		r string
		t time.Duration
	}
	if m, ok := p.memo.Load(key); ok {
		if mm := m.(memoT); mm.r != "unknown" || mm.t >= timeout {
			return mm.r
		}
	}
	r := p.run1(ctx, cf, script, timeout)
	if r != "cancelled" && ctx.Err() == nil {
		p.memo.Store(key, memoT{r, timeout})
	}
	return r
}

func (p *solverPool) run1(ctx context.Context, cf sconf, script string, timeout time.Duration) string {
	select {
	case p.sem <- struct{}{}:
	case <-ctx.Done():
		return "cancelled"
	}
	defer func() { <-p.sem }()
	if ctx.Err() != nil {
		return "cancelled"
	}
	id := atomic.AddInt64(&p.n, 1)
	f := filepath.Join(p.dir, fmt.Sprintf("q%d.smt2", id))
	if err := os.WriteFile(f, []byte(script), 0o644); err != nil {
		fatal("%v", err)
	}
	if os.Getenv("GOVC_KEEP") == "" {
		defer os.Remove(f)
	}
	t0 := time.Now()
	cctx, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	args := append([]string{}, cf.args[1:]...)
	if strings.HasPrefix(cf.args[0], "z3") {
		args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()), "-memory:3000")
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	}
	args = append(args, f)
	cmd := exec.CommandContext(cctx, cf.args[0], args...)
	out, _ := cmd.CombinedOutput()
	atomic.AddInt64(&p.ms, time.Since(t0).Milliseconds())
	atomic.AddInt64(&p.calls, 1)
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat":
			return l
		case "unknown":
			if strings.Contains(string(out), "incomplete") && !strings.Contains(string(out), "timeout") && !strings.Contains(string(out), "canceled") {
				return "incomplete"
			}
			return "unknown"
		case "timeout":
			return "unknown"
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, cf.name, l)
			}
			return "error: " + l
		}
	}
	return "unknown"
}

// goalJob is one goal on its way through the stages.
type goalJob struct {
	pa     *pathCase
	o      *Obl
	goal   *Term
	qs     []query
	status string // unsat, sat, incomplete (the solver gave up without running out of time), unknown (time), error
	by     string
	ms     int64
	win    string
	mu     sync.Mutex
}

// decide discharges a batch of goals in stages; all terms are built sequentially so that a run is reproducible.
func (c *Ctx) decide(jobs []*goalJob, active map[string]bool, quick, long time.Duration, deadline time.Time) {
	open := jobs
	par := func(f func(j *goalJob)) {
		var wg sync.WaitGroup
		for _, j := range open {
			wg.Add(1)
			go func(j *goalJob) {
				defer wg.Done()
				t0 := time.Now()
				f(j)
				j.ms += time.Since(t0).Milliseconds()
			}(j)
		}
		wg.Wait()
		var rest []*goalJob
		for _, j := range open {
			if j.status != "unsat" && j.status != "sat" && !strings.HasPrefix(j.status, "error") {
				rest = append(rest, j)
			}
		}
		open = rest
	}
	late := func() bool { return !deadline.IsZero() && time.Now().After(deadline) }
	bg := context.Background()
	for _, j := range jobs {
		j.status = "unknown"
	}
	// what worked before is tried first
	type try struct {
		j *goalJob
		q query
		w string
		c *sconf
	}
	tries := map[*goalJob][]try{}
	for _, j := range open {
		if j.o.plan == nil {
			continue
		}
		for _, w := range j.o.plan.Wins {
			i := strings.IndexByte(w, '|')
			cf := confByName(w[i+1:])
			if cf == nil {
				continue
			}
			l := int(w[0] - '0')
			as, dropped := c.assertsSel(j.o, j.goal, active, l, j.pa)
			tries[j] = append(tries[j], try{j, query{c.tf.Script(as), !dropped, l}, w, cf})
		}
	}
	if len(tries) > 0 {
		t := 2 * quick
		if long > t {
			t = long
		}
		par(func(j *goalJob) {
			ts := tries[j]
			if len(ts) == 0 {
				return
			}
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			ch := make(chan try, len(ts))
			for _, x := range ts {
				go func(x try) {
					x.q.script = pool.run(ctx, *x.c, x.q.script, t)
					ch <- x
				}(x)
			}
			for range ts {
				x := <-ch
				if x.q.script == "unsat" {
					j.status, j.by, j.win = "unsat", x.c.name, x.w
					return
				}
			}
		})
	}
	for l := selGround; l < nSel && len(open) > 0 && !late(); l++ {
		any := false
		for _, j := range open {
			if n := len(j.qs); n > 0 && j.qs[n-1].full {
				continue
			}
			as, dropped := c.assertsSel(j.o, j.goal, active, l, j.pa)
			s := c.tf.Script(as)
			if n := len(j.qs); n > 0 && j.qs[n-1].script == s {
				j.qs[n-1].full = !dropped
				continue
			}
			j.qs = append(j.qs, query{script: s, full: !dropped, lvl: l})
			if w := os.Getenv("GOVC_QUERY"); w != "" && strings.HasSuffix(j.o.Loop, w) {
				os.WriteFile(fmt.Sprintf("/tmp/query-%s-%d.smt2", j.o.Kind, l), []byte(s), 0o644)
			}
			any = true
		}
		if !any {
			continue
		}
		t := quick
		if l == selGround && t > time.Second {
			t = time.Second
		}
		par(func(j *goalJob) {
			q := j.qs[len(j.qs)-1]
			r := pool.run(bg, fast2, q.script, t)
			if r == "unsat" || strings.HasPrefix(r, "error") {
				j.status, j.by = r, fast2.name
				j.win = fmt.Sprintf("%d|%s", q.lvl, j.by)
				return
			}
			if !q.full {
				return
			}
			j.status = r
			if r == "sat" {
				j.by = fast2.name
				return
			}
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			ch := make(chan [2]string, len(second))
			for _, cf := range second {
				go func(cf sconf) { ch <- [2]string{pool.run(ctx, cf, q.script, t), cf.name} }(cf)
			}
			for range second {
				a := <-ch
				if a[0] == "unsat" || a[0] == "sat" {
					j.status, j.by = a[0], a[1]
					j.win = fmt.Sprintf("%d|%s", q.lvl, j.by)
					return
				}
				if a[0] == "unknown" {
					j.status = "unknown"
				}
			}
		})
	}
	if long == 0 || len(open) == 0 || late() {
		return
	}
	par(func(j *goalJob) {
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		type ans struct {
			r, s string
			full bool
			lvl  int
		}
		var tries []func() ans
		for i, q := range j.qs {
			if i == 0 && len(j.qs) > 1 {
				continue
			}
			for _, cf := range portfolio {
				if !q.full && cf.name != "z3-new/ematch" && cf.name != "z3-new/marks" && cf.name != "cvc5" && cf.name != "z3-4.8/ematch" {
					continue
				}
				q, cf := q, cf
				tries = append(tries, func() ans { return ans{pool.run(ctx, cf, q.script, long), cf.name, q.full, q.lvl} })
			}
		}
		ch := make(chan ans, len(tries))
		for _, f := range tries {
			go func(f func() ans) { ch <- f() }(f)
		}
		for range tries {
			a := <-ch
			if a.r == "unsat" || a.r == "sat" && a.full {
				j.status, j.by = a.r, a.s
				j.win = fmt.Sprintf("%d|%s", a.lvl, j.by)
				return
			}
		}
	})
}

// ---------- proving a target

type TargetResult struct {
	T        *Target
	C        *Ctx
	Err      error
	Obls     []*Obl
	Failed   []*Obl
	Cands    int
	Active   []string
	Rounds   int
	ExecMs   int64
	SolveMs  int64
	UsedHint bool
}

func (c *Ctx) assertsFor(o *Obl, goal *Term, active map[string]bool) []*Term {
	as, _ := c.assertsSel(o, goal, active, selAll, nil)
	return as
}

// infeasible: the facts so far rule out that the path continues with cond.
func (c *Ctx) infeasible(st *State, cond *Term) bool {
	c.pruned++
	pc := c.tf.And(st.pc, cond)
	if pc == c.tf.F {
		return true
	}
	o := &Obl{Kind: "prune", Goal: c.tf.Not(pc), PC: pc, NFacts: len(c.facts), Reg: st.reg, Target: c.target.Name}
	as := c.assertsFor(o, o.Goal, map[string]bool{})
	r := pool.run(context.Background(), fast2, c.tf.Script(as), 700*time.Millisecond)
	return r == "unsat"
}

type query struct {
	script string
	full   bool
	lvl    int
}

// plan remembers how an obligation was discharged before, so that the same attempt is made first.
type plan struct {
	Mode int      `json:"m"` // 0: as a whole, 1: by conjunct, 2: by conjunct and path
	Wins []string `json:"w"` // "selection level|solver configuration"
}

var plans = map[string]map[string]*plan{} // target -> obligation -> plan
var newPlans = map[string]map[string]*plan{}
var plansMu sync.Mutex

func confByName(n string) *sconf {
	all := append(append([]sconf{fast2, fast}, second...), portfolio...)
	for i := range all {
		if all[i].name == n {
			return &all[i]
		}
	}
	return nil
}

func loopOf(l string) string {
	if i := strings.Index(l, "|"); i >= 0 {
		return l[:i]
	}
	return l
}

func conjuncts(tf *TF, g *Term) []*Term {
	// g is (or notpc... body): split an "and" disjunct
	if g.Op == "and" {
		var out []*Term
		for _, a := range g.Args {
			out = append(out, conjuncts(tf, a)...)
		}
		return out
	}
	if g.Op == "or" {
		for i, a := range g.Args {
			if a.Op == "and" {
				rest := append(append([]*Term{}, g.Args[:i]...), g.Args[i+1:]...)
				var out []*Term
				for _, x := range a.Args {
					out = append(out, conjuncts(tf, tf.Or(append(append([]*Term{}, rest...), x)...))...)
				}
				if len(out) <= 60 {
					return out
				}
				break
			}
		}
	}
	return []*Term{g}
}

type proveOpts struct {
	quick, long time.Duration
	deadline    time.Time
	hints       map[string]bool // nil: none
	want        func(o *Obl) bool
}

// prove discharges the obligations of an executed context.
func (c *Ctx) prove(opt proveOpts) *TargetResult {
	res := &TargetResult{T: c.target, C: c}
	active := map[string]bool{}
	cands := map[string]bool{}
	for _, o := range c.obls {
		if o.Loop != "" {
			cands[o.Loop] = true
		}
	}
	for k := range c.candSeen {
		cands[k] = true
	}
	res.Cands = len(cands)
	for k := range cands {
		if opt.hints == nil || opt.hints[k] {
			active[k] = true
		}
	}
	res.UsedHint = opt.hints != nil
	seen := map[string]int{}
	for _, o := range c.obls {
		l := o.Loop
		if l == "" {
			l = o.Label
		}
		k := o.Kind + "|" + l
		seen[k]++
		o.key = fmt.Sprintf("%s|%d", k, seen[k])
		if m := plans[c.target.Name]; m != nil {
			o.plan = m[o.key]
		}
	}
	record := func(o *Obl, mode int, jobs []*goalJob) {
		p := &plan{Mode: mode}
		easy := mode == 0
		for _, j := range jobs {
			if j.status != "unsat" || j.win == "" {
				continue
			}
			if j.win != "0|"+fast2.name && j.win != "1|"+fast2.name {
				easy = false
			}
			dup := false
			for _, w := range p.Wins {
				dup = dup || w == j.win
			}
			if !dup && len(p.Wins) < 4 {
				p.Wins = append(p.Wins, j.win)
			}
		}
		plansMu.Lock()
		defer plansMu.Unlock()
		if newPlans[c.target.Name] == nil {
			newPlans[c.target.Name] = map[string]*plan{}
		}
		delete(newPlans[c.target.Name], o.key)
		if !easy {
			sort.Strings(p.Wins)
			newPlans[c.target.Name][o.key] = p
		}
	}
	check := func(obls []*Obl, quick, long time.Duration, split bool) map[*Obl]bool {
		ok := map[*Obl]bool{}
		var jobs []*goalJob
		for _, o := range obls {
			if o.Goal == c.tf.T {
				ok[o] = true
				o.Status, o.Solver = "unsat", "simplifier"
				continue
			}
			jobs = append(jobs, &goalJob{o: o, goal: o.Goal})
		}
		l := long
		if split {
			l = 0
		}
		var whole []*goalJob
		for _, j := range jobs {
			if !split || j.o.plan == nil || j.o.plan.Mode == 0 {
				whole = append(whole, j)
			} else {
				j.status = "unknown"
			}
		}
		c.decide(whole, active, quick, l, opt.deadline)
		var parts []*goalJob
		for _, j := range jobs {
			if j.status == "unsat" {
				record(j.o, 0, []*goalJob{j})
			}
			j.o.Status, j.o.Solver = j.status, j.by
			j.o.Ms += j.ms
			if j.status == "unsat" {
				ok[j.o] = true
			} else if split && j.status != "sat" {
				for _, g := range conjuncts(c.tf, j.goal) {
					if g != c.tf.T {
						parts = append(parts, &goalJob{o: j.o, goal: g})
					}
				}
			}
		}
		if len(parts) == 0 {
			return ok
		}
		whole = nil
		for _, j := range parts {
			if j.o.plan == nil || j.o.plan.Mode < 2 {
				whole = append(whole, j)
			} else {
				j.status = "unknown"
			}
		}
		c.decide(whole, active, quick, 0, opt.deadline)
		// the parts still open are split by path
		var open, byPath []*goalJob
		sub := map[*goalJob][]*goalJob{}
		pcache := map[*Term][]*pathCase{}
		for _, j := range parts {
			if j.status == "unsat" || j.status == "sat" {
				continue
			}
			ps, ok := pcache[j.o.PC]
			if !ok && j.o.PC != nil {
				ps = c.pathsOf(j.o.PC)
				pcache[j.o.PC] = ps
			}
			if ps == nil {
				open = append(open, j)
				continue
			}
			sub[j] = []*goalJob{}
			for _, pa := range ps {
				for _, g := range conjuncts(c.tf, c.tf.Subst(j.goal, pa.sub)) {
					if g == c.tf.T {
						continue
					}
					n := &goalJob{o: j.o, goal: g, pa: pa}
					sub[j] = append(sub[j], n)
					byPath = append(byPath, n)
				}
			}
		}
		c.decide(append(byPath, open...), active, quick, long, opt.deadline)
		for j, ns := range sub {
			j.status, j.by = "unsat", "path split"
			for _, n := range ns {
				j.ms += n.ms
				if n.status != "unsat" {
					j.status = n.status
				} else {
					j.by = n.by
				}
			}
		}
		modes, wins := map[*Obl]int{}, map[*Obl][]*goalJob{}
		for _, j := range parts {
			if ns, ok := sub[j]; ok {
				modes[j.o] = 2
				wins[j.o] = append(wins[j.o], ns...)
			} else {
				if modes[j.o] == 0 {
					modes[j.o] = 1
				}
				wins[j.o] = append(wins[j.o], j)
			}
		}
		bad := map[*Obl]*goalJob{}
		n := map[*Obl]int{}
		for _, j := range parts {
			n[j.o]++
			j.o.Ms += j.ms
			if j.status != "unsat" {
				if bad[j.o] == nil {
					bad[j.o] = j
					j.o.Model = fmt.Sprintf("conjunct %d", n[j.o])
				}
			}
			j.o.Solver = j.by
		}
		for o := range n {
			if b := bad[o]; b != nil {
				o.Status = b.status
				o.failGoal = b.goal
				o.Model += fmt.Sprintf(" of %d", n[o])
			} else {
				o.Status = "unsat"
				ok[o] = true
				record(o, modes[o], wins[o])
			}
		}
		return ok
	}
	t0 := time.Now()
	retried := false
	// loops are settled in program order
	stageOf := map[string]int{}
	for _, o := range c.obls {
		if l := loopOf(o.Loop); o.Loop != "" {
			if _, ok := stageOf[l]; !ok {
				stageOf[l] = len(stageOf)
			}
		}
	}
	stage := 0
	for {
		res.Rounds++
		var inv []*Obl
		for _, o := range c.obls {
			if o.Loop != "" && active[o.Loop] && (res.UsedHint || stageOf[loopOf(o.Loop)] <= stage) {
				inv = append(inv, o)
			}
		}
		long := time.Duration(0)
		q := opt.quick
		if res.UsedHint || retried {
			long = opt.long
			if retried && long > 4*time.Second {
				long = 4 * time.Second
			}
		} else if q > 2*time.Second {
			q = 2 * time.Second
		}
		tr := time.Now()
		ok := check(inv, q, long, res.UsedHint || retried)
		if os.Getenv("GOVC_HOUDINI") != "" {
			fmt.Fprintf(os.Stderr, "round %d: %d obligations, %s\n", res.Rounds, len(inv), time.Since(tr))
			for _, o := range inv {
				if !ok[o] {
					fmt.Fprintf(os.Stderr, "   %s %dms %s %s\n", o.Status, o.Ms, o.Kind, o.Loop)
				}
			}
		}
		if !opt.deadline.IsZero() && time.Now().After(opt.deadline) {
			break
		}
		bad, definite := 0, 0
		for _, o := range inv {
			if !ok[o] {
				bad++
				if o.Status == "sat" || o.Status == "incomplete" {
					definite++
				}
			}
		}
		if bad == 0 {
			stage++
			retried = false
			if res.UsedHint || stage >= len(stageOf) {
				break
			}
			continue
		}
		if res.UsedHint {
			// the recorded invariants no longer hold: search again from all candidates
			opt.hints = nil
			res.UsedHint = false
			for k := range cands {
				active[k] = true
			}
			continue
		}
		if definite == 0 && !retried {
			retried = true
			continue
		}
		for _, o := range inv {
			if !ok[o] && (definite == 0 || o.Status == "sat" || o.Status == "incomplete") {
				delete(active, o.Loop)
				if os.Getenv("GOVC_HOUDINI") != "" {
					fmt.Fprintf(os.Stderr, "round %d drop %s (%s %s)\n", res.Rounds, o.Loop, o.Status, o.Kind)
				}
			}
		}
		retried = false
	}
	for k := range active {
		res.Active = append(res.Active, k)
	}
	var rest []*Obl
	for _, o := range c.obls {
		if o.Loop == "" && o.Kind != "vacuity" && (opt.want == nil || opt.want(o)) {
			rest = append(rest, o)
		}
	}
	ok := check(rest, opt.quick, opt.long, true)
	if res.UsedHint && res.Cands > len(active) && (opt.deadline.IsZero() || time.Now().Before(opt.deadline)) {
		for _, o := range rest {
			if !ok[o] {
				// the recorded invariants hold but do not carry the proof (the loop was
				// rewritten, say): search again from all candidates
				opt.hints = nil
				r := c.prove(opt)
				r.SolveMs = time.Since(t0).Milliseconds()
				return r
			}
		}
	}
	for _, o := range c.obls {
		if o.Loop != "" && active[o.Loop] {
			res.Obls = append(res.Obls, o)
		}
	}
	for _, o := range rest {
		res.Obls = append(res.Obls, o)
		if !ok[o] {
			res.Failed = append(res.Failed, o)
		}
	}
	// vacuity: the assumptions must not be contradictory
	for _, o := range c.obls {
		if o.Kind == "vacuity" {
			script := c.tf.Script(c.assertsFor(o, o.Goal, active))
			r := pool.run(context.Background(), fast, script, 3*time.Second)
			o.Status, o.Solver = r, fast.name
			if r == "unsat" {
				res.Failed = append(res.Failed, o)
			}
		}
	}
	res.SolveMs = time.Since(t0).Milliseconds()
	return res
}

package main

import (
	"encoding/json"
	"os"
	"sort"
	"time"
)

type outObl struct {
	Kind   string   `json:"kind"`
	Label  string   `json:"label"`
	Props  []string `json:"props,omitempty"`
	Pos    string   `json:"pos,omitempty"`
	Status string   `json:"status"`
	Solver string   `json:"solver"`
	Ms     int64    `json:"ms"`
	Loop   string   `json:"loop,omitempty"`
	Clause string   `json:"clause,omitempty"`
	Part   string   `json:"part,omitempty"`
}
type outTarget struct {
	Name    string   `json:"name"`
	File    string   `json:"file"`
	Error   string   `json:"error,omitempty"`
	Direct  bool     `json:"direct"` // carries the property itself (else: a contract used at a call)
	Obls    []outObl `json:"obligations"`
	Failed  []outObl `json:"failed"`
	Loops   int      `json:"loop_invariants"`
	ExecMs  int64    `json:"exec_ms"`
	SolveMs int64    `json:"solve_ms"`
	Inlined []string `json:"inlined,omitempty"`
	Modular []string `json:"modular,omitempty"`
	Bounded []string `json:"bounded,omitempty"`
	Vacuity string   `json:"vacuity,omitempty"`
}
type outAll struct {
	Targets []outTarget    `json:"targets"`
	Notes   []string       `json:"notes"`
	Trusted []string       `json:"trusted"`
	Extern  []string       `json:"external"`
	Solvers map[string]int `json:"solvers"`
	SolveMs int64          `json:"solver_ms"`
	Calls   int64          `json:"solver_calls"`
	WallS   float64        `json:"wall_s"`
}

func writeOut(f string, v *Verifier, ts []*Target, notes []string, results map[string]*TargetResult, wall time.Duration) error {
	out := outAll{Notes: notes, Solvers: map[string]int{}, SolveMs: pool.ms, Calls: pool.calls, WallS: wall.Seconds()}
	tr, ex, nt := map[string]bool{}, map[string]bool{}, map[string]bool{}
	conv := func(o *Obl) outObl {
		r := outObl{o.Kind, o.Label, o.Props, o.Pos, o.Status, o.Solver, o.Ms, o.Loop, "", o.Model}
		if o.Clause != nil {
			r.Clause = o.Clause.Src
		}
		return r
	}
	for _, r := range results {
		t := outTarget{Name: r.T.Name, Loops: len(r.Active), ExecMs: r.ExecMs, SolveMs: r.SolveMs, Direct: r.T.Spec.hasProp(*flagProp)}
		if r.T.Fn != nil {
			p := v.fset.Position(r.T.Fn.Pos())
			t.File = p.Filename
		}
		if r.Err != nil {
			t.Error = r.Err.Error()
		}
		for _, e := range r.T.Spec.Ensures {
			if e.Bounded {
				t.Bounded = append(t.Bounded, e.Label)
			}
		}
		for _, o := range r.Obls {
			t.Obls = append(t.Obls, conv(o))
			if o.Status == "unsat" {
				out.Solvers[o.Solver]++
			}
		}
		for _, o := range r.Failed {
			t.Failed = append(t.Failed, conv(o))
		}
		if r.C != nil {
			for m := range r.C.modular {
				t.Modular = append(t.Modular, m)
			}
			for n := range r.C.trusted {
				tr[n] = true
			}
			for n := range r.C.touched {
				ex[n] = true
			}
			for n := range r.C.notes {
				nt[n] = true
			}
			for n := range r.C.inlined {
				t.Inlined = append(t.Inlined, n)
			}
			for _, o := range r.C.obls {
				if o.Kind == "vacuity" {
					t.Vacuity = o.Status
				}
			}
		}
		sort.Strings(t.Modular)
		sort.Strings(t.Inlined)
		out.Targets = append(out.Targets, t)
	}
	sort.Slice(out.Targets, func(i, j int) bool { return out.Targets[i].Name < out.Targets[j].Name })
	keys := func(m map[string]bool) []string {
		r := []string{}
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	out.Trusted, out.Extern = keys(tr), keys(ex)
	out.Notes = append(out.Notes, keys(nt)...)
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(f, b, 0o644)
}

type expClause struct {
	Label   string   `json:"label"`
	Props   []string `json:"props"`
	Src     string   `json:"src"`  // as written
	Expr    string   `json:"expr"` // plain Go expression
	Bounded bool     `json:"bounded"`
}
type expTarget struct {
	Name     string      `json:"name"`
	Key      string      `json:"key"`
	Params   []string    `json:"params"`
	Results  []string    `json:"results"`
	Requires []expClause `json:"requires"`
	Ensures  []expClause `json:"ensures"`
	Props    []string    `json:"props"`
	Gen      []string    `json:"gen"`
	Closure  *ClosureRef `json:"closure,omitempty"`
	Instr    string      `json:"harness"`
	Assumed  bool        `json:"assumed"`
	Modifies []string    `json:"modifies"`
	HasMod   bool        `json:"has_mod"`
	NoSafety bool        `json:"no_safety"`
}
type expChan struct {
	Name   string      `json:"name"`
	Assume []expClause `json:"assume"`
}
type expDef struct {
	Name   string   `json:"name"`
	Params []string `json:"params"`
	Expr   string   `json:"expr"`
}

func (v *Verifier) export(f string) error {
	var out struct {
		Targets []expTarget `json:"targets"`
		Chans   []expChan   `json:"chans"`
		Defs    []expDef    `json:"defs"`
	}
	cl := func(cs []*Clause) []expClause {
		r := []expClause{}
		for _, c := range cs {
			r = append(r, expClause{c.Label, c.Props, c.Src, preproc(c.Src), c.Bounded})
		}
		return r
	}
	for _, s := range v.specList {
		out.Targets = append(out.Targets, expTarget{s.Name, s.Key, s.Params, s.Results, cl(s.Requires), cl(s.Ensures), s.Props, s.Gen, s.Closure, s.Instr, s.Assumed, s.Modifies, s.HasMod, s.NoSafety})
	}
	for _, ch := range v.chans {
		out.Chans = append(out.Chans, expChan{ch.Name, cl(ch.Assume)})
	}
	for _, d := range v.defs {
		out.Defs = append(out.Defs, expDef{d.Name, d.Params, preproc(d.Src)})
	}
	sort.Slice(out.Defs, func(i, j int) bool { return out.Defs[i].Name < out.Defs[j].Name })
	b, _ := json.MarshalIndent(out, "", " ")
	return os.WriteFile(f, b, 0o644)
}

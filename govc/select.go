package main

// Fact selection: the solver is first offered the quantifier-free facts only, then the quantified facts whose symbols are close to the goal, then everything.

type factInfo struct {
	f     Fact
	quant bool
	syms  map[string]bool
}

// termInfo: does t contain a quantifier, and which symbols does it mention.
func (c *Ctx) termInfo(t *Term) (bool, map[string]bool) {
	syms := map[string]bool{}
	q := false
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "forall", "exists":
			q = true
		case "const", "app":
			syms[t.Name] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return q, syms
}

// splitFacts breaks guarded conjunctions into separate facts (done once).
func (c *Ctx) splitFacts() {
	if len(c.finfo) == len(c.facts) {
		return
	}
	for i := len(c.finfo); i < len(c.facts); i++ {
		f := c.facts[i]
		c.finfo = append(c.finfo, nil)
		for _, g := range conjuncts(c.tf, f.T) {
			if g == c.tf.T {
				continue
			}
			nf := f
			nf.T = g
			q, s := c.termInfo(g)
			c.finfo[i] = append(c.finfo[i], factInfo{nf, q, s})
		}
	}
}

const (
	selGround = iota
	selNear
	selMid
	selAll
	nSel
)

// assertsSel: the assertions for a goal under a selection level; the second result says whether facts were left out.
func (c *Ctx) assertsSel(o *Obl, goal *Term, active map[string]bool, level int, pa *pathCase) ([]*Term, bool) {
	c.splitFacts()
	var all []*factInfo
	var anc map[*Region]bool
	if o.Reg != nil {
		anc = o.Reg.ancestors()
	}
	for i := range c.finfo[:o.NFacts] {
		if r := c.facts[i].Reg; r != nil && anc != nil && !anc[r] {
			continue
		}
		for j := range c.finfo[i] {
			f := &c.finfo[i][j]
			if f.f.Cand != "" && !active[f.f.Cand] {
				continue
			}
			if pa != nil {
				for _, g := range pa.apply(c, f) {
					all = append(all, g)
				}
				continue
			}
			all = append(all, f)
		}
	}
	if pa != nil {
		all = append(all, pa.lits...)
	}
	tf := c.tf
	ng := tf.Not(goal)
	_, gs := c.termInfo(ng)
	dropped := false
	var chosen []*factInfo
	switch level {
	case selAll:
		chosen = all
	case selGround:
		for _, f := range all {
			if f.quant {
				dropped = true
			} else {
				chosen = append(chosen, f)
			}
		}
	default:
		tol, depth := 1.3, 3
		if level == selMid {
			tol, depth = 4, 5
		}
		occ := map[string]int{}
		for _, f := range all {
			for s := range f.syms {
				occ[s]++
			}
		}
		trig := map[string][]int{}
		for i, f := range all {
			min := 1 << 30
			for s := range f.syms {
				if occ[s] < min {
					min = occ[s]
				}
			}
			for s := range f.syms {
				if float64(occ[s]) <= tol*float64(min) {
					trig[s] = append(trig[s], i)
				}
			}
		}
		in := make([]bool, len(all))
		cur := gs
		known := map[string]bool{}
		for s := range gs {
			known[s] = true
		}
		for d := 0; d < depth && len(cur) > 0; d++ {
			next := map[string]bool{}
			for s := range cur {
				for _, i := range trig[s] {
					if in[i] {
						continue
					}
					in[i] = true
					for s2 := range all[i].syms {
						if !known[s2] {
							known[s2] = true
							next[s2] = true
						}
					}
				}
			}
			cur = next
		}
		for i, f := range all {
			if in[i] || !f.quant {
				chosen = append(chosen, f)
			} else {
				dropped = true
			}
		}
	}
	var as []*Term
	var tagged []*factInfo
	ufs := map[string]bool{}
	add := func(syms map[string]bool) {
		for s := range syms {
			ufs[s] = true
		}
	}
	for _, f := range chosen {
		if f.f.UF != "" {
			tagged = append(tagged, f)
			continue
		}
		as = append(as, f.f.T)
		add(f.syms)
	}
	as = append(as, ng)
	add(gs)
	for ch := true; ch; {
		ch = false
		for i, f := range tagged {
			if f != nil && ufs[f.f.UF] {
				as = append(as, f.f.T)
				add(f.syms)
				tagged[i] = nil
				ch = true
			}
		}
	}
	if len(c.sums) > 0 {
		as = append(as, c.sumFacts(as)...)
	}
	return as, dropped
}

// pathCase is one path through the branches that lead to an obligation: its literals are assumed and substituted.
type pathCase struct {
	sub  map[*Term]*Term
	lits []*factInfo
	memo map[*factInfo][]*factInfo
}

func (pa *pathCase) apply(c *Ctx, f *factInfo) []*factInfo {
	if r, ok := pa.memo[f]; ok {
		return r
	}
	var out []*factInfo
	t := c.tf.Subst(f.f.T, pa.sub)
	if t == f.f.T {
		out = []*factInfo{f}
	} else {
		for _, g := range conjuncts(c.tf, t) {
			if g == c.tf.T {
				continue
			}
			n := *f
			n.f.T = g
			n.quant, n.syms = c.termInfo(g)
			out = append(out, &n)
		}
	}
	pa.memo[f] = out
	return out
}

// pathsOf lists the paths of a path condition (nil when there is only one or there are too many).
func (c *Ctx) pathsOf(pc *Term) []*pathCase {
	const max = 24
	var dnf func(t *Term) [][]*Term
	dnf = func(t *Term) [][]*Term {
		switch t.Op {
		case "or":
			var out [][]*Term
			for _, a := range t.Args {
				d := dnf(a)
				if d == nil || len(out)+len(d) > max {
					return nil
				}
				out = append(out, d...)
			}
			return out
		case "and":
			out := [][]*Term{nil}
			for _, a := range t.Args {
				d := dnf(a)
				if d == nil || len(out)*len(d) > max {
					return nil
				}
				var n [][]*Term
				for _, x := range out {
					for _, y := range d {
						n = append(n, append(append([]*Term{}, x...), y...))
					}
				}
				out = n
			}
			return out
		}
		return [][]*Term{{t}}
	}
	ps := dnf(pc)
	if len(ps) < 2 {
		return nil
	}
	var out []*pathCase
	for _, p := range ps {
		pa := &pathCase{sub: map[*Term]*Term{}, memo: map[*factInfo][]*factInfo{}}
		clash := false
		for _, l := range p {
			if pa.sub[l] == c.tf.F {
				clash = true
				break
			}
			if pa.sub[l] == c.tf.T {
				continue
			}
			pa.sub[l] = c.tf.T
			pa.sub[c.tf.Not(l)] = c.tf.F
			q, s := c.termInfo(l)
			pa.lits = append(pa.lits, &factInfo{Fact{T: l}, q, s})
		}
		if !clash {
			out = append(out, pa)
		}
	}
	return out
}

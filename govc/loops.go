package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cand struct {
	ID  string
	Src string
	f   func(st *State) *Term
}
type LoopInfo struct {
	key   string
	fr    *Frame
	ls    *loopShape
	entry *State
	head  *State
	cells map[int]bool
	heaps map[string]Sort
	cands []*Cand
}
type loopKeyT struct {
	fr *Frame
	b  *ssa.BasicBlock
}

// havocMods returns st with the given cells and heap components arbitrary.
func (c *Ctx) havocMods(st *State, cells map[int]bool, heaps map[string]Sort) *State {
	tf := c.tf
	h := st.clone()
	c.curReg = h.reg
	var hn []string
	for k := range heaps {
		hn = append(hn, k)
	}
	sort.Strings(hn)
	if _, ok := heaps["$alloc"]; ok {
		a := tf.Fresh("$alloc", SInt)
		c.fact(tf.Le(st.get(c, "$alloc", SInt), a))
		h.set("$alloc", a)
	}
	if _, ok := heaps["$now"]; ok && !(c.target.Spec != nil && c.target.Spec.Instant) {
		a := tf.Fresh("$now", SInt)
		c.fact(tf.Le(st.get(c, "$now", SInt), a))
		h.set("$now", a)
	}
	for _, k := range hn {
		if k == "$alloc" || k == "$now" {
			continue
		}
		so := heaps[k]
		n := tf.Fresh(k, so)
		h.set(k, n)
		c.freshHeapFacts(st, h, k, n)
	}
	var cs []int
	for k := range cells {
		cs = append(cs, k)
	}
	sort.Ints(cs)
	for _, k := range cs {
		t := c.cellType[k]
		if t == nil {
			if s, ok := st.cells[k].(Sc); ok {
				h.cells[k] = Sc{T: tf.Fresh("vis", s.T.S)}
				continue
			}
			panic(unsup("havoc of untyped cell"))
		}
		if s, ok := st.cells[k].(*Slice); ok && !(s.Off.Op == "int" && s.Off.C == 0) {
			panic(unsup("slice variable with offset modified in a loop"))
		}
		h.cells[k] = c.havocVal(h, "v."+shortName(c.cellName[k]), t)
	}
	return h
}

// freshHeapFacts: facts that hold for any successor version n of component k (st before, h after).
func (c *Ctx) freshHeapFacts(st, h *State, k string, n *Term) {
	tf := c.tf
	if strings.HasPrefix(k, "log:") {
		old := st.get(c, k, n.S)
		if strings.HasSuffix(k, "#n") {
			c.fact(tf.Le(old, n))
			return
		}
		cn := chanOfLog(k)
		ln := st.get(c, "log:"+cn+"#n", SInt)
		q := tf.BoundVar("lg", SInt)
		sel := tf.Select(n, q)
		c.fact(tf.Forall([]*Term{q}, tf.Imp(tf.Lt(q, ln), tf.Eq(sel, tf.Select(old, q))), []*Term{sel}))
		return
	}
	if c.dry == 0 {
		c.heapTypeFact(k, n, h.get(c, "$alloc", SInt))
	}
}
func lastHash(k string) int { return strings.LastIndex(k, "#") }

// chanOfLog: "log:CH#<k>..." -> CH
func chanOfLog(k string) string {
	s := strings.TrimPrefix(k, "log:")
	if i := strings.Index(s, "#"); i >= 0 {
		return s[:i]
	}
	return s
}

// loopMods finds what one iteration may change (to a fixpoint), plus the loop-continue condition.
func (c *Ctx) loopMods(fr *Frame, ls *loopShape, st *State) (map[int]bool, map[string]Sort, *dryInfo) {
	cells := map[int]bool{}
	heaps := map[string]Sort{}
	rets, defers := fr.rets, fr.defers
	c.dry++
	defer func() { c.dry--; fr.rets, fr.defers = rets, defers }()
	var info *dryInfo
	for iter := 0; iter < 12; iter++ {
		mark := c.tf.n
		s := c.havocMods(st, cells, heaps)
		mark2 := c.tf.n
		s.pc = c.tf.T
		start := s.clone()
		var backs []edge
		c.runBlocks(fr, ls.header, ls.body, s, &backs)
		ch := false
		for _, b := range backs {
			for k, v := range b.st.cells {
				o, ok := st.cells[k]
				if !ok || o == nil || cells[k] {
					continue
				}
				if !sameVal(v, start.cells[k]) {
					cells[k] = true
					ch = true
				}
			}
			for k, v := range b.st.heaps {
				if _, ok := heaps[k]; ok {
					continue
				}
				if v != start.get(c, k, v.S) {
					heaps[k] = v.S
					ch = true
				}
			}
		}
		if !ch {
			info = &dryInfo{mark: mark, mark2: mark2, start: start}
			var pcs []*Term
			for _, b := range backs {
				pcs = append(pcs, b.st.pc)
				for k := range cells {
					if s, ok := b.st.cells[k].(*Slice); ok && !(s.Off.Op == "int" && s.Off.C == 0) {
						panic(unsup("slice variable with offset in a loop"))
					}
				}
			}
			info.backs = backs
			info.cont = c.tf.Or(pcs...)
			if x, ok := ls.header.Instrs[len(ls.header.Instrs)-1].(*ssa.If); ok {
				if v, ok := fr.env[x.Cond]; ok && v != nil {
					if sc, ok := v.(Sc); ok {
						t := sc.T
						if !ls.body[ls.header.Succs[0]] {
							t = c.tf.Not(t)
						}
						info.cond = t
					}
				}
			}
			return cells, heaps, info
		}
	}
	panic(unsup("loop effects do not stabilise"))
}

type dryInfo struct {
	mark, mark2 int
	start       *State
	cont, cond  *Term
	backs       []edge
}

// onlyNew reports whether t mentions constants created after mark other than x.
func onlyNew(t *Term, mark int, x *Term) bool {
	ok := true
	Walk(t, func(s *Term) {
		if s.Op == "const" && s.id > mark && s != x && !strings.HasSuffix(s.Name, "@0") {
			ok = false
		}
	})
	return ok
}
func mentions(t, x *Term) bool {
	f := false
	Walk(t, func(s *Term) {
		if s == x {
			f = true
		}
	})
	return f
}

func (c *Ctx) loopHeader(fr *Frame, ls *loopShape, st *State) *State {
	key := fmt.Sprintf("%s#%d", fr.path, ls.ord)
	cells, heaps, info := c.loopMods(fr, ls, st)
	if c.pure > 0 && (len(heaps) > 0) {
		panic(unsup("loop in quantified context"))
	}
	entry := st.clone()
	head := c.havocMods(st, cells, heaps)
	if c.dry > 0 {
		return head
	}
	if c.pure > 0 {
		panic(unsup("loop in quantified context"))
	}
	li := &LoopInfo{key: key, fr: fr, ls: ls, entry: entry, head: head, cells: cells, heaps: heaps}
	li.cands = c.candidates(li, info)
	c.curLoops[loopKeyT{fr, ls.header}] = li
	var kept []*Cand
	type pendT struct {
		t  *Term
		id string
	}
	var pend []pendT
	for _, cd := range li.cands {
		g, err := c.evalCand(cd, entry)
		if err != nil {
			continue
		}
		h, err := c.evalCand(cd, head)
		if err != nil {
			continue
		}
		kept = append(kept, cd)
		c.candSeen[key+"|"+cd.ID] = true
		if o := c.oblige(entry, "inv-init", cd.Src, g, 0, nil); o != nil {
			o.Loop = key + "|" + cd.ID
		}
		pend = append(pend, pendT{h, key + "|" + cd.ID})
	}
	for _, p := range pend {
		c.assumeCand(head, p.t, p.id)
	}
	li.cands = kept
	return head
}

func (c *Ctx) evalCand(cd *Cand, st *State) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupErr); ok {
				err = u
				if c.v.debug {
					fmt.Printf("  candidate %s: %v\n", cd.ID, err)
				}
				return
			}
			panic(r)
		}
	}()
	c.pure++
	defer func() { c.pure-- }()
	return cd.f(st), nil
}

func (c *Ctx) loopBack(fr *Frame, ls *loopShape, st *State) {
	if c.dry > 0 {
		return
	}
	li := c.curLoops[loopKeyT{fr, ls.header}]
	if li == nil {
		panic(unsup("back edge to an unknown loop"))
	}
	for _, cd := range li.cands {
		g, err := c.evalCand(cd, st)
		if err != nil {
			panic(unsup("invariant %s undefined at the end of the iteration", cd.ID))
		}
		if o := c.oblige(st, "inv-step", cd.Src, g, 0, nil); o != nil {
			o.Loop = li.key + "|" + cd.ID
		}
	}
}

func (c *Ctx) cellT(st *State, id int) *Term {
	v, ok := st.cells[id]
	if !ok || v == nil {
		panic(unsup("cell not live"))
	}
	return c.term(v)
}

func (c *Ctx) candidates(li *LoopInfo, info *dryInfo) []*Cand {
	tf := c.tf
	var out []*Cand
	add := func(id string, f func(st *State) *Term) {
		if strings.HasPrefix(id, "dn:rangeindex") || strings.HasPrefix(id, "bound+1:rangeindex") {
			return // a range index only grows
		}
		if c.target != nil && c.target.Spec != nil {
			for _, p := range c.target.Spec.NoCand {
				if strings.HasPrefix(id, p) {
					return
				}
			}
		}
		out = append(out, &Cand{ID: id, Src: id, f: f})
	}
	var ids []int
	for k := range li.cells {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	type kc struct {
		id    int
		entry *Term
	}
	var ks []kc
	short := func(id int) string { return c.cellName[id] }
	allocs := map[string]*Term{"A0": c.alloc0, "AF": li.fr.entry.get(c, "$alloc", SInt), "AL": li.entry.get(c, "$alloc", SInt)}
	if allocs["AF"] == allocs["A0"] {
		delete(allocs, "AF")
	}
	if allocs["AL"] == allocs["A0"] || allocs["AL"] == allocs["AF"] {
		delete(allocs, "AL")
	}
	var an []string
	for k := range allocs {
		an = append(an, k)
	}
	sort.Strings(an)
	for _, id := range ids {
		id := id
		switch ev := li.entry.cells[id].(type) {
		case Sc:
			if ev.T.S != SInt {
				continue
			}
			t := c.cellType[id]
			if b, ok := basicOf(t); ok && b.Info()&types.IsInteger != 0 {
				e := ev.T
				add("up:"+short(id), func(st *State) *Term { return tf.Le(e, c.cellT(st, id)) })
				add("dn:"+short(id), func(st *State) *Term { return tf.Le(c.cellT(st, id), e) })
				dx, ok := info.start.cells[id].(Sc)
				if ok && info.cond != nil && mentions(info.cond, dx.T) {
					ks = append(ks, kc{id, e})
					if onlyNew(info.cond, info.mark, dx.T) {
						for _, d := range []int64{-1, 1} {
							d := d
							add(fmt.Sprintf("bound%+d:%s", d, short(id)), func(st *State) *Term {
								x := c.cellT(st, id)
								return tf.Or(tf.Eq(x, e), tf.Subst(info.cond, map[*Term]*Term{dx.T: tf.AddC(x, d)}))
							})
						}
					}
					if info.cont != nil && info.cont != tf.T && onlyNew(info.cont, info.mark, dx.T) {
						add("cont:"+short(id), func(st *State) *Term {
							x := c.cellT(st, id)
							j := tf.BoundVar("cj", SInt)
							return tf.Forall([]*Term{j}, tf.Imp(tf.And(tf.Le(e, j), tf.Lt(j, x)), tf.Subst(info.cont, map[*Term]*Term{dx.T: j})))
						})
					}
				}
			}
		case *Slice:
			for _, a := range an {
				A := allocs[a]
				add("fresh"+a+":"+short(id), func(st *State) *Term {
					s, ok := st.cells[id].(*Slice)
					if !ok {
						panic(unsup("slice cell"))
					}
					return tf.Or(tf.Eq(s.Base, tf.Int(0)), tf.Le(A, s.Base))
				})
			}
			for _, id2 := range ids {
				id2 := id2
				if id2 <= id {
					continue
				}
				if s2, ok := li.entry.cells[id2].(*Slice); ok && types.Identical(s2.Elem, ev.Elem) {
					add("apart:"+short(id)+":"+short(id2), func(st *State) *Term {
						a, ok1 := st.cells[id].(*Slice)
						b, ok2 := st.cells[id2].(*Slice)
						if !ok1 || !ok2 {
							panic(unsup("slice cell"))
						}
						return tf.Or(tf.Neq(a.Base, b.Base), tf.Eq(a.Base, tf.Int(0)))
					})
				}
			}
			add("lennn:"+short(id), func(st *State) *Term {
				s, ok := st.cells[id].(*Slice)
				if !ok {
					panic(unsup("slice cell"))
				}
				return tf.And(tf.Le(tf.Int(0), s.Len), tf.Le(s.Len, s.Cap))
			})
		}
	}
	// heap components unchanged for pre-existing objects
	var hs []string
	for k := range li.heaps {
		hs = append(hs, k)
	}
	sort.Strings(hs)
	for _, k := range hs {
		k := k
		so := li.heaps[k]
		if !strings.HasPrefix(string(so), "(Array Int") || strings.HasPrefix(k, "log:") {
			continue
		}
		for _, a := range an {
			A := allocs[a]
			base := li.entry
			if a == "AF" {
				base = li.fr.entry
			} else if a == "A0" {
				base = c.entry
			}
			if base == nil {
				continue
			}
			add("frame"+a+":"+k, func(st *State) *Term {
				q := tf.BoundVar("fr", SInt)
				sel := tf.Select(st.get(c, k, so), q)
				return tf.Forall([]*Term{q}, tf.Imp(tf.Lt(q, A), tf.Eq(sel, tf.Select(base.get(c, k, so), q))), []*Term{sel})
			})
		}
	}
	if c.frameItems != nil && c.entry != nil {
		for _, k := range hs {
			k := k
			so := li.heaps[k]
			if !strings.HasPrefix(string(so), "(Array Int") || strings.HasPrefix(k, "log:") {
				continue
			}
			some := false
			for _, it := range c.frameItems {
				if it.covers(k) && it.obj != nil {
					some = true
				}
			}
			if some {
				add("mod:"+k, func(st *State) *Term { return c.frameFormula(k, so, c.entry, st, c.alloc0, c.frameItems) })
			}
		}
	}
	// map range
	var vis func(st *State) *Term
	for _, ins := range li.ls.header.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if it, ok := li.fr.env[nx.Iter].(*RangeIter); ok {
				vis = func(st *State) *Term {
					s, ok := st.cells[it.Cell].(Sc)
					if !ok {
						panic(unsup("visited set"))
					}
					return s.T
				}
				add("visdom", func(st *State) *Term {
					d, _, _ := c.mapHeaps(st, it.Map)
					q := tf.BoundVar("vq", leaves(it.Map.Key())[0].S)
					return tf.Forall([]*Term{q}, tf.Imp(tf.Select(vis(st), q), tf.Select(tf.Select(d, it.M), q)))
				})
			}
		}
	}
	// contract-supplied invariants (of this function and of every caller on the stack)
	for fi := len(c.frames) - 1; fi >= 0; fi-- {
		f := c.frames[fi]
		if f.spec == nil {
			continue
		}
		for _, cl := range f.spec.LoopInv {
			out = append(out, c.userCands(li, f, cl, ksIDs(ks, func(x kc) (int, *Term) { return x.id, x.entry }), vis)...)
		}
	}
	return out
}

func ksIDs[T any](ks []T, f func(T) (int, *Term)) [][2]interface{} {
	var o [][2]interface{}
	for _, k := range ks {
		a, b := f(k)
		o = append(o, [2]interface{}{a, b})
	}
	return o
}

func basicOf(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return b, ok
}

func usesName(x ast.Expr, name string) bool {
	f := false
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			f = true
		}
		return true
	})
	return f
}

func (c *Ctx) usesNameDeep(x ast.Expr, name string, depth int) bool {
	f := false
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if id.Name == name {
				f = true
			} else if d := c.v.defs[id.Name]; d != nil && depth < 10 && c.usesNameDeep(d.Expr, name, depth+1) {
				f = true
			}
		}
		return true
	})
	return f
}

func placeholders(x ast.Expr) [][2]string {
	var out [][2]string
	seen := map[string]bool{}
	ast.Inspect(x, func(n ast.Node) bool {
		if ce, ok := n.(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "ph" {
				nm := strArg(ce.Args[0])
				if !seen[nm] {
					seen[nm] = true
					out = append(out, [2]string{nm, strArg(ce.Args[1])})
				}
			}
		}
		return true
	})
	return out
}

func (c *Ctx) userCands(li *LoopInfo, f *Frame, cl *Clause, ks [][2]interface{}, vis func(*State) *Term) []*Cand {
	var out []*Cand
	phs := placeholders(cl.Expr)
	// variants for $k / $i
	type kv struct {
		name string
		id   int
		e    *Term
	}
	kvs := []kv{{"", -1, nil}}
	if c.usesNameDeep(cl.Expr, "sp_k", 0) || c.usesNameDeep(cl.Expr, "sp_i", 0) {
		kvs = nil
		for _, k := range ks {
			kvs = append(kvs, kv{c.cellName[k[0].(int)], k[0].(int), k[1].(*Term)})
		}
	}
	if c.usesNameDeep(cl.Expr, "visited", 0) && vis == nil {
		return nil
	}
	if cl.Own && !c.broad && li.fr != f {
		return nil
	}
	if len(cl.Loops) > 0 && !c.broad && li.fr == f {
		ok := false
		for _, n := range cl.Loops {
			ok = ok || n == li.ls.ord
		}
		if !ok {
			return nil
		}
	}
	if !c.broad && len(kvs) > 1 {
		var r []kv
		for _, k := range kvs {
			if strings.HasPrefix(k.name, "rangeindex") {
				r = append(r, k)
			}
		}
		if len(r) > 0 {
			kvs = r
		}
	}
	env0 := c.frameEnv(f)
	// placeholder assignments
	type asg struct {
		cells map[string]int
		name  string
	}
	asgs := []asg{{map[string]int{}, ""}}
	for _, p := range phs {
		pe := parseTypeExpr(p[1])
		t := env0.typeExpr(pe)
		if t == nil {
			panic(unsup("placeholder type %s", p[1]))
		}
		var next []asg
		var ids []int
		for id := range li.entry.cells {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		if !c.broad {
			var exact []int
			for _, id := range ids {
				if c.cellName[id] == p[0] && c.cellType[id] != nil && types.Identical(c.cellType[id], t) {
					exact = append(exact, id)
				}
			}
			if len(exact) > 0 {
				ids = exact
			}
		}
		for _, a := range asgs {
			for _, id := range ids {
				if c.cellType[id] == nil || !types.Identical(c.cellType[id], t) || c.cellFrame[id] != li.fr.fn && !li.cells[id] {
					continue
				}
				if strings.Contains(c.cellName[id], "rangeindex") != (p[0] == "o") || p[0] == "o" && li.cells[id] {
					continue // ?o is the index of an enclosing loop, other placeholders are never range indices
				}
				dup := false
				for _, o := range a.cells {
					if o == id {
						dup = true
					}
				}
				if dup {
					continue
				}
				m := map[string]int{p[0]: id}
				for k, v := range a.cells {
					m[k] = v
				}
				next = append(next, asg{m, a.name + "," + c.cellName[id]})
			}
		}
		asgs = next
		if len(asgs) > 48 {
			asgs = asgs[:48]
		}
	}
	if len(phs) > 0 && len(asgs) > 8 {
		// at least one placeholder variable must be modified by this loop
		var keep []asg
		for _, a := range asgs {
			for _, id := range a.cells {
				if li.cells[id] {
					keep = append(keep, a)
					break
				}
			}
		}
		asgs = keep
	}
	for _, k := range kvs {
		for _, a := range asgs {
			k, a := k, a
			id := fmt.Sprintf("u:%s:%s:%s%s", f.spec.Name, cl.Label, k.name, a.name)
			out = append(out, &Cand{ID: id, Src: cl.Src, f: func(st *State) *Term {
				e := c.frameEnv(f)
				e.st = st
				e.old = f.entry
				e.pre = li.entry
				if k.id >= 0 {
					e.kk = c.tf.Sub(c.cellT(st, k.id), k.e)
					e.vars["sp_i"] = SVal{Sc{T: c.cellT(st, k.id)}, tInt}
				}
				if vis != nil {
					e.vis = vis(st)
				}
				e.ph = map[string]SVal{}
				e.phCells = a.cells
				for n, id := range a.cells {
					v, ok := st.cells[id]
					if !ok || v == nil {
						panic(unsup("placeholder cell not live"))
					}
					e.ph[n] = SVal{v, c.cellType[id]}
				}
				return e.boolOf(cl.Expr)
			}})
		}
	}
	return out
}

// frameEnv binds a contract's parameter names to the frame's entry arguments.
func (c *Ctx) frameEnv(f *Frame) *SpecEnv {
	e := &SpecEnv{c: c, vars: map[string]SVal{}, st: f.entry, old: f.entry, pkg: c.v.pkgOf(f.fn)}
	c.bindParams(e, f.spec, f.fn, f.args)
	for k, v := range f.capt {
		e.vars[k] = v
	}
	return e
}
func (c *Ctx) bindParams(e *SpecEnv, sp *FuncSpec, fn *ssa.Function, args []Val) {
	if sp == nil {
		return
	}
	for i, n := range sp.Params {
		if i < len(args) && i < len(fn.Params) {
			e.vars[n] = SVal{args[i], fn.Params[i].Type()}
		}
	}
}
func parseTypeExpr(s string) ast.Expr {
	e, err := parserParse(s)
	if err != nil {
		fatal("type %s: %v", s, err)
	}
	return e
}

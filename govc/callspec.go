package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effectsOf finds, by a dry symbolic run, which heap components a function may change.
func (c *Ctx) effectsOf(fn *ssa.Function) map[string]Sort {
	if e, ok := c.effCache[fn]; ok {
		if e == nil {
			panic(unsup("recursive modular function %s", fn))
		}
		return e
	}
	c.effCache[fn] = nil
	st := &State{pc: c.tf.T, cells: map[int]Val{}, heaps: map[string]*Term{}}
	c.dry++
	frames := c.frames
	pure := c.pure
	c.pure = 0
	defer func() { c.dry--; c.frames = frames; c.pure = pure }()
	var args []Val
	for _, p := range fn.Params {
		args = append(args, c.havocVal(st, "eff."+p.Name(), p.Type()))
	}
	start := st.clone()
	c.frames = nil
	_, out := c.runFunc(fn, args, nil, st, funcKey(fn))
	res := map[string]Sort{}
	if out != nil {
		for k, v := range out.heaps {
			if v != start.get(c, k, v.S) {
				res[k] = v.S
			}
		}
	}
	c.effCache[fn] = res
	return res
}

type modItem struct {
	all  bool
	comp string // exact component prefix
	obj  *Term  // nil: any object
	mem  bool
}

// modItems evaluates a modifies list in an environment (old state).
func (c *Ctx) modItems(sp *FuncSpec, env *SpecEnv) []modItem {
	var out []modItem
	for _, m := range sp.Modifies {
		head, at := m, ""
		if i := strings.Index(m, "@"); i >= 0 {
			head, at = strings.TrimSpace(m[:i]), strings.TrimSpace(m[i+1:])
		}
		it := modItem{}
		if head == "*" {
			it.all = true
			out = append(out, it)
			continue
		}
		if head == "log" {
			continue
		}
		pn := env.pkg.Name()
		qual := func(s string) string {
			star := ""
			for strings.HasPrefix(s, "*") || strings.HasPrefix(s, "[]") {
				if s[0] == '*' {
					star += "*"
					s = s[1:]
				} else {
					star += "[]"
					s = s[2:]
				}
			}
			if types.Universe.Lookup(strings.SplitN(s, ".", 2)[0]) != nil {
				return star + s
			}
			f := strings.SplitN(s, ".", 2)[0]
			if env.pkg.Scope().Lookup(f) != nil {
				return star + pn + "." + s
			}
			return star + s
		}
		switch {
		case strings.HasPrefix(head, "[]"):
			it.mem = true
			it.comp = "mem:" + qual(head[2:])
		case strings.HasPrefix(head, "map:"):
			it.mem = true
			it.comp = head
		default:
			it.comp = qual(head)
		}
		if at != "" {
			v := env.evalSrc(at)
			if s, ok := v.V.(*Slice); ok {
				it.obj = s.Base
			} else {
				it.obj = c.term(v.V)
			}
		}
		out = append(out, it)
	}
	return out
}

func (e *SpecEnv) evalSrc(src string) SVal {
	x, err := parserParse(preproc(src))
	if err != nil {
		fatal("modifies %s: %v", src, err)
	}
	return e.eval(x)
}

func (m modItem) covers(comp string) bool {
	if m.all {
		return true
	}
	if strings.HasSuffix(m.comp, ".*") {
		return strings.HasPrefix(comp, strings.TrimSuffix(m.comp, "*"))
	}
	if comp == m.comp {
		return true
	}
	return strings.HasPrefix(comp, m.comp+".") || strings.HasPrefix(comp, m.comp+"#")
}

// frameFormula says that component k of state b equals that of a for every object that existed (alloc) and is not listed.
func (c *Ctx) frameFormula(k string, so Sort, a, b *State, alloc *Term, items []modItem) *Term {
	tf := c.tf
	if !strings.HasPrefix(string(so), "(Array Int") {
		return tf.T
	}
	q := tf.BoundVar("mf", SInt)
	guard := []*Term{tf.Lt(q, alloc)}
	for _, it := range items {
		if it.covers(k) {
			if it.obj == nil {
				return tf.T
			}
			guard = append(guard, tf.Neq(q, it.obj))
		}
	}
	x, y := b.get(c, k, so), a.get(c, k, so)
	if x == y {
		return tf.T
	}
	sel := tf.Select(x, q)
	return tf.Forall([]*Term{q}, tf.Imp(tf.And(guard...), tf.Eq(sel, tf.Select(y, q))), []*Term{sel})
}

func (c *Ctx) callSpec(fr *Frame, st *State, sp *FuncSpec, fn *ssa.Function, vals []Val, pos token.Pos) Val {
	tf := c.tf
	key := funcKey(fn)
	c.modular[sp.Name] = true
	old := st.clone()
	env := &SpecEnv{c: c, vars: map[string]SVal{}, st: st, old: old, pkg: c.v.pkgOf(fn)}
	c.bindParams(env, sp, fn, vals)
	if c.dry == 0 {
		for _, r := range sp.Requires {
			g := c.evalClause(r, env)
			c.oblige(st, "req", key+" requires "+r.Label, g, pos, nil)
			c.assume(st, g)
		}
	}
	eff := c.effectsOf(fn)
	if sp.HasMod && !sp.modLog() {
		e2 := map[string]Sort{}
		for k, so := range eff {
			if !strings.HasPrefix(k, "log:") {
				e2[k] = so
			}
		}
		eff = e2
	}
	h := c.havocMods(st, nil, eff)
	if sp.HasMod && c.dry == 0 {
		c.pure++
		items := c.modItems(sp, env)
		c.pure--
		al := st.get(c, "$alloc", SInt)
		var ks []string
		for k := range eff {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if strings.HasPrefix(k, "log:") || strings.HasPrefix(k, "$") {
				continue
			}
			c.assume(st, c.frameFormula(k, eff[k], old, h, al, items))
		}
	}
	*st = *h
	var res []Val
	rs := fn.Signature.Results()
	env2 := &SpecEnv{c: c, vars: env.vars, st: st, old: old, pkg: env.pkg}
	for i := 0; i < rs.Len(); i++ {
		v := c.havocVal(st, "ret."+fn.Name(), rs.At(i).Type())
		res = append(res, v)
		if i < len(sp.Results) {
			env2.vars[sp.Results[i]] = SVal{v, rs.At(i).Type()}
		}
	}
	if c.dry == 0 {
		for _, e := range sp.Ensures {
			if e.Bounded {
				continue
			}
			c.assume(st, c.evalClause(e, env2))
		}
	}
	_ = tf
	switch len(res) {
	case 0:
		return Tuple{}
	case 1:
		return res[0]
	}
	return Tuple(res)
}

// chanHavoc applies the declared effects of an external call.
func (c *Ctx) chanHavoc(st *State, ch string) {
	d := c.v.chans[ch]
	if d == nil {
		return
	}
	heaps := map[string]Sort{}
	for _, h := range d.Havocs {
		if strings.HasPrefix(h, "log:") {
			heaps[h+"#n"] = SInt
			for k, t := range st.heaps {
				if strings.HasPrefix(k, h+"#") {
					heaps[k] = t.S
				}
			}
			continue
		}
		if h == "$alloc" {
			heaps[h] = SInt
			continue
		}
		for n, s := range c.v.components(c, h) {
			heaps[n] = s
		}
	}
	if len(heaps) == 0 {
		return
	}
	n := c.havocMods(st, nil, heaps)
	*st = *n
}

// chanAssume assumes what is declared about the results of the call just
// logged (index n, the variable q of the clause).
func (c *Ctx) chanAssume(st, old *State, ch string, n *Term) {
	d := c.v.chans[ch]
	if d == nil || c.dry > 0 || len(d.Assume) == 0 {
		return
	}
	for _, cl := range d.Assume {
		e := &SpecEnv{c: c, vars: map[string]SVal{"q": SVal{V: Sc{T: n}, T: types.Typ[types.Int]}}, st: st, old: old, pkg: c.v.mainPkg}
		c.assume(st, c.evalClause(cl, e))
		c.trusted["result of "+ch+": "+cl.Src] = true
	}
}

// components lists the heap components named by T.Field (pkg-qualified) or []T.
func (v *Verifier) components(c *Ctx, h string) map[string]Sort {
	out := map[string]Sort{}
	e := &SpecEnv{c: c, pkg: v.mainPkg}
	if strings.HasPrefix(h, "[]") {
		t := e.typeExpr(parseTypeExpr(h[2:]))
		if t == nil {
			fatal("chan havocs: type %s", h)
		}
		n, s, _ := c.memName(t)
		out[n] = s
		return out
	}
	// longest type prefix
	ps := strings.Split(h, ".")
	for i := len(ps); i > 0; i-- {
		x, err := parserParse(strings.Join(ps[:i], "."))
		if err != nil {
			continue
		}
		t := e.typeExpr(x)
		if t == nil {
			continue
		}
		pre := ""
		for _, f := range ps[i:] {
			if f != "*" {
				pre += "." + f
			}
		}
		for _, l := range leaves(t) {
			if pre == "" || l.Path == pre || strings.HasPrefix(l.Path, pre+".") || strings.HasPrefix(l.Path, pre+"#") {
				out[c.heapName(t, l)] = SArr(SInt, l.S)
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	fatal("chan havocs: unknown component %s", h)
	return nil
}

// ---------- running a target

func newCtx(v *Verifier, t *Target) *Ctx {
	tf := NewTF()
	c := &Ctx{v: v, tf: tf, init0: map[string]*Term{}, heapSort: map[string]Sort{}, heapKind: map[string]string{}, fns: map[*Term]*Fn{},
		tracked: map[string]bool{}, chanSig: map[string]*ChanSig{}, target: t, excluded: map[string]bool{}, loops: map[string]*LoopInfo{},
		notes: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, modular: map[string]bool{}, freshCells: map[int]string{},
		sums: map[string]*SumFn{}, touched: map[string]bool{}, cellType: map[int]types.Type{}, cellName: map[int]string{}, cellFrame: map[int]*ssa.Function{},
		curLoops: map[loopKeyT]*LoopInfo{}, candSeen: map[string]bool{}, sprintfSeen: map[string]bool{}, jsonToks: map[*Term]*jsonTok{},
		effCache: map[*ssa.Function]map[string]Sort{}}
	c.alloc0 = tf.Const("$alloc@0", SInt)
	c.init0["$alloc"] = c.alloc0
	c.heapSort["$alloc"] = SInt
	c.factG(tf.Le(tf.Int(1), c.alloc0))
	now := tf.Const("$now@0", SInt)
	c.init0["$now"] = now
	c.factG(tf.Lt(tf.Int(0), now))
	return c
}

// exec runs a target symbolically and leaves its obligations in the context.
func (c *Ctx) exec() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupErr); ok {
				where := ""
				if fr := c.frame(); fr != nil {
					where = " (in " + funcKey(fr.fn) + ")"
				}
				err = fmt.Errorf("%s%s", u.msg, where)
				return
			}
			panic(r)
		}
	}()
	t := c.target
	sp := t.Spec
	fn := t.Fn
	st := &State{pc: c.tf.T, cells: map[int]Val{}, heaps: map[string]*Term{}}
	var args, bind []Val
	env := &SpecEnv{c: c, vars: map[string]SVal{}, st: st, pkg: c.v.pkgOf(fn)}
	if sp.Closure != nil {
		var e2 error
		bind, e2 = c.bindClosure(st, env, sp, fn)
		if e2 != nil {
			return e2
		}
	}
	for i, p := range fn.Params {
		v := c.havocVal(st, "p."+p.Name(), p.Type())
		args = append(args, v)
		if i < len(sp.Params) {
			env.vars[sp.Params[i]] = SVal{v, p.Type()}
		}
	}
	c.entry = st.clone()
	env.old = c.entry
	for _, r := range sp.Requires {
		g := c.evalClause(r, env)
		c.fact(g)
	}
	c.oblige(st, "vacuity", "the precondition is satisfiable", c.tf.F, token.NoPos, nil)
	entry := c.entry
	c.captured = env.vars
	if sp.HasMod {
		c.pure++
		menv := &SpecEnv{c: c, vars: env.vars, st: entry, old: entry, pkg: env.pkg}
		c.frameItems = c.modItems(sp, menv)
		c.pure--
	}
	defer func() { c.finfo = nil }()
	val, out := c.runFunc(fn, args, bind, st.clone(), shortName(funcKey(fn)))
	if out == nil {
		c.notes["no normal return in "+t.Name] = true
		return nil
	}
	env2 := &SpecEnv{c: c, vars: env.vars, st: out, old: entry, pkg: env.pkg}
	rs := fn.Signature.Results()
	for i, n := range sp.Results {
		if i >= rs.Len() {
			break
		}
		if rs.Len() == 1 {
			env2.vars[n] = SVal{val, rs.At(0).Type()}
		} else {
			env2.vars[n] = SVal{val.(Tuple)[i], rs.At(i).Type()}
		}
	}
	c.oblige(out, "vacuity", "the end of the function is reachable", c.tf.F, token.NoPos, nil)
	for _, e := range sp.Ensures {
		if e.Bounded {
			continue
		}
		props := e.Props
		if len(props) == 0 {
			props = sp.Props
		}
		g := c.evalClause(e, env2)
		o := c.oblige(out, "post", e.Label, g, token.NoPos, props)
		o.Clause = e
	}
	if sp.HasMod {
		items := c.frameItems
		var ks []string
		for k := range out.heaps {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if strings.HasPrefix(k, "log:") && strings.HasSuffix(k, "#n") && !sp.modLog() {
				if x, y := out.heaps[k], entry.get(c, k, SInt); x != y {
					c.oblige(out, "frame", "frame no call of "+k[4:len(k)-2], c.tf.Eq(x, y), token.NoPos, sp.Props)
				}
			}
			if strings.HasPrefix(k, "log:") || strings.HasPrefix(k, "$") {
				continue
			}
			g := c.frameFormula(k, out.heaps[k].S, entry, out, c.alloc0, items)
			if g == c.tf.T {
				continue
			}
			c.oblige(out, "frame", "frame "+k, g, token.NoPos, sp.Props)
		}
	}
	return nil
}

// bindClosure creates arbitrary captured variables for a closure.
func (c *Ctx) bindClosure(st *State, env *SpecEnv, sp *FuncSpec, fn *ssa.Function) ([]Val, error) {
	var bind []Val
	used := map[string]bool{}
	for _, fv := range fn.FreeVars {
		pt, isPtr := types.Unalias(fv.Type()).Underlying().(*types.Pointer)
		byRef := isPtr && fn.Synthetic == ""
		t := fv.Type()
		if byRef {
			t = pt.Elem()
		}
		val := c.havocVal(st, "cap."+fv.Name(), t)
		if byRef {
			if isObjFV(fv) {
				p := c.tf.Fresh("cap.ptr", SInt)
				c.fact(c.tf.And(c.tf.Lt(c.tf.Int(0), p), c.tf.Lt(p, c.alloc0)))
				bind = append(bind, &Loc{Kind: "heap", Ptr: p, Root: t})
				val = c.loadHeap(st, t, p, "", t)
			} else {
				id := c.newCell()
				c.cellType[id] = t
				c.cellName[id] = "cap." + fv.Name()
				st.cells[id] = val
				bind = append(bind, &Loc{Kind: "cell", Cell: id, Root: t})
			}
		} else {
			bind = append(bind, val)
		}
		// bind to a contract name: same name and type first, then same type
		best := ""
		for pass := 0; pass < 2 && best == ""; pass++ {
			for _, cp := range sp.Closure.Captures {
				if used[cp[0]] {
					continue
				}
				ct := env.typeExpr(parseTypeExpr(cp[1]))
				if ct == nil {
					fatal("closure %s: unknown type %s", sp.Name, cp[1])
				}
				if types.Identical(ct, t) && (pass == 1 || cp[0] == fv.Name()) {
					best = cp[0]
					break
				}
			}
		}
		if best != "" {
			used[best] = true
			env.vars[best] = SVal{val, t}
		}
	}
	for _, cp := range sp.Closure.Captures {
		if !used[cp[0]] {
			return nil, fmt.Errorf("closure %s: no captured variable of type %s for %s", sp.Name, cp[1], cp[0])
		}
	}
	return bind, nil
}
func isObjFV(fv *ssa.FreeVar) bool { return addrEscapes(fv, 1) }

// modLog reports whether the contract lets the function call out.
func (sp *FuncSpec) modLog() bool {
	for _, m := range sp.Modifies {
		if m == "log" || m == "*" {
			return true
		}
	}
	return false
}

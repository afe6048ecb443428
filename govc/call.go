package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// funcKey is a short stable name: pkgname.(*T).Method / pkgname.Func
func funcKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			if star != "" {
				return fmt.Sprintf("%s.(*%s).%s", n.Obj().Pkg().Name(), n.Obj().Name(), fn.Name())
			}
			return fmt.Sprintf("%s.(%s).%s", n.Obj().Pkg().Name(), n.Obj().Name(), fn.Name())
		}
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if fn.Parent() != nil {
		return funcKey(fn.Parent()) + "$" + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Name() + "." + fn.Name()
	}
	return fn.Name()
}

func (c *Ctx) call(fr *Frame, st *State, cc *ssa.CallCommon, pos token.Pos, ins ssa.Value) Val {
	var vals []Val
	for _, a := range cc.Args {
		vals = append(vals, c.value(fr, st, a))
	}
	fnv := c.value(fr, st, cc.Value)
	return c.callVals(fr, st, cc, fnv, vals, pos, ins)
}

func (c *Ctx) callVals(fr *Frame, st *State, cc *ssa.CallCommon, fnv Val, vals []Val, pos token.Pos, ins ssa.Value) Val {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(st, b.Name(), cc, vals, pos)
	}
	if cc.IsInvoke() {
		return c.invoke(fr, st, cc, fnv, vals, pos)
	}
	if sc := cc.StaticCallee(); sc != nil {
		var bind []Val
		if f, ok := fnv.(*Fn); ok {
			bind = f.Bind
		}
		return c.callFn(fr, st, sc, bind, vals, pos)
	}
	return c.callDyn(fr, st, fnv, cc.Signature(), vals, pos)
}

// callDyn calls a function value.
func (c *Ctx) callDyn(fr *Frame, st *State, fnv Val, sig *types.Signature, vals []Val, pos token.Pos) Val {
	switch f := fnv.(type) {
	case *Fn:
		return c.callFn(fr, st, f.F, f.Bind, vals, pos)
	case Sc:
		if g, ok := c.fns[f.T]; ok {
			return c.callFn(fr, st, g.F, g.Bind, vals, pos)
		}
		if f.T.Op == "select" && f.T.Args[0].Op == "store" && c.anyFn(f.T) {
			// a table of functions
			ar, k := f.T.Args[0], f.T.Args[1]
			f.T = c.tf.Ite(c.tf.Eq(ar.Args[1], k), ar.Args[2], c.tf.Select(ar.Args[0], k))
		}
		if f.T.Op == "ite" && c.anyFn(f.T) {
			cond := f.T.Args[0]
			a := st.clone()
			a.pc = c.tf.And(st.pc, cond)
			b := st.clone()
			b.pc = c.tf.And(st.pc, c.tf.Not(cond))
			var va, vb Val
			if a.pc != c.tf.F {
				va = c.callDyn(fr, a, Sc{T: f.T.Args[1], Prov: f.Prov}, sig, vals, pos)
			}
			if b.pc != c.tf.F {
				vb = c.callDyn(fr, b, Sc{T: f.T.Args[2], Prov: f.Prov}, sig, vals, pos)
			}
			var alive []*State
			if va != nil || a.pc != c.tf.F {
				alive = append(alive, a)
			}
			if vb != nil || b.pc != c.tf.F {
				alive = append(alive, b)
			}
			m := c.mergeStates(alive)
			if m == nil {
				st.pc = c.tf.F
				return nil
			}
			*st = *m
			if va == nil {
				return vb
			}
			if vb == nil {
				return va
			}
			return c.merge(cond, va, vb)
		}
		c.safe(st, "call of nil function", c.tf.Neq(f.T, c.tf.Int(0)), pos)
		if f.Prov == "" && (f.T.Op == "select" || f.T.Op == "int") {
			c.safe(st, "call of an unknown function", c.tf.F, pos)
			st.pc = c.tf.F
			return c.havocResult(sig)
		}
		if f.Prov == "" || c.v.pureParam(f.Prov) {
			// a function parameter: assumed pure (deterministic, effect free)
			return c.applyPure(f.T, sig, vals)
		}
		name := f.Prov
		if i := strings.LastIndex(name, "."); i >= 0 {
			name = name[i+1:]
		}
		return c.opaque(st, "cb."+name, sig, vals, pos)
	}
	panic(unsup("call of %T", fnv))
}

func (c *Ctx) anyFn(t *Term) bool {
	if _, ok := c.fns[t]; ok {
		return true
	}
	if t.Op == "ite" {
		return c.anyFn(t.Args[1]) || c.anyFn(t.Args[2])
	}
	if t.Op == "select" && t.Args[0].Op == "store" {
		ar := t.Args[0]
		return c.anyFn(ar.Args[2]) || c.anyFn(c.tf.Select(ar.Args[0], t.Args[1]))
	}
	return false
}

func (c *Ctx) applyPure(f *Term, sig *types.Signature, vals []Val) Val {
	c.note("function-valued parameters are deterministic and free of side effects")
	as := []*Term{f}
	for i, v := range vals {
		c.toLeaves(sig.Params().At(i).Type(), v, func(l Leaf, x *Term) { as = append(as, x) })
	}
	res := sig.Results()
	if res.Len() == 0 {
		return Tuple{}
	}
	mk := func(i int) Val {
		return c.fromLeaves(res.At(i).Type(), func(l Leaf) *Term {
			return c.tf.App(fmt.Sprintf("apply:%s#%d%s", typeKey(sig), i, l.Path), l.S, as...)
		})
	}
	if res.Len() == 1 {
		return mk(0)
	}
	t := Tuple{}
	for i := 0; i < res.Len(); i++ {
		t = append(t, mk(i))
	}
	return t
}

func (c *Ctx) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv Val, vals []Val, pos token.Pos) Val {
	m := cc.Method
	var dyn types.Type
	var rv Val
	switch r := recv.(type) {
	case *Iface:
		dyn, rv = r.Dyn, r.V
	case Sc:
		if d := c.v.ifaceDyn(r.Prov, cc.Value.Type()); d != nil {
			c.safe(st, "nil interface call", c.tf.Neq(r.T, c.tf.Int(0)), pos)
			dyn, rv = d, Sc{T: r.T}
		}
	}
	if dyn != nil {
		fn := c.v.prog.LookupMethod(dyn, m.Pkg(), m.Name())
		if fn == nil {
			panic(unsup("no method %s on %s", m.Name(), dyn))
		}
		return c.callFn(fr, st, fn, nil, append([]Val{rv}, vals...), pos)
	}
	r, ok := recv.(Sc)
	if !ok {
		panic(unsup("invoke on %T", recv))
	}
	if m.Name() == "Error" && isErrorT(cc.Value.Type()) {
		return Sc{T: c.tf.App("err.msg", SInt, r.T)}
	}
	c.safe(st, "nil interface call", c.tf.Neq(r.T, c.tf.Int(0)), pos)
	n := typeKey(cc.Value.Type())
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	ch := n + "." + m.Name()
	if c.pure == 0 {
		k := st.get(c, "log:"+ch+"#n", SInt)
		nm := "log:" + ch + "#recv"
		st.set(nm, c.tf.Store(st.get(c, nm, SArr(SInt, SInt)), k, r.T))
	}
	return c.opaque(st, ch, m.Type().(*types.Signature), vals, pos)
}

// opaque logs a call to code outside the verified set and returns an arbitrary result.
func (c *Ctx) opaque(st *State, ch string, sig *types.Signature, vals []Val, pos token.Pos) Val {
	var ts []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	n := len(ts)
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return c.opaqueT(st, ch, ts, n, vals, nil)
}

func (c *Ctx) opaqueT(st *State, ch string, ts []types.Type, nargs int, vals []Val, results []Val) Val {
	if c.pure > 0 {
		panic(unsup("external call %s in quantified context", ch))
	}
	tf := c.tf
	c.touched[ch] = true
	if c.chanSig[ch] == nil {
		c.chanSig[ch] = &ChanSig{Name: ch, Types: ts, NArgs: nargs}
	}
	for _, v := range vals {
		if f, ok := v.(*Fn); ok && c.dry == 0 {
			c.sites = append(c.sites, &CallSite{Chan: ch, Args: vals, St: st.clone(), Fr: c.frame()})
			_ = f
			break
		}
	}
	before := st.clone()
	c.chanHavoc(st, ch)
	if results == nil {
		for i := nargs; i < len(ts); i++ {
			results = append(results, c.havocVal(st, "ret."+ch, ts[i]))
		}
	}
	n := st.get(c, "log:"+ch+"#n", SInt)
	all := append(append([]Val{}, vals...), results...)
	if c.v.trackArgs(ch) {
		for k, v := range all {
			if k >= len(ts) {
				break
			}
			pre := fmt.Sprintf("log:%s#%d", ch, k)
			c.toLeavesLoose(ts[k], v, func(l Leaf, x *Term) {
				nm := pre + l.Path
				h := st.get(c, nm, SArr(SInt, x.S))
				st.set(nm, tf.Store(h, n, x))
			})
			switch u := types.Unalias(ts[k]).Underlying().(type) {
			case *types.Slice:
				if s, ok := v.(*Slice); ok {
					a := c.content(st, s)
					if !(s.Off.Op == "int" && s.Off.C == 0) {
						break
					}
					nm := pre + "#arr"
					h := st.get(c, nm, SArr(SInt, a.S))
					st.set(nm, tf.Store(h, n, a))
				}
			case *types.Map:
				d, vv, ln := c.mapHeaps(st, u)
				p := c.term(v)
				for _, x := range []struct {
					s string
					t *Term
				}{{"#dom", tf.Select(d, p)}, {"#val", tf.Select(vv, p)}, {"#mlen", tf.Select(ln, p)}} {
					h := st.get(c, pre+x.s, SArr(SInt, x.t.S))
					st.set(pre+x.s, tf.Store(h, n, x.t))
				}
			}
		}
	}
	st.set("log:"+ch+"#n", tf.AddC(n, 1))
	c.chanAssume(st, before, ch, n)
	switch len(results) {
	case 0:
		return Tuple{}
	case 1:
		return results[0]
	}
	return Tuple(results)
}

func (c *Ctx) toLeavesLoose(t types.Type, v Val, f func(l Leaf, x *Term)) {
	switch x := v.(type) {
	case *Fn:
		f(Leaf{"", SInt, t, ""}, c.fnTerm(x))
		return
	case *Iface:
		f(Leaf{"", SInt, t, ""}, c.box(x))
		return
	case *Loc:
		if x.Kind == "cell" {
			f(Leaf{"", SInt, t, ""}, c.tf.Fresh("cellptr", SInt))
			return
		}
	case *Slice:
		if !(x.Off.Op == "int" && x.Off.C == 0) {
			f(Leaf{"#len", SInt, t, "len"}, x.Len)
			return
		}
	}
	c.toLeaves(t, v, f)
}

func (c *Ctx) callFn(fr *Frame, st *State, fn *ssa.Function, bind, vals []Val, pos token.Pos) Val {
	key := funcKey(fn)
	if m, ok := models[key]; ok {
		c.trusted["model of "+key] = true
		return m(c, fr, st, fn, vals, pos)
	}
	if sp := c.v.specFor(fn); sp != nil && sp.Modular && bind == nil {
		// a modular function under contract; inside its own body recursion uses the contract too
		if !(c.target != nil && c.target.Fn == fn && len(c.frames) == 0) && c.pure == 0 && !c.inlineSpecs {
			return c.callSpec(fr, st, sp, fn, vals, pos)
		}
	}
	if fn.Synthetic != "" && fn.Blocks == nil {
		panic(unsup("synthetic function %s", fn))
	}
	if c.v.inlinable(fn) {
		c.inlined[key] = true
		path := "?"
		if fr != nil {
			path = fr.path + "/" + fn.Name() + "@" + c.callOrd(fr, pos)
		}
		v, out := c.runFunc(fn, vals, bind, st, path)
		if out == nil {
			st.pc = c.tf.F
			return nil
		}
		*st = *out
		if v == nil {
			return Tuple{}
		}
		return v
	}
	return c.opaque(st, key, c.sigWithRecv(fn), vals, pos)
}

func (c *Ctx) sigWithRecv(fn *ssa.Function) *types.Signature {
	if fn.Signature.Recv() == nil {
		return fn.Signature
	}
	ps := []*types.Var{fn.Signature.Recv()}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		ps = append(ps, fn.Signature.Params().At(i))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), fn.Signature.Results(), false)
}

// callOrd names a call site by its ordinal among the positions seen in this frame (stable under renames).
func (c *Ctx) callOrd(fr *Frame, pos token.Pos) string {
	if fr.ords == nil {
		fr.ords = map[token.Pos]int{}
	}
	if _, ok := fr.ords[pos]; !ok {
		fr.ords[pos] = len(fr.ords)
	}
	return fmt.Sprint(fr.ords[pos])
}

func (c *Ctx) goCall(fr *Frame, st *State, cc *ssa.CallCommon, pos token.Pos) {
	sc := cc.StaticCallee()
	var vals []Val
	for _, a := range cc.Args {
		vals = append(vals, c.value(fr, st, a))
	}
	if sc == nil {
		panic(unsup("go with a dynamic function"))
	}
	f, _ := c.value(fr, st, cc.Value).(*Fn)
	if f != nil && len(f.Bind) > 0 {
		c.opaqueT(st, "go."+funcKey(sc), []types.Type{cc.Value.Type()}, 1, []Val{f}, []Val{})
		return
	}
	c.opaque(st, "go."+funcKey(sc), types.NewSignatureType(nil, nil, nil, c.sigWithRecv(sc).Params(), nil, false), vals, pos)
}

// ---------- builtins
func (c *Ctx) builtin(st *State, name string, cc *ssa.CallCommon, vals []Val, pos token.Pos) Val {
	tf := c.tf
	switch name {
	case "len", "cap":
		switch x := vals[0].(type) {
		case *Slice:
			if name == "cap" {
				return Sc{T: x.Cap}
			}
			return Sc{T: x.Len}
		case *ArrPtr:
			return Sc{T: tf.Int(x.N)}
		case Sc:
			if mt, ok := types.Unalias(cc.Args[0].Type()).Underlying().(*types.Map); ok {
				return Sc{T: c.mapLen(st, mt, x.T)}
			}
			r := tf.App("str.len", SInt, x.T)
			if !r.free {
				c.fact(tf.Le(tf.Int(0), r))
				c.fact(tf.Iff(tf.Eq(r, tf.Int(0)), tf.Eq(x.T, tf.Int(0))))
			}
			return Sc{T: r}
		}
	case "append":
		s, ok1 := vals[0].(*Slice)
		t, ok2 := vals[1].(*Slice)
		if ok1 && ok2 {
			return c.appendOp(st, s, t)
		}
	case "copy":
		d, ok1 := vals[0].(*Slice)
		s, ok2 := vals[1].(*Slice)
		if ok1 && ok2 {
			return c.copyOp(st, d, s)
		}
	case "delete":
		mt := types.Unalias(cc.Args[0].Type()).Underlying().(*types.Map)
		c.mapDelete(st, mt, c.term(vals[0]), c.mapKey(vals[1]))
		return Tuple{}
	case "ssa:deferstack":
		return Sc{T: tf.Int(0)}
	case "print", "println":
		return Tuple{}
	case "ssa:wrapnilchk":
		return vals[0]
	case "min", "max":
		x, y := c.term(vals[0]), c.term(vals[1])
		if len(vals) == 2 {
			if name == "min" {
				return Sc{T: tf.Ite(tf.Le(x, y), x, y)}
			}
			return Sc{T: tf.Ite(tf.Le(x, y), y, x)}
		}
	case "recover":
		return Sc{T: tf.Int(0)}
	}
	panic(unsup("builtin %s", name))
}

func (c *Ctx) mapLen(st *State, m *types.Map, p *Term) *Term {
	_, _, l := c.mapHeaps(st, m)
	r := c.tf.Ite(c.tf.Eq(p, c.tf.Int(0)), c.tf.Int(0), c.tf.Select(l, p))
	return r
}

func (c *Ctx) copyOp(st *State, d, s *Slice) Val {
	tf := c.tf
	if c.pure > 0 {
		panic(unsup("copy in quantified context"))
	}
	n := tf.Ite(tf.Le(d.Len, s.Len), d.Len, s.Len)
	m := c.mem(st, d.Elem)
	old := tf.Select(m, d.Base)
	src := c.content(st, s)
	_, vs := m.S.arrParts()
	na := tf.Fresh("cpy", vs)
	q := tf.BoundVar("cq", SInt)
	sel := tf.Select(na, q)
	c.fact(tf.Forall([]*Term{q}, tf.Eq(sel, tf.Ite(tf.And(tf.Le(d.Off, q), tf.Lt(q, tf.Add(d.Off, n))),
		tf.Select(src, tf.Add(tf.Sub(q, d.Off), s.Off)), tf.Select(old, q))), []*Term{sel}))
	c.setMem(st, d.Elem, tf.Store(m, d.Base, na))
	return Sc{T: n}
}

// havocResult: arbitrary results of a call that cannot happen.
func (c *Ctx) havocResult(sig *types.Signature) Val {
	mk := func(i int) Val {
		return c.fromLeaves(sig.Results().At(i).Type(), func(l Leaf) *Term { return c.tf.Fresh("nores", l.S) })
	}
	switch sig.Results().Len() {
	case 0:
		return Tuple{}
	case 1:
		return mk(0)
	}
	t := Tuple{}
	for i := 0; i < sig.Results().Len(); i++ {
		t = append(t, mk(i))
	}
	return t
}

package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func parserParse(s string) (ast.Expr, error) { return parser.ParseExpr(s) }

const nsPerSec = 1000000000

type modelFn func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val

var models map[string]modelFn

func (c *Ctx) timeVal(t types.Type, sec, ns *Term) Val {
	return &Struct{Typ: t, F: []Val{Sc{T: sec}, Sc{T: ns}}}
}
func (c *Ctx) timeNs(v Val) *Term {
	s := v.(*Struct)
	return c.tf.Add(c.tf.Mul(s.F[0].(Sc).T, c.tf.Int(nsPerSec)), s.F[1].(Sc).T)
}
func (c *Ctx) advanceNow(st *State) (*Term, *Term) {
	tf := c.tf
	if c.pure > 0 {
		panic(unsup("time.Now in quantified context"))
	}
	s, n := tf.Fresh("nowsec", SInt), tf.Fresh("nownsec", SInt)
	c.fact(tf.And(tf.Le(tf.Int(0), n), tf.Lt(n, tf.Int(nsPerSec)), tf.Lt(tf.Int(0), s)))
	tot := tf.Add(tf.Mul(s, tf.Int(nsPerSec)), n)
	if c.target.Spec != nil && c.target.Spec.Instant {
		c.notes["the clock does not advance during one call of "+c.target.Name] = true
		c.fact(tf.Eq(st.get(c, "$now", SInt), tot))
		return s, n
	}
	c.fact(tf.Le(st.get(c, "$now", SInt), tot))
	st.set("$now", tot)
	return s, n
}
func retType(fn *ssa.Function, i int) types.Type { return fn.Signature.Results().At(i).Type() }

func (c *Ctx) freshErr(st *State) *Term {
	e := c.tf.Fresh("err", SInt)
	c.fact(c.tf.And(c.tf.Lt(c.tf.Int(0), e), c.tf.Lt(e, c.tf.Int(9000000))))
	return e
}

func (c *Ctx) sprintf(format string, as []*Term) *Term {
	tf := c.tf
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			if format[i+1] == '%' {
				i++
				continue
			}
			n++
		}
	}
	r := tf.App("sprintf:"+format, SInt, as...)
	c.trusted["fmt.Sprintf is a function of its arguments; \"%s<sep>%d\" formats are injective"] = true
	if !c.sprintfSeen[format] {
		c.sprintfSeen[format] = true
		// global injectivity through inverses, only for formats that determine their arguments
		if strings.Count(format, "%s") <= 1 && strings.Count(format, "%d") <= 1 && n == len(as) && n > 0 && (n == 1 || strings.HasPrefix(strings.Replace(format, "%s", "", 1), ".") || strings.HasPrefix(strings.Replace(format, "%s", "", 1), "-") || strings.HasPrefix(strings.Replace(format, "%s", "", 1), "_") || strings.HasPrefix(strings.Replace(format, "%s", "", 1), ":")) && (strings.HasSuffix(format, "%d") || n == 1) {
			var bv []*Term
			for i := range as {
				bv = append(bv, tf.BoundVar(fmt.Sprintf("sp%d", i), SInt))
			}
			ap := tf.App("sprintf:"+format, SInt, bv...)
			var cs []*Term
			for i := range as {
				cs = append(cs, tf.Eq(tf.App(fmt.Sprintf("unsprintf%d:%s", i, format), SInt, ap), bv[i]))
			}
			c.facts = append(c.facts, Fact{T: tf.Forall(bv, tf.And(cs...), []*Term{ap}), UF: ap.Name})
		}
	}
	return r
}

func (c *Ctx) varargs(st *State, v Val) []*Term {
	s, ok := v.(*Slice)
	if !ok {
		return nil
	}
	if s.Len.Op != "int" {
		panic(unsup("variadic call with unknown arguments"))
	}
	var out []*Term
	a := c.content(st, s)
	for i := int64(0); i < s.Len.C; i++ {
		out = append(out, c.tf.Select(a, c.tf.AddC(s.Off, i)))
	}
	return out
}

// loc of a pointer receiver
func (c *Ctx) lockLeaf(st *State, v Val, f func(x *Term) *Term, pos token.Pos) {
	l, ok := v.(*Loc)
	if !ok {
		panic(unsup("mutex receiver"))
	}
	cur, ok := c.load(st, l, pos).(*Struct)
	if !ok {
		panic(unsup("mutex value"))
	}
	n := &Struct{Typ: cur.Typ, F: []Val{Sc{T: f(cur.F[0].(Sc).T)}}}
	c.store(st, l, n, pos)
}

func noop(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Tuple{}
	case 1:
		return c.havocVal(st, "ret."+fn.Name(), res.At(0).Type())
	}
	t := Tuple{}
	for i := 0; i < res.Len(); i++ {
		t = append(t, c.havocVal(st, "ret."+fn.Name(), res.At(i).Type()))
	}
	return t
}

func init() {
	m := map[string]modelFn{}
	models = m
	m["time.Now"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		s, n := c.advanceNow(st)
		return c.timeVal(retType(fn, 0), s, n)
	}
	m["time.Unix"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		s, n := c.term(vals[0]), c.term(vals[1])
		if n.Op == "int" && n.C >= 0 && n.C < nsPerSec {
			return c.timeVal(retType(fn, 0), s, n)
		}
		q := c.tf.DivC(n, nsPerSec)
		return c.timeVal(retType(fn, 0), c.tf.Add(s, q), c.tf.Sub(n, c.tf.Mul(q, c.tf.Int(nsPerSec))))
	}
	m["time.(Time).Unix"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return Sc{T: vals[0].(*Struct).F[0].(Sc).T}
	}
	m["time.(Time).UnixNano"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return Sc{T: c.timeNs(vals[0])}
	}
	m["time.(Time).UnixMilli"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return Sc{T: c.tf.DivC(c.timeNs(vals[0]), 1000000)}
	}
	m["time.(Time).Add"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		s := vals[0].(*Struct)
		d := c.tf.Add(s.F[1].(Sc).T, c.term(vals[1]))
		// whole seconds are split off linearly
		dd := c.term(vals[1])
		if q, ok := c.exactDiv(dd, nsPerSec); ok {
			return c.timeVal(retType(fn, 0), c.tf.Add(s.F[0].(Sc).T, q), s.F[1].(Sc).T)
		}
		q := c.tf.DivC(d, nsPerSec)
		return c.timeVal(retType(fn, 0), c.tf.Add(s.F[0].(Sc).T, q), c.tf.Sub(d, c.tf.Mul(q, c.tf.Int(nsPerSec))))
	}
	cmp := func(f func(c *Ctx, a, b *Term) *Term) modelFn {
		return func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
			return Sc{T: f(c, c.timeNs(vals[0]), c.timeNs(vals[1]))}
		}
	}
	m["time.(Time).Before"] = cmp(func(c *Ctx, a, b *Term) *Term { return c.tf.Lt(a, b) })
	m["time.(Time).After"] = cmp(func(c *Ctx, a, b *Term) *Term { return c.tf.Lt(b, a) })
	m["time.(Time).Equal"] = cmp(func(c *Ctx, a, b *Term) *Term { return c.tf.Eq(a, b) })
	m["time.(Time).Sub"] = cmp(func(c *Ctx, a, b *Term) *Term { return c.tf.Sub(a, b) })
	m["time.Since"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		s, n := c.advanceNow(st)
		return Sc{T: c.tf.Sub(c.tf.Add(c.tf.Mul(s, c.tf.Int(nsPerSec)), n), c.timeNs(vals[0]))}
	}
	m["time.(Duration).Seconds"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		d := c.term(vals[0])
		if q, ok := c.exactDiv(d, nsPerSec); ok {
			return Sc{T: c.tf.mk(&Term{Op: "to_real", Args: []*Term{q}, S: SReal})}
		}
		return Sc{T: c.tf.mk(&Term{Op: "r/", Args: []*Term{c.tf.mk(&Term{Op: "to_real", Args: []*Term{d}, S: SReal}), c.tf.Real("1000000000.0")}, S: SReal})}
	}
	for _, k := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "log.Printf", "log.Println"} {
		m[k] = noop
	}
	m["fmt.Sprintf"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		f := c.term(vals[0])
		s, ok := c.v.litOf(f)
		if !ok {
			return Sc{T: c.tf.Fresh("sprintf", SInt)}
		}
		return Sc{T: c.sprintf(s, c.varargs(st, vals[1]))}
	}
	errNew := func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		if c.pure > 0 {
			panic(unsup("error creation in quantified context"))
		}
		return Sc{T: c.freshErr(st)}
	}
	m["fmt.Errorf"] = errNew
	m["errors.New"] = errNew
	m["errors.Is"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return Sc{T: c.tf.Eq(c.term(vals[0]), c.term(vals[1]))}
	}
	m["strings.Join"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return Sc{T: c.tf.Fresh("join", SInt)}
	}
	m["uuid.New"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return &ArrPtr{Base: c.allocPtr(st), N: 16, Elem: types.Typ[types.Byte]}
	}
	m["uuid.(UUID).String"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		x := c.tf.Fresh("uuid", SInt)
		c.fact(c.tf.Neq(x, c.tf.Int(0)))
		return Sc{T: x}
	}
	m["uuid.NewString"] = m["uuid.(UUID).String"]
	// sync
	lock := func(need, set int64, what string) modelFn {
		return func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
			c.lockLeaf(st, vals[0], func(x *Term) *Term {
				c.safe(st, what, c.tf.Eq(x, c.tf.Int(need)), pos)
				return c.tf.Int(set)
			}, pos)
			return Tuple{}
		}
	}
	for _, t := range []string{"sync.(*RWMutex)", "sync.(*Mutex)"} {
		m[t+".Lock"] = lock(0, -1, "lock of a mutex already held (deadlock)")
		m[t+".Unlock"] = lock(-1, 0, "unlock of a mutex not held")
	}
	m["sync.(*RWMutex).RLock"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		c.lockLeaf(st, vals[0], func(x *Term) *Term {
			c.safe(st, "read lock while write-locked (deadlock)", c.tf.Le(c.tf.Int(0), x), pos)
			return c.tf.AddC(x, 1)
		}, pos)
		return Tuple{}
	}
	m["sync.(*RWMutex).RUnlock"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		c.lockLeaf(st, vals[0], func(x *Term) *Term {
			c.safe(st, "read unlock of a mutex not held", c.tf.Lt(c.tf.Int(0), x), pos)
			return c.tf.AddC(x, -1)
		}, pos)
		return Tuple{}
	}
	for _, k := range []string{"sync.(*WaitGroup).Add", "sync.(*WaitGroup).Done", "sync.(*WaitGroup).Wait"} {
		m[k] = noop
	}
	smap := func(f func(c *Ctx, st *State, s *Struct, vals []Val, put func(d, v *Term)) Val) modelFn {
		return func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
			l, ok := vals[0].(*Loc)
			if !ok {
				panic(unsup("sync.Map receiver"))
			}
			s := c.load(st, l, pos).(*Struct)
			return f(c, st, s, vals[1:], func(d, v *Term) {
				c.store(st, l, &Struct{Typ: s.Typ, F: []Val{Sc{T: d}, Sc{T: v}}}, pos)
			})
		}
	}
	dv := func(s *Struct) (*Term, *Term) { return s.F[0].(Sc).T, s.F[1].(Sc).T }
	m["sync.(*Map).Load"] = smap(func(c *Ctx, st *State, s *Struct, vals []Val, put func(d, v *Term)) Val {
		d, v := dv(s)
		k := c.term(vals[0])
		ok := c.tf.Select(d, k)
		return Tuple{Sc{T: c.tf.Ite(ok, c.tf.Select(v, k), c.tf.Int(0)), Prov: "sync.Map"}, Sc{T: ok}}
	})
	m["sync.(*Map).Store"] = smap(func(c *Ctx, st *State, s *Struct, vals []Val, put func(d, v *Term)) Val {
		d, v := dv(s)
		k := c.term(vals[0])
		put(c.tf.Store(d, k, c.tf.T), c.tf.Store(v, k, c.term(vals[1])))
		return Tuple{}
	})
	m["sync.(*Map).Delete"] = smap(func(c *Ctx, st *State, s *Struct, vals []Val, put func(d, v *Term)) Val {
		d, v := dv(s)
		put(c.tf.Store(d, c.term(vals[0]), c.tf.F), v)
		return Tuple{}
	})
	m["sync.(*Map).LoadOrStore"] = smap(func(c *Ctx, st *State, s *Struct, vals []Val, put func(d, v *Term)) Val {
		d, v := dv(s)
		k := c.term(vals[0])
		ok := c.tf.Select(d, k)
		x := c.term(vals[1])
		act := c.tf.Ite(ok, c.tf.Select(v, k), x)
		put(c.tf.Store(d, k, c.tf.T), c.tf.Store(v, k, act))
		return Tuple{Sc{T: act}, Sc{T: ok}}
	})
	m["sync.(*Map).LoadAndDelete"] = smap(func(c *Ctx, st *State, s *Struct, vals []Val, put func(d, v *Term)) Val {
		d, v := dv(s)
		k := c.term(vals[0])
		ok := c.tf.Select(d, k)
		put(c.tf.Store(d, k, c.tf.F), v)
		return Tuple{Sc{T: c.tf.Ite(ok, c.tf.Select(v, k), c.tf.Int(0))}, Sc{T: ok}}
	})
	m["sync.(*Map).Range"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return c.syncRange(fr, st, vals, pos)
	}
	// timers
	m["timebank.NewTimeBank"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return Sc{T: c.allocPtr(st)}
	}
	timer := func(c *Ctx, fr *Frame, st *State, deadline *Term, f Val, canFail bool, ft types.Type) Val {
		s, n := c.advanceNow(st)
		now := c.tf.Add(c.tf.Mul(s, c.tf.Int(nsPerSec)), n)
		var err *Term
		if canFail {
			e := c.freshErr(st)
			err = c.tf.Ite(c.tf.Lt(deadline, now), e, c.tf.Int(0))
		} else {
			err = c.tf.Int(0)
		}
		et := types.Universe.Lookup("error").Type()
		c.opaqueT(st, "timer", []types.Type{types.Typ[types.Int64], ft, et}, 2, []Val{Sc{T: deadline}, f}, []Val{Sc{T: err}})
		return Sc{T: err}
	}
	m["timebank.(*TimeBank).NewTask"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		c.safe(st, "timer delay is positive (a non-positive delay runs the task synchronously)", c.tf.Lt(c.tf.Int(0), c.term(vals[1])), pos)
		return timer(c, fr, st, c.tf.Add(st.get(c, "$now", SInt), c.term(vals[1])), vals[2], false, fn.Signature.Params().At(1).Type())
	}
	m["timebank.(*TimeBank).NewTaskWithDeadline"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return timer(c, fr, st, c.timeNs(vals[1]), vals[2], true, fn.Signature.Params().At(1).Type())
	}
	m["timebank.(*TimeBank).Cancel"] = noop
	m["pokercompetition.(*competitionEngine).delay"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return c.callDyn(fr, st, vals[2], types.Unalias(fn.Params[2].Type()).Underlying().(*types.Signature), nil, pos)
	}
	// random numbers
	rnd := func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		n := c.term(vals[len(vals)-1])
		c.safe(st, "rand.Intn of a non-positive bound", c.tf.Lt(c.tf.Int(0), n), pos)
		r := c.tf.Fresh("rnd", SInt)
		c.fact(c.tf.Le(c.tf.Int(0), r))
		c.assume(st, c.tf.Lt(r, n))
		return Sc{T: r}
	}
	for _, k := range []string{"Intn", "Int63n", "Int31n"} {
		m["rand."+k] = rnd
		m["rand.(*Rand)."+k] = rnd
	}
	flt := func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		r := c.tf.Fresh("rndf", SReal)
		c.fact(c.tf.And(c.tf.Le(c.tf.Real("0.0"), r), c.tf.Lt(r, c.tf.Real("1.0"))))
		return Sc{T: r}
	}
	m["rand.Float64"] = flt
	m["rand.(*Rand).Float64"] = flt
	m["rand.Seed"] = noop
	// go-funk
	m["funk.Contains"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		s, ok := ifaceVal(vals[0]).(*Slice)
		if !ok {
			panic(unsup("funk.Contains on %T", vals[0]))
		}
		x := ifaceVal(vals[1])
		if s.Len.Op == "int" && s.Len.C <= 32 {
			var cs []*Term
			a := c.content(st, s)
			for i := int64(0); i < s.Len.C; i++ {
				cs = append(cs, c.valEq(c.elemVal(st, s.Elem, c.tf.Select(a, c.tf.AddC(s.Off, i))), x))
			}
			return Sc{T: c.tf.Or(cs...)}
		}
		q := c.boundName("fc", SInt)
		return Sc{T: c.tf.Exists([]*Term{q}, c.tf.And(c.tf.Le(c.tf.Int(0), q), c.tf.Lt(q, s.Len), c.valEq(c.elemVal(nil, s.Elem, c.tf.Select(c.content(st, s), c.tf.Add(s.Off, q))), x)))}
	}
	m["funk.ContainsString"] = m["funk.Contains"]
	m["funk.Filter"] = modelFilter
	m["funk.Map"] = modelMap
	m["sort.Slice"] = modelSort
	m["sort.SliceStable"] = modelSort
	m["json.Marshal"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		if c.pure > 0 {
			panic(unsup("json in quantified context"))
		}
		tok := c.tf.Fresh("json", SInt)
		c.fact(c.tf.Lt(c.tf.Int(0), tok))
		c.jsonToks[tok] = &jsonTok{v: vals[0], st: st.clone()}
		ln := c.tf.Fresh("jsonlen", SInt)
		c.fact(c.tf.Lt(c.tf.Int(0), ln))
		err := c.tf.Fresh("jsonerr", SInt)
		c.fact(c.tf.And(c.tf.Le(c.tf.Int(0), err), c.tf.Lt(err, c.tf.Int(9000000))))
		return Tuple{&Slice{Base: tok, Off: c.tf.Int(0), Len: ln, Cap: ln, Elem: types.Typ[types.Byte]}, Sc{T: err}}
	}
	m["json.Unmarshal"] = func(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
		return c.jsonUnmarshal(st, vals, pos)
	}
}

func ifaceVal(v Val) Val {
	if i, ok := v.(*Iface); ok {
		return i.V
	}
	return v
}

type jsonTok struct {
	v  Val
	st *State
}

// exactDiv: t/d when every coefficient of t is divisible by d.
func (c *Ctx) exactDiv(t *Term, d int64) (*Term, bool) {
	m, k := c.tf.linOf(t)
	if k%d != 0 {
		return nil, false
	}
	n := map[*Term]int64{}
	for x, co := range m {
		if co%d != 0 {
			return nil, false
		}
		n[x] = co / d
	}
	return c.tf.mkLin(n, k/d), true
}

// jsonUnmarshal: decoding what json.Marshal encoded gives an equal, newly allocated copy.
func (c *Ctx) jsonUnmarshal(st *State, vals []Val, pos token.Pos) Val {
	b, ok := vals[0].(*Slice)
	if !ok {
		panic(unsup("json.Unmarshal"))
	}
	tok := c.jsonToks[b.Base]
	dst := ifaceVal(vals[1])
	if tok == nil {
		panic(unsup("json.Unmarshal of unknown data"))
	}
	c.trusted["json.Unmarshal(json.Marshal(x)) produces an equal copy whose objects are newly allocated; it cannot fail for the types used here"] = true
	if st.reg != nil {
		c.curReg = st.reg
	}
	src := tok.v
	var dt types.Type
	di, ok := vals[1].(*Iface)
	if !ok {
		panic(unsup("json.Unmarshal destination"))
	}
	dt = deref(di.Dyn)
	sv := ifaceVal(src)
	st0 := tok.st
	si, ok := src.(*Iface)
	if !ok {
		panic(unsup("json.Marshal source"))
	}
	if p, ok := types.Unalias(si.Dyn).Underlying().(*types.Pointer); ok {
		sv = c.loadQuiet(st0, c.toLoc(sv, p.Elem()))
		if !types.Identical(p.Elem(), dt) {
			panic(unsup("json copy between different types"))
		}
	} else if !types.Identical(si.Dyn, dt) {
		panic(unsup("json copy between different types"))
	}
	cp := c.jsonCopy(st, st0, dt, sv, 0)
	c.store(st, c.toLoc(dst, dt), cp, pos)
	return Sc{T: c.tf.Int(0)}
}
func (c *Ctx) loadQuiet(st *State, l *Loc) Val {
	if l.Kind == "heap" {
		return c.loadLoc(st, l)
	}
	return c.load(st, l, token.NoPos)
}

// jsonCopy copies pointers to structs and slices of pointers one object at a time, to a small depth.
func (c *Ctx) jsonCopy(st, st0 *State, t types.Type, v Val, depth int) Val {
	tf := c.tf
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		if _, ok := structOf(u.Elem()); ok && depth < 4 {
			p := c.term(v)
			o := c.jsonCopy(st, st0, u.Elem(), c.loadLoc(st0, &Loc{Kind: "heap", Ptr: p, Root: u.Elem()}), depth+1)
			np := c.allocPtr(st)
			c.storeHeap(st, u.Elem(), np, "", u.Elem(), o)
			return Sc{T: tf.Ite(tf.Eq(p, tf.Int(0)), tf.Int(0), np)}
		}
		return v
	case *types.Struct:
		if isTimeT(t) {
			return v
		}
		s, ok := v.(*Struct)
		if !ok {
			return v
		}
		n := &Struct{Typ: s.Typ}
		for i, f := range s.F {
			n.F = append(n.F, c.jsonCopy(st, st0, u.Field(i).Type(), f, depth+1))
		}
		return n
	case *types.Slice:
		s, ok := v.(*Slice)
		if !ok {
			return v
		}
		pt, isPtr := types.Unalias(u.Elem()).Underlying().(*types.Pointer)
		m := c.mem(st, u.Elem())
		nb := c.allocPtr(st)
		if st.reg != nil {
			c.curReg = st.reg
		}
		c.fact(tf.Le(tf.Int(0), s.Len))
		if isPtr {
			el := pt.Elem()
			if _, ok := structOf(el); ok {
				// every element becomes a new object with the same fields
				base := st.get(c, "$alloc", SInt)
				st.set("$alloc", tf.Add(base, s.Len))
				_, as := m.S.arrParts()
				na := tf.Fresh("jsl", as)
				q := tf.BoundVar("jq", SInt)
				src := tf.Select(c.content(st0, s), tf.Add(s.Off, q))
				sel := tf.Select(na, q)
				in := tf.And(tf.Le(tf.Int(0), q), tf.Lt(q, s.Len))
				c.fact(tf.Forall([]*Term{q}, tf.Imp(in, tf.Eq(sel, tf.Ite(tf.Eq(src, tf.Int(0)), tf.Int(0), tf.Add(base, q)))), []*Term{sel}))
				c.setMem(st, u.Elem(), tf.Store(m, nb, na))
				for _, l := range leaves(el) {
					hn := c.heapName(el, l)
					h := st.get(c, hn, SArr(SInt, l.S))
					h0 := st0.get(c, hn, SArr(SInt, l.S))
					nh := tf.Fresh(hn, h.S)
					p := tf.BoundVar("jp", SInt)
					sp := tf.Select(nh, p)
					inn := tf.And(tf.Le(base, p), tf.Lt(p, tf.Add(base, s.Len)))
					orig := tf.Select(h0, tf.Select(c.content(st0, s), tf.Add(s.Off, tf.Sub(p, base))))
					c.fact(tf.Forall([]*Term{p}, tf.Eq(sp, tf.Ite(inn, orig, tf.Select(h, p))), []*Term{sp}))
					st.set(hn, nh)
				}
				return &Slice{Base: tf.Ite(tf.Eq(s.Base, tf.Int(0)), tf.Int(0), nb), Off: tf.Int(0), Len: s.Len, Cap: s.Len, Elem: s.Elem}
			}
		}
		if s.Off.Op != "int" || s.Off.C != 0 {
			return v
		}
		c.setMem(st, u.Elem(), tf.Store(m, nb, c.content(st0, s)))
		return &Slice{Base: tf.Ite(tf.Eq(s.Base, tf.Int(0)), tf.Int(0), nb), Off: tf.Int(0), Len: s.Len, Cap: s.Len, Elem: s.Elem}
	}
	return v
}

func (c *Ctx) syncRange(fr *Frame, st *State, vals []Val, pos token.Pos) Val {
	panic(unsup("sync.Map.Range"))
}

func (c *Ctx) pureCall(fr *Frame, st *State, fv Val, sig *types.Signature, args []Val, pos token.Pos) (r Val) {
	c.pure++
	reg := c.curReg
	defer func() { c.pure--; c.curReg = reg }()
	s := st.clone()
	s.pc = c.tf.T
	return c.callDyn(fr, s, fv, sig, args, pos)
}

func sigOf(v Val) *types.Signature {
	switch f := v.(type) {
	case *Iface:
		return types.Unalias(f.Dyn).Underlying().(*types.Signature)
	case *Fn:
		return f.F.Signature
	}
	panic(unsup("function argument"))
}

// safeCall checks the safety obligations of one call of f on arbitrary elements.
func (c *Ctx) safeCall(fr *Frame, st *State, f Val, sig *types.Signature, args []Val, guard *Term, pos token.Pos) {
	if c.dry > 0 || c.pure > 0 || c.target.NoSafety {
		return
	}
	reg := c.curReg
	s := st.clone()
	s.pc = c.tf.And(st.pc, guard)
	c.callDyn(fr, s, f, sig, args, pos)
	c.curReg = reg
}

func modelFilter(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
	tf := c.tf
	si, ok := vals[0].(*Iface)
	s, ok2 := ifaceVal(vals[0]).(*Slice)
	if !ok || !ok2 {
		panic(unsup("funk.Filter"))
	}
	f := ifaceVal(vals[1])
	sig := sigOf(vals[1])
	src := c.content(st, s)
	cv := c.countVar()
	body := c.term(c.pureCall(fr, st, f, sig, []Val{c.elemVal(nil, s.Elem, tf.Select(src, tf.Add(s.Off, cv)))}, pos))
	n := c.prefix(tf.Ite(body, tf.Int(1), tf.Int(0)), "count", s.Len, cv)
	if c.pure > 0 {
		// only the length is usable
		return &Iface{Dyn: si.Dyn, V: &Slice{Base: tf.Int(-1), Off: tf.Int(0), Len: n, Cap: n, Elem: s.Elem}}
	}
	w := tf.Fresh("fx", SInt)
	c.safeCall(fr, st, f, sig, []Val{c.elemVal(st, s.Elem, tf.Select(src, tf.Add(s.Off, w)))}, tf.And(tf.Le(tf.Int(0), w), tf.Lt(w, s.Len)), pos)
	nb := c.allocPtr(st)
	m := c.mem(st, s.Elem)
	_, as := m.S.arrParts()
	na := tf.Fresh("flt", as)
	pi, rho := tf.Fresh("flti", SArr(SInt, SInt)), tf.Fresh("fltr", SArr(SInt, SInt))
	q := tf.BoundVar("fq", SInt)
	in := tf.And(tf.Le(tf.Int(0), q), tf.Lt(q, n))
	pq := tf.Select(pi, q)
	at := func(x *Term) *Term { return tf.Subst(body, map[*Term]*Term{cv: x}) }
	c.fact(tf.Le(tf.Int(0), n))
	c.fact(tf.Le(n, s.Len))
	c.fact(tf.Forall([]*Term{q}, tf.Imp(in, tf.And(tf.Le(tf.Int(0), pq), tf.Lt(pq, s.Len), at(pq), tf.Eq(tf.Select(na, q), tf.Select(src, tf.Add(s.Off, pq))), tf.Eq(tf.Select(rho, pq), q))), []*Term{tf.Select(na, q)}))
	in2 := tf.And(tf.Le(tf.Int(0), q), tf.Lt(q, s.Len))
	rq := tf.Select(rho, q)
	c.fact(tf.Forall([]*Term{q}, tf.Imp(tf.And(in2, at(q)), tf.And(tf.Le(tf.Int(0), rq), tf.Lt(rq, n), tf.Eq(tf.Select(pi, rq), q)))))
	c.setMem(st, s.Elem, tf.Store(m, nb, na))
	return &Iface{Dyn: si.Dyn, V: &Slice{Base: nb, Off: tf.Int(0), Len: n, Cap: n, Elem: s.Elem}}
}

func modelMap(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
	tf := c.tf
	s, ok2 := ifaceVal(vals[0]).(*Slice)
	if !ok2 {
		panic(unsup("funk.Map"))
	}
	if c.pure > 0 {
		panic(unsup("funk.Map in quantified context"))
	}
	f := ifaceVal(vals[1])
	sig := sigOf(vals[1])
	if sig.Results().Len() != 1 {
		panic(unsup("funk.Map to map"))
	}
	el := sig.Results().At(0).Type()
	src := c.content(st, s)
	q := tf.BoundVar("mpq", SInt)
	r := c.pureCall(fr, st, f, sig, []Val{c.elemVal(nil, s.Elem, tf.Select(src, tf.Add(s.Off, q)))}, pos)
	w := tf.Fresh("mx", SInt)
	c.safeCall(fr, st, f, sig, []Val{c.elemVal(st, s.Elem, tf.Select(src, tf.Add(s.Off, w)))}, tf.And(tf.Le(tf.Int(0), w), tf.Lt(w, s.Len)), pos)
	nb := c.allocPtr(st)
	m := c.mem(st, el)
	_, as := m.S.arrParts()
	na := tf.Fresh("map", as)
	sel := tf.Select(na, q)
	in := tf.And(tf.Le(tf.Int(0), q), tf.Lt(q, s.Len))
	if isScalarT(el) {
		c.fact(tf.Forall([]*Term{q}, tf.Imp(in, tf.Eq(sel, c.term(r))), []*Term{sel}))
	} else {
		var cs []*Term
		c.toLeaves(el, r, func(l Leaf, x *Term) {
			cs = append(cs, tf.Eq(tf.App("pj:"+typeKey(el)+l.Path, l.S, sel), x))
		})
		c.fact(tf.Forall([]*Term{q}, tf.Imp(in, tf.And(cs...)), []*Term{sel}))
	}
	c.setMem(st, el, tf.Store(m, nb, na))
	return &Iface{Dyn: types.NewSlice(el), V: &Slice{Base: nb, Off: tf.Int(0), Len: s.Len, Cap: s.Len, Elem: el}}
}

// modelSort: the result is a permutation; it is ordered by less when less is proved to be a strict weak order.
func modelSort(c *Ctx, fr *Frame, st *State, fn *ssa.Function, vals []Val, pos token.Pos) Val {
	tf := c.tf
	s, ok := ifaceVal(vals[0]).(*Slice)
	if !ok {
		panic(unsup("sort.Slice"))
	}
	if c.pure > 0 {
		panic(unsup("sort in quantified context"))
	}
	less := vals[1]
	sig := fn.Signature.Params().At(1).Type().Underlying().(*types.Signature)
	m := c.mem(st, s.Elem)
	old := c.content(st, s)
	_, as := m.S.arrParts()
	na := tf.Fresh("srt", as)
	pi, si := tf.Fresh("srtp", SArr(SInt, SInt)), tf.Fresh("srts", SArr(SInt, SInt))
	q := tf.BoundVar("sq", SInt)
	in := func(x *Term) *Term { return tf.And(tf.Le(tf.Int(0), x), tf.Lt(x, s.Len)) }
	pq, sq := tf.Select(pi, q), tf.Select(si, q)
	at := func(a, i *Term) *Term { return tf.Select(a, tf.Add(s.Off, i)) }
	c.fact(tf.Forall([]*Term{q}, tf.Imp(in(q), tf.And(in(pq), tf.Eq(at(na, q), at(old, pq)), tf.Eq(tf.Select(si, pq), q))), []*Term{at(na, q)}))
	c.fact(tf.Forall([]*Term{q}, tf.Imp(in(q), tf.And(in(sq), tf.Eq(tf.Select(pi, sq), q), tf.Eq(at(na, sq), at(old, q)))), []*Term{at(old, q)}))
	c.fact(tf.Forall([]*Term{q}, tf.Imp(tf.Not(tf.And(tf.Le(s.Off, q), tf.Lt(q, tf.Add(s.Off, s.Len)))), tf.Eq(tf.Select(na, q), tf.Select(old, q))), []*Term{tf.Select(na, q)}))
	c.setMem(st, s.Elem, tf.Store(m, s.Base, na))
	if c.dry > 0 {
		return Tuple{}
	}
	// safety of the comparison
	a, b := tf.Fresh("sa", SInt), tf.Fresh("sb", SInt)
	c.safeCall(fr, st, less, sig, []Val{Sc{T: a}, Sc{T: b}}, tf.And(in(a), in(b)), pos)
	key := fr.path + "|sort" + c.callOrd(fr, pos)
	lt := func(x, y *Term) *Term {
		return c.term(c.pureCall(fr, st, less, sig, []Val{Sc{T: x}, Sc{T: y}}, pos))
	}
	c.candSeen[key] = true
	x, y, z := tf.Fresh("sx", SInt), tf.Fresh("sy", SInt), tf.Fresh("sz", SInt)
	g := tf.And(tf.Imp(tf.And(in(x), in(y), lt(x, y)), tf.Not(lt(y, x))),
		tf.Imp(tf.And(in(x), in(y), in(z), tf.Not(lt(x, y)), tf.Not(lt(y, z))), tf.Not(lt(x, z))))
	if o := c.oblige(st, "inv-init", "the comparison given to sort is a strict weak order", g, pos, nil); o != nil {
		o.Loop = key
	}
	i, j := tf.BoundVar("si", SInt), tf.BoundVar("sj", SInt)
	c.assumeCand(st, tf.Forall([]*Term{i, j}, tf.Imp(tf.And(tf.Le(tf.Int(0), i), tf.Lt(i, j), tf.Lt(j, s.Len)), tf.Not(lt(j, i)))), key)
	return Tuple{}
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- executor-level values
type Val interface{}

type Sc struct { // scalar: ints, bools, strings, pointers to objects, maps, opaque interfaces and functions
	T    *Term
	Prov string // where a function/interface value was loaded from (channel naming)
}
type Slice struct {
	Base, Off, Len, Cap *Term
	Arr                 *Term // pure content (spec-level snapshots); nil for real slices
	Elem                types.Type
}
type Struct struct {
	Typ types.Type
	F   []Val
}
type Tuple []Val
type Fn struct {
	F    *ssa.Function
	Bind []Val
	Name string
}
type Iface struct {
	Dyn types.Type
	V   Val
}
type Loc struct {
	Kind string // cell heap elem global
	Cell int
	Ptr  *Term // heap object
	Root types.Type
	Base *Term // elem
	Idx  *Term
	G    *ssa.Global
	Path []int
}
type ArrPtr struct { // pointer to array backing
	Base *Term
	N    int64
	Elem types.Type
}
type RangeIter struct {
	Cell int
	M    *Term
	Map  *types.Map
}

// ---------- type helpers
func isTimeT(t types.Type) bool  { return namedIs(t, "time", "Time") }
func isMutexT(t types.Type) bool { return namedIs(t, "sync", "Mutex") || namedIs(t, "sync", "RWMutex") }
func isSyncMap(t types.Type) bool {
	return namedIs(t, "sync", "Map")
}
func isWG(t types.Type) bool {
	return namedIs(t, "sync", "WaitGroup") || namedIs(t, "sync", "Once")
}
func namedIs(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func typeKey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
	return s
}

type Leaf struct {
	Path string
	S    Sort
	Typ  types.Type
	Ptr  string // "ptr" pointer-like; "base","len","cap"
}

var leafCache = map[string][]Leaf{}

// leaves enumerates the SMT components of a Go type.
func leaves(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[k] = l
	return l
}
func leaves0(t types.Type) []Leaf {
	t = types.Unalias(t)
	switch {
	case isTimeT(t):
		return []Leaf{{".sec", SInt, types.Typ[types.Int64], ""}, {".nsec", SInt, types.Typ[types.Int64], ""}}
	case isMutexT(t):
		return []Leaf{{".lock", SInt, types.Typ[types.Int], ""}}
	case isSyncMap(t):
		return []Leaf{{".dom", SArr(SInt, SBool), nil, ""}, {".val", SArr(SInt, SInt), nil, ""}}
	case isWG(t):
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []Leaf{{"", basicSort(u), t, ""}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", SInt, t, "ptr"}}
	case *types.Interface, *types.Signature:
		return []Leaf{{"", SInt, t, ""}}
	case *types.Slice:
		return []Leaf{{"#base", SInt, t, "base"}, {"#len", SInt, t, "len"}, {"#cap", SInt, t, "cap"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.Path, l.S, l.Typ, l.Ptr})
			}
		}
		return out
	case *types.Array:
		return []Leaf{{"#arr", SInt, t, "base"}}
	case *types.Tuple:
		return nil
	}
	panic(unsup("leaves of %s", t))
}
func basicSort(b *types.Basic) Sort {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool
	case b.Info()&types.IsFloat != 0:
		return SReal
	}
	return SInt
}

type unsupErr struct{ msg string }

func (u unsupErr) Error() string                { return u.msg }
func unsup(f string, a ...interface{}) unsupErr { return unsupErr{fmt.Sprintf(f, a...)} }
func structOf(t types.Type) (*types.Struct, bool) {
	s, ok := types.Unalias(t).Underlying().(*types.Struct)
	return s, ok
}
func deref(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsup("deref of %s", t))
}

func isScalarT(t types.Type) bool {
	l := leaves(t)
	if len(l) != 1 || l[0].Path != "" {
		return false
	}
	return true
}

// fromLeaves rebuilds a value of type t from component terms.
func (c *Ctx) fromLeaves(t types.Type, get func(l Leaf) *Term) Val {
	return c.fromLeavesP(t, "", get)
}
func (c *Ctx) fromLeavesP(t types.Type, prefix string, get func(l Leaf) *Term) Val {
	t = types.Unalias(t)
	switch {
	case isTimeT(t), isMutexT(t), isSyncMap(t), isWG(t):
		s := &Struct{Typ: t}
		for _, l := range leaves(t) {
			l.Path = prefix + l.Path
			s.F = append(s.F, Sc{T: get(l)})
		}
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		ls := leaves(t)
		var g [3]*Term
		for i, l := range ls {
			l.Path = prefix + l.Path
			g[i] = get(l)
		}
		return &Slice{Base: g[0], Off: c.tf.Int(0), Len: g[1], Cap: g[2], Elem: u.Elem()}
	case *types.Struct:
		s := &Struct{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, c.fromLeavesP(u.Field(i).Type(), prefix+"."+u.Field(i).Name(), get))
		}
		return s
	case *types.Array:
		l := leaves(t)[0]
		l.Path = prefix + l.Path
		return &ArrPtr{Base: get(l), N: u.Len(), Elem: u.Elem()}
	}
	l := leaves(t)[0]
	l.Path = prefix + l.Path
	return Sc{T: get(l)}
}

// toLeaves enumerates component terms of a value.
func (c *Ctx) toLeaves(t types.Type, v Val, f func(l Leaf, x *Term)) {
	c.toLeavesP(t, "", v, f)
}
func (c *Ctx) toLeavesP(t types.Type, prefix string, v Val, f func(l Leaf, x *Term)) {
	t = types.Unalias(t)
	switch {
	case isTimeT(t), isMutexT(t), isSyncMap(t), isWG(t):
		s := v.(*Struct)
		for i, l := range leaves(t) {
			l.Path = prefix + l.Path
			f(l, s.F[i].(Sc).T)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s, ok := v.(*Slice)
		if !ok {
			panic(unsup("slice leaf of %T", v))
		}
		ls := leaves(t)
		s = c.normOff(s)
		for i, x := range []*Term{s.Base, s.Len, s.Cap} {
			l := ls[i]
			l.Path = prefix + l.Path
			f(l, x)
		}
		return
	case *types.Struct:
		s := v.(*Struct)
		for i := 0; i < u.NumFields(); i++ {
			c.toLeavesP(u.Field(i).Type(), prefix+"."+u.Field(i).Name(), s.F[i], f)
		}
		return
	case *types.Array:
		l := leaves(t)[0]
		l.Path = prefix + l.Path
		f(l, v.(*ArrPtr).Base)
		return
	}
	l := leaves(t)[0]
	l.Path = prefix + l.Path
	f(l, c.term(v))
}

// normOff gives an equivalent slice with offset 0 (copying the contents when needed).
func (c *Ctx) normOff(s *Slice) *Slice {
	if s.Off == nil || (s.Off.Op == "int" && s.Off.C == 0) {
		return s
	}
	panic(unsup("slice with non-zero offset stored"))
}

// term turns a scalar-like value into a term.
func (c *Ctx) term(v Val) *Term {
	switch x := v.(type) {
	case Sc:
		return x.T
	case *Fn:
		return c.fnTerm(x)
	case *Loc:
		if x.Kind == "heap" && len(x.Path) == 0 {
			return x.Ptr
		}
		panic(unsup("interior pointer used as a value"))
	case *Iface:
		return c.box(x)
	case *ArrPtr:
		return x.Base
	case nil:
		panic(unsup("nil value"))
	}
	panic(unsup("term of %T", v))
}

func (c *Ctx) fnTerm(f *Fn) *Term {
	for t, g := range c.fns {
		if g.F == f.F && sameVals(g.Bind, f.Bind) {
			return t
		}
	}
	t := c.tf.Int(int64(7000000 + len(c.fns)))
	c.fns[t] = f
	return t
}
func sameVals(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}
func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case Sc:
		y, ok := b.(Sc)
		return ok && x.T == y.T
	case *Loc:
		y, ok := b.(*Loc)
		return ok && x.Kind == y.Kind && x.Cell == y.Cell && x.Ptr == y.Ptr && x.Base == y.Base && x.Idx == y.Idx && x.G == y.G && fmt.Sprint(x.Path) == fmt.Sprint(y.Path)
	case *Struct:
		y, ok := b.(*Struct)
		return ok && sameVals(x.F, y.F)
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.Base == y.Base && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap && x.Arr == y.Arr
	case Tuple:
		y, ok := b.(Tuple)
		return ok && sameVals(x, y)
	case *Fn:
		y, ok := b.(*Fn)
		return ok && x.F == y.F && sameVals(x.Bind, y.Bind)
	case *Iface:
		y, ok := b.(*Iface)
		return ok && types.Identical(x.Dyn, y.Dyn) && sameVal(x.V, y.V)
	case *ArrPtr:
		y, ok := b.(*ArrPtr)
		return ok && x.Base == y.Base
	case *RangeIter:
		y, ok := b.(*RangeIter)
		return ok && x == y
	case nil:
		return b == nil
	}
	return false
}

func (c *Ctx) box(x *Iface) *Term {
	switch v := x.V.(type) {
	case Sc:
		if v.T.S == SBool {
			return c.tf.Ite(v.T, c.tf.Int(1), c.tf.Int(0))
		}
		if v.T.S == SInt {
			return v.T
		}
	case *Loc:
		if v.Kind == "heap" && len(v.Path) == 0 {
			return v.Ptr
		}
	case *Fn:
		return c.fnTerm(v)
	}
	// opaque box of a composite value
	if c.pure > 0 {
		panic(unsup("boxing in quantified context"))
	}
	return c.tf.Fresh("box", SInt)
}

func (c *Ctx) merge(cond *Term, a, b Val) Val {
	if sameVal(a, b) {
		return a
	}
	switch x := a.(type) {
	case Sc:
		switch y := b.(type) {
		case Sc:
			if x.T.S != y.T.S {
				return nil
			}
			p := x.Prov
			if p == "" {
				p = y.Prov
			}
			return Sc{T: c.tf.Ite(cond, x.T, y.T), Prov: p}
		case *Fn, *Loc, *Iface:
			return Sc{T: c.tf.Ite(cond, x.T, c.term(y))}
		}
	case *Fn, *Loc, *Iface:
		if l, ok := a.(*Loc); ok {
			if m, ok := b.(*Loc); ok && l.Kind == m.Kind && l.Kind == "heap" && fmt.Sprint(l.Path) == fmt.Sprint(m.Path) {
				n := *l
				n.Ptr = c.tf.Ite(cond, l.Ptr, m.Ptr)
				return &n
			}
		}
		if i, ok := a.(*Iface); ok {
			if j, ok := b.(*Iface); ok && types.Identical(i.Dyn, j.Dyn) {
				return &Iface{i.Dyn, c.merge(cond, i.V, j.V)}
			}
		}
		return Sc{T: c.tf.Ite(cond, c.term(a), c.term(b))}
	case *Struct:
		if y, ok := b.(*Struct); ok {
			r := &Struct{Typ: x.Typ}
			for i := range x.F {
				r.F = append(r.F, c.merge(cond, x.F[i], y.F[i]))
			}
			return r
		}
	case *Slice:
		if y, ok := b.(*Slice); ok && (x.Arr == nil) == (y.Arr == nil) {
			r := &Slice{Base: c.tf.Ite(cond, x.Base, y.Base), Off: c.tf.Ite(cond, x.Off, y.Off), Len: c.tf.Ite(cond, x.Len, y.Len), Cap: c.tf.Ite(cond, x.Cap, y.Cap), Elem: x.Elem}
			if x.Arr != nil {
				r.Arr = c.tf.Ite(cond, x.Arr, y.Arr)
			}
			return r
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := Tuple{}
			for i := range x {
				r = append(r, c.merge(cond, x[i], y[i]))
			}
			return r
		}
	}
	return nil // undefined after the join (a dead variable); any use fails loudly
}

func (c *Ctx) zero(t types.Type) Val {
	t = types.Unalias(t)
	switch {
	case isSyncMap(t):
		return &Struct{Typ: t, F: []Val{Sc{T: c.tf.ConstArr(SArr(SInt, SBool), c.tf.F)}, Sc{T: c.tf.ConstArr(SArr(SInt, SInt), c.tf.Int(0))}}}
	}
	return c.fromLeaves(t, func(l Leaf) *Term { return c.zeroTerm(l.S) })
}
func (c *Ctx) zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return c.tf.Int(0)
	case SBool:
		return c.tf.F
	case SReal:
		return c.tf.Real("0.0")
	}
	_, v := s.arrParts()
	return c.tf.ConstArr(s, c.zeroTerm(v))
}

// arbitrary value of a type (fresh constants) with type facts.
func (c *Ctx) havocVal(st *State, base string, t types.Type) Val {
	v := c.fromLeaves(t, func(l Leaf) *Term {
		x := c.tf.Fresh(base+l.Path, l.S)
		c.leafFact(st, l, x)
		return x
	})
	c.valFacts(st, v)
	return v
}

func (c *Ctx) leafFact(st *State, l Leaf, x *Term) {
	if l.S != SInt || c.pure > 0 {
		return
	}
	al := st.get(c, "$alloc", SInt)
	switch l.Ptr {
	case "ptr", "base":
		c.fact(c.tf.And(c.tf.Le(c.tf.Int(0), x), c.tf.Lt(x, al)))
	case "len", "cap":
		c.fact(c.tf.Le(c.tf.Int(0), x))
	default:
		if l.Typ != nil {
			if b, ok := types.Unalias(l.Typ).Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				c.fact(c.tf.Le(c.tf.Int(0), x))
			}
			if isErrorT(l.Typ) {
				c.fact(c.tf.Le(c.tf.Int(0), x))
			}
		}
	}
}
func isErrorT(t types.Type) bool {
	return types.Identical(types.Unalias(t), types.Universe.Lookup("error").Type())
}
func (c *Ctx) valFacts(st *State, v Val) {
	if c.pure > 0 {
		return
	}
	switch x := v.(type) {
	case *Slice:
		c.fact(c.tf.And(c.tf.Le(c.tf.Int(0), x.Len), c.tf.Le(x.Len, x.Cap)))
		c.fact(c.tf.Imp(c.tf.Eq(x.Base, c.tf.Int(0)), c.tf.Eq(x.Cap, c.tf.Int(0))))
	case *Struct:
		for _, f := range x.F {
			c.valFacts(st, f)
		}
		if isTimeT(x.Typ) {
			ns := x.F[1].(Sc).T
			c.fact(c.tf.And(c.tf.Le(c.tf.Int(0), ns), c.tf.Lt(ns, c.tf.Int(1000000000))))
		}
	case Tuple:
		for _, f := range x {
			c.valFacts(st, f)
		}
	}
}

// ---------- state
type State struct {
	pc    *Term
	cells map[int]Val
	heaps map[string]*Term
	reg   *Region
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, cells: make(map[int]Val, len(s.cells)), heaps: make(map[string]*Term, len(s.heaps)), reg: newRegion(s.reg)}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	return n
}

func (s *State) get(c *Ctx, name string, so Sort) *Term {
	if t, ok := s.heaps[name]; ok {
		return t
	}
	return c.initHeap(name, so)
}
func (s *State) set(name string, t *Term) { s.heaps[name] = t }

// initHeap is the (single) initial constant of a heap component.
func (c *Ctx) initHeap(name string, so Sort) *Term {
	if t, ok := c.init0[name]; ok {
		return t
	}
	if strings.HasPrefix(name, "log:") && strings.HasSuffix(name, "#n") {
		t := c.tf.Int(0) // no call has been made yet
		c.init0[name] = t
		c.heapSort[name] = so
		return t
	}
	t := c.tf.Const(sanitize(name)+"@0", so)
	c.init0[name] = t
	c.heapSort[name] = so
	c.heapTypeFact(name, t, c.alloc0)
	return t
}

// heapTypeFact states that pointers stored in a heap component are allocated.
func (c *Ctx) heapTypeFact(name string, t *Term, alloc *Term) {
	kind := c.heapKind[name]
	q := c.tf.BoundVar("ht", SInt)
	switch kind {
	case "ptr", "base":
		x := c.tf.Select(t, q)
		c.factG(c.tf.Forall([]*Term{q}, c.tf.And(c.tf.Le(c.tf.Int(0), x), c.tf.Lt(x, alloc)), []*Term{x}))
		if kind == "base" {
			n := strings.TrimSuffix(name, "#base")
			cp := c.tf.Select(c.initIf(name, n+"#cap", t), q)
			_ = cp
		}
	case "len":
		x := c.tf.Select(t, q)
		c.factG(c.tf.Forall([]*Term{q}, c.tf.Le(c.tf.Int(0), x), []*Term{x}))
	case "memptr":
		q2 := c.tf.BoundVar("hu", SInt)
		x := c.tf.Select(c.tf.Select(t, q), q2)
		c.factG(c.tf.Forall([]*Term{q, q2}, c.tf.And(c.tf.Le(c.tf.Int(0), x), c.tf.Lt(x, alloc)), []*Term{x}))
	case "err":
		x := c.tf.Select(t, q)
		c.factG(c.tf.Forall([]*Term{q}, c.tf.Le(c.tf.Int(0), x), []*Term{x}))
	}
}
func (c *Ctx) initIf(a, b string, t *Term) *Term { return t }

func (c *Ctx) mergeStates(ss []*State) *State {
	var live []*State
	for _, s := range ss {
		if s != nil && s.pc != c.tf.F {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	r := live[0]
	for _, s := range live[1:] {
		r = c.merge2(s, r)
	}
	return r
}
func (c *Ctx) merge2(a, b *State) *State {
	n := &State{pc: c.tf.Or(a.pc, b.pc), cells: map[int]Val{}, heaps: map[string]*Term{}, reg: newRegion(a.reg, b.reg)}
	c.curReg = n.reg
	cond := c.splitCond(a.pc, b.pc)
	for k, v := range a.cells {
		if w, ok := b.cells[k]; ok {
			if m := c.merge(cond, v, w); m != nil {
				n.cells[k] = m
			}
		} else {
			n.cells[k] = v
		}
	}
	for k, w := range b.cells {
		if _, ok := a.cells[k]; !ok {
			n.cells[k] = w
		}
	}
	for k, v := range a.heaps {
		w := b.get(c, k, v.S)
		n.heaps[k] = c.tf.Ite(cond, v, w)
	}
	for k, w := range b.heaps {
		if _, ok := a.heaps[k]; !ok {
			n.heaps[k] = c.tf.Ite(cond, c.initHeap(k, w.S), w)
		}
	}
	return n
}

// splitCond finds a small condition separating two path conditions (a true => cond).
func (c *Ctx) splitCond(a, b *Term) *Term {
	conj := func(t *Term) []*Term {
		if t.Op == "and" {
			return t.Args
		}
		return []*Term{t}
	}
	bs := map[*Term]bool{}
	for _, x := range conj(b) {
		bs[x] = true
	}
	for _, x := range conj(a) {
		if bs[c.tf.Not(x)] {
			return x
		}
	}
	// a contains x and b has disjunction etc.: drop the common conjuncts
	var only []*Term
	for _, x := range conj(a) {
		if !bs[x] {
			only = append(only, x)
		}
	}
	return c.tf.And(only...)
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// Region is a node of the control-flow graph of the symbolic execution; facts and obligations carry the
// region they arose in, and a fact can only matter to an obligation that lies after it.
type Region struct {
	parents []*Region
	anc     map[*Region]bool
}

func newRegion(ps ...*Region) *Region {
	r := &Region{}
	for _, p := range ps {
		if p != nil {
			r.parents = append(r.parents, p)
		}
	}
	return r
}

func (r *Region) ancestors() map[*Region]bool {
	if r.anc != nil {
		return r.anc
	}
	m := map[*Region]bool{r: true}
	stack := append([]*Region{}, r.parents...)
	for len(stack) > 0 {
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if m[p] {
			continue
		}
		m[p] = true
		stack = append(stack, p.parents...)
	}
	r.anc = m
	return m
}

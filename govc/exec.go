package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fact struct {
	T    *Term
	UF   string
	Cand string  // candidate invariant this fact assumes
	Reg  *Region // nil: holds everywhere
}
type Obl struct {
	Kind     string // post safety req inv-init inv-step assert
	Label    string
	Props    []string
	Goal     *Term // already includes the path condition
	PC       *Term
	NFacts   int
	Reg      *Region
	Pos      string
	Loop     string // candidate id for invariants
	Target   string
	Clause   *Clause
	Status   string
	Solver   string
	Ms       int64
	Model    string
	failGoal *Term
	key      string
	plan     *plan
}

type Ctx struct {
	v           *Verifier
	tf          *TF
	facts       []Fact
	finfo       [][]factInfo
	curReg      *Region
	broad       bool // offer loop invariants to every loop and variable of the right type
	obls        []*Obl
	init0       map[string]*Term
	heapSort    map[string]Sort
	heapKind    map[string]string
	fns         map[*Term]*Fn
	alloc0      *Term
	pure        int
	qdepth      int
	ncell       int
	dry         int // >0: dry run (no obligations, no facts recorded)
	frames      []*Frame
	tracked     map[string]bool
	chanSig     map[string]*ChanSig
	sites       []*CallSite // calls carrying function values
	target      *Target
	entry       *State // target entry state
	excluded    map[string]bool
	loops       map[string]*LoopInfo
	depth       int
	notes       map[string]bool
	trusted     map[string]bool
	inlined     map[string]bool
	modular     map[string]bool
	bounded     int // unroll bound when >0
	strict      bool
	freshCells  map[int]string
	lastRun     int
	sums        map[string]*SumFn
	sumOrder    []string
	pruned      int // solver calls of infeasible
	cntDepth    int // nesting of count/sum while a contract is evaluated
	queryable   bool
	touched     map[string]bool
	inlineSpecs bool
	cellType    map[int]types.Type
	cellName    map[int]string
	cellFrame   map[int]*ssa.Function
	curLoops    map[loopKeyT]*LoopInfo
	candSeen    map[string]bool
	sprintfSeen map[string]bool
	jsonToks    map[*Term]*jsonTok
	effCache    map[*ssa.Function]map[string]Sort
	frameItems  []modItem
	captured    map[string]SVal
}

type CallSite struct {
	Chan string
	Args []Val
	St   *State
	Fr   *Frame
}

type ChanSig struct {
	Name  string
	Types []types.Type // args then results
	NArgs int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	cells  map[ssa.Value]int
	path   string
	parent *Frame
	entry  *State
	args   []Val
	defers []deferred
	rets   []retEdge
	spec   *FuncSpec
	ords   map[token.Pos]int
	capt   map[string]SVal
	names  map[string]int
}
type deferred struct {
	pc   *Term
	call *ssa.CallCommon
	vals []Val
	fnv  Val
	pos  token.Pos
}
type retEdge struct {
	st  *State
	val Val
}

func (c *Ctx) fact(t *Term) {
	if c.dry > 0 || c.pure > 0 {
		return
	}
	if t == c.tf.T {
		return
	}
	if t.free {
		panic(unsup("fact with free bound variable"))
	}
	c.facts = append(c.facts, Fact{T: t, Reg: c.curReg})
}
func (c *Ctx) factG(t *Term) { // global fact, always kept
	if t == c.tf.T {
		return
	}
	c.facts = append(c.facts, Fact{T: t})
}
func (c *Ctx) factUF(uf string, t *Term) {
	if c.dry > 0 {
		return
	}
	c.facts = append(c.facts, Fact{T: t, UF: uf})
}
func (c *Ctx) assume(st *State, t *Term) {
	if st.reg != nil {
		c.curReg = st.reg
	}
	c.fact(c.tf.Imp(st.pc, t))
}
func (c *Ctx) assumeCand(st *State, t *Term, cand string) {
	n := len(c.facts)
	c.assume(st, t)
	if len(c.facts) > n {
		c.facts[n].Cand = cand
	}
}
func (c *Ctx) oblige(st *State, kind, label string, goal *Term, pos token.Pos, props []string) *Obl {
	if c.dry > 0 || c.pure > 0 {
		return nil
	}
	g := c.tf.Imp(st.pc, goal)
	if g == c.tf.T && (kind == "safety" || strings.HasPrefix(kind, "inv")) {
		return nil
	}
	o := &Obl{Kind: kind, Label: label, Props: props, Goal: g, PC: st.pc, NFacts: len(c.facts), Reg: st.reg, Target: c.target.Name}
	if pos.IsValid() {
		p := c.v.fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, c.v.repo+"/"), p.Line)
	}
	c.obls = append(c.obls, o)
	return o
}

// safe records a safety obligation and assumes it afterwards.
func (c *Ctx) safe(st *State, what string, ok *Term, pos token.Pos) {
	if ok == c.tf.T || c.pure > 0 || c.dry > 0 {
		return
	}
	if c.target.NoSafety {
		c.assume(st, ok)
		return
	}
	g := c.tf.Imp(st.pc, ok)
	for _, o := range c.obls {
		if o.Kind == "safety" && o.Goal == g {
			return
		}
	}
	c.oblige(st, "safety", what, ok, pos, nil)
	c.assume(st, ok)
}

// ---------- heap access
func (c *Ctx) heapName(root types.Type, l Leaf) string {
	n := typeKey(root) + l.Path
	if _, ok := c.heapKind[n]; !ok {
		k := l.Ptr
		if l.Typ != nil && k == "" && isErrorT(l.Typ) {
			k = "err"
		}
		c.heapKind[n] = k
	}
	return n
}
func (c *Ctx) memName(elem types.Type) (string, Sort, bool) {
	n := "mem:" + typeKey(elem)
	if isScalarT(elem) {
		l := leaves(elem)[0]
		if l.Ptr == "ptr" {
			c.heapKind[n] = "memptr"
		}
		return n, SArr(SInt, SArr(SInt, l.S)), true
	}
	return n, SArr(SInt, SArr(SInt, SInt)), false
}
func (c *Ctx) mem(st *State, elem types.Type) *Term {
	n, s, _ := c.memName(elem)
	return st.get(c, n, s)
}
func (c *Ctx) setMem(st *State, elem types.Type, t *Term) {
	n, _, _ := c.memName(elem)
	st.set(n, t)
}
func (c *Ctx) content(st *State, s *Slice) *Term {
	if s.Arr != nil {
		return s.Arr
	}
	return c.tf.Select(c.mem(st, s.Elem), s.Base)
}

// elemVal decodes one array cell.
func (c *Ctx) elemVal(st *State, elem types.Type, cell *Term) Val {
	if isScalarT(elem) {
		return Sc{T: cell}
	}
	return c.unhandle(st, elem, cell)
}
func (c *Ctx) unhandle(st *State, t types.Type, h *Term) Val {
	v := c.fromLeaves(t, func(l Leaf) *Term {
		x := c.tf.App("pj:"+typeKey(t)+l.Path, l.S, h)
		if !x.free && st != nil {
			c.leafFactPtr(st, l, x)
		}
		return x
	})
	return v
}
func (c *Ctx) leafFactPtr(st *State, l Leaf, x *Term) {
	if c.pure > 0 || c.dry > 0 {
		return
	}
	switch l.Ptr {
	case "ptr", "base":
		c.factUF(x.Name, c.tf.Imp(st.pc, c.tf.And(c.tf.Le(c.tf.Int(0), x), c.tf.Lt(x, st.get(c, "$alloc", SInt)))))
	case "len", "cap":
		c.factUF(x.Name, c.tf.Imp(st.pc, c.tf.Le(c.tf.Int(0), x)))
	}
}

// handle encodes a composite value as an Int.
func (c *Ctx) handle(st *State, t types.Type, v Val) *Term {
	key := typeKey(t)
	var same *Term
	ok := true
	c.toLeaves(t, v, func(l Leaf, x *Term) {
		if !ok {
			return
		}
		if x.Op == "app" && x.Name == sanitize("pj:"+key+l.Path) && (same == nil || same == x.Args[0]) {
			same = x.Args[0]
			return
		}
		ok = false
	})
	if ok && same != nil {
		return same
	}
	if c.pure > 0 {
		panic(unsup("composite value in quantified context"))
	}
	h := c.tf.Fresh("h."+key, SInt)
	c.toLeaves(t, v, func(l Leaf, x *Term) {
		p := c.tf.App("pj:"+key+l.Path, l.S, h)
		c.factUF(p.Name, c.tf.Eq(p, x))
	})
	return h
}
func (c *Ctx) encodeElem(st *State, t types.Type, v Val) *Term {
	if isScalarT(t) {
		return c.term(v)
	}
	return c.handle(st, t, v)
}

func (c *Ctx) allocPtr(st *State) *Term {
	if c.pure > 0 {
		panic(unsup("allocation in quantified context"))
	}
	a := st.get(c, "$alloc", SInt)
	st.set("$alloc", c.tf.AddC(a, 1))
	return a
}

func (c *Ctx) loadHeap(st *State, root types.Type, ptr *Term, prefix string, t types.Type) Val {
	v := c.fromLeaves(t, func(l Leaf) *Term {
		l2 := l
		l2.Path = prefix + l.Path
		return c.tf.Select(st.get(c, c.heapName(root, l2), SArr(SInt, l.S)), ptr)
	})
	if !ptr.free {
		c.loadFacts(st, v)
	}
	if s, ok := v.(Sc); ok {
		s.Prov = typeKey(root) + prefix
		return s
	}
	return v
}
func (c *Ctx) loadFacts(st *State, v Val) {
	if c.pure > 0 || c.dry > 0 {
		return
	}
	switch x := v.(type) {
	case *Slice:
		if x.Base.Op == "int" && x.Len.Op == "int" {
			return
		}
		c.assume(st, c.tf.And(c.tf.Le(c.tf.Int(0), x.Len), c.tf.Le(x.Len, x.Cap)))
		c.assume(st, c.tf.Imp(c.tf.Eq(x.Base, c.tf.Int(0)), c.tf.Eq(x.Cap, c.tf.Int(0))))
	case *Struct:
		for _, f := range x.F {
			c.loadFacts(st, f)
		}
	}
}
func (c *Ctx) storeHeap(st *State, root types.Type, ptr *Term, prefix string, t types.Type, v Val) {
	c.toLeaves(t, v, func(l Leaf, x *Term) {
		l2 := l
		l2.Path = prefix + l.Path
		n := c.heapName(root, l2)
		h := st.get(c, n, SArr(SInt, l.S))
		st.set(n, c.tf.Store(h, ptr, x))
	})
}

func pathInfo(root types.Type, path []int) (string, types.Type) {
	t := root
	s := ""
	for _, i := range path {
		u, ok := structOf(t)
		if !ok {
			panic(unsup("path into %s", t))
		}
		s += "." + u.Field(i).Name()
		t = u.Field(i).Type()
	}
	return s, t
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		v = v.(*Struct).F[i]
	}
	return v
}
func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	s, ok := v.(*Struct)
	if !ok {
		panic(unsup("setPath on %T", v))
	}
	n := &Struct{Typ: s.Typ, F: append([]Val(nil), s.F...)}
	n.F[path[0]] = setPath(s.F[path[0]], path[1:], x)
	return n
}

func (c *Ctx) toLoc(v Val, pt types.Type) *Loc {
	switch x := v.(type) {
	case *Loc:
		return x
	case Sc:
		return &Loc{Kind: "heap", Ptr: x.T, Root: pt}
	}
	panic(unsup("address of kind %T", v))
}

func (c *Ctx) load(st *State, l *Loc, pos token.Pos) Val {
	switch l.Kind {
	case "cell":
		v, ok := st.cells[l.Cell]
		if !ok || v == nil {
			panic(unsup("read of undefined cell"))
		}
		r := getPath(v, l.Path)
		if r == nil {
			panic(unsup("read of undefined value"))
		}
		return r
	case "heap":
		c.safe(st, "nil dereference", c.tf.Neq(l.Ptr, c.tf.Int(0)), pos)
		p, t := pathInfo(l.Root, l.Path)
		return c.loadHeap(st, l.Root, l.Ptr, p, t)
	case "elem":
		cell := c.tf.Select(c.tf.Select(c.mem(st, l.Root), l.Base), l.Idx)
		v := c.elemVal(st, l.Root, cell)
		return getPath(v, l.Path)
	case "global":
		return c.loadGlobal(st, l)
	}
	panic("load")
}
func (c *Ctx) store(st *State, l *Loc, v Val, pos token.Pos) {
	switch l.Kind {
	case "cell":
		st.cells[l.Cell] = setPath(st.cells[l.Cell], l.Path, v)
	case "heap":
		c.safe(st, "nil dereference", c.tf.Neq(l.Ptr, c.tf.Int(0)), pos)
		p, t := pathInfo(l.Root, l.Path)
		c.storeHeap(st, l.Root, l.Ptr, p, t, v)
	case "elem":
		m := c.mem(st, l.Root)
		arr := c.tf.Select(m, l.Base)
		if len(l.Path) > 0 {
			old := c.elemVal(st, l.Root, c.tf.Select(arr, l.Idx))
			v = setPath(old, l.Path, v)
		}
		c.setMem(st, l.Root, c.tf.Store(m, l.Base, c.tf.Store(arr, l.Idx, c.encodeElem(st, l.Root, v))))
	case "global":
		c.storeHeap(st, deref(l.G.Type()), c.tf.Int(0), "", deref(l.G.Type()), v)
	}
}

func (c *Ctx) loadGlobal(st *State, l *Loc) Val {
	t := deref(l.G.Type())
	v := c.v.globalVal(c, st, l.G)
	if v == nil {
		name := "global:" + l.G.String()
		v = c.fromLeaves(t, func(lf Leaf) *Term { return c.tf.Const(sanitize(name+lf.Path), lf.S) })
	}
	return getPath(v, l.Path)
}

// ---------- functions
func (c *Ctx) frame() *Frame {
	if len(c.frames) == 0 {
		return nil
	}
	return c.frames[len(c.frames)-1]
}

func (c *Ctx) runFunc(fn *ssa.Function, args, bind []Val, st *State, path string) (Val, *State) {
	if fn.Blocks == nil {
		panic(unsup("no body for %s", fn))
	}
	for _, f := range c.frames {
		if f.fn == fn {
			n := 0
			for _, g := range c.frames {
				if g.fn == fn {
					n++
				}
			}
			if n > 2 {
				panic(unsup("recursion in %s", fn))
			}
		}
	}
	if len(c.frames) > 40 {
		panic(unsup("call depth"))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, cells: map[ssa.Value]int{}, path: path, parent: c.frame(), entry: st.clone(), args: args}
	fr.spec = c.v.specFor(fn)
	if fr.parent == nil && c.target != nil && c.target.Spec != nil && c.target.Fn == fn {
		fr.spec = c.target.Spec
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		if i < len(bind) {
			fr.env[b] = bind[i]
		}
	}
	c.frames = append(c.frames, fr)
	defer func() { c.frames = c.frames[:len(c.frames)-1] }()
	c.runBlocks(fr, fn.Blocks[0], nil, st, nil)
	var outs []*State
	for _, r := range fr.rets {
		outs = append(outs, r.st)
	}
	out := c.mergeStates(outs)
	if out == nil {
		return nil, nil
	}
	c.curReg = out.reg
	var val Val
	first := true
	for _, r := range fr.rets {
		if r.st.pc == c.tf.F {
			continue
		}
		if first {
			val = r.val
			first = false
		} else {
			// same order and the same separators as mergeStates
			val = c.mergeRet(r, val, fr)
		}
	}
	return val, out
}

func (c *Ctx) mergeRet(r retEdge, acc Val, fr *Frame) Val {
	var pcs []*Term
	for _, q := range fr.rets {
		if q.st == r.st {
			break
		}
		if q.st.pc != c.tf.F {
			pcs = append(pcs, q.st.pc)
		}
	}
	if r.val == nil {
		return nil
	}
	return c.merge(c.splitCond(r.st.pc, c.tf.Or(pcs...)), r.val, acc)
}

// ---------- control flow
type loopShape struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

func (v *Verifier) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopShape {
	if l, ok := v.loopCache[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopShape{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				ls := res[s]
				if ls == nil {
					ls = &loopShape{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = ls
				}
				var stack []*ssa.BasicBlock
				if !ls.body[b] {
					ls.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !ls.body[p] {
							ls.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range res {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		res[h].ord = i
	}
	v.loopCache[fn] = res
	return res
}

func isBack(from, to *ssa.BasicBlock) bool { return to.Dominates(from) }

// topo returns blocks reachable from start in topological order ignoring back edges (restricted to `within` when non-nil).
func topo(start *ssa.BasicBlock, within map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if isBack(b, s) || seen[s] || (within != nil && !within[s]) {
				continue
			}
			dfs(s)
		}
		order = append(order, b)
	}
	dfs(start)
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	return order
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

// runBlocks executes the DAG of blocks from start; when within is set (loop body run) only those blocks
// are run and back edges to start are returned in backs.
func (c *Ctx) runBlocks(fr *Frame, start *ssa.BasicBlock, within map[*ssa.BasicBlock]bool, st *State, backs *[]edge) {
	loops := c.v.loopsOf(fr.fn)
	in := map[*ssa.BasicBlock][]edge{start: {{nil, st}}}
	for _, b := range topo(start, within) {
		es := in[b]
		var ss []*State
		var live []edge
		for _, e := range es {
			if e.st != nil && e.st.pc != c.tf.F {
				ss = append(ss, e.st)
				live = append(live, e)
			}
		}
		if len(ss) == 0 {
			continue
		}
		cur := c.mergeStates(ss)
		if len(ss) == 1 {
			cur = cur.clone()
		}
		c.phis(fr, b, live)
		if ls, ok := loops[b]; ok && !(b == start && within != nil) {
			if c.bounded > 0 {
				outs := c.unroll(fr, ls, cur)
				for _, e := range outs {
					in[e.to] = append(in[e.to], edge{e.from, e.st})
				}
				// body blocks are done inside unroll
				continue
			}
			cur = c.loopHeader(fr, ls, cur)
			if cur == nil {
				continue
			}
		}
		if c.bounded > 0 && within == nil && c.inUnrolled(loops, b) {
			continue
		}
		c.curReg = cur.reg
		c.runBlock(fr, b, cur, func(to *ssa.BasicBlock, s *State) {
			if s.pc == c.tf.F {
				return
			}
			if isBack(b, to) {
				if backs != nil && to == start {
					*backs = append(*backs, edge{b, s})
					return
				}
				c.loopBack(fr, loops[to], s)
				return
			}
			if within != nil && !within[to] {
				return
			}
			in[to] = append(in[to], edge{b, s})
		})
	}
}

type edge3 struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (c *Ctx) inUnrolled(loops map[*ssa.BasicBlock]*loopShape, b *ssa.BasicBlock) bool { return false }
func (c *Ctx) unroll(fr *Frame, ls *loopShape, st *State) []edge3 {
	panic(unsup("bounded mode not available"))
}

func (c *Ctx) phis(fr *Frame, b *ssa.BasicBlock, es []edge) {
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var val Val
		first := true
		var pcs []*Term
		for _, e := range es {
			if e.from == nil {
				continue
			}
			idx := -1
			for i, p := range b.Preds {
				if p == e.from {
					idx = i
				}
			}
			v := c.value(fr, e.st, phi.Edges[idx])
			if first {
				val = v
				first = false
			} else {
				val = c.merge(c.splitCond(e.st.pc, c.tf.Or(pcs...)), v, val)
			}
			pcs = append(pcs, e.st.pc)
		}
		fr.env[phi] = val
	}
}

func (c *Ctx) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, goTo func(*ssa.BasicBlock, *State)) {
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			goTo(b.Succs[0], st)
			return
		case *ssa.If:
			cond := c.term(c.value(fr, st, x.Cond))
			if c.target != nil && c.target.Spec != nil && c.target.Spec.Prune && c.dry == 0 && c.pure == 0 && cond != c.tf.T && cond != c.tf.F && c.pruned < 400 {
				// a branch that the facts so far rule out is not explored
				if c.infeasible(st, cond) {
					goTo(b.Succs[1], st)
					return
				}
				if c.infeasible(st, c.tf.Not(cond)) {
					goTo(b.Succs[0], st)
					return
				}
			}
			a := st.clone()
			a.pc = c.tf.And(st.pc, cond)
			e := st
			e.pc = c.tf.And(st.pc, c.tf.Not(cond))
			goTo(b.Succs[0], a)
			goTo(b.Succs[1], e)
			return
		case *ssa.Return:
			var val Val
			switch len(x.Results) {
			case 0:
			case 1:
				val = c.value(fr, st, x.Results[0])
			default:
				t := Tuple{}
				for _, r := range x.Results {
					t = append(t, c.value(fr, st, r))
				}
				val = t
			}
			fr.rets = append(fr.rets, retEdge{st, val})
			return
		case *ssa.Panic:
			c.safe(st, "explicit panic", c.tf.F, x.Pos())
			return
		default:
			c.instr(fr, st, ins)
			if st.pc == c.tf.F {
				return
			}
		}
	}
}

// ---------- values
func (c *Ctx) value(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return c.constVal(x)
	case *ssa.Function:
		return &Fn{F: x}
	case *ssa.Global:
		return &Loc{Kind: "global", G: x, Root: deref(x.Type())}
	case *ssa.Builtin:
		return &Fn{Name: x.Name()}
	}
	r, ok := fr.env[v]
	if !ok || r == nil {
		panic(unsup("undefined value %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (c *Ctx) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		if _, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
			z := c.tf.Int(0)
			return &Slice{Base: z, Off: z, Len: z, Cap: z, Elem: t.Underlying().(*types.Slice).Elem()}
		}
		return c.zero(t)
	}
	return Sc{T: c.constTerm(x.Value, t)}
}
func (c *Ctx) constTerm(v constant.Value, t types.Type) *Term {
	if b, ok := types.Unalias(t).Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return c.tf.Bool(constant.BoolVal(v))
		case b.Info()&types.IsString != 0:
			return c.v.strLit(c.tf, constant.StringVal(v))
		case b.Info()&types.IsInteger != 0:
			if n, ok := constant.Int64Val(constant.ToInt(v)); ok {
				return c.tf.Int(n)
			}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(v)
			return c.tf.Real(realLit(f))
		}
	}
	panic(unsup("constant %s of type %s", v, t))
}
func realLit(f float64) string {
	s := fmt.Sprintf("%.12f", f)
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (c *Ctx) newCell() int { c.ncell++; return c.ncell }

func (c *Ctx) instr(fr *Frame, st *State, ins ssa.Instruction) {
	tf := c.tf
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		if a, ok := types.Unalias(t).Underlying().(*types.Array); ok {
			p := c.allocPtr(st)
			m := c.mem(st, a.Elem())
			var z *Term
			if isScalarT(a.Elem()) {
				z = c.zeroTerm(leaves(a.Elem())[0].S)
			} else {
				z = c.handle(st, a.Elem(), c.zero(a.Elem()))
			}
			_, vs := m.S.arrParts()
			c.setMem(st, a.Elem(), tf.Store(m, p, tf.ConstArr(vs, z)))
			fr.env[x] = &ArrPtr{Base: p, N: a.Len(), Elem: a.Elem()}
			return
		}
		if c.isObject(x) {
			p := c.allocPtr(st)
			c.storeHeap(st, t, p, "", t, c.zero(t))
			fr.env[x] = &Loc{Kind: "heap", Ptr: p, Root: t}
			return
		}
		id, ok := fr.cells[x]
		if !ok {
			id = c.newCell()
			fr.cells[x] = id
			c.cellType[id] = t
			if fr.names == nil {
				fr.names = map[string]int{}
			}
			nm := x.Comment
			fr.names[nm]++
			if k := fr.names[nm]; k > 1 {
				nm = fmt.Sprintf("%s%d", nm, k)
			}
			c.cellName[id] = nm
			c.cellFrame[id] = fr.fn
		}
		st.cells[id] = c.zero(t)
		fr.env[x] = &Loc{Kind: "cell", Cell: id, Root: t}
	case *ssa.Store:
		a := c.value(fr, st, x.Addr)
		v := c.value(fr, st, x.Val)
		if ap, ok := a.(*ArrPtr); ok {
			_ = ap
			panic(unsup("array store"))
		}
		if f, ok := v.(*Fn); ok && f.F != nil && c.dry == 0 {
			// a function literal kept in a field: its contract is a closure contract
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if u, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
					c.sites = append(c.sites, &CallSite{Chan: "field." + u.Field(fa.Field).Name(), Args: []Val{v}, St: st.clone(), Fr: c.frame()})
				}
			}
		}
		c.store(st, c.toLoc(a, deref(x.Addr.Type())), v, x.Pos())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := c.value(fr, st, x.X)
			if ap, ok := a.(*ArrPtr); ok {
				fr.env[x] = ap
				return
			}
			v := c.load(st, c.toLoc(a, deref(x.X.Type())), x.Pos())
			fr.env[x] = v
		case token.NOT:
			fr.env[x] = Sc{T: tf.Not(c.term(c.value(fr, st, x.X)))}
		case token.SUB:
			fr.env[x] = Sc{T: tf.Sub(c.zeroTerm(c.term(c.value(fr, st, x.X)).S), c.term(c.value(fr, st, x.X)))}
		default:
			panic(unsup("unary %s", x.Op))
		}
	case *ssa.BinOp:
		fr.env[x] = c.binop(st, x.Op, c.value(fr, st, x.X), c.value(fr, st, x.Y), x.X.Type(), x.Pos())
	case *ssa.FieldAddr:
		a := c.value(fr, st, x.X)
		l := c.toLoc(a, deref(x.X.Type()))
		if l.Kind == "heap" {
			c.safe(st, "nil dereference", tf.Neq(l.Ptr, tf.Int(0)), x.Pos())
		}
		n := *l
		n.Path = append(append([]int(nil), l.Path...), x.Field)
		fr.env[x] = &n
	case *ssa.Field:
		s, ok := c.value(fr, st, x.X).(*Struct)
		if !ok {
			panic(unsup("field of non-struct"))
		}
		v := s.F[x.Field]
		if sc, ok := v.(Sc); ok {
			sc.Prov = typeKey(s.Typ) + "." + s.Typ.Underlying().(*types.Struct).Field(x.Field).Name()
			v = sc
		}
		fr.env[x] = v
	case *ssa.IndexAddr:
		base := c.value(fr, st, x.X)
		idx := c.term(c.value(fr, st, x.Index))
		switch b := base.(type) {
		case *Slice:
			c.safe(st, "index out of range", tf.And(tf.Le(tf.Int(0), idx), tf.Lt(idx, b.Len)), x.Pos())
			fr.env[x] = &Loc{Kind: "elem", Base: b.Base, Idx: tf.Add(b.Off, idx), Root: b.Elem}
		case *ArrPtr:
			c.safe(st, "index out of range", tf.And(tf.Le(tf.Int(0), idx), tf.Lt(idx, tf.Int(b.N))), x.Pos())
			fr.env[x] = &Loc{Kind: "elem", Base: b.Base, Idx: idx, Root: b.Elem}
		default:
			panic(unsup("IndexAddr on %T", base))
		}
	case *ssa.Index:
		panic(unsup("array/string index"))
	case *ssa.Slice:
		fr.env[x] = c.sliceOp(fr, st, x)
	case *ssa.MakeSlice:
		n := c.term(c.value(fr, st, x.Len))
		cp := c.term(c.value(fr, st, x.Cap))
		el := types.Unalias(x.Type()).Underlying().(*types.Slice).Elem()
		c.safe(st, "negative make length", tf.And(tf.Le(tf.Int(0), n), tf.Le(n, cp)), x.Pos())
		p := c.allocPtr(st)
		if n.Op != "int" || n.C != 0 {
			m := c.mem(st, el)
			var z *Term
			if isScalarT(el) {
				z = c.zeroTerm(leaves(el)[0].S)
			} else {
				z = c.handle(st, el, c.zero(el))
			}
			_, vs := m.S.arrParts()
			c.setMem(st, el, tf.Store(m, p, tf.ConstArr(vs, z)))
		}
		fr.env[x] = &Slice{Base: p, Off: tf.Int(0), Len: n, Cap: cp, Elem: el}
	case *ssa.MakeMap:
		p := c.allocPtr(st)
		m := types.Unalias(x.Type()).Underlying().(*types.Map)
		d, v, l := c.mapHeaps(st, m)
		_, ds := d.S.arrParts()
		_ = v
		dn, _, ln := c.mapNames(m)
		st.set(dn, tf.Store(d, p, tf.ConstArr(ds, tf.F)))
		st.set(ln, tf.Store(l, p, tf.Int(0)))
		fr.env[x] = Sc{T: p}
	case *ssa.MapUpdate:
		mt := types.Unalias(x.Map.Type()).Underlying().(*types.Map)
		m := c.term(c.value(fr, st, x.Map))
		c.safe(st, "assignment to nil map", tf.Neq(m, tf.Int(0)), x.Pos())
		k := c.mapKey(c.value(fr, st, x.Key))
		c.mapStore(st, mt, m, k, c.value(fr, st, x.Value))
	case *ssa.Lookup:
		mt, ok := types.Unalias(x.X.Type()).Underlying().(*types.Map)
		if !ok {
			panic(unsup("string index"))
		}
		v, ex := c.mapLoad(st, mt, c.term(c.value(fr, st, x.X)), c.mapKey(c.value(fr, st, x.Index)))
		if x.CommaOk {
			fr.env[x] = Tuple{v, Sc{T: ex}}
		} else {
			fr.env[x] = v
		}
	case *ssa.MakeClosure:
		f := &Fn{F: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, c.value(fr, st, b))
		}
		fr.env[x] = f
	case *ssa.MakeInterface:
		fr.env[x] = &Iface{Dyn: x.X.Type(), V: c.value(fr, st, x.X)}
	case *ssa.ChangeInterface:
		fr.env[x] = c.value(fr, st, x.X)
	case *ssa.ChangeType:
		v := c.value(fr, st, x.X)
		switch y := v.(type) {
		case *Slice:
			n := *y
			n.Elem = types.Unalias(x.Type()).Underlying().(*types.Slice).Elem()
			v = &n
		case *Struct:
			v = &Struct{Typ: x.Type(), F: y.F}
		}
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = c.convert(st, c.value(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		fr.env[x] = c.typeAssert(st, x, c.value(fr, st, x.X))
	case *ssa.Extract:
		t, ok := c.value(fr, st, x.Tuple).(Tuple)
		if !ok {
			panic(unsup("extract of non-tuple"))
		}
		fr.env[x] = t[x.Index]
	case *ssa.Range:
		mt, ok := types.Unalias(x.X.Type()).Underlying().(*types.Map)
		if !ok {
			panic(unsup("range over string"))
		}
		id, ok := fr.cells[x]
		if !ok {
			id = c.newCell()
			fr.cells[x] = id
		}
		kd := leaves(mt.Key())[0].S
		st.cells[id] = Sc{T: tf.ConstArr(SArr(kd, SBool), tf.F)} // visited set
		fr.env[x] = &RangeIter{Cell: id, M: c.term(c.value(fr, st, x.X)), Map: mt}
	case *ssa.Next:
		it := c.value(fr, st, x.Iter).(*RangeIter)
		fr.env[x] = c.nextMap(st, it)
	case *ssa.Call:
		v := c.call(fr, st, &x.Call, x.Pos(), x)
		if v != nil {
			fr.env[x] = v
		}
	case *ssa.Defer:
		d := deferred{pc: st.pc, call: &x.Call, pos: x.Pos()}
		for _, a := range x.Call.Args {
			d.vals = append(d.vals, c.value(fr, st, a))
		}
		if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
			d.fnv = c.value(fr, st, x.Call.Value)
		}
		if sc := x.Call.StaticCallee(); sc != nil {
			d.fnv = c.value(fr, st, x.Call.Value)
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			run := st.clone()
			run.pc = tf.And(st.pc, d.pc)
			skip := st.clone()
			skip.pc = tf.And(st.pc, tf.Not(d.pc))
			if run.pc == tf.F {
				continue
			}
			c.callVals(fr, run, d.call, d.fnv, d.vals, d.pos, nil)
			m := c.mergeStates([]*State{run, skip})
			*st = *m
		}
	case *ssa.Go:
		c.goCall(fr, st, &x.Call, x.Pos())
	default:
		panic(unsup("instruction %T (%s)", ins, ins))
	}
}

// isObject: an Alloc that must live in the object heap (its address escapes as a value).
func (c *Ctx) isObject(x *ssa.Alloc) bool {
	if r, ok := c.v.objCache[x]; ok {
		return r
	}
	r := addrEscapes(x, 0)
	c.v.objCache[x] = r
	return r
}
func addrEscapes(v ssa.Value, depth int) bool {
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if y.Val == v {
				return true
			}
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			if fieldAddrEscapes(y) {
				return true
			}
		case *ssa.IndexAddr, *ssa.Slice:
		case *ssa.MakeClosure:
			// captured by reference: cell shared with the closure
			fn := y.Fn.(*ssa.Function)
			for i, b := range y.Bindings {
				if b == v && depth < 4 && addrEscapes(fn.FreeVars[i], depth+1) {
					return true
				}
			}
		case *ssa.Call:
			// method call on the address (receiver) or passing the pointer
			return true
		default:
			return true
		}
	}
	return false
}
func fieldAddrEscapes(f ssa.Value) bool {
	for _, ref := range *f.Referrers() {
		switch y := ref.(type) {
		case *ssa.DebugRef, *ssa.UnOp:
		case *ssa.Store:
			if y.Val == f {
				return true
			}
		case *ssa.FieldAddr:
			if fieldAddrEscapes(y) {
				return true
			}
		case *ssa.IndexAddr, *ssa.Slice:
		default:
			// a method on an embedded field (e.g. wg.Wait): handled through the location
		}
	}
	return false
}

func (c *Ctx) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	tf := c.tf
	switch op {
	case token.EQL, token.NEQ:
		e := c.valEq(a, b)
		if op == token.NEQ {
			e = tf.Not(e)
		}
		return Sc{T: e}
	}
	x, y := c.term(a), c.term(b)
	isStr := false
	if bt, ok := types.Unalias(t).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	switch op {
	case token.ADD:
		if isStr {
			if x == c.v.strLit(tf, "") {
				return Sc{T: y}
			}
			if y == c.v.strLit(tf, "") {
				return Sc{T: x}
			}
			return Sc{T: tf.App("str.concat", SInt, x, y)}
		}
		return Sc{T: tf.Add(x, y)}
	case token.SUB:
		return Sc{T: tf.Sub(x, y)}
	case token.MUL:
		return Sc{T: tf.Mul(x, y)}
	case token.QUO:
		if x.S == SReal {
			return Sc{T: tf.mk(&Term{Op: "r/", Args: []*Term{x, y}, S: SReal})}
		}
		if y.Op == "int" && y.C > 0 {
			// truncated division
			q := tf.DivC(x, y.C)
			nq := tf.Sub(tf.Int(0), tf.DivC(tf.Sub(tf.Int(0), x), y.C))
			if q == nq {
				return Sc{T: q}
			}
			return Sc{T: tf.Ite(tf.Le(tf.Int(0), x), q, nq)}
		}
		c.safe(st, "division by zero", tf.Neq(y, tf.Int(0)), pos)
		return Sc{T: tf.App("go.quo", SInt, x, y)}
	case token.REM:
		c.safe(st, "division by zero", tf.Neq(y, tf.Int(0)), pos)
		return Sc{T: tf.App("go.rem", SInt, x, y)}
	}
	if isStr {
		switch op {
		case token.LSS:
			return Sc{T: tf.App("str.lt", SBool, x, y)}
		case token.GTR:
			return Sc{T: tf.App("str.lt", SBool, y, x)}
		}
		panic(unsup("string comparison"))
	}
	switch op {
	case token.LSS:
		return Sc{T: tf.Lt(x, y)}
	case token.LEQ:
		return Sc{T: tf.Le(x, y)}
	case token.GTR:
		return Sc{T: tf.Gt(x, y)}
	case token.GEQ:
		return Sc{T: tf.Ge(x, y)}
	case token.AND, token.LAND:
		if x.S == SBool {
			return Sc{T: tf.And(x, y)}
		}
	case token.OR, token.LOR:
		if x.S == SBool {
			return Sc{T: tf.Or(x, y)}
		}
	}
	panic(unsup("binary %s", op))
}

func (c *Ctx) valEq(a, b Val) *Term {
	tf := c.tf
	switch x := a.(type) {
	case *Struct:
		y, ok := b.(*Struct)
		if !ok {
			break
		}
		var cs []*Term
		for i := range x.F {
			cs = append(cs, c.valEq(x.F[i], y.F[i]))
		}
		return tf.And(cs...)
	case *Slice:
		if y, ok := b.(*Slice); ok {
			// only comparison with nil is legal Go
			if y.Base.Op == "int" && y.Base.C == 0 {
				return tf.Eq(x.Base, tf.Int(0))
			}
			if x.Base.Op == "int" && x.Base.C == 0 {
				return tf.Eq(y.Base, tf.Int(0))
			}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if types.Identical(x.Dyn, y.Dyn) {
				return c.valEq(x.V, y.V)
			}
			return tf.F
		}
		if y, ok := b.(Sc); ok && y.T.Op == "int" && y.T.C == 0 {
			return tf.F
		}
	case *Fn:
		if y, ok := b.(Sc); ok && y.T.Op == "int" && y.T.C == 0 {
			return tf.F
		}
	case *Loc, *ArrPtr:
		if y, ok := b.(Sc); ok && y.T.Op == "int" && y.T.C == 0 {
			if l, ok := a.(*Loc); !ok || l.Kind != "heap" {
				return tf.F
			}
		}
	case Sc:
		switch b.(type) {
		case *Iface, *Fn, *ArrPtr:
			if _, ok := b.(Sc); !ok {
				return c.valEq(b, a)
			}
		}
	}
	x, y := c.term(a), c.term(b)
	if x.S == SReal {
		return tf.mk(&Term{Op: "=", Args: []*Term{x, y}, S: SBool})
	}
	return tf.Eq(x, y)
}

func (c *Ctx) convert(st *State, v Val, from, to types.Type) Val {
	fb, ok1 := types.Unalias(from).Underlying().(*types.Basic)
	tb, ok2 := types.Unalias(to).Underlying().(*types.Basic)
	if ok1 && ok2 {
		x := c.term(v)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return Sc{T: x}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return Sc{T: x}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			if x.Op == "int" {
				return Sc{T: c.tf.Real(realLit(float64(x.C)))}
			}
			return Sc{T: c.tf.mk(&Term{Op: "to_real", Args: []*Term{x}, S: SReal})}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			if x.Op == "to_real" {
				return Sc{T: x.Args[0]}
			}
			// truncation toward zero
			fl := c.tf.mk(&Term{Op: "to_int", Args: []*Term{x}, S: SInt})
			ng := c.tf.mk(&Term{Op: "to_int", Args: []*Term{c.tf.Sub(c.tf.Real("0.0"), x)}, S: SInt})
			return Sc{T: c.tf.Ite(c.tf.Le(c.tf.Real("0.0"), x), fl, c.tf.Sub(c.tf.Int(0), ng))}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return Sc{T: x}
		}
	}
	// string <-> []byte: opaque tokens
	if _, ok := types.Unalias(to).Underlying().(*types.Slice); ok && ok1 {
		if s, ok := v.(Sc); ok {
			return &Slice{Base: s.T, Off: c.tf.Int(0), Len: c.tf.App("str.len", SInt, s.T), Cap: c.tf.App("str.len", SInt, s.T), Elem: types.Unalias(to).Underlying().(*types.Slice).Elem()}
		}
	}
	if _, ok := types.Unalias(from).Underlying().(*types.Slice); ok && ok2 {
		if s, ok := v.(*Slice); ok {
			return Sc{T: s.Base}
		}
	}
	panic(unsup("conversion %s -> %s", from, to))
}

func (c *Ctx) typeAssert(st *State, x *ssa.TypeAssert, v Val) Val {
	tf := c.tf
	at := x.AssertedType
	var res Val
	var ok *Term
	switch i := v.(type) {
	case *Iface:
		if types.IsInterface(at) {
			ok = tf.Bool(types.Implements(i.Dyn, at.Underlying().(*types.Interface)))
			res = i
		} else {
			ok = tf.Bool(types.Identical(i.Dyn, at))
			res = i.V
			if ok == tf.F {
				res = c.zero(at)
			}
		}
	case Sc:
		if types.IsInterface(at) {
			res = i
			ok = tf.App("implements."+typeKey(at), SBool, i.T)
		} else {
			ok = tf.App("dyntype."+typeKey(at), SBool, i.T)
			if isScalarT(at) {
				t := i.T
				if leaves(at)[0].S == SBool {
					t = tf.Eq(t, tf.Int(1))
				}
				res = Sc{T: t}
			} else {
				panic(unsup("type assertion to %s", at))
			}
		}
	default:
		panic(unsup("type assertion on %T", v))
	}
	if x.CommaOk {
		return Tuple{res, Sc{T: ok}}
	}
	if _, opaque := v.(Sc); opaque {
		c.note("dynamic types of values read back from sync.Map match what was stored")
	} else {
		c.safe(st, "type assertion", ok, x.Pos())
	}
	return res
}

func (c *Ctx) note(s string) { c.notes[s] = true }

// ---------- slices
func (c *Ctx) sliceOp(fr *Frame, st *State, x *ssa.Slice) Val {
	tf := c.tf
	b := c.value(fr, st, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = c.term(c.value(fr, st, x.Low))
	} else {
		lo = tf.Int(0)
	}
	switch s := b.(type) {
	case *ArrPtr:
		if x.High != nil {
			hi = c.term(c.value(fr, st, x.High))
		} else {
			hi = tf.Int(s.N)
		}
		return &Slice{Base: s.Base, Off: lo, Len: tf.Sub(hi, lo), Cap: tf.Sub(tf.Int(s.N), lo), Elem: s.Elem}
	case *Slice:
		if x.High != nil {
			hi = c.term(c.value(fr, st, x.High))
		} else {
			hi = s.Len
		}
		c.safe(st, "slice bounds out of range", tf.And(tf.Le(tf.Int(0), lo), tf.Le(lo, hi), tf.Le(hi, s.Cap)), x.Pos())
		return &Slice{Base: s.Base, Off: tf.Add(s.Off, lo), Len: tf.Sub(hi, lo), Cap: tf.Sub(s.Cap, lo), Elem: s.Elem}
	}
	panic(unsup("slice of %T", b))
}

// appendOp models append(s, t...).
func (c *Ctx) appendOp(st *State, s, t *Slice) Val {
	tf := c.tf
	if t.Len.Op == "int" && t.Len.C == 0 {
		return s
	}
	el := s.Elem
	m := c.mem(st, el)
	src := c.content(st, t)
	old := tf.Select(m, s.Base)
	zeroOff := s.Off.Op == "int" && s.Off.C == 0
	newLen := tf.Add(s.Len, t.Len)
	fits := tf.Le(newLen, s.Cap)
	if s.Cap.Op == "int" && s.Len == s.Cap && t.Len.Op == "int" && t.Len.C > 0 {
		fits = tf.F
	}
	fresh := c.allocPtr(st)
	ncap := tf.Fresh("cap", SInt)
	c.fact(tf.Le(newLen, ncap))
	if !zeroOff {
		panic(unsup("append to a re-sliced slice with offset"))
	}
	var na *Term
	if t.Len.Op == "int" && t.Len.C <= 8 {
		na = old
		for i := int64(0); i < t.Len.C; i++ {
			na = tf.Store(na, tf.AddC(s.Len, i), tf.Select(src, tf.AddC(t.Off, i)))
		}
	} else {
		_, vs := m.S.arrParts()
		if c.pure > 0 {
			panic(unsup("append in quantified context"))
		}
		na = tf.Fresh("app", vs)
		q := tf.BoundVar("ap", SInt)
		sel := tf.Select(na, q)
		c.fact(tf.Forall([]*Term{q}, tf.Eq(sel, tf.Ite(tf.And(tf.Le(s.Len, q), tf.Lt(q, newLen)),
			tf.Select(src, tf.Add(tf.Sub(q, s.Len), t.Off)), tf.Select(old, q))), []*Term{sel}))
	}
	nb := tf.Ite(fits, s.Base, fresh)
	c.setMem(st, el, tf.Store(m, nb, na))
	// an empty append of a symbolic slice returns s itself
	r := &Slice{Base: nb, Off: tf.Int(0), Len: newLen, Cap: tf.Ite(fits, s.Cap, ncap), Elem: el}
	return r
}

// ---------- maps
func (c *Ctx) mapNames(m *types.Map) (string, string, string) {
	b := "map:" + typeKey(m.Key()) + ">" + typeKey(m.Elem())
	return b + "#dom", b + "#val", b + "#mlen"
}
func (c *Ctx) mapHeaps(st *State, m *types.Map) (*Term, *Term, *Term) {
	d, v, l := c.mapNames(m)
	ks := leaves(m.Key())[0].S
	vs := SInt
	if isScalarT(m.Elem()) {
		vs = leaves(m.Elem())[0].S
		if leaves(m.Elem())[0].Ptr == "ptr" {
			c.heapKind[v] = "memptr"
		}
	}
	c.heapKind[l] = "len"
	return st.get(c, d, SArr(SInt, SArr(ks, SBool))), st.get(c, v, SArr(SInt, SArr(ks, vs))), st.get(c, l, SArr(SInt, SInt))
}
func (c *Ctx) mapKey(v Val) *Term { return c.term(v) }
func (c *Ctx) mapLoad(st *State, m *types.Map, p, k *Term) (Val, *Term) {
	tf := c.tf
	d, v, _ := c.mapHeaps(st, m)
	// a nil map reads as empty
	ex := tf.And(tf.Neq(p, tf.Int(0)), tf.Select(tf.Select(d, p), k))
	if ex.free || c.pure > 0 {
		_ = ex
	}
	cell := tf.Select(tf.Select(v, p), k)
	val := c.elemVal(st, m.Elem(), cell)
	return c.merge(ex, val, c.zero(m.Elem())), ex
}
func (c *Ctx) mapStore(st *State, m *types.Map, p, k *Term, val Val) {
	tf := c.tf
	d, v, l := c.mapHeaps(st, m)
	dn, vn, ln := c.mapNames(m)
	dm := tf.Select(d, p)
	st.set(ln, tf.Store(l, p, tf.Ite(tf.Select(dm, k), tf.Select(l, p), tf.AddC(tf.Select(l, p), 1))))
	st.set(dn, tf.Store(d, p, tf.Store(dm, k, tf.T)))
	st.set(vn, tf.Store(v, p, tf.Store(tf.Select(v, p), k, c.encodeElem(st, m.Elem(), val))))
}
func (c *Ctx) mapDelete(st *State, m *types.Map, p, k *Term) {
	tf := c.tf
	d, _, l := c.mapHeaps(st, m)
	dn, _, ln := c.mapNames(m)
	dm := tf.Select(d, p)
	nn := tf.Neq(p, tf.Int(0))
	st.set(ln, tf.Ite(nn, tf.Store(l, p, tf.Ite(tf.Select(dm, k), tf.AddC(tf.Select(l, p), -1), tf.Select(l, p))), l))
	st.set(dn, tf.Ite(nn, tf.Store(d, p, tf.Store(dm, k, tf.F)), d))
}
func (c *Ctx) nextMap(st *State, it *RangeIter) Val {
	tf := c.tf
	vis := st.cells[it.Cell].(Sc).T
	d, v, _ := c.mapHeaps(st, it.Map)
	dm := tf.Select(d, it.M)
	ks := leaves(it.Map.Key())[0].S
	if c.pure > 0 {
		panic(unsup("map iteration in quantified context"))
	}
	k := tf.Fresh("mk", ks)
	ok := tf.Fresh("mok", SBool)
	q := tf.BoundVar("mq", ks)
	nn := tf.Neq(it.M, tf.Int(0))
	c.assume(st, tf.Imp(ok, tf.And(nn, tf.Select(dm, k), tf.Not(tf.Select(vis, k)))))
	c.assume(st, tf.Imp(tf.And(tf.Not(ok), nn), tf.Forall([]*Term{q}, tf.Imp(tf.Select(dm, q), tf.Select(vis, q)), []*Term{tf.Select(dm, q)})))
	c.assume(st, tf.Imp(tf.Not(nn), tf.Not(ok)))
	st.cells[it.Cell] = Sc{T: tf.Ite(ok, tf.Store(vis, k, tf.T), vis)}
	val := c.elemVal(st, it.Map.Elem(), tf.Select(tf.Select(v, it.M), k))
	return Tuple{Sc{T: ok}, Sc{T: k}, val}
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	fset      *token.FileSet
	repo      string
	prog      *ssa.Program
	initial   []*packages.Package
	repoPkg   map[*types.Package]bool
	byName    map[string]*types.Package
	mainPkg   *types.Package
	allFns    map[*ssa.Function]bool
	byKey     map[string]*ssa.Function
	loopCache map[*ssa.Function]map[*ssa.BasicBlock]*loopShape
	objCache  map[*ssa.Alloc]bool
	specs     map[string]*FuncSpec
	specList  []*FuncSpec
	defs      map[string]*Def
	chans     map[string]*ChanDecl
	debug     bool
	mu        sync.Mutex
	strs      map[string]int64
	strRev    map[int64]string
	errs      map[*ssa.Global]int64
	gconst    map[*ssa.Global]*ssa.Const
	dynCache  map[string]types.Type
	modPath   string
}

func load(repo string) (*Verifier, error) {
	v := &Verifier{fset: token.NewFileSet(), repo: repo, repoPkg: map[*types.Package]bool{}, byName: map[string]*types.Package{}, loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*loopShape{},
		objCache: map[*ssa.Alloc]bool{}, specs: map[string]*FuncSpec{}, defs: map[string]*Def{}, chans: map[string]*ChanDecl{}, strs: map[string]int64{"": 0}, strRev: map[int64]string{0: ""},
		errs: map[*ssa.Global]int64{}, gconst: map[*ssa.Global]*ssa.Const{}, dynCache: map[string]types.Type{}, byKey: map[string]*ssa.Function{}}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: v.fset, Tests: false}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	v.initial = ps
	prog, pkgs := ssautil.AllPackages(ps, ssa.NaiveForm|ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	v.prog = prog
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		v.repoPkg[p.Pkg] = true
		v.byName[p.Pkg.Name()] = p.Pkg
		if p.Pkg.Name() == "pokercompetition" {
			v.mainPkg = p.Pkg
		}
	}
	for _, p := range prog.AllPackages() {
		if _, ok := v.byName[p.Pkg.Name()]; !ok {
			v.byName[p.Pkg.Name()] = p.Pkg
		}
	}
	v.allFns = ssautil.AllFunctions(prog)
	for f := range v.allFns {
		if f.Pkg != nil && v.repoPkg[f.Pkg.Pkg] && f.Parent() == nil {
			v.byKey[funcKey(f)] = f
		}
	}
	// sentinel errors and constant globals
	var gs []*ssa.Global
	stores := map[*ssa.Global][]ssa.Value{}
	for f := range v.allFns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], s.Val)
					}
				}
			}
		}
	}
	for g, vs := range stores {
		if len(vs) != 1 {
			continue
		}
		if isErrorT(deref(g.Type())) {
			gs = append(gs, g)
		}
		if k, ok := vs[0].(*ssa.Const); ok {
			v.gconst[g] = k
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for i, g := range gs {
		v.errs[g] = int64(9000000 + i)
	}
	return v, nil
}

func (v *Verifier) specFor(fn *ssa.Function) *FuncSpec {
	if fn.Parent() != nil {
		return nil
	}
	return v.specs[funcKey(fn)]
}
func (v *Verifier) globalVal(c *Ctx, st *State, g *ssa.Global) Val {
	if n, ok := v.errs[g]; ok {
		return Sc{T: c.tf.Int(n)}
	}
	if k, ok := v.gconst[g]; ok {
		return c.constVal(k)
	}
	return nil
}
func (v *Verifier) strLit(tf *TF, s string) *Term {
	n, ok := v.strs[s]
	if !ok {
		h := fnv.New32a()
		h.Write([]byte(s))
		n = 20000000 + int64(h.Sum32()%100000000)
		for {
			if _, used := v.strRev[n]; !used {
				break
			}
			n++
		}
		v.strs[s] = n
		v.strRev[n] = s
	}
	return tf.Int(n)
}
func (v *Verifier) litOf(t *Term) (string, bool) {
	if t.Op != "int" {
		return "", false
	}
	s, ok := v.strRev[t.C]
	return s, ok
}

var inlineDeps = map[string]bool{
	"pokertable.NewTableEngineCallbacks": true, "pokertable.NewTableEngineOptions": true,
	"pokertable.(Table).AlivePlayers": true, "pokertable.(*Table).AlivePlayers": true,
	"pokertable.(Table).FindGamePlayerIdx": true, "pokertable.(Table).FindPlayerIdx": true, "pokertable.(Table).GamePlayerIndex": true,
	"pokertable.(Table).FindPlayerIndexFromGamePlayerIndex": true,
	"pokerface.(*GameState).GetPlayer":                      true,
	"pokerface.(*GameState).HasAction":                      true, "pokerface.(*PlayerState).HasAction": true,
	"pokerface.(*GameState).HasPosition": true,
	"pokertable.(*tableEngine).GetTable": true,
	"pokertable.(*tableEngine).GetGame":  true,
}

func (v *Verifier) pkgOf(fn *ssa.Function) *types.Package {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Pkg == nil && f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	return v.mainPkg
}
func (v *Verifier) inlinable(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Pkg == nil && f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return fn.Synthetic != ""
	}
	if fn.Synthetic != "" && fn.Name() != "init" {
		return true
	}
	root := f
	for root.Parent() != nil {
		root = root.Parent()
	}
	return v.repoPkg[f.Pkg.Pkg] || inlineDeps[funcKey(fn)] || inlineDeps[funcKey(root)]
}

// ifaceDyn finds the only dynamic type ever stored in an interface-typed field of the repository.
func (v *Verifier) ifaceDyn(prov string, it types.Type) types.Type {
	if prov == "" {
		return nil
	}
	if t, ok := v.dynCache[prov]; ok {
		return t
	}
	var found types.Type
	bad := false
	var visit func(x ssa.Value, depth int)
	visit = func(x ssa.Value, depth int) {
		if depth > 6 {
			bad = true
			return
		}
		switch y := x.(type) {
		case *ssa.MakeInterface:
			if found != nil && !types.Identical(found, y.X.Type()) {
				bad = true
			}
			found = y.X.Type()
		case *ssa.Const:
		case *ssa.Call:
			sc := y.Call.StaticCallee()
			if sc == nil || sc.Blocks == nil || !v.inlinable(sc) || sc.Signature.Results().Len() != 1 {
				bad = true
				return
			}
			for _, b := range sc.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					visit(r.Results[0], depth+1)
				}
			}
		case *ssa.UnOp:
			a, ok := y.X.(*ssa.Alloc)
			if !ok {
				bad = true
				return
			}
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					visit(s.Val, depth+1)
				}
			}
		case *ssa.ChangeInterface:
			visit(y.X, depth+1)
		default:
			bad = true
		}
	}
	for f := range v.allFns {
		if f.Pkg == nil || !v.repoPkg[f.Pkg.Pkg] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				rt := deref(fa.X.Type())
				n := typeKey(rt) + "." + rt.Underlying().(*types.Struct).Field(fa.Field).Name()
				if n == prov {
					visit(s.Val, 0)
				}
			}
		}
	}
	if bad {
		found = nil
	}
	v.dynCache[prov] = found
	return found
}
func (v *Verifier) pureParam(prov string) bool        { return false }
func (v *Verifier) trackArgs(ch string) bool          { return true }
func (v *Verifier) pkgByName(n string) *types.Package { return v.byName[n] }

func (v *Verifier) chanTypes(c *Ctx, ch string) *ChanSig {
	if s := c.chanSig[ch]; s != nil {
		return s
	}
	mk := func(sig *types.Signature) *ChanSig {
		s := &ChanSig{Name: ch, NArgs: sig.Params().Len()}
		for i := 0; i < sig.Params().Len(); i++ {
			s.Types = append(s.Types, sig.Params().At(i).Type())
		}
		for i := 0; i < sig.Results().Len(); i++ {
			s.Types = append(s.Types, sig.Results().At(i).Type())
		}
		c.chanSig[ch] = s
		return s
	}
	if ch == "timer" {
		fnT := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), nil, false)
		s := &ChanSig{Name: ch, NArgs: 2, Types: []types.Type{types.Typ[types.Int64], fnT, types.Universe.Lookup("error").Type()}}
		c.chanSig[ch] = s
		return s
	}
	var ps []*types.Package
	for p := range v.repoPkg {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Path() < ps[j].Path() })
	for _, n := range []string{"regulator", "pokertable"} {
		if p := v.byName[n]; p != nil {
			ps = append(ps, p)
		}
	}
	if strings.HasPrefix(ch, "cb.") {
		f := ch[3:]
		for _, p := range ps {
			for _, n := range p.Scope().Names() {
				tn, ok := p.Scope().Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				st, ok := structOf(tn.Type())
				if !ok {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == f {
						if sig, ok := types.Unalias(st.Field(i).Type()).Underlying().(*types.Signature); ok {
							return mk(sig)
						}
					}
				}
			}
		}
	}
	if i := strings.Index(ch, "."); i > 0 {
		for _, p := range ps {
			if tn, ok := p.Scope().Lookup(ch[:i]).(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok {
					for k := 0; k < it.NumMethods(); k++ {
						if it.Method(k).Name() == ch[i+1:] {
							return mk(it.Method(k).Type().(*types.Signature))
						}
					}
				}
			}
		}
	}
	for f := range v.allFns {
		if funcKey(f) == ch {
			return mk(c.sigWithRecv(f))
		}
	}
	panic(unsup("unknown channel %s", ch))
}

// targets builds the verification targets.
func (v *Verifier) targets() ([]*Target, []string) {
	var out []*Target
	var notes []string
	for _, sp := range v.specList {
		if sp.Assumed {
			continue
		}
		if sp.Closure != nil {
			fns, err := v.closureFns(sp)
			if err != nil || len(fns) == 0 {
				notes = append(notes, fmt.Sprintf("closure %s: not found in the current tree (%v)", sp.Name, err))
				out = append(out, &Target{Name: sp.Name, Spec: sp})
				continue
			}
			for i, f := range fns {
				n := sp.Name
				if i > 0 {
					n = fmt.Sprintf("%s~%d", n, i)
				}
				out = append(out, &Target{Name: n, Fn: f, Spec: sp, NoSafety: sp.NoSafety})
			}
			continue
		}
		fn := v.byKey[sp.Key]
		if fn == nil {
			notes = append(notes, "function "+sp.Key+" does not exist in the current tree")
			out = append(out, &Target{Name: sp.Name, Spec: sp})
			continue
		}
		out = append(out, &Target{Name: sp.Name, Fn: fn, Spec: sp, NoSafety: sp.NoSafety})
	}
	return out, notes
}

// closureFns: the function literals given to an external call inside the parent function.
func (v *Verifier) closureFns(sp *FuncSpec) ([]*ssa.Function, error) {
	p := v.byKey[sp.Closure.Parent]
	if p == nil {
		return nil, fmt.Errorf("no function %s", sp.Closure.Parent)
	}
	psp := v.specs[sp.Closure.Parent]
	if psp == nil {
		psp = &FuncSpec{Key: sp.Closure.Parent, Name: sp.Closure.Parent}
	}
	c := newCtx(v, &Target{Name: sp.Closure.Parent, Fn: p, Spec: &FuncSpec{Key: psp.Key, Name: psp.Name, Params: psp.Params, Requires: psp.Requires}})
	err := c.exec()
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, s := range c.sites {
		if s.Chan != sp.Closure.Chan || sp.Closure.Arg >= len(s.Args) {
			continue
		}
		f, ok := s.Args[sp.Closure.Arg].(*Fn)
		if !ok || f.F == nil || seen[f.F] {
			continue
		}
		seen[f.F] = true
		out = append(out, f.F)
	}
	if strings.HasPrefix(sp.Closure.Chan, "field.") {
		// a field may first be set to a default that captures nothing
		var cap []*ssa.Function
		for _, f := range out {
			if len(f.FreeVars) >= len(sp.Closure.Captures) {
				cap = append(cap, f)
			}
		}
		if len(cap) > 0 {
			out = cap
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out, err
}

var _ = os.Stderr

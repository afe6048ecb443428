package main

// Contract language: parsing and symbolic evaluation.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Label   string
	Props   []string
	Src     string
	Expr    ast.Expr
	Line    string
	Via     string // proved by this variant contract of the same function
	Bounded bool   // not proved: only the bounded harness checks it
	Own     bool   // not for loops of inlined callees
	Loops   []int  // loop invariants: offered first to these loops only (source order within the target)
}
type FuncSpec struct {
	Key               string // pkg.(*T).Method
	Name              string // target name (key, or key/variant)
	Params            []string
	Results           []string
	Requires          []*Clause
	Ensures           []*Clause
	Modifies          []string
	HasMod            bool
	LoopInv           []*Clause
	Modular           bool
	NoSafety          bool
	Prune             bool     // ask the solver at each branch whether it can be taken
	Via               []string // variants that prove parts of it
	ViaSafe, ViaFrame bool
	OnlyBounded       string   // reason: nothing is proved, the harness alone checks every clause
	NoCand            []string // prefixes of automatic candidate invariants that are not tried
	Assumed           bool     // contract on code that is not verified
	Instant           bool     // all clock reads of one call give the same time
	Props             []string
	Gen               []string // raw lines for the replay harness
	Closure           *ClosureRef
	File              string
	Runtime           []string
	Instr             string
}
type ClosureRef struct {
	Chan     string
	Arg      int
	Captures [][2]string // name, type
	Parent   string
}
type Target struct {
	Name     string
	Fn       *ssa.Function
	Spec     *FuncSpec
	NoSafety bool
}
type Def struct {
	Name   string
	Params []string
	Expr   ast.Expr
	Src    string
}
type ChanDecl struct {
	Name   string
	Havocs []string
	Assume []*Clause
}

var keywords = map[string]bool{"package": true, "def": true, "func": true, "closure": true, "requires": true, "ensures": true, "modifies": true,
	"loopinv": true, "modular": true, "nosafety": true, "chan": true, "gen": true, "assumed": true, "props": true, "havocs": true, "assume": true, "harness": true, "instant": true, "nocand": true, "boundedonly": true, "prune": true}

// preproc rewrites ==> and <==> into imp()/iff() calls and $x into sp_x.
func preproc(s string) string {
	s = regexp.MustCompile(`\$([a-z]+)`).ReplaceAllString(s, "sp_$1")
	s = regexp.MustCompile(`\?([A-Za-z]+[0-9]*):([A-Za-z0-9\[\]\*\.]+)`).ReplaceAllStringFunc(s, func(m string) string {
		p := strings.SplitN(m[1:], ":", 2)
		return fmt.Sprintf("ph(%q,%q)", p[0], p[1])
	})
	return rewriteImp(s)
}
func rewriteImp(s string) string {
	// process innermost-first by recursive descent over bracket groups
	var out strings.Builder
	i := 0
	for i < len(s) {
		ch := s[i]
		if ch == '"' || ch == '`' {
			j := i + 1
			for j < len(s) && s[j] != ch {
				if s[j] == '\\' && ch == '"' {
					j++
				}
				j++
			}
			out.WriteString(s[i:min(j+1, len(s))])
			i = j + 1
			continue
		}
		if ch == '(' || ch == '[' || ch == '{' {
			j := matchBr(s, i)
			inner := s[i+1 : j]
			out.WriteByte(ch)
			parts := splitTop(inner, ",")
			for k, p := range parts {
				if k > 0 {
					out.WriteByte(',')
				}
				out.WriteString(rewriteImp(p))
			}
			out.WriteByte(s[j])
			i = j + 1
			continue
		}
		out.WriteByte(ch)
		i++
	}
	t := out.String()
	if ps := splitTop(t, "<==>"); len(ps) > 1 {
		return "iff(" + topImp(ps[0]) + "," + topImp(strings.Join(ps[1:], "<==>")) + ")"
	}
	return topImp(t)
}
func topImp(t string) string {
	ps := splitTop(t, "==>")
	if len(ps) == 1 {
		return t
	}
	return "imp(" + ps[0] + "," + topImp(strings.Join(ps[1:], "==>")) + ")"
}
func matchBr(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '"':
			for j++; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' {
					j++
				}
			}
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic(fmt.Sprintf("unbalanced: %s", s))
}
func splitTop(s, sep string) []string {
	var out []string
	d, st := 0, 0
	for j := 0; j < len(s); j++ {
		switch s[j] {
		case '"':
			for j++; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' {
					j++
				}
			}
			continue
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && strings.HasPrefix(s[j:], sep) {
			if sep == "==>" && j > 0 && s[j-1] == '<' {
				continue
			}
			out = append(out, s[st:j])
			st = j + len(sep)
			j += len(sep) - 1
		}
	}
	return append(out, s[st:])
}

func parseExpr(src, where string) ast.Expr {
	e, err := parser.ParseExpr(preproc(src))
	if err != nil {
		fatal("contract %s: %v\n  %s\n  %s", where, err, src, preproc(src))
	}
	return e
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

var reFunc = regexp.MustCompile(`^(\S+?(?:\(\*?\w+\)\.\w+)?)\s*(?:<(\S+)>)?\s*\(([^()]*)\)\s*(?:\(([^()]*)\))?$`)

func (v *Verifier) loadSpecs(dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		v.loadSpecFile(f)
	}
	v.linkVariants()
}

type specLine struct {
	kw, rest string
	line     int
}

func readSpecLines(f string) []specLine {
	data, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	var ls []specLine
	for n, raw := range strings.Split(string(data), "\n") {
		l := raw
		if i := strings.Index(l, "##"); i >= 0 {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			w = t[:i]
		}
		if keywords[w] {
			ls = append(ls, specLine{w, strings.TrimSpace(t[len(w):]), n + 1})
		} else {
			if len(ls) == 0 {
				fatal("%s:%d: text before keyword", f, n+1)
			}
			ls[len(ls)-1].rest += " " + t
		}
	}
	return ls
}

func (v *Verifier) loadSpecFile(f string) {
	pkg := ""
	var cur *FuncSpec
	var cch *ChanDecl
	base := filepath.Base(f)
	for _, l := range readSpecLines(f) {
		where := fmt.Sprintf("%s:%d", base, l.line)
		switch l.kw {
		case "package":
			pkg = l.rest
		case "def":
			i := strings.Index(l.rest, ":=")
			if i < 0 {
				fatal("%s: def without :=", where)
			}
			head, body := strings.TrimSpace(l.rest[:i]), strings.TrimSpace(l.rest[i+2:])
			d := &Def{Src: body}
			if j := strings.Index(head, "("); j >= 0 {
				d.Name = strings.TrimSpace(head[:j])
				for _, p := range strings.Split(strings.TrimSuffix(head[j+1:], ")"), ",") {
					if p = strings.TrimSpace(p); p != "" {
						d.Params = append(d.Params, p)
					}
				}
			} else {
				d.Name = head
			}
			d.Expr = parseExpr(body, where)
			if v.defs[d.Name] != nil {
				fatal("%s: duplicate def %s", where, d.Name)
			}
			v.defs[d.Name] = d
			if b, ok := d.Expr.(*ast.BasicLit); ok && b.Kind == token.STRING {
				strDefs[d.Name], _ = strconv.Unquote(b.Value)
			}
		case "func", "closure":
			// key [<variant>] (params) (results)
			s := l.rest
			cur = &FuncSpec{File: base}
			cch = nil
			if l.kw == "closure" {
				// closure NAME of KEY chan CH arg N captures a:T, b:T (params) (results)
				m := regexp.MustCompile(`^(\S+) of (\S+) chan (\S+) arg (\d+) captures (.*?) params \(([^()]*)\)$`).FindStringSubmatch(s)
				if m == nil {
					fatal("%s: bad closure header %s", where, s)
				}
				n, _ := strconv.Atoi(m[4])
				cr := &ClosureRef{Chan: m[3], Arg: n, Parent: pkg + "." + m[2]}
				for _, x := range strings.Split(m[5], ",") {
					p := strings.SplitN(strings.TrimSpace(x), ":", 2)
					if len(p) == 2 {
						cr.Captures = append(cr.Captures, [2]string{p[0], p[1]})
					}
				}
				cur.Closure = cr
				cur.Key = m[1]
				cur.Name = m[1]
				cur.Params = splitNames(m[6])
				v.specList = append(v.specList, cur)
				break
			}
			ps := lastGroups(s)
			head := ps[0]
			variant := ""
			if i := strings.Index(head, "<"); i >= 0 {
				variant = strings.Trim(head[i:], "<> ")
				head = strings.TrimSpace(head[:i])
			}
			cur.Key = pkg + "." + head
			cur.Name = cur.Key
			if variant != "" {
				cur.Name += "<" + variant + ">"
			}
			cur.Params = splitNames(ps[1])
			cur.Results = splitNames(ps[2])
			v.specList = append(v.specList, cur)
			if variant == "" {
				if v.specs[cur.Key] != nil {
					fatal("%s: duplicate contract for %s", where, cur.Key)
				}
				v.specs[cur.Key] = cur
			}
		case "chan":
			cch = &ChanDecl{Name: l.rest}
			v.chans[l.rest] = cch
			cur = nil
		case "havocs":
			cch.Havocs = append(cch.Havocs, strings.Fields(strings.ReplaceAll(l.rest, ",", " "))...)
		case "assume":
			cch.Assume = append(cch.Assume, parseClause(l.rest, where))
		case "requires":
			cur.Requires = append(cur.Requires, parseClause(l.rest, where))
		case "ensures":
			cur.Ensures = append(cur.Ensures, parseClause(l.rest, where))
		case "loopinv":
			cl := parseClause(l.rest, where)
			if cl.Label == where {
				// named by its text: recorded invariants survive edits elsewhere in the file
				h := fnv.New64a()
				io.WriteString(h, cl.Src)
				cl.Label = fmt.Sprintf("i%016x", h.Sum64())
				if os.Getenv("GOVC_LABELS") != "" {
					fmt.Fprintln(os.Stderr, "LABEL", where, cl.Label)
				}
			}
			cur.LoopInv = append(cur.LoopInv, cl)
		case "modifies":
			cur.HasMod = true
			for _, x := range splitTop(l.rest, ",") {
				if x = strings.TrimSpace(x); x != "" && x != "nothing" {
					cur.Modifies = append(cur.Modifies, x)
				}
			}
		case "modular":
			cur.Modular = true
		case "nosafety":
			cur.NoSafety = true
		case "instant":
			cur.Instant = true
		case "boundedonly":
			cur.OnlyBounded = strings.TrimSpace(l.rest)
			if cur.OnlyBounded == "" {
				cur.OnlyBounded = "beyond the prover"
			}
		case "prune":
			cur.Prune = true
		case "nocand":
			cur.NoCand = append(cur.NoCand, strings.Fields(l.rest)...)
		case "assumed":
			cur.Assumed = true
		case "props":
			cur.Props = append(cur.Props, strings.Fields(strings.ReplaceAll(l.rest, ",", " "))...)
		case "gen":
			cur.Gen = append(cur.Gen, l.rest)
		case "harness":
			cur.Instr = l.rest
		}
	}
}

// linkVariants: a clause of a contract that is not proved itself is proved when a variant with the same
// preconditions proves it.
func (v *Verifier) linkVariants() {
	srcs := func(cs []*Clause) string {
		r := ""
		for _, c := range cs {
			r += strings.Join(strings.Fields(c.Src), " ") + "\n"
		}
		return r
	}
	for _, sp := range v.specList {
		if sp.OnlyBounded == "" {
			continue
		}
		for _, e := range sp.Ensures {
			e.Bounded = true
		}
		for _, w := range v.specList {
			same := w.Key == sp.Key && w.Closure == nil
			if sp.Closure != nil {
				same = w.Closure != nil && w.Closure.Chan == sp.Closure.Chan && w.Closure.Arg == sp.Closure.Arg && w.Closure.Parent == sp.Closure.Parent
			}
			if w == sp || !same || w.OnlyBounded != "" || srcs(w.Requires) != srcs(sp.Requires) || w.Instant && !sp.Instant || strings.Join(w.Params, ",") != strings.Join(sp.Params, ",") || strings.Join(w.Results, ",") != strings.Join(sp.Results, ",") {
				continue
			}
			sp.Via = append(sp.Via, w.Name)
			if !w.NoSafety {
				sp.ViaSafe = true
			}
			if w.HasMod && sp.HasMod && strings.Join(w.Modifies, ",") == strings.Join(sp.Modifies, ",") {
				sp.ViaFrame = true
			}
			for _, e := range sp.Ensures {
				for _, f := range w.Ensures {
					if !f.Bounded && strings.Join(strings.Fields(e.Src), " ") == strings.Join(strings.Fields(f.Src), " ") {
						e.Bounded, e.Via = false, w.Name
					}
				}
			}
		}
	}
}

// lastGroups splits "head (params) (results)".
func lastGroups(s string) [3]string {
	s = strings.TrimSpace(s)
	var groups []string
	for strings.HasSuffix(s, ")") && len(groups) < 2 {
		i := strings.LastIndex(s, "(")
		g := s[i+1 : len(s)-1]
		rest := strings.TrimSpace(s[:i])
		if strings.HasPrefix(g, "*") { // receiver group
			break
		}
		groups = append([]string{g}, groups...)
		s = rest
		if strings.HasSuffix(s, ">") {
			break
		}
		if !strings.HasSuffix(s, ")") {
			break
		}
	}
	switch len(groups) {
	case 0:
		return [3]string{s, "", ""}
	case 1:
		return [3]string{s, groups[0], ""}
	}
	return [3]string{s, groups[0], groups[1]}
}

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

func parseClause(s, where string) *Clause {
	c := &Clause{Line: where}
	if strings.HasPrefix(s, "@") {
		i := strings.IndexByte(s, ' ')
		c.Own = strings.HasPrefix(s, "@=")
		for _, x := range strings.Split(strings.TrimPrefix(s[1:i], "="), ",") {
			n, err := strconv.Atoi(x)
			if err != nil {
				fatal("%s: loop list", where)
			}
			c.Loops = append(c.Loops, n)
		}
		s = strings.TrimSpace(s[i+1:])
	}
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		c.Props = strings.Fields(strings.ReplaceAll(s[1:i], ",", " "))
		s = strings.TrimSpace(s[i+1:])
	}
	if strings.HasPrefix(s, "\"") {
		i := strings.Index(s[1:], "\"")
		c.Label = s[1 : 1+i]
		s = strings.TrimSpace(s[i+2:])
		s = strings.TrimSpace(strings.TrimPrefix(s, ":"))
	}
	c.Src = s
	if c.Label == "" {
		c.Label = where
	}
	for i, p := range c.Props {
		if p == "bounded" {
			c.Bounded = true
			c.Props = append(append([]string{}, c.Props[:i]...), c.Props[i+1:]...)
			break
		}
	}
	c.Expr = parseExpr(s, where)
	return c
}

// ---------- evaluation
type SVal struct {
	V Val
	T types.Type // nil: untyped nil
}
type SpecEnv struct {
	c       *Ctx
	vars    map[string]SVal
	st      *State
	old     *State
	pre     *State // loop entry
	kk      *Term
	vis     *Term
	inOld   bool
	pkg     *types.Package
	ph      map[string]SVal
	phCells map[string]int
	depth   int
	strs    map[string]string // string parameters of the macro being expanded
}

func (e *SpecEnv) with(name string, v SVal) *SpecEnv {
	n := *e
	n.vars = make(map[string]SVal, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tStr = types.Typ[types.String]

func (e *SpecEnv) boolOf(x ast.Expr) *Term {
	v := e.eval(x)
	t := e.c.term(v.V)
	if t.S != SBool {
		panic(unsup("contract expression is not boolean: %s", exprStr(x)))
	}
	return t
}
func exprStr(x ast.Expr) string { return types.ExprString(x) }

func (e *SpecEnv) intOf(x ast.Expr) *Term { return e.c.term(e.eval(x).V) }

func (c *Ctx) evalClause(cl *Clause, env *SpecEnv) *Term {
	c.pure++
	defer func() { c.pure-- }()
	return env.boolOf(cl.Expr)
}

func (e *SpecEnv) eval(x ast.Expr) SVal {
	c := e.c
	tf := c.tf
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			i, err := strconv.ParseInt(n.Value, 0, 64)
			if err != nil {
				panic(unsup("literal %s", n.Value))
			}
			return SVal{Sc{T: tf.Int(i)}, tInt}
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return SVal{Sc{T: c.v.strLit(tf, s)}, tStr}
		case token.FLOAT:
			f, _ := strconv.ParseFloat(n.Value, 64)
			return SVal{Sc{T: tf.Real(realLit(f))}, types.Typ[types.Float64]}
		}
	case *ast.Ident:
		return e.ident(n.Name)
	case *ast.UnaryExpr:
		v := e.eval(n.X)
		switch n.Op {
		case token.NOT:
			return SVal{Sc{T: tf.Not(c.term(v.V))}, tBool}
		case token.SUB:
			t := c.term(v.V)
			return SVal{Sc{T: tf.Sub(c.zeroTerm(t.S), t)}, v.T}
		}
	case *ast.StarExpr:
		v := e.eval(n.X)
		p := c.toLoc(v.V, deref(v.T))
		return SVal{c.loadLoc(e.st, p), deref(v.T)}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar && c.v.defs[id.Name] == nil {
				if p := c.v.pkgByName(id.Name); p != nil {
					return e.object(p.Scope().Lookup(n.Sel.Name), id.Name+"."+n.Sel.Name)
				}
			}
		}
		return e.field(e.eval(n.X), n.Sel.Name)
	case *ast.IndexExpr:
		b := e.eval(n.X)
		switch u := types.Unalias(b.T).Underlying().(type) {
		case *types.Slice:
			s := b.V.(*Slice)
			i := tf.Add(s.Off, e.intOf(n.Index))
			return SVal{c.elemVal(e.st, u.Elem(), tf.Select(c.content(e.st, s), i)), u.Elem()}
		case *types.Map:
			k := c.mapKey(e.eval(n.Index).V)
			if m, ok := b.V.(*MapSnap); ok {
				val := c.elemVal(e.st, u.Elem(), tf.Select(m.Val, k))
				return SVal{c.merge(tf.Select(m.Dom, k), val, c.zero(u.Elem())), u.Elem()}
			}
			val, _ := c.mapLoad(e.st, u, c.term(b.V), k)
			return SVal{val, u.Elem()}
		}
		panic(unsup("index of %s", b.T))
	case *ast.CallExpr:
		return e.call(n)
	}
	panic(unsup("contract expression %s", exprStr(x)))
}

type MapSnap struct{ Dom, Val, Len *Term }

func (c *Ctx) loadLoc(st *State, l *Loc) Val {
	p, t := pathInfo(l.Root, l.Path)
	return c.loadHeap(st, l.Root, l.Ptr, p, t)
}

func (e *SpecEnv) ident(name string) SVal {
	c := e.c
	if v, ok := e.vars[name]; ok {
		return v
	}
	switch name {
	case "true":
		return SVal{Sc{T: c.tf.T}, tBool}
	case "false":
		return SVal{Sc{T: c.tf.F}, tBool}
	case "nil":
		return SVal{Sc{T: c.tf.Int(0)}, nil}
	case "sp_k":
		if e.kk == nil {
			panic(unsup("$k outside an index loop"))
		}
		return SVal{Sc{T: e.kk}, tInt}
	}
	if d := c.v.defs[name]; d != nil && len(d.Params) == 0 {
		return e.eval(d.Expr)
	}
	if o := e.pkg.Scope().Lookup(name); o != nil {
		return e.object(o, name)
	}
	panic(unsup("unknown name %s in contract", name))
}

func (e *SpecEnv) object(o types.Object, name string) SVal {
	c := e.c
	switch k := o.(type) {
	case *types.Const:
		t := k.Type()
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		return SVal{Sc{T: c.constTerm(k.Val(), t)}, t}
	case *types.Var:
		g, ok := c.v.prog.Package(k.Pkg()).Members[k.Name()].(*ssa.Global)
		if !ok {
			panic(unsup("global %s", name))
		}
		l := &Loc{Kind: "global", G: g, Root: deref(g.Type())}
		return SVal{c.loadGlobal(e.st, l), deref(g.Type())}
	}
	panic(unsup("name %s in contract", name))
}

func (e *SpecEnv) field(b SVal, name string) SVal {
	c := e.c
	t := b.T
	if t == nil {
		panic(unsup("field %s of nil", name))
	}
	var pkg *types.Package
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	} else if p, ok := types.Unalias(t).(*types.Pointer); ok {
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if obj == nil {
		panic(unsup("no field %s in %s", name, t))
	}
	if _, ok := obj.(*types.Var); !ok {
		panic(unsup("%s is not a field", name))
	}
	v := b.V
	for k := 0; k < len(idx); k++ {
		if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
			st := p.Elem()
			// load a run of fields
			path := []int{idx[k]}
			cur := st.Underlying().(*types.Struct).Field(idx[k]).Type()
			l := c.toLoc(v, st)
			if l.Kind == "cell" {
				v = getPath(e.st.cells[l.Cell], append(append([]int{}, l.Path...), path...))
				t = cur
				continue
			}
			n := *l
			n.Path = append(append([]int{}, l.Path...), path...)
			pth, tt := pathInfo(n.Root, n.Path)
			v = c.loadHeap(e.st, n.Root, n.Ptr, pth, tt)
			t = cur
			continue
		}
		s, ok := v.(*Struct)
		if !ok {
			panic(unsup("field of %T", v))
		}
		cur := types.Unalias(t).Underlying().(*types.Struct).Field(idx[k]).Type()
		v = s.F[idx[k]]
		t = cur
	}
	if e.inOld {
		v = e.snap(v, t)
	}
	return SVal{v, t}
}

// snap freezes slices (and maps) read in the old state.
func (e *SpecEnv) snap(v Val, t types.Type) Val {
	c := e.c
	switch x := v.(type) {
	case *Slice:
		if x.Arr == nil {
			n := *x
			n.Arr = c.content(e.st, x)
			return &n
		}
	case Sc:
		if m, ok := types.Unalias(t).Underlying().(*types.Map); ok {
			d, vv, l := c.mapHeaps(e.st, m)
			nz := c.tf.Neq(x.T, c.tf.Int(0))
			_, ds := d.S.arrParts()
			return &MapSnap{Dom: c.tf.Ite(nz, c.tf.Select(d, x.T), c.tf.ConstArr(ds, c.tf.F)), Val: c.tf.Select(vv, x.T), Len: c.tf.Ite(nz, c.tf.Select(l, x.T), c.tf.Int(0))}
		}
	}
	return v
}

func (e *SpecEnv) binary(n *ast.BinaryExpr) SVal {
	c := e.c
	tf := c.tf
	switch n.Op {
	case token.LAND:
		a := e.boolOf(n.X)
		if a == tf.F {
			return SVal{Sc{T: tf.F}, tBool}
		}
		return SVal{Sc{T: tf.And(a, e.boolOf(n.Y))}, tBool}
	case token.LOR:
		a := e.boolOf(n.X)
		if a == tf.T {
			return SVal{Sc{T: tf.T}, tBool}
		}
		return SVal{Sc{T: tf.Or(a, e.boolOf(n.Y))}, tBool}
	}
	a, b := e.eval(n.X), e.eval(n.Y)
	switch n.Op {
	case token.EQL, token.NEQ:
		if a.T == nil && b.T != nil {
			a = e.nilOf(b)
		}
		if b.T == nil && a.T != nil {
			b = e.nilOf(a)
		}
		var q *Term
		_, as := a.V.(*Slice)
		_, bs := b.V.(*Slice)
		if as && bs {
			sa, sb := a.V.(*Slice), b.V.(*Slice)
			if sb.Base.Op == "int" || sa.Base.Op == "int" {
				q = tf.Eq(sa.Base, sb.Base)
			} else {
				panic(unsup("== on slices in a contract: use sameList"))
			}
		} else {
			q = c.valEq(a.V, b.V)
		}
		if n.Op == token.NEQ {
			q = tf.Not(q)
		}
		return SVal{Sc{T: q}, tBool}
	}
	// reals vs ints
	x, y := c.term(a.V), c.term(b.V)
	toReal := func(t *Term) *Term {
		if t.S == SInt {
			if t.Op == "int" {
				return tf.Real(realLit(float64(t.C)))
			}
			return tf.mk(&Term{Op: "to_real", Args: []*Term{t}, S: SReal})
		}
		return t
	}
	if x.S == SReal || y.S == SReal {
		x, y = toReal(x), toReal(y)
	}
	t := a.T
	r := c.binop(e.st, n.Op, Sc{T: x}, Sc{T: y}, t, token.NoPos)
	switch n.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return SVal{r, tBool}
	}
	return SVal{r, t}
}
func (e *SpecEnv) nilOf(o SVal) SVal {
	z := e.c.tf.Int(0)
	if s, ok := o.V.(*Slice); ok {
		return SVal{&Slice{Base: z, Off: z, Len: z, Cap: z, Elem: s.Elem}, o.T}
	}
	if m, ok := o.V.(*MapSnap); ok {
		_ = m
		panic(unsup("map snapshot == nil"))
	}
	return SVal{Sc{T: z}, o.T}
}

var strDefs = map[string]string{}

func (e *SpecEnv) strArg(x ast.Expr) string {
	if id, ok := x.(*ast.Ident); ok {
		if s, ok := e.strs[id.Name]; ok {
			return s
		}
	}
	return strArg(x)
}

func strArg(x ast.Expr) string {
	if b, ok := x.(*ast.BasicLit); ok && b.Kind == token.STRING {
		s, _ := strconv.Unquote(b.Value)
		return s
	}
	if id, ok := x.(*ast.Ident); ok {
		if d := strDefs[id.Name]; d != "" {
			return d
		}
		panic(unsup("unknown channel or name %s", id.Name))
	}
	return exprStr(x)
}

func (e *SpecEnv) typeExpr(x ast.Expr) types.Type {
	switch n := x.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(n.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if o, ok := e.pkg.Scope().Lookup(n.Name).(*types.TypeName); ok {
			return o.Type()
		}
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if p := e.c.v.pkgByName(id.Name); p != nil {
				if o, ok := p.Scope().Lookup(n.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	case *ast.StarExpr:
		if t := e.typeExpr(n.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ArrayType:
		if t := e.typeExpr(n.Elt); t != nil {
			return types.NewSlice(t)
		}
	case *ast.MapType:
		k, v := e.typeExpr(n.Key), e.typeExpr(n.Value)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	}
	return nil
}

func (e *SpecEnv) quantInt(n *ast.CallExpr, ex bool) SVal {
	c := e.c
	tf := c.tf
	id := n.Args[0].(*ast.Ident).Name
	lo, hi := e.intOf(n.Args[1]), e.intOf(n.Args[2])
	if lo.Op == "int" && hi.Op == "int" && hi.C-lo.C <= 6 {
		var ts []*Term
		for k := lo.C; k < hi.C; k++ {
			ts = append(ts, e.with(id, SVal{Sc{T: tf.Int(k)}, tInt}).boolOf(n.Args[3]))
		}
		if ex {
			return SVal{Sc{T: tf.Or(ts...)}, tBool}
		}
		return SVal{Sc{T: tf.And(ts...)}, tBool}
	}
	bv := c.boundName(id, SInt)
	b := e.with(id, SVal{Sc{T: bv}, tInt}).boolOf(n.Args[3])
	rng := tf.And(tf.Le(lo, bv), tf.Lt(bv, hi))
	if ex {
		return SVal{Sc{T: tf.Exists([]*Term{bv}, tf.And(rng, b))}, tBool}
	}
	return SVal{Sc{T: tf.Forall([]*Term{bv}, tf.Imp(rng, b))}, tBool}
}

func (c *Ctx) boundName(id string, s Sort) *Term {
	c.qdepth++
	return c.tf.BoundVar(fmt.Sprintf("%s_%d", id, c.qdepth%97), s)
}

func (e *SpecEnv) call(n *ast.CallExpr) SVal {
	c := e.c
	tf := c.tf
	name := ""
	if id, ok := n.Fun.(*ast.Ident); ok {
		name = id.Name
	}
	B := func(t *Term) SVal { return SVal{Sc{T: t}, tBool} }
	I := func(t *Term) SVal { return SVal{Sc{T: t}, tInt} }
	if d := c.v.defs[name]; d != nil {
		if len(d.Params) != len(n.Args) {
			panic(unsup("macro %s: %d arguments", name, len(n.Args)))
		}
		if e.depth > 60 {
			panic(unsup("macro recursion %s", name))
		}
		m := *e
		m.depth++
		m.vars = map[string]SVal{}
		for k, v := range e.vars {
			if strings.HasPrefix(k, "$") {
				m.vars[k] = v
			}
		}
		m.strs = map[string]string{}
		for i, p := range d.Params {
			if id, ok := n.Args[i].(*ast.Ident); ok {
				if sv, ok := e.strs[id.Name]; ok {
					m.strs[p] = sv
					continue
				}
				if sv, ok := strDefs[id.Name]; ok {
					m.strs[p] = sv
					continue
				}
			}
			if bl, ok := n.Args[i].(*ast.BasicLit); ok && bl.Kind == token.STRING {
				m.strs[p], _ = strconv.Unquote(bl.Value)
			}
			m.vars[p] = e.eval(n.Args[i])
		}
		return m.eval(d.Expr)
	}
	switch name {
	case "imp":
		a := e.boolOf(n.Args[0])
		if a == tf.F {
			return B(tf.T)
		}
		return B(tf.Imp(a, e.boolOf(n.Args[1])))
	case "iff":
		return B(tf.Iff(e.boolOf(n.Args[0]), e.boolOf(n.Args[1])))
	case "ite":
		k := e.boolOf(n.Args[0])
		if k == tf.T {
			return e.eval(n.Args[1])
		}
		if k == tf.F {
			return e.eval(n.Args[2])
		}
		a, b := e.eval(n.Args[1]), e.eval(n.Args[2])
		t := a.T
		if t == nil {
			t = b.T
		}
		return SVal{c.merge(k, a.V, b.V), t}
	case "forall":
		return e.quantInt(n, false)
	case "exists":
		return e.quantInt(n, true)
	case "forallp", "existsp":
		id := n.Args[0].(*ast.Ident).Name
		t := e.typeExpr(n.Args[1])
		if t == nil {
			panic(unsup("unknown type %s", exprStr(n.Args[1])))
		}
		bv := c.boundName(id, SInt)
		al := e.st.get(c, "$alloc", SInt)
		b := e.with(id, SVal{Sc{T: bv}, types.NewPointer(t)}).boolOf(n.Args[2])
		rng := tf.And(tf.Lt(tf.Int(0), bv), tf.Lt(bv, al))
		if name == "existsp" {
			return B(tf.Exists([]*Term{bv}, tf.And(rng, b)))
		}
		return B(tf.Forall([]*Term{bv}, tf.Imp(rng, b)))
	case "forallv", "existsv":
		id := n.Args[0].(*ast.Ident).Name
		t := e.typeExpr(n.Args[1])
		bv := c.boundName(id, leaves(t)[0].S)
		b := e.with(id, SVal{Sc{T: bv}, t}).boolOf(n.Args[2])
		if name == "existsv" {
			return B(tf.Exists([]*Term{bv}, b))
		}
		return B(tf.Forall([]*Term{bv}, b))
	case "old":
		if e.old == nil {
			return e.eval(n.Args[0])
		}
		m := *e
		m.st = e.old
		m.inOld = true
		r := m.eval(n.Args[0])
		r.V = m.snap(r.V, r.T)
		return r
	case "pre": // state at loop entry
		m := *e
		if e.pre != nil {
			m.st = e.pre
		}
		m.inOld = true
		r := m.eval(n.Args[0])
		r.V = m.snap(r.V, r.T)
		return r
	case "let":
		id := n.Args[0].(*ast.Ident).Name
		return e.with(id, e.eval(n.Args[1])).eval(n.Args[2])
	case "len":
		v := e.eval(n.Args[0])
		switch x := v.V.(type) {
		case *Slice:
			return I(x.Len)
		case *MapSnap:
			return I(x.Len)
		case Sc:
			if m, ok := types.Unalias(v.T).Underlying().(*types.Map); ok {
				return I(c.mapLen(e.st, m, x.T))
			}
			return I(tf.App("str.len", SInt, x.T))
		}
	case "has":
		v := e.eval(n.Args[0])
		k := c.mapKey(e.eval(n.Args[1]).V)
		if s, ok := v.V.(*MapSnap); ok {
			return B(tf.Select(s.Dom, k))
		}
		if m, ok := types.Unalias(v.T).Underlying().(*types.Map); ok {
			_, ex := c.mapLoad(e.st, m, c.term(v.V), k)
			return B(ex)
		}
		if isSyncMap(v.T) {
			return B(tf.Select(v.V.(*Struct).F[0].(Sc).T, k))
		}
	case "syncval":
		v := e.eval(n.Args[0])
		k := c.mapKey(e.eval(n.Args[1]).V)
		return I(tf.Select(v.V.(*Struct).F[1].(Sc).T, k))
	case "count", "sum":
		return e.countOp(n, name)
	case "sprintf":
		var as []*Term
		for _, a := range n.Args[1:] {
			as = append(as, c.term(e.eval(a).V))
		}
		return SVal{Sc{T: c.sprintf(e.strArg(n.Args[0]), as)}, tStr}
	case "ncalls":
		return I(e.st.get(c, "log:"+e.strArg(n.Args[0])+"#n", SInt))
	case "callarg", "callret":
		ch := e.strArg(n.Args[0])
		sig := c.v.chanTypes(c, ch)
		i := e.intOf(n.Args[1])
		ki := int(e.intOf(n.Args[2]).C)
		if name == "callret" {
			ki += sig.NArgs
		}
		if ki >= len(sig.Types) {
			panic(unsup("channel %s has no value %d", ch, ki))
		}
		return e.logVal(ch, ki, sig.Types[ki], i)
	case "callrecv":
		return I(tf.Select(e.st.get(c, "log:"+e.strArg(n.Args[0])+"#recv", SArr(SInt, SInt)), e.intOf(n.Args[1])))
	case "now":
		return I(e.st.get(c, "$now", SInt))
	case "fresh":
		v := c.term(e.eval(n.Args[0]).V)
		return B(tf.Le(e.old.get(c, "$alloc", SInt), v))
	case "allocated":
		v := c.term(e.eval(n.Args[0]).V)
		return B(tf.And(tf.Lt(tf.Int(0), v), tf.Lt(v, e.st.get(c, "$alloc", SInt))))
	case "unchanged", "unchangedExcept":
		v := e.eval(n.Args[0])
		ex := map[string]bool{}
		for _, a := range n.Args[1:] {
			ex[e.strArg(a)] = true
		}
		pt := deref(v.T)
		l := c.toLoc(v.V, pt)
		var cs []*Term
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if ex[f.Name()] {
				continue
			}
			for _, lf := range leaves(f.Type()) {
				lf.Path = "." + f.Name() + lf.Path
				if lf.Ptr == "cap" {
					continue
				}
				hn := c.heapName(pt, lf)
				a := tf.Select(e.st.get(c, hn, SArr(SInt, lf.S)), l.Ptr)
				b := tf.Select(e.old.get(c, hn, SArr(SInt, lf.S)), l.Ptr)
				cs = append(cs, tf.Eq(a, b))
			}
		}
		return B(tf.And(cs...))
	case "sameList":
		a, b := e.eval(n.Args[0]), e.eval(n.Args[1])
		x, y := a.V.(*Slice), b.V.(*Slice)
		bv := c.boundName("sl", SInt)
		ea := tf.Select(c.content(e.st, x), tf.Add(x.Off, bv))
		eb := tf.Select(c.content(e.st, y), tf.Add(y.Off, bv))
		var q *Term
		el := types.Unalias(a.T).Underlying().(*types.Slice).Elem()
		if isScalarT(el) {
			q = tf.Eq(ea, eb)
		} else {
			q = c.valEqDeep(c.elemVal(nil, el, ea), c.elemVal(nil, el, eb))
		}
		return B(tf.And(tf.Eq(x.Len, y.Len), tf.Forall([]*Term{bv}, tf.Imp(tf.And(tf.Le(tf.Int(0), bv), tf.Lt(bv, x.Len)), q))))
	case "sameVal": // structural equality of two values, slices compared by identity
		a, b := e.eval(n.Args[0]), e.eval(n.Args[1])
		return B(c.valEqDeep(a.V, b.V))
	case "inlist":
		a, s := e.eval(n.Args[0]), e.eval(n.Args[1])
		x := s.V.(*Slice)
		bv := c.boundName("il", SInt)
		el := types.Unalias(s.T).Underlying().(*types.Slice).Elem()
		q := c.valEq(a.V, c.elemVal(nil, el, tf.Select(c.content(e.st, x), tf.Add(x.Off, bv))))
		return B(tf.Exists([]*Term{bv}, tf.And(tf.Le(tf.Int(0), bv), tf.Lt(bv, x.Len), q)))
	case "visited":
		if e.vis == nil {
			panic(unsup("visited() outside a map range"))
		}
		return B(tf.Select(e.vis, c.mapKey(e.eval(n.Args[0]).V)))
	case "ph":
		v, ok := e.ph[e.strArg(n.Args[0])]
		if !ok {
			panic(unsup("placeholder %s", e.strArg(n.Args[0])))
		}
		if e.phCells != nil {
			// value in the state at hand
			id := e.phCells[e.strArg(n.Args[0])]
			cv, ok := e.st.cells[id]
			if !ok || cv == nil {
				panic(unsup("placeholder cell not live"))
			}
			return SVal{cv, v.T}
		}
		return v
	case "locked":
		// state of a mutex field
		v := e.eval(n.Args[0])
		return I(v.V.(*Struct).F[0].(Sc).T)
	case "as": // the value of an interface, known to be of type T
		t := e.typeExpr(n.Args[1])
		if t == nil {
			panic(unsup("type in as()"))
		}
		if b, ok := types.Unalias(t).Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return SVal{Sc{T: tf.Eq(c.term(e.eval(n.Args[0]).V), tf.Int(1))}, t}
		}
		return SVal{Sc{T: c.term(e.eval(n.Args[0]).V)}, t}
	case "dyntype":
		v := c.term(e.eval(n.Args[0]).V)
		return B(tf.App("dyntype."+e.strArg(n.Args[1]), SBool, v))
	case "errfresh": // an error value created during the call (not nil, not a sentinel)
		v := c.term(e.eval(n.Args[0]).V)
		return B(tf.And(tf.Lt(tf.Int(0), v), tf.Lt(v, tf.Int(9000000))))
	case "apply": // pure application of a function value: apply(f, args...)
		f := e.eval(n.Args[0])
		sig := types.Unalias(f.T).Underlying().(*types.Signature)
		var vals []Val
		for _, a := range n.Args[1:] {
			vals = append(vals, e.eval(a).V)
		}
		return SVal{c.applyPure(c.term(f.V), sig, vals), sig.Results().At(0).Type()}
	case "unixOf": // seconds of a time.Time
		v := e.eval(n.Args[0])
		return I(v.V.(*Struct).F[0].(Sc).T)
	case "nsecOf":
		v := e.eval(n.Args[0])
		return I(v.V.(*Struct).F[1].(Sc).T)
	case "trunc":
		return SVal{c.convert(e.st, e.eval(n.Args[0]).V, types.Typ[types.Float64], types.Typ[types.Int64]), types.Typ[types.Int64]}
	case "ptreq":
		return B(tf.Eq(c.term(e.eval(n.Args[0]).V), c.term(e.eval(n.Args[1]).V)))
	}
	// conversion
	if t := e.typeExpr(n.Fun); t != nil && len(n.Args) == 1 {
		v := e.eval(n.Args[0])
		return SVal{c.convert(e.st, v.V, v.T, t), t}
	}
	panic(unsup("unknown contract function %s", exprStr(n.Fun)))
}

func (c *Ctx) valEqDeep(a, b Val) *Term {
	tf := c.tf
	switch x := a.(type) {
	case *Struct:
		y := b.(*Struct)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, c.valEqDeep(x.F[i], y.F[i]))
		}
		return tf.And(cs...)
	case *Slice:
		y := b.(*Slice)
		return tf.And(tf.Eq(x.Base, y.Base), tf.Eq(x.Len, y.Len))
	}
	return c.valEq(a, b)
}

func (e *SpecEnv) logVal(ch string, k int, t types.Type, i *Term) SVal {
	c := e.c
	tf := c.tf
	pre := fmt.Sprintf("log:%s#%d", ch, k)
	if _, ok := types.Unalias(t).Underlying().(*types.Map); ok {
		m := types.Unalias(t).Underlying().(*types.Map)
		d, v, l := c.mapHeaps(e.st, m)
		_, ds := d.S.arrParts()
		_, vs := v.S.arrParts()
		_ = l
		return SVal{&MapSnap{
			Dom: tf.Select(e.st.get(c, pre+"#dom", SArr(SInt, ds)), i),
			Val: tf.Select(e.st.get(c, pre+"#val", SArr(SInt, vs)), i),
			Len: tf.Select(e.st.get(c, pre+"#mlen", SArr(SInt, SInt)), i)}, t}
	}
	v := c.fromLeaves(t, func(l Leaf) *Term {
		return tf.Select(e.st.get(c, pre+l.Path, SArr(SInt, l.S)), i)
	})
	if s, ok := v.(*Slice); ok {
		_, so, _ := c.memName(s.Elem)
		_, as := so.arrParts()
		s.Arr = tf.Select(e.st.get(c, pre+"#arr", SArr(SInt, as)), i)
	}
	return SVal{v, t}
}

// ---------- counting
type SumFn struct {
	id   string
	body *Term // over cv
	kind string
	cv   *Term
	fv   []*Term // other free bound variables of the body
}

func (c *Ctx) countVar() *Term { return c.tf.BoundVar("cnt#", SInt) }

func (e *SpecEnv) countOp(n *ast.CallExpr, kind string) SVal {
	c := e.c
	tf := c.tf
	id := n.Args[0].(*ast.Ident).Name
	lo, hi := e.intOf(n.Args[1]), e.intOf(n.Args[2])
	cv := c.countVar()
	if c.cntDepth > 0 {
		cv = tf.BoundVar(fmt.Sprintf("cnt#%d", c.cntDepth), SInt)
	}
	c.cntDepth++
	bodyV := e.with(id, SVal{Sc{T: cv}, tInt}).eval(n.Args[3])
	body := c.term(bodyV.V)
	c.cntDepth--
	if kind == "count" {
		body = tf.Ite(body, tf.Int(1), tf.Int(0))
	}
	a, b := c.prefix(body, kind, hi, cv), c.prefix(body, kind, lo, cv)
	return SVal{Sc{T: tf.Sub(a, b)}, tInt}
}

// prefix(body, n) = sum of body(i) for 0<=i<n
func (c *Ctx) prefix(body *Term, kind string, n, cv *Term) *Term {
	tf := c.tf
	if n.Op == "int" && n.C <= 0 {
		return tf.Int(0)
	}
	key := fmt.Sprint(body.id)
	f := c.sums[key]
	if f == nil {
		f = &SumFn{id: fmt.Sprintf("%s!%d", kind, len(c.sumOrder)), body: body, kind: kind, cv: cv}
		for b := range body.fb {
			if b != cv {
				f.fv = append(f.fv, b)
			}
		}
		sort.Slice(f.fv, func(i, j int) bool { return f.fv[i].id < f.fv[j].id })
		c.sums[key] = f
		c.sumOrder = append(c.sumOrder, key)
	}
	// other free bound variables of the body become arguments
	return tf.App(f.id, SInt, append([]*Term{n}, f.fv...)...)
}

// sumFacts produces the facts about counting functions relevant to the given assertions (unfolding, bounds,
// extensionality with Skolem witnesses).
func (c *Ctx) sumFacts(as []*Term) []*Term {
	tf := c.tf
	if len(c.sums) == 0 {
		return nil
	}
	byName := map[string]*SumFn{}
	for _, k := range c.sumOrder {
		byName[sanitize(c.sums[k].id)] = c.sums[k]
	}
	type occ struct {
		f *SumFn
		n *Term
		x []*Term // values of f.fv
	}
	var occs []occ
	seen := map[*Term]bool{}
	var out []*Term
	at := func(o occ, i *Term) *Term {
		m := map[*Term]*Term{o.f.cv: i}
		for k, v := range o.f.fv {
			m[v] = o.x[k]
		}
		return tf.Subst(o.f.body, m)
	}
	app := func(o occ, n *Term) *Term {
		if n.Op == "int" && n.C <= 0 {
			return tf.Int(0)
		}
		return tf.App(o.f.id, SInt, append([]*Term{n}, o.x...)...)
	}
	sk := func(p string, o occ) string {
		r := fmt.Sprintf("%s!%s!%d", p, o.f.id, o.n.id)
		for _, x := range o.x {
			r += fmt.Sprintf("!%d", x.id)
		}
		return r
	}
	same := func(a, b occ) bool {
		if a.f != b.f {
			return false
		}
		for k := range a.x {
			if a.x[k] != b.x[k] {
				return false
			}
		}
		return true
	}
	quant := map[*SumFn]bool{}
	scan := func(ts []*Term) {
		for _, a := range ts {
			Walk(a, func(t *Term) {
				if t.Op != "app" || seen[t] {
					return
				}
				f := byName[t.Name]
				if f == nil {
					return
				}
				seen[t] = true
				if t.free && len(f.fv) == 0 && f.kind == "count" {
					if !quant[f] {
						quant[f] = true
						n1, n2 := tf.BoundVar("cm1", SInt), tf.BoundVar("cm2", SInt)
						p1, p2 := tf.App(f.id, SInt, n1), tf.App(f.id, SInt, n2)
						out = append(out, tf.Forall([]*Term{n1, n2}, tf.Imp(tf.And(tf.Le(tf.Int(0), n1), tf.Lt(n1, n2)),
							tf.And(tf.Le(tf.Add(p1, at(occ{f: f}, n1)), p2), tf.Le(tf.Sub(p2, p1), tf.Sub(n2, n1)))), []*Term{p1, p2}))
						out = append(out, tf.Forall([]*Term{n1}, tf.Imp(tf.Le(n1, tf.Int(0)), tf.Eq(p1, tf.Int(0))), []*Term{p1}))
						out = append(out, tf.Forall([]*Term{n1}, tf.Imp(tf.Le(tf.Int(0), n1), tf.And(tf.Le(tf.Int(0), p1), tf.Le(p1, n1))), []*Term{p1}))
					}
				}
				if t.free {
					return
				}
				occs = append(occs, occ{f, t.Args[0], t.Args[1:]})
			})
		}
	}
	scan(as)
	for i := 0; i < len(occs); i++ {
		o, f, n := occs[i], occs[i].f, occs[i].n
		p := app(o, n)
		out = append(out, tf.Imp(tf.Le(n, tf.Int(0)), tf.Eq(p, tf.Int(0))))
		m := tf.AddC(n, -1)
		// unfold one step
		if n.Op != "int" {
			pm := app(o, m)
			u := at(o, m)
			if u.Op != "int" {
				scan([]*Term{u}) // counts nested in the body
			}
			out = append(out, tf.Imp(tf.Lt(tf.Int(0), n), tf.Eq(p, tf.Add(pm, u))))
			if !seen[pm] && pm.Op == "app" && i < 40 {
				seen[pm] = true
			}
			if f.kind == "count" {
				out = append(out, tf.Le(tf.Int(0), pm))
				out = append(out, tf.Imp(tf.Le(tf.Int(0), m), tf.Le(pm, m)))
			}
		} else {
			var ts []*Term
			_ = ts
			sum := tf.Int(0)
			if n.C <= 10 {
				for k := int64(0); k < n.C; k++ {
					sum = tf.Add(sum, at(o, tf.Int(k)))
				}
				out = append(out, tf.Eq(p, sum))
			}
		}
		if f.kind == "count" {
			out = append(out, tf.Le(tf.Int(0), p), tf.Imp(tf.Le(tf.Int(0), n), tf.Le(p, n)))
			// existence
			w := tf.Const(sk("cw", o), SInt)
			out = append(out, tf.Or(tf.Eq(p, tf.Int(0)), tf.And(tf.Le(tf.Int(0), w), tf.Lt(w, n), tf.Eq(at(o, w), tf.Int(1)))))
			// all, or all but one
			wa := tf.Const(sk("cx", o), SInt)
			wb := tf.Const(sk("cy", o), SInt)
			off := func(x *Term) *Term { return tf.And(tf.Le(tf.Int(0), x), tf.Lt(x, n), tf.Eq(at(o, x), tf.Int(0))) }
			if n.Op != "int" {
				out = append(out, tf.Imp(tf.Le(tf.Int(0), n), tf.Or(tf.Eq(p, n), tf.And(off(wa), tf.Or(tf.Eq(p, tf.AddC(n, -1)), tf.And(off(wb), tf.Neq(wa, wb)))))))
			}
			q := tf.BoundVar("cq", SInt)
			out = append(out, tf.Imp(tf.Eq(p, tf.Int(0)), tf.Forall([]*Term{q}, tf.Imp(tf.And(tf.Le(tf.Int(0), q), tf.Lt(q, n)), tf.Eq(at(o, q), tf.Int(0))))))
		}
	}
	// pairwise extensionality / single point difference, monotonicity in the limit
	for i := 0; i < len(occs); i++ {
		for j := i + 1; j < len(occs); j++ {
			a, b := occs[i], occs[j]
			if a.f.kind != b.f.kind {
				continue
			}
			if same(a, b) {
				if a.f.kind == "count" {
					pa, pb := app(a, a.n), app(b, b.n)
					out = append(out, tf.Imp(tf.Le(a.n, b.n), tf.And(tf.Le(pa, pb), tf.Imp(tf.Le(tf.Int(0), a.n), tf.Le(tf.Sub(pb, pa), tf.Sub(b.n, a.n))))))
					out = append(out, tf.Imp(tf.Le(b.n, a.n), tf.And(tf.Le(pb, pa), tf.Imp(tf.Le(tf.Int(0), b.n), tf.Le(tf.Sub(pa, pb), tf.Sub(a.n, b.n))))))
				}
				continue
			}
			// same limit (semantically): compare pointwise
			pa, pb := app(a, a.n), app(b, b.n)
			w := tf.Const(sk("ext", a)+sk("", b), SInt)
			u := tf.Const(sk("exu", a)+sk("", b), SInt)
			in := func(x *Term) *Term { return tf.And(tf.Le(tf.Int(0), x), tf.Lt(x, a.n)) }
			d := tf.Sub(at(a, w), at(b, w))
			eq := tf.Eq(a.n, b.n)
			out = append(out, tf.Imp(eq, tf.Or(tf.Eq(pa, pb), tf.And(in(w), tf.Neq(at(a, w), at(b, w)),
				tf.Or(tf.Eq(tf.Sub(pa, pb), d), tf.And(in(u), tf.Neq(u, w), tf.Neq(at(a, u), at(b, u))))))))
			// pointwise <=
			w2 := tf.Const(sk("exl", a)+sk("", b), SInt)
			out = append(out, tf.Imp(eq, tf.Or(tf.Le(pa, pb), tf.And(in(w2), tf.Lt(at(b, w2), at(a, w2))))))
			w3 := tf.Const(sk("exg", a)+sk("", b), SInt)
			out = append(out, tf.Imp(eq, tf.Or(tf.Le(pb, pa), tf.And(in(w3), tf.Lt(at(a, w3), at(b, w3))))))
			// limits differing by one (appending / removing one element)
			for _, o := range [][2]occ{{a, b}, {b, a}} {
				x, y := o[0], o[1]
				w4 := tf.Const(sk("ex1", x)+sk("", y), SInt)
				px, py := app(x, x.n), app(y, y.n)
				out = append(out, tf.Imp(tf.And(tf.Eq(x.n, tf.AddC(y.n, 1)), tf.Le(tf.Int(0), y.n)), tf.Or(tf.Eq(px, tf.Add(py, at(x, y.n))),
					tf.And(tf.Le(tf.Int(0), w4), tf.Lt(w4, y.n), tf.Neq(at(x, w4), at(y, w4))))))
			}
		}
	}
	return out
}

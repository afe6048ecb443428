package main

// Hash-consed first-order terms with light simplification, printed as SMT-LIB.

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// elemSort returns V of (Array K V)
func (s Sort) arrParts() (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[len("(Array ") : len(str)-1]
	depth := 0
	for i, ch := range body {
		switch ch {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad sort " + str)
}

type Term struct {
	Op    string // const, int, real, true, false, bound, app, lin, *, le0, not, and, or, ite, =, select, store, constarr, forall, exists, r<=, r+, ...
	Name  string
	Args  []*Term
	Coefs []int64 // lin
	C     int64   // lin const / int literal
	Bound []*Term
	Pats  [][]*Term
	S     Sort
	id    int
	free  bool // contains a free bound variable
	fb    map[*Term]bool
	sig   map[string]bool
}

type TF struct {
	tab   map[string]*Term
	n     int
	fresh map[string]int
	memoS map[[2]int]*Term
	UFs   map[string]UF
	T, F  *Term
}
type UF struct {
	Args []Sort
	Ret  Sort
}

func NewTF() *TF {
	f := &TF{tab: map[string]*Term{}, fresh: map[string]int{}, memoS: map[[2]int]*Term{}, UFs: map[string]UF{}}
	f.T = f.mk(&Term{Op: "true", S: SBool})
	f.F = f.mk(&Term{Op: "false", S: SBool})
	return f
}

func (f *TF) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(string(t.S))
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if t.Op == "lin" || t.Op == "int" {
		sb.WriteByte('#')
		for _, c := range t.Coefs {
			sb.WriteString(strconv.FormatInt(c, 10))
			sb.WriteByte(' ')
		}
		sb.WriteString(strconv.FormatInt(t.C, 10))
	}
	for _, b := range t.Bound {
		sb.WriteByte('!')
		sb.WriteString(b.Name)
	}
	for _, p := range t.Pats {
		sb.WriteByte('{')
		for _, q := range p {
			sb.WriteString(strconv.Itoa(q.id))
			sb.WriteByte(' ')
		}
	}
	k := sb.String()
	if o, ok := f.tab[k]; ok {
		return o
	}
	f.n++
	t.id = f.n
	// free bound variables
	if t.Op == "bound" {
		t.fb = map[*Term]bool{t: true}
	} else {
		var fb map[*Term]bool
		for _, a := range t.Args {
			if len(a.fb) > 0 {
				if fb == nil {
					fb = map[*Term]bool{}
				}
				for b := range a.fb {
					fb[b] = true
				}
			}
		}
		for _, b := range t.Bound {
			delete(fb, b)
		}
		t.fb = fb
	}
	t.free = len(t.fb) > 0
	f.tab[k] = t
	return t
}

func (f *TF) Const(name string, s Sort) *Term { return f.mk(&Term{Op: "const", Name: name, S: s}) }
func (f *TF) Fresh(base string, s Sort) *Term {
	base = sanitize(base)
	f.fresh[base]++
	return f.Const(fmt.Sprintf("%s!%d", base, f.fresh[base]), s)
}
func (f *TF) BoundVar(name string, s Sort) *Term {
	return f.mk(&Term{Op: "bound", Name: name + sortTag(s), S: s})
}
func sortTag(s Sort) string {
	switch s {
	case SInt:
		return ""
	case SBool:
		return "b"
	case SReal:
		return "r"
	}
	return "a" + fmt.Sprint(len(s))
}
func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$#!@-", c) {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}
func (f *TF) Int(n int64) *Term { return f.mk(&Term{Op: "int", C: n, S: SInt}) }
func (f *TF) Real(s string) *Term {
	return f.mk(&Term{Op: "real", Name: s, S: SReal})
}
func (f *TF) Bool(b bool) *Term {
	if b {
		return f.T
	}
	return f.F
}
func (f *TF) App(name string, ret Sort, args ...*Term) *Term {
	name = sanitize(name)
	if len(args) == 0 {
		return f.Const(name, ret)
	}
	if _, ok := f.UFs[name]; !ok {
		u := UF{Ret: ret}
		for _, a := range args {
			u.Args = append(u.Args, a.S)
		}
		f.UFs[name] = u
	}
	return f.mk(&Term{Op: "app", Name: name, Args: args, S: ret})
}

// ---- arithmetic
func (f *TF) linOf(t *Term) (map[*Term]int64, int64) {
	m := map[*Term]int64{}
	switch t.Op {
	case "int":
		return m, t.C
	case "lin":
		for i, a := range t.Args {
			m[a] = t.Coefs[i]
		}
		return m, t.C
	}
	m[t] = 1
	return m, 0
}
func (f *TF) mkLin(m map[*Term]int64, c int64) *Term {
	var as []*Term
	for t, k := range m {
		if k != 0 {
			as = append(as, t)
		}
	}
	if len(as) == 0 {
		return f.Int(c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && m[as[0]] == 1 && c == 0 {
		return as[0]
	}
	var cs []int64
	for _, a := range as {
		cs = append(cs, m[a])
	}
	return f.mk(&Term{Op: "lin", Args: as, Coefs: cs, C: c, S: SInt})
}
func (f *TF) Lin(ka int64, a *Term, kb int64, b *Term, c int64) *Term {
	m, c1 := f.linOf(a)
	r := map[*Term]int64{}
	for t, k := range m {
		r[t] += ka * k
	}
	tot := ka*c1 + c
	if b != nil {
		m2, c2 := f.linOf(b)
		for t, k := range m2 {
			r[t] += kb * k
		}
		tot += kb * c2
	}
	return f.mkLin(r, tot)
}
func (f *TF) Add(a, b *Term) *Term {
	if a.S == SReal || b.S == SReal {
		return f.mk(&Term{Op: "r+", Args: []*Term{a, b}, S: SReal})
	}
	return f.Lin(1, a, 1, b, 0)
}
func (f *TF) AddC(a *Term, c int64) *Term { return f.Lin(1, a, 0, nil, c) }
func (f *TF) Sub(a, b *Term) *Term {
	if a.S == SReal || b.S == SReal {
		return f.mk(&Term{Op: "r-", Args: []*Term{a, b}, S: SReal})
	}
	return f.Lin(1, a, -1, b, 0)
}
func (f *TF) Mul(a, b *Term) *Term {
	if a.S == SReal || b.S == SReal {
		return f.mk(&Term{Op: "r*", Args: []*Term{a, b}, S: SReal})
	}
	if a.Op == "int" {
		return f.Lin(a.C, b, 0, nil, 0)
	}
	if b.Op == "int" {
		return f.Lin(b.C, a, 0, nil, 0)
	}
	// factor out common scalar of a lin with no const and one arg
	if a.Op == "lin" && len(a.Args) == 1 && a.C == 0 {
		return f.Lin(a.Coefs[0], f.Mul(a.Args[0], b), 0, nil, 0)
	}
	if b.Op == "lin" && len(b.Args) == 1 && b.C == 0 {
		return f.Lin(b.Coefs[0], f.Mul(a, b.Args[0]), 0, nil, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return f.mk(&Term{Op: "*", Args: []*Term{a, b}, S: SInt})
}
func (f *TF) DivC(a *Term, d int64) *Term { // floor division by positive const
	m, c := f.linOf(a)
	ok := c%d == 0
	for _, k := range m {
		if k%d != 0 {
			ok = false
		}
	}
	if ok {
		r := map[*Term]int64{}
		for t, k := range m {
			r[t] = k / d
		}
		return f.mkLin(r, c/d)
	}
	if a.Op == "int" {
		q := a.C / d
		if a.C%d < 0 {
			q--
		}
		return f.Int(q)
	}
	return f.mk(&Term{Op: "div", Args: []*Term{a, f.Int(d)}, S: SInt})
}

func (f *TF) le0(d *Term) *Term { // d <= 0
	if d.Op == "int" {
		return f.Bool(d.C <= 0)
	}
	if d.Op == "lin" {
		// normalise by gcd
		g := int64(0)
		for _, k := range d.Coefs {
			g = gcd(g, abs(k))
		}
		if g > 1 {
			m := map[*Term]int64{}
			for i, a := range d.Args {
				m[a] = d.Coefs[i] / g
			}
			// sum*g + c <= 0  <=> sum <= floor(-c/g)
			q := -d.C / g
			if (-d.C)%g < 0 {
				q--
			}
			d = f.mkLin(m, -q)
		}
	}
	return f.mk(&Term{Op: "le0", Args: []*Term{d}, S: SBool})
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func (f *TF) Le(a, b *Term) *Term {
	if a.S == SReal || b.S == SReal {
		return f.mk(&Term{Op: "r<=", Args: []*Term{a, b}, S: SBool})
	}
	return f.le0(f.Sub(a, b))
}
func (f *TF) Lt(a, b *Term) *Term {
	if a.S == SReal || b.S == SReal {
		return f.mk(&Term{Op: "r<", Args: []*Term{a, b}, S: SBool})
	}
	return f.le0(f.Lin(1, a, -1, b, 1))
}
func (f *TF) Ge(a, b *Term) *Term { return f.Le(b, a) }
func (f *TF) Gt(a, b *Term) *Term { return f.Lt(b, a) }

// ---- boolean
func (f *TF) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return f.F
	case "false":
		return f.T
	case "not":
		return a.Args[0]
	case "le0":
		return f.le0(f.Lin(-1, a.Args[0], 0, nil, 1))
	}
	return f.mk(&Term{Op: "not", Args: []*Term{a}, S: SBool})
}
func (f *TF) And(as ...*Term) *Term { return f.nary("and", as) }
func (f *TF) Or(as ...*Term) *Term  { return f.nary("or", as) }
func (f *TF) nary(op string, as []*Term) *Term {
	unit, zero := f.T, f.F
	if op == "or" {
		unit, zero = f.F, f.T
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[f.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	// absorption: and(x, or(x,y)) = and(x);  and(x, or(not x, y)) = and(x,y) (one pass)
	dual := "or"
	if op == "or" {
		dual = "and"
	}
	changed := false
	for i, t := range out {
		if t.Op == dual {
			var keep []*Term
			absorbed := false
			ch := false
			for _, x := range t.Args {
				if seen[x] && x != t {
					absorbed = true
					break
				}
				if seen[f.Not(x)] {
					ch = true
					continue
				}
				keep = append(keep, x)
			}
			if absorbed {
				out[i] = unit
				changed = true
			} else if ch {
				out[i] = f.nary(dual, keep)
				changed = true
			}
		}
	}
	if changed {
		return f.nary(op, out)
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return f.mk(&Term{Op: op, Args: out, S: SBool})
}
func (f *TF) Imp(a, b *Term) *Term { return f.Or(f.Not(a), b) }
func (f *TF) Iff(a, b *Term) *Term { return f.Eq(a, b) }
func (f *TF) Ite(c, a, b *Term) *Term {
	if c == f.T {
		return a
	}
	if c == f.F {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == "not" {
		return f.Ite(c.Args[0], b, a)
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.S, b.S, a, b))
	}
	if a.S == SBool {
		if a == f.T {
			return f.Or(c, b)
		}
		if a == f.F {
			return f.And(f.Not(c), b)
		}
		if b == f.T {
			return f.Or(f.Not(c), a)
		}
		if b == f.F {
			return f.And(c, a)
		}
	}
	// ite(c, ite(c,x,y), z)
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return f.mk(&Term{Op: "ite", Args: []*Term{c, a, b}, S: a.S})
}
func (f *TF) Eq(a, b *Term) *Term {
	if a == b {
		return f.T
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.S, b.S, a, b))
	}
	if a.S == SBool {
		if a == f.T {
			return b
		}
		if b == f.T {
			return a
		}
		if a == f.F {
			return f.Not(b)
		}
		if b == f.F {
			return f.Not(a)
		}
		if a == f.Not(b) {
			return f.F
		}
	}
	if a.S == SInt {
		d := f.Sub(a, b)
		if d.Op == "int" {
			return f.Bool(d.C == 0)
		}
		if a.Op == "int" {
			a, b = b, a
		}
		if b.Op == "int" && a.Op == "ite" {
			x, y := f.Eq(a.Args[1], b), f.Eq(a.Args[2], b)
			if isLit(x) || isLit(y) {
				return f.Ite(a.Args[0], x, y)
			}
		}
	}
	if a.Op == "ite" && (a.Args[1] == b || a.Args[2] == b) {
		// eq(ite(c,b,y),b) = c or y=b
		return f.Ite(a.Args[0], f.Eq(a.Args[1], b), f.Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (b.Args[1] == a || b.Args[2] == a) {
		return f.Ite(b.Args[0], f.Eq(b.Args[1], a), f.Eq(b.Args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return f.mk(&Term{Op: "=", Args: []*Term{a, b}, S: SBool})
}
func (f *TF) Neq(a, b *Term) *Term { return f.Not(f.Eq(a, b)) }
func isLit(t *Term) bool {
	return t.Op == "true" || t.Op == "false" || t.Op == "int" || t.Op == "real"
}

// ---- arrays
func (f *TF) Select(a, i *Term) *Term {
	_, v := a.S.arrParts()
	switch a.Op {
	case "store":
		if a.Args[1] == i {
			return a.Args[2]
		}
		e := f.Eq(a.Args[1], i)
		if e == f.F {
			return f.Select(a.Args[0], i)
		}
	case "constarr":
		return a.Args[0]
	case "ite":
		k := [2]int{a.id, i.id}
		if m, ok := f.memoS[k]; ok {
			return m
		}
		r := f.Ite(a.Args[0], f.Select(a.Args[1], i), f.Select(a.Args[2], i))
		f.memoS[k] = r
		return r
	}
	return f.mk(&Term{Op: "select", Args: []*Term{a, i}, S: v})
}
func (f *TF) Store(a, i, v *Term) *Term {
	_, vs := a.S.arrParts()
	if vs != v.S {
		panic(fmt.Sprintf("store sorts %s <- %s (%s)", a.S, v.S, v))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return f.mk(&Term{Op: "store", Args: []*Term{a, i, v}, S: a.S})
}
func (f *TF) ConstArr(s Sort, v *Term) *Term {
	return f.mk(&Term{Op: "constarr", Args: []*Term{v}, S: s})
}

// ---- quantifiers
func (f *TF) Forall(vs []*Term, body *Term, pats ...[]*Term) *Term {
	return f.quant("forall", vs, body, pats)
}
func (f *TF) Exists(vs []*Term, body *Term) *Term { return f.quant("exists", vs, body, nil) }
func (f *TF) quant(op string, vs []*Term, body *Term, pats [][]*Term) *Term {
	var used []*Term
	for _, v := range vs {
		if body.fb[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	if len(pats) == 0 {
		for _, v := range used {
			if k, ok := f.indexShift(body, v); ok {
				return f.quant(op, used, Subst1(f, body, v, f.AddC(v, -k)), nil)
			}
		}
	}
	if op == "forall" && body.Op == "and" && len(pats) == 0 {
		var cs []*Term
		for _, a := range body.Args {
			cs = append(cs, f.quant(op, vs, a, nil))
		}
		return f.And(cs...)
	}
	if len(pats) == 0 && (op == "forall" && body.Op == "or" || op == "exists" && body.Op == "and") {
		// merge a directly nested quantifier of the same kind
		n, at := 0, -1
		for i, a := range body.Args {
			if a.Op == op {
				n++
				at = i
			}
		}
		if n == 1 {
			in := body.Args[at]
			as := append([]*Term{}, body.Args[:at]...)
			as = append(as, body.Args[at+1:]...)
			as = append(as, in.Args[0])
			var nb *Term
			if op == "forall" {
				nb = f.Or(as...)
			} else {
				nb = f.And(as...)
			}
			clash := false
			for _, b := range in.Bound {
				for _, u := range used {
					if b == u {
						clash = true
					}
				}
			}
			if !clash {
				return f.quant(op, append(append([]*Term{}, used...), in.Bound...), nb, nil)
			}
		}
		if op == "forall" {
			// distribute over one conjunction
			n, at = 0, -1
			for i, a := range body.Args {
				if a.Op == "and" {
					n++
					at = i
				}
			}
			if n == 1 && len(body.Args[at].Args) <= 12 {
				rest := append([]*Term{}, body.Args[:at]...)
				rest = append(rest, body.Args[at+1:]...)
				var cs []*Term
				for _, x := range body.Args[at].Args {
					cs = append(cs, f.quant(op, used, f.Or(append(append([]*Term{}, rest...), x)...), nil))
				}
				return f.And(cs...)
			}
		}
	}
	var ps [][]*Term
	for _, p0 := range pats {
		for _, p := range patAlts(f, p0) {
			ok := true
			cov := map[*Term]bool{}
			for _, t := range p {
				if !patOK(t) {
					ok = false
				}
				for b := range t.fb {
					cov[b] = true
				}
			}
			for _, v := range used {
				if !cov[v] {
					ok = false
				}
			}
			if ok {
				ps = append(ps, p)
			}
		}
	}
	if len(ps) == 0 {
		ps = autoPats(used, body)
	}
	return f.mk(&Term{Op: op, Args: []*Term{body}, Bound: used, Pats: ps, S: SBool})
}

// Subst replaces terms (capture is the caller's business).
func (f *TF) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			switch t.Op {
			case "lin":
				r = f.Int(t.C)
				for i, a := range as {
					r = f.Lin(1, r, t.Coefs[i], a, 0)
				}
			default:
				r = f.rebuild(t, as, rec)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
func (f *TF) rebuild(t *Term, as []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "le0":
		return f.le0(as[0])
	case "not":
		return f.Not(as[0])
	case "and":
		return f.And(as...)
	case "or":
		return f.Or(as...)
	case "ite":
		return f.Ite(as[0], as[1], as[2])
	case "=":
		return f.Eq(as[0], as[1])
	case "select":
		return f.Select(as[0], as[1])
	case "store":
		return f.Store(as[0], as[1], as[2])
	case "*":
		return f.Mul(as[0], as[1])
	case "div":
		return f.DivC(as[0], as[1].C)
	case "forall", "exists":
		var ps [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			ps = append(ps, q)
		}
		return f.quant(t.Op, t.Bound, as[0], ps)
	}
	n := &Term{Op: t.Op, Name: t.Name, Args: as, C: t.C, Coefs: t.Coefs, S: t.S}
	return f.mk(n)
}

// Walk visits every distinct subterm once.
func Walk(t *Term, fn func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		for _, p := range t.Pats {
			for _, q := range p {
				rec(q)
			}
		}
		fn(t)
	}
	rec(t)
}

func (t *Term) String() string {
	var sb strings.Builder
	p := &printer{names: map[*Term]string{}, max: 400}
	p.print(&sb, t)
	return sb.String()
}

// ---- printing
type printer struct {
	names map[*Term]string
	max   int
}

func sym(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$') {
			return "|" + s + "|"
		}
	}
	return s
}
func intStr(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %s)", strings.TrimPrefix(strconv.FormatInt(n, 10), "-"))
	}
	return strconv.FormatInt(n, 10)
}
func (p *printer) print(sb *strings.Builder, t *Term) {
	if n, ok := p.names[t]; ok {
		sb.WriteString(n)
		return
	}
	if p.max > 0 && sb.Len() > p.max {
		sb.WriteString("...")
		return
	}
	p.printDef(sb, t)
}
func (p *printer) printDef(sb *strings.Builder, t *Term) {
	list := func(op string) {
		sb.WriteString("(" + op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			p.print(sb, a)
		}
		sb.WriteByte(')')
	}
	switch t.Op {
	case "true", "false":
		sb.WriteString(t.Op)
	case "const", "bound":
		sb.WriteString(sym(t.Name))
	case "int":
		sb.WriteString(intStr(t.C))
	case "real":
		sb.WriteString(t.Name)
	case "app":
		list(sym(t.Name))
	case "lin":
		sb.WriteString("(+")
		n := 0
		for i, a := range t.Args {
			sb.WriteByte(' ')
			if t.Coefs[i] == 1 {
				p.print(sb, a)
			} else {
				sb.WriteString("(* " + intStr(t.Coefs[i]) + " ")
				p.print(sb, a)
				sb.WriteByte(')')
			}
			n++
		}
		if t.C != 0 || n == 1 {
			sb.WriteString(" " + intStr(t.C))
		}
		sb.WriteByte(')')
	case "le0":
		d := t.Args[0]
		// split positive and negative parts
		var l, r []string
		add := func(k int64, s string) {
			if k > 0 {
				if k != 1 {
					s = "(* " + intStr(k) + " " + s + ")"
				}
				l = append(l, s)
			} else {
				if k != -1 {
					s = "(* " + intStr(-k) + " " + s + ")"
				}
				r = append(r, s)
			}
		}
		one := func(a *Term) string {
			var b strings.Builder
			q := p
			q.print(&b, a)
			return b.String()
		}
		if d.Op == "lin" {
			for i, a := range d.Args {
				add(d.Coefs[i], one(a))
			}
			if d.C > 0 {
				l = append(l, intStr(d.C))
			} else if d.C < 0 {
				r = append(r, intStr(-d.C))
			}
		} else {
			add(1, one(d))
		}
		j := func(x []string) string {
			switch len(x) {
			case 0:
				return "0"
			case 1:
				return x[0]
			}
			return "(+ " + strings.Join(x, " ") + ")"
		}
		sb.WriteString("(<= " + j(l) + " " + j(r) + ")")
	case "r<=":
		list("<=")
	case "r<":
		list("<")
	case "r+":
		list("+")
	case "r-":
		list("-")
	case "r*":
		list("*")
	case "r/":
		list("/")
	case "constarr":
		sb.WriteString("((as const " + string(t.S) + ") ")
		p.print(sb, t.Args[0])
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, b := range t.Bound {
			sb.WriteString("(" + sym(b.Name) + " " + string(b.S) + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		p.print(sb, t.Args[0])
		if len(t.Pats) > 0 {
			for _, pt := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, q := range pt {
					if i > 0 {
						sb.WriteByte(' ')
					}
					p.print(sb, q)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteByte(')')
	default:
		list(t.Op)
	}
}

var markGround = os.Getenv("GOVC_NOMARK") == ""

// SMT builds a script asserting all given formulas.
func (f *TF) Script(asserts []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	consts := map[*Term]bool{}
	ufs := map[string]bool{}
	cnt := map[*Term]int{}
	var order []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		cnt[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		for _, p := range t.Pats {
			for _, q := range p {
				rec(q)
			}
		}
		if t.Op == "const" {
			consts[t] = true
		}
		if t.Op == "app" {
			ufs[t.Name] = true
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		rec(a)
	}
	var cs []*Term
	for c := range consts {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Name < cs[j].Name })
	for _, c := range cs {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", sym(c.Name), c.S)
	}
	var us []string
	for u := range ufs {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		d := f.UFs[u]
		var as []string
		for _, a := range d.Args {
			as = append(as, string(a))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", sym(u), strings.Join(as, " "), d.Ret)
	}
	p := &printer{names: map[*Term]string{}}
	for _, t := range order {
		if cnt[t] > 1 && len(t.Args) > 0 && !t.free {
			var b strings.Builder
			p.printDef(&b, t)
			n := fmt.Sprintf("t%d!", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.S, b.String())
			p.names[t] = n
		}
	}
	for _, a := range asserts {
		var b strings.Builder
		p.print(&b, a)
		fmt.Fprintf(&sb, "(assert %s)\n", b.String())
	}
	// closed array terms inside quantifiers become visible to the array theory
	if markGround {
		sorts := map[Sort]string{}
		inq := map[*Term]bool{}
		var under func(t *Term)
		under = func(t *Term) {
			if inq[t] {
				return
			}
			inq[t] = true
			if !t.free {
				if strings.HasPrefix(string(t.S), "(Array") && t.Op != "const" {
					m, ok := sorts[t.S]
					if !ok {
						m = fmt.Sprintf("mark!%d", len(sorts))
						sorts[t.S] = m
						fmt.Fprintf(&sb, ";@mark (declare-fun %s (%s) Bool)\n", m, t.S)
					}
					var b strings.Builder
					p.print(&b, t)
					fmt.Fprintf(&sb, ";@mark (assert (%s %s))\n", m, b.String())
				}
				return
			}
			for _, a := range t.Args {
				under(a)
			}
		}
		for _, t := range order {
			if t.Op == "forall" || t.Op == "exists" {
				under(t.Args[0])
			}
		}
	}
	sb.WriteString("(check-sat)\n(get-info :reason-unknown)\n")
	return sb.String()
}

// patOK: may t be (part of) a trigger.
func patOK(t *Term) bool {
	switch t.Op {
	case "const", "bound", "int":
		return true
	case "app", "select":
		for _, a := range t.Args {
			if !patOK(a) {
				return false
			}
		}
		return true
	case "store", "lin", "constarr", "ite":
		return !t.free
	}
	return false
}

// patAlts resolves conditionals in array position into one trigger per branch.
func patAlts(f *TF, p []*Term) [][]*Term {
	if len(p) != 1 {
		return [][]*Term{p}
	}
	t := p[0]
	if t.Op == "select" && t.Args[0].Op == "ite" && len(t.Args[0].fb) == 0 {
		a := t.Args[0]
		l := patAlts(f, []*Term{f.mk(&Term{Op: "select", Args: []*Term{a.Args[1], t.Args[1]}, S: t.S})})
		r := patAlts(f, []*Term{f.mk(&Term{Op: "select", Args: []*Term{a.Args[2], t.Args[1]}, S: t.S})})
		return append(l, r...)
	}
	return [][]*Term{p}
}

// autoPats picks triggers: the smallest applications that hold a bound variable as a direct argument.
func autoPats(vs []*Term, body *Term) [][]*Term {
	bv := map[*Term]bool{}
	for _, v := range vs {
		bv[v] = true
	}
	var found []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.free {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		if (t.Op == "select" || t.Op == "app") && patOK(t) {
			for b := range t.fb {
				if !bv[b] {
					return
				}
			}
			for _, a := range t.Args {
				if a.Op == "bound" {
					found = append(found, t)
					return
				}
			}
		}
	}
	rec(body)
	cover := func(ts ...*Term) bool {
		for _, v := range vs {
			ok := false
			for _, t := range ts {
				if t.fb[v] {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	var out [][]*Term
	for _, t := range found {
		if cover(t) && len(out) < 4 {
			out = append(out, []*Term{t})
		}
	}
	if len(out) > 0 || len(vs) == 1 {
		return out
	}
	if len(vs) == 2 {
		for _, a := range found {
			for _, b := range found {
				if a.fb[vs[0]] && !a.fb[vs[1]] && b.fb[vs[1]] && !b.fb[vs[0]] && a.Op == b.Op && (a.Op == "app" && a.Name == b.Name || a.Op == "select" && a.Args[0] == b.Args[0]) && len(out) < 3 {
					out = append(out, []*Term{a, b})
				}
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	// one term per variable
	var pt []*Term
	for _, v := range vs {
		if cover(pt...) {
			break
		}
		for _, t := range found {
			if t.fb[v] {
				pt = append(pt, t)
				break
			}
		}
	}
	if len(pt) > 0 && cover(pt...) {
		return [][]*Term{pt}
	}
	return nil
}

func Subst1(f *TF, t, v, r *Term) *Term { return f.Subst(t, map[*Term]*Term{v: r}) }

// indexShift finds k != 0 when v is only ever used as an index in the form v+k.
func (f *TF) indexShift(body, v *Term) (int64, bool) {
	var k int64
	found, bad := false, false
	seen := map[*Term]bool{}
	var rec func(t *Term)
	idx := func(a *Term) {
		if !a.fb[v] {
			return
		}
		if a == v {
			bad = true
			return
		}
		if a.Op == "lin" && len(a.Args) == 1 && a.Args[0] == v && a.Coefs[0] == 1 {
			if found && k != a.C {
				bad = true
			}
			found, k = true, a.C
		}
	}
	rec = func(t *Term) {
		if bad || seen[t] || !t.fb[v] {
			return
		}
		seen[t] = true
		if t.Op == "select" && len(t.Args) == 2 {
			idx(t.Args[1])
		}
		if t.Op == "app" {
			for _, a := range t.Args {
				idx(a)
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	return k, found && !bad && k != 0
}

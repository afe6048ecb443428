package main

// Generates the in-package test files (used through go test -overlay) with which contracts are
// evaluated against the running code: a registry of the package's names, one recording stand-in per
// interface, and the run-time interpreter copied under the package's own name.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func (v *Verifier) genHarness(dir, rt string) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	repl := map[string]string{}
	exp := filepath.Join(dir, "contracts.json")
	if err := v.export(exp); err != nil {
		return err
	}
	type pkgInfo struct {
		Name string `json:"name"`
		Path string `json:"path"`
		Dir  string `json:"dir"`
	}
	var infos []pkgInfo
	for _, p := range v.initial {
		if len(p.GoFiles) == 0 {
			continue
		}
		tp := p.Types
		src := filepath.Dir(p.GoFiles[0])
		name := tp.Name()
		out := filepath.Join(dir, name+"_registry_test.go")
		if err := os.WriteFile(out, []byte(v.registry(tp)), 0o644); err != nil {
			return err
		}
		repl[filepath.Join(src, "zz_govc_registry_test.go")] = out
		for _, f := range []string{"rt.go.txt", "gen_" + name + ".go.txt"} {
			b, err := os.ReadFile(filepath.Join(rt, f))
			if err != nil {
				if f == "rt.go.txt" {
					return err
				}
				b = []byte("package PKG\n\nfunc hPrepare(c *hCase) {}\n\nfunc hPerturb(c *hCase) {}\n")
			}
			t := strings.Replace(string(b), "package PKG", "package "+name, 1)
			o := filepath.Join(dir, name+"_"+strings.TrimSuffix(strings.Replace(f, ".go.txt", "", 1), ".txt")+"_test.go")
			if err := os.WriteFile(o, []byte(t), 0o644); err != nil {
				return err
			}
			repl[filepath.Join(src, "zz_govc_"+strings.Replace(f, ".go.txt", "", 1)+"_test.go")] = o
		}
		// the repository's own tests are not part of the harness binary
		ms, _ := filepath.Glob(filepath.Join(src, "*_test.go"))
		for _, m := range ms {
			repl[m] = ""
		}
		infos = append(infos, pkgInfo{name, tp.Path(), src})
	}
	// timers: recorded, run only when the code under test waits for them
	mod, err := os.ReadFile(filepath.Join(v.repo, "go.mod"))
	if err != nil {
		return err
	}
	sum, _ := os.ReadFile(filepath.Join(v.repo, "go.sum"))
	os.WriteFile(filepath.Join(dir, "go.mod"), append(mod, []byte("\nreplace github.com/weedbox/timebank => "+filepath.Join(rt, "timebank")+"\n")...), 0o644)
	os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644); err != nil {
		return err
	}
	b, _ = json.MarshalIndent(infos, "", " ")
	return os.WriteFile(filepath.Join(dir, "packages.json"), b, 0o644)
}

func (v *Verifier) registry(tp *types.Package) string {
	imports := map[string]string{}
	qual := func(p *types.Package) string {
		if p == tp {
			return ""
		}
		n := p.Name()
		for k, path := range imports {
			if k == n && path != p.Path() {
				n += "2"
			}
		}
		imports[n] = p.Path()
		return n
	}
	ts := func(t types.Type) string { return types.TypeString(t, qual) }
	var consts, tys, fns, mocks strings.Builder
	scopeOf := func(p *types.Package, prefix string) {
		for _, n := range p.Scope().Names() {
			o := p.Scope().Lookup(n)
			if p != tp && !o.Exported() {
				continue
			}
			if n == "_" || strings.HasPrefix(n, "h") && len(n) > 1 && n[1] >= 'A' && n[1] <= 'Z' && p == tp {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				q := n
				if p != tp {
					q = qual(p) + "." + n
				}
				fmt.Fprintf(&consts, "\thReg.names[%q] = reflect.ValueOf(%s)\n", prefix+n, q)
				if nt, ok := types.Unalias(o.Type()).(*types.Named); ok && nt.Obj().Pkg() == p {
					fmt.Fprintf(&consts, "\thReg.enum(reflect.ValueOf(%s))\n", q)
				}
			case *types.Var:
				if p == tp {
					fmt.Fprintf(&consts, "\thReg.names[%q] = reflect.ValueOf(&%s).Elem()\n", prefix+n, n)
				} else {
					fmt.Fprintf(&consts, "\thReg.names[%q] = reflect.ValueOf(&%s).Elem()\n", prefix+n, qual(p)+"."+n)
				}
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				q := n
				if p != tp {
					q = qual(p) + "." + n
				}
				fmt.Fprintf(&tys, "\thReg.types[%q] = reflect.TypeOf((*%s)(nil)).Elem()\n", prefix+n, q)
				it, ok := o.Type().Underlying().(*types.Interface)
				if !ok || it.NumMethods() == 0 {
					continue
				}
				usable := true
				for i := 0; i < it.NumMethods(); i++ {
					if !it.Method(i).Exported() && it.Method(i).Pkg() != tp {
						usable = false
					}
				}
				if !usable {
					continue
				}
				mn := "hMock_" + prefix + n
				mn = strings.ReplaceAll(mn, ".", "_")
				fmt.Fprintf(&mocks, "type %s struct{ id int }\n", mn)
				fmt.Fprintf(&tys, "\thReg.mocks[reflect.TypeOf((*%s)(nil)).Elem()] = func() reflect.Value { return reflect.ValueOf(&%s{}) }\n", q, mn)
				for i := 0; i < it.NumMethods(); i++ {
					m := it.Method(i)
					sig := m.Type().(*types.Signature)
					var ps, as, rs, cs []string
					for j := 0; j < sig.Params().Len(); j++ {
						pt := sig.Params().At(j).Type()
						s := ts(pt)
						if sig.Variadic() && j == sig.Params().Len()-1 {
							s = "..." + ts(pt.(*types.Slice).Elem())
						}
						ps = append(ps, fmt.Sprintf("a%d %s", j, s))
						as = append(as, fmt.Sprintf("reflect.ValueOf(&a%d).Elem()", j))
					}
					for j := 0; j < sig.Results().Len(); j++ {
						rs = append(rs, fmt.Sprintf("r%d %s", j, ts(sig.Results().At(j).Type())))
						cs = append(cs, fmt.Sprintf("reflect.ValueOf(&r%d).Elem()", j))
					}
					fmt.Fprintf(&mocks, "func (hm *%s) %s(%s) (%s) {\n\thOpaqueR(hm, %q, []reflect.Value{%s}, []reflect.Value{%s})\n\treturn\n}\n",
						mn, m.Name(), strings.Join(ps, ", "), strings.Join(rs, ", "), n+"."+m.Name(), strings.Join(as, ", "), strings.Join(cs, ", "))
				}
			}
		}
	}
	scopeOf(tp, "")
	var imps []*types.Package
	imps = append(imps, tp.Imports()...)
	sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
	for _, p := range imps {
		if strings.Contains(p.Path(), "/internal/") || !strings.Contains(p.Path(), "weedbox") {
			continue
		}
		scopeOf(p, p.Name()+".")
	}
	seen := map[string]bool{}
	addFn := func(key string) {
		if seen[key] || !strings.HasPrefix(key, tp.Name()+".") {
			return
		}
		seen[key] = true
		f := v.byKey[key]
		if f == nil || f.Pkg == nil || f.Pkg.Pkg != tp || f.Name() == "init" {
			return
		}
		fmt.Fprintf(&fns, "\thReg.funcs[%q] = reflect.ValueOf(%s)\n", key, strings.TrimPrefix(key, tp.Name()+"."))
	}
	for _, s := range v.specList {
		addFn(s.Key)
		if s.Closure != nil {
			addFn(s.Closure.Parent)
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"reflect\"\n", tp.Name())
	var ks []string
	for k := range imports {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "\t%s %q\n", k, imports[k])
	}
	fmt.Fprintf(&sb, ")\n\nfunc init() {\n\thReg.pkg = %q\n%s%s%s}\n\n%s", tp.Name(), consts.String(), tys.String(), fns.String(), mocks.String())
	return sb.String()
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loaded struct {
	Dir   string
	Mod   string
	Pkgs  []*packages.Package
	SSA   []*ssa.Package
	Prog  *ssa.Program
	Fset  *token.FileSet
	Sizes types.Sizes
	Fns   []*ssa.Function // all functions with bodies declared in the repository
	byPkg map[string]*ssa.Package
}

// repoPrefix is the module path of the repository.
var repoPrefix = "?"

func setEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		switch strings.SplitN(kv, "=", 2)[0] {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOPATH", "GOMODCACHE", "GOOS", "GOARCH", "HOME":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "HOME=/root", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOSUMDB=off")
	return env
}

func load(dir string) (*Loaded, error) {
	os.Setenv("PATH", "/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: setEnv(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type check: %v", p.PkgPath, p.Errors[0])
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{Dir: dir, Pkgs: pkgs, SSA: sp, Prog: prog, Fset: pkgs[0].Fset, Sizes: pkgs[0].TypesSizes, byPkg: map[string]*ssa.Package{}}
	if pkgs[0].Module != nil {
		repoPrefix = pkgs[0].Module.Path
		l.Mod = pkgs[0].Module.Path
	}
	for _, p := range sp {
		if p != nil {
			l.byPkg[p.Pkg.Path()] = p
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && fn.Pkg != nil && l.isRepo(fn.Pkg.Pkg) && fn.Synthetic == "" {
			l.Fns = append(l.Fns, fn)
		}
	}
	sort.Slice(l.Fns, func(i, j int) bool { return l.Fns[i].Pos() < l.Fns[j].Pos() })
	return l, nil
}

func (l *Loaded) isRepo(p *types.Package) bool {
	return p != nil && (p.Path() == l.Mod || strings.HasPrefix(p.Path(), l.Mod+"/"))
}

// pkg finds a package of the repository by its path below the module root.
func (l *Loaded) pkg(rel string) *ssa.Package {
	p := l.Mod
	if rel != "" {
		p += "/" + rel
	}
	return l.byPkg[p]
}

// fn finds a package level function or a method "T.m".
func (l *Loaded) fn(rel, name string) *ssa.Function {
	p := l.pkg(rel)
	if p == nil {
		return nil
	}
	if i := strings.Index(name, "."); i > 0 {
		t := p.Type(name[:i])
		if t == nil {
			return nil
		}
		for _, typ := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
			if sel := l.Prog.MethodSets.MethodSet(typ).Lookup(p.Pkg, name[i+1:]); sel != nil {
				if f, ok := sel.Obj().(*types.Func); ok {
					if d := l.Prog.FuncValue(f); d != nil {
						return d
					}
				}
			}
		}
		return nil
	}
	return p.Func(name)
}

func (l *Loaded) typ(rel, name string) types.Type {
	p := l.pkg(rel)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (l *Loaded) lookupMethod(dyn types.Type, m *types.Func) *ssa.Function {
	sel := l.Prog.MethodSets.MethodSet(dyn).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := l.Prog.MethodValue(sel)
	if f == nil || f.Blocks == nil {
		return f
	}
	return f
}

func (l *Loaded) fieldOffset(t types.Type, name string) (int64, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return 0, false
	}
	var fs []*types.Var
	idx := -1
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, st.Field(i))
		if st.Field(i).Name() == name {
			idx = i
		}
	}
	if idx < 0 {
		return 0, false
	}
	return l.Sizes.Offsetsof(fs)[idx], true
}

// fieldAt is the name of the field at the given offset.
func (l *Loaded) fieldAt(t types.Type, off int64) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	var fs []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, st.Field(i))
	}
	for i, o := range l.Sizes.Offsetsof(fs) {
		if o == off && (l.Sizes.Sizeof(fs[i].Type()) > 0) {
			return fs[i].Name()
		}
	}
	return ""
}

func (l *Loaded) pos(ins ssa.Instruction) string {
	if ins == nil {
		return "?"
	}
	p := ins.Pos()
	if !p.IsValid() {
		if v, ok := ins.(ssa.Value); ok && v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() && ins.Parent() != nil {
		p = ins.Parent().Pos()
	}
	return l.posOf(p)
}

func (l *Loaded) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := l.Fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(l.Dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (l *Loaded) fnPos(f *ssa.Function) string {
	return fmt.Sprintf("%s (%s)", f.RelString(nil), l.posOf(f.Pos()))
}

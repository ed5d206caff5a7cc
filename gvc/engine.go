package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	repo        string
	prog        *ssa.Program
	pkgs        []*ssa.Package
	spec        *Spec
	fns         map[string]*ssa.Function
	allFns      []*ssa.Function
	pkgByName   map[string]*types.Package
	transparent map[string]bool
	constRefs   map[string]bool
	sol         *Solver
	effCache    map[*ssa.Function]map[string]bool
	verbose     bool
	closures    map[*ssa.Function]string
	dumpCand    string
}

var patterns = []string{"./desc", "./cran", "./pacman", "./gpsr", "./rcmd/...", "./configlib", "./internal/archive", "./rollback", "./cmd", "./logger"}

func loadEngine(repo string, sp *Spec, pats []string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedExportFile, Dir: repo}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{repo: repo, prog: prog, spec: sp, fns: map[string]*ssa.Function{}, pkgByName: map[string]*types.Package{}, transparent: map[string]bool{}, constRefs: map[string]bool{}, effCache: map[*ssa.Function]map[string]bool{}}
	for _, p := range pkgs {
		if p != nil {
			e.pkgs = append(e.pkgs, p)
		}
	}
	for t := range sp.Transp {
		e.transparent[t] = true
	}
	var visit func(p *types.Package)
	seen := map[*types.Package]bool{}
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		if _, ok := e.pkgByName[p.Name()]; !ok || e.inModule(p) {
			e.pkgByName[p.Name()] = p
		}
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for _, p := range e.pkgs {
		visit(p.Pkg)
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil && f.Origin() == nil && f.Parent() == nil {
			// wrappers
		}
		n := e.canonFn(f)
		if f.Blocks != nil {
			if _, dup := e.fns[n]; !dup {
				e.fns[n] = f
			}
			e.allFns = append(e.allFns, f)
		}
	}
	sort.Slice(e.allFns, func(i, j int) bool { return e.canonFn(e.allFns[i]) < e.canonFn(e.allFns[j]) })
	return e, nil
}

const modPath = "github.com/metrumresearchgroup/pkgr"

func (e *Engine) inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

var dirRe = regexp.MustCompile(`[A-Za-z0-9_.\-]+/`)

func (e *Engine) canonFn(f *ssa.Function) string {
	if f == nil {
		return "<lemma>"
	}
	if f.Parent() != nil {
		return e.closureName(f)
	}
	return dirRe.ReplaceAllString(f.String(), "")
}

// closureName names a function literal by the declared function around it and its signature (and, if several have
// the same one, their order), so that the name does not depend on other literals.
func (e *Engine) closureName(f *ssa.Function) string {
	if n, ok := e.closures[f]; ok {
		return n
	}
	if e.closures == nil {
		e.closures = map[*ssa.Function]string{}
	}
	top := f
	for top.Parent() != nil {
		top = top.Parent()
	}
	all := map[string][]*ssa.Function{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		for _, a := range g.AnonFuncs {
			k := sigName(a.Signature)
			all[k] = append(all[k], a)
			walk(a)
		}
	}
	walk(top)
	base := e.canonFn(top) + "$"
	for k, fs := range all {
		for i, g := range fs {
			e.closures[g] = base + k
			if len(fs) > 1 {
				e.closures[g] += fmt.Sprintf("#%d", i+1)
			}
		}
	}
	if _, ok := e.closures[f]; !ok {
		e.closures[f] = dirRe.ReplaceAllString(f.String(), "")
	}
	return e.closures[f]
}

func sigName(s *types.Signature) string {
	var l []string
	for i := 0; i < s.Params().Len(); i++ {
		l = append(l, canonType(s.Params().At(i).Type()))
	}
	r := "func(" + strings.Join(l, ", ") + ")"
	l = nil
	for i := 0; i < s.Results().Len(); i++ {
		l = append(l, canonType(s.Results().At(i).Type()))
	}
	switch len(l) {
	case 0:
		return r
	case 1:
		return r + " " + l[0]
	}
	return r + " (" + strings.Join(l, ", ") + ")"
}

func (e *Engine) canonStr(s string) string { return dirRe.ReplaceAllString(s, "") }

func (e *Engine) fnInModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return e.inModule(f.Pkg.Pkg)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return e.inModule(o.Pkg())
	}
	return f.Blocks != nil
}

// localType finds a type declared inside a function.
func localType(s *types.Scope, n string) types.Object {
	for i := 0; i < s.NumChildren(); i++ {
		k := s.Child(i)
		if o, ok := k.Lookup(n).(*types.TypeName); ok {
			return o
		}
		if o := localType(k, n); o != nil {
			return o
		}
	}
	return nil
}

func (e *Engine) resolveType(t TExpr) types.Type {
	switch t.K {
	case "ptr":
		return types.NewPointer(e.resolveType(*t.A))
	case "slice":
		return types.NewSlice(e.resolveType(*t.A))
	case "map":
		return types.NewMap(e.resolveType(*t.A), e.resolveType(*t.B))
	case "set":
		return &SetType{e.resolveType(*t.A)}
	case "chan":
		return types.NewChan(types.SendRecv, e.resolveType(*t.A))
	case "rchan":
		return types.NewChan(types.RecvOnly, e.resolveType(*t.A))
	case "schan":
		return types.NewChan(types.SendOnly, e.resolveType(*t.A))
	case "fmap":
		return &FMapType{e.resolveType(*t.A), e.resolveType(*t.B)}
	}
	switch t.Name {
	case "int":
		return tInt
	case "bool":
		return tBool
	case "string":
		return tString
	case "error":
		return tError
	case "any":
		return tIface
	case "ref":
		return tRef
	case "byte":
		return types.Universe.Lookup("byte").Type()
	case "float":
		return types.Typ[types.Float64]
	case "emptystruct":
		return types.NewStruct(nil, nil)
	}
	if e.spec.Sorts[t.Name] {
		return &GSort{t.Name}
	}
	if i := strings.LastIndex(t.Name, "."); i > 0 {
		p := e.pkgByName[t.Name[:i]]
		if p == nil {
			unsupported("unknown package in type %s", t.Name)
		}
		o := p.Scope().Lookup(t.Name[i+1:])
		if o == nil {
			o = localType(p.Scope(), t.Name[i+1:])
		}
		if o == nil {
			unsupported("unknown type %s", t.Name)
		}
		return o.Type()
	}
	for n, b := range map[string]types.BasicKind{"int64": types.Int64, "uint64": types.Uint64, "uint": types.Uint, "int32": types.Int32, "rune": types.Rune, "float64": types.Float64, "uint32": types.Uint32} {
		if t.Name == n {
			return types.Typ[b]
		}
	}
	unsupported("unknown type %s", t.Name)
	return nil
}

// evalConstMap evaluates a package-level map variable from its initialiser
// and checks that nothing else in the module writes to it.
func (e *Engine) evalConstMap(name string) (ents [][2]constant.Value, mt *types.Map, ok bool) {
	var g *ssa.Global
	for _, p := range e.pkgs {
		for _, m := range p.Members {
			if gg, is := m.(*ssa.Global); is && p.Pkg.Name()+"."+gg.Name() == name {
				g = gg
			}
		}
	}
	if g == nil {
		return nil, nil, false
	}
	m, is := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
	if !is {
		return nil, nil, false
	}
	seen := map[string]bool{}
	var mm ssa.Value
	ok = true
	for _, f := range e.allFns {
		isInit := f.Name() == "init" && f.Pkg == g.Pkg && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(g) {
						if !isInit || mm != nil {
							return nil, nil, false
						}
						mm = x.Val
					}
				}
				if !isInit {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(g) {
							u, isU := in.(*ssa.UnOp)
							if !isU {
								return nil, nil, false
							}
							for _, r := range *u.Referrers() {
								switch r := r.(type) {
								case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
								case *ssa.Call:
									if b, isB := r.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" {
										return nil, nil, false
									}
								default:
									return nil, nil, false
								}
							}
						}
					}
				}
			}
		}
	}
	mk, is := mm.(*ssa.MakeMap)
	if !is {
		return nil, nil, false
	}
	for _, r := range *mk.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			k, ok1 := x.Key.(*ssa.Const)
			v, ok2 := x.Value.(*ssa.Const)
			if !ok1 {
				return nil, nil, false
			}
			if seen[k.Value.ExactString()] {
				return nil, nil, false
			}
			seen[k.Value.ExactString()] = true
			if ok2 {
				ents = append(ents, [2]constant.Value{k.Value, v.Value})
			} else {
				ents = append(ents, [2]constant.Value{k.Value, nil})
			}
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, nil, false
		}
	}
	return ents, m, true
}

func (ex *Exec) constTerm(v constant.Value, t types.Type) string {
	return ex.constVal(v, t)
}

func (ex *Exec) constVal(v constant.Value, t types.Type) string {
	if v == nil {
		return ex.c.zero(t)
	}
	switch v.Kind() {
	case constant.String:
		return ex.c.strLit(constant.StringVal(v))
	case constant.Bool:
		if constant.BoolVal(v) {
			return "true"
		}
		return "false"
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			n := "fl_" + sanitize(v.ExactString())
			ex.c.decl("(declare-const " + n + " Float)")
			return n
		}
		s := v.ExactString()
		if strings.HasPrefix(s, "-") {
			return "(- " + s[1:] + ")"
		}
		return s
	case constant.Float:
		n := "fl_" + sanitize(v.ExactString())
		ex.c.decl("(declare-const " + n + " Float)")
		return n
	}
	unsupported("constant %v", v)
	return ""
}

var _ = token.NoPos

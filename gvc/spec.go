package main

import (
	"regexp"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SEnv is the environment of a contract expression.
type SEnv struct {
	vars map[string]Val
	st   *State // current state
	old  *State // function entry
	pre  *State // loop entry
	preV map[string]Val
	up   *SEnv
	macro int
}

func (e *SEnv) lookup(n string) (Val, bool) {
	for x := e; x != nil; x = x.up {
		if v, ok := x.vars[n]; ok {
			return v, true
		}
	}
	return Val{}, false
}

func (e *SEnv) bind(n string, v Val) *SEnv {
	return &SEnv{vars: map[string]Val{n: v}, st: e.st, old: e.old, pre: e.pre, preV: e.preV, up: e, macro: e.macro}
}

func (ex *Exec) rootEnv(st *State) *SEnv {
	env := &SEnv{vars: map[string]Val{}, st: st, old: ex.entry}
	if ex.con != nil {
		for i, p := range ex.params {
			if i < len(ex.con.Params) {
				env.vars[ex.con.Params[i]] = p
			}
		}
	}
	for n, v := range ex.capVals {
		env.vars[n] = v
	}
	return env
}

func (ex *Exec) boolTerm(e Expr, env *SEnv) string {
	v := ex.tr(e, env)
	if ex.c.sort(v.Typ) != "Bool" {
		unsupported("specification expression is not boolean: %v", e)
	}
	return ex.term(env.st, v)
}

func (ex *Exec) val2(e Expr, env *SEnv) (string, types.Type) {
	v := ex.tr(e, env)
	return ex.term(env.st, v), v.Typ
}

type nilT struct{}

func isNilE(e Expr) bool {
	i, ok := e.(EId)
	return ok && i.N == "nil"
}

func (ex *Exec) tr(e Expr, env *SEnv) Val {
	c := ex.c
	switch x := e.(type) {
	case EInt:
		return Val{T: x.V, Typ: tInt}
	case EStr:
		return Val{T: c.strLit(x.V), Typ: tString}
	case EId:
		switch x.N {
		case "true", "false":
			return Val{T: x.N, Typ: tBool}
		case "nil":
			return Val{T: "0", Typ: tRef}
		}
		if v, ok := env.lookup(x.N); ok {
			return v
		}
		if comp, t := ex.ghostComp(x.N); comp != "" {
			return Val{T: ex.get(env.st, comp), Typ: t}
		}
		if f := ex.eng.spec.Funcs[x.N]; f != nil && len(f.Vars) == 0 {
			return ex.specCall(f, nil, env)
		}
		unsupported("unknown name %s in specification", x.N)
	case EUn:
		switch x.Op {
		case "!":
			return Val{T: not(ex.boolTerm(x.X, env)), Typ: tBool}
		case "-":
			t, _ := ex.val2(x.X, env)
			return Val{T: "(- " + t + ")", Typ: tInt}
		case "*":
			p := ex.tr(x.X, env)
			return ex.readQ(env.st, ex.addr(env.st, p))
		}
	case EBin:
		return ex.trBin(x, env)
	case EIf:
		a, b := ex.tr(x.A, env), ex.tr(x.B, env)
		return Val{T: "(ite " + ex.boolTerm(x.C, env) + " " + ex.term(env.st, a) + " " + ex.term(env.st, b) + ")", Typ: a.Typ}
	case ELet:
		return ex.tr(x.B, env.bind(x.N, ex.tr(x.V, env)))
	case EQuant:
		ne := &SEnv{vars: map[string]Val{}, st: env.st, old: env.old, pre: env.pre, preV: env.preV, up: env, macro: env.macro}
		var bs []string
		for _, v := range x.Vars {
			t := ex.eng.resolveType(v.T)
			n := sanitize(v.N) + "?" + fmt.Sprint(ex.qn())
			bs = append(bs, "("+n+" "+c.sort(t)+")")
			ne.vars[v.N] = Val{T: n, Typ: t}
		}
		body := ex.boolTerm(x.Body, ne)
		var pats string
		for _, tr := range x.Trigs {
			var ts []string
			for _, t := range tr {
				tt, _ := ex.val2(t, ne)
				if strings.HasPrefix(tt, "(not ") {
					tt = tt[5 : len(tt)-1]
				}
				ts = append(ts, tt)
			}
			if t := strings.Join(ts, " "); !badPat.MatchString(t) {
				pats += " :pattern (" + t + ")"
			}
		}
		q := "exists"
		if x.Forall {
			q = "forall"
		}
		if pats != "" {
			body = "(! " + body + pats + ")"
		}
		return Val{T: "(" + q + " (" + strings.Join(bs, " ") + ") " + body + ")", Typ: tBool}
	case ESel:
		// package-level variable or constant?
		if id, ok := x.X.(EId); ok {
			if _, bound := env.lookup(id.N); !bound {
				if g, _ := ex.ghostComp(id.N); g == "" {
					return ex.pkgMember(id.N, x.F, env)
				}
			}
		}
		v := ex.tr(x.X, env)
		return ex.selField(v, x.F, env)
	case EIdx:
		return ex.trIdx(x, env)
	case ECall:
		return ex.trCall(x, env)
	case EType:
		unsupported("type used as a value")
	}
	unsupported("specification expression %T", e)
	return Val{}
}

// logical connectives and quantifiers cannot occur in a pattern (an expanded hidden function may bring them there)
var badPat = regexp.MustCompile(`\((exists \(|forall \(|and |or |not |=> |= |< |<= )`)

func (ex *Exec) qn() int { ex.quantN++; return ex.quantN }

func (ex *Exec) pkgMember(pkg, name string, env *SEnv) Val {
	for _, p := range ex.eng.pkgs {
		if p.Pkg.Name() != pkg {
			continue
		}
		switch m := p.Members[name].(type) {
		case *ssa.Global:
			t := m.Type().(*types.Pointer).Elem()
			n := "G:" + pkg + "." + name
			ex.regComp(n, ex.c.sort(t), t)
			return Val{T: ex.get(env.st, n), Typ: t}
		case *ssa.NamedConst:
			return Val{T: ex.constVal(m.Value.Value, m.Value.Type()), Typ: m.Value.Type()}
		}
	}
	if tp := ex.eng.pkgByName[pkg]; tp != nil {
		if o, ok := tp.Scope().Lookup(name).(*types.Var); ok {
			n := "G:" + pkg + "." + name
			ex.regComp(n, ex.c.sort(o.Type()), o.Type())
			return Val{T: ex.get(env.st, n), Typ: o.Type()}
		}
		if o, ok := tp.Scope().Lookup(name).(*types.Const); ok {
			return Val{T: ex.constVal(o.Val(), o.Type()), Typ: o.Type()}
		}
	}
	unsupported("unknown name %s.%s in specification", pkg, name)
	return Val{}
}

// readQ reads an lvalue without adding facts (usable under quantifiers).
func (ex *Exec) readQ(st *State, lv *LV) Val {
	if lv.Sl != nil {
		n := ex.c.sort(lv.Sl.Typ)
		return Val{T: ex.pathRead("(select (arr_"+n+" "+ex.sliceNow(st, *lv.Sl)+") "+lv.Idx+")", lv.Path), Typ: lv.Typ}
	}
	if lv.MapT != nil {
		_, mv := ex.mapComps(lv.MapT)
		return Val{T: "(select (select " + ex.get(st, mv) + " " + lv.MapRef + ") " + lv.MapKey + ")", Typ: lv.Typ}
	}
	b := ex.get(st, lv.Comp)
	if lv.Ref != "" {
		b = "(select " + b + " " + lv.Ref + ")"
	}
	return Val{T: ex.pathRead(b, lv.Path), Typ: lv.Typ}
}

func (ex *Exec) selField(v Val, f string, env *SEnv) Val {
	t := v.Typ
	if t == nil {
		unsupported("field %s of untyped value", f)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		stt := p.Elem()
		obj, path, _ := types.LookupFieldOrMethod(stt, true, pkgOf(stt), f)
		if obj == nil {
			unsupported("no field %s in %s", f, stt)
		}
		if ex.c.structOf(stt) == nil {
			i := path[0]
			ft := stt.Underlying().(*types.Struct).Field(i).Type()
			comp := ex.xfieldComp(stt, i)
			return Val{T: "(select " + ex.get(env.st, comp) + " " + ex.term(env.st, v) + ")", Typ: ft}
		}
		v = ex.readQ(env.st, ex.addr(env.st, v))
		return ex.selField(v, f, env)
	}
	stt, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsupported("field %s of %s", f, t)
	}
	_ = stt
	obj, path, _ := types.LookupFieldOrMethod(t, true, pkgOf(t), f)
	if obj == nil {
		unsupported("no field %s in %s", f, t)
	}
	cur := ex.term(env.st, v)
	for k, i := range path {
		s := t.Underlying().(*types.Struct)
		cur = ex.c.getField(t, cur, i)
		t = s.Field(i).Type()
		if k+1 < len(path) {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				r := ex.readQ(env.st, ex.addr(env.st, Val{T: cur, Typ: t}))
				cur, t = r.T, p.Elem()
			}
		}
	}
	return Val{T: cur, Typ: t}
}

func pkgOf(t types.Type) *types.Package {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (ex *Exec) trIdx(x EIdx, env *SEnv) Val {
	v := ex.tr(x.X, env)
	i, it := ex.val2(x.I, env)
	switch u := v.Typ.(type) {
	case *SetType:
		return Val{T: "(select " + ex.term(env.st, v) + " " + ex.coerce(i, it, u.Elem) + ")", Typ: tBool}
	case *FMapType:
		return Val{T: "(select " + ex.term(env.st, v) + " " + ex.coerce(i, it, u.Key) + ")", Typ: u.Val}
	}
	switch u := v.Typ.Underlying().(type) {
	case *types.Slice:
		n := ex.c.sort(v.Typ)
		return Val{T: "(select (arr_" + n + " " + ex.term(env.st, v) + ") " + i + ")", Typ: u.Elem()}
	case *types.Map:
		_, mv := ex.mapComps(u)
		return Val{T: "(select (select " + ex.get(env.st, mv) + " " + ex.term(env.st, v) + ") " + i + ")", Typ: u.Elem()}
	case *types.Array:
		return Val{T: "(select " + ex.term(env.st, v) + " " + i + ")", Typ: u.Elem()}
	case *types.Basic:
		return Val{T: ex.strAt(ex.term(env.st, v), i), Typ: types.Typ[types.Byte]}
	}
	unsupported("index of %s in specification", v.Typ)
	return Val{}
}

func (ex *Exec) coerce(t string, from, to types.Type) string {
	_, fi := from.Underlying().(*types.Interface)
	_, ti := to.Underlying().(*types.Interface)
	if ti && !fi {
		return ex.c.box(from, t)
	}
	return t
}

func (ex *Exec) trBin(x EBin, env *SEnv) Val {
	c := ex.c
	switch x.Op {
	case "&&":
		return Val{T: and(ex.boolTerm(x.L, env), ex.boolTerm(x.R, env)), Typ: tBool}
	case "||":
		return Val{T: "(or " + ex.boolTerm(x.L, env) + " " + ex.boolTerm(x.R, env) + ")", Typ: tBool}
	case "==>":
		return Val{T: "(=> " + ex.boolTerm(x.L, env) + " " + ex.boolTerm(x.R, env) + ")", Typ: tBool}
	case "<==>":
		return Val{T: "(= " + ex.boolTerm(x.L, env) + " " + ex.boolTerm(x.R, env) + ")", Typ: tBool}
	case "==", "!=":
		var r string
		if isNilE(x.R) || isNilE(x.L) {
			o := x.L
			if isNilE(x.L) {
				o = x.R
			}
			v := ex.tr(o, env)
			if v.LV != nil && v.T == "" {
				r = "false"
				if v.LV.Ref != "" && len(v.LV.Path) == 0 {
					r = "(= " + v.LV.Ref + " 0)"
				}
			} else if isSlice(v.Typ) {
				r = "(isnil_" + c.sort(v.Typ) + " " + ex.term(env.st, v) + ")"
			} else if _, ok := v.Typ.Underlying().(*types.Interface); ok {
				r = "(= " + v.T + " inil)"
			} else {
				r = "(= " + ex.term(env.st, v) + " 0)"
			}
		} else {
			a, at := ex.val2(x.L, env)
			b, bt := ex.val2(x.R, env)
			a2 := ex.coerce(a, at, bt)
			b2 := ex.coerce(b, bt, at)
			if c.sort(at) != c.sort(bt) && a2 == a && b2 == b {
				unsupported("comparison of %s and %s in specification", at, bt)
			}
			r = "(= " + a2 + " " + b2 + ")"
		}
		if x.Op == "!=" {
			r = not(r)
		}
		return Val{T: r, Typ: tBool}
	case "in":
		v := ex.tr(x.R, env)
		i, it := ex.val2(x.L, env)
		switch u := v.Typ.(type) {
		case *SetType:
			return Val{T: "(select " + ex.term(env.st, v) + " " + ex.coerce(i, it, u.Elem) + ")", Typ: tBool}
		}
		switch u := v.Typ.Underlying().(type) {
		case *types.Map:
			md, _ := ex.mapComps(u)
			return Val{T: "(select (select " + ex.get(env.st, md) + " " + ex.term(env.st, v) + ") " + i + ")", Typ: tBool}
		case *types.Slice:
			return Val{T: "(memb_" + c.sort(v.Typ) + " " + ex.term(env.st, v) + " " + i + ")", Typ: tBool}
		}
		unsupported("'in' on %s", v.Typ)
	}
	a, at := ex.val2(x.L, env)
	b, _ := ex.val2(x.R, env)
	s := c.sort(at)
	switch x.Op {
	case "<", "<=", ">", ">=":
		if s == c.strSort() {
			switch x.Op {
			case "<":
				return Val{T: c.strlt(a, b), Typ: tBool}
			case ">":
				return Val{T: c.strlt(b, a), Typ: tBool}
			case "<=":
				return Val{T: not(c.strlt(b, a)), Typ: tBool}
			default:
				return Val{T: not(c.strlt(a, b)), Typ: tBool}
			}
		}
		return Val{T: "(" + x.Op + " " + a + " " + b + ")", Typ: tBool}
	case "+", "-", "*":
		if s == c.strSort() {
			return Val{T: c.strcat(a, b), Typ: tString}
		}
		return Val{T: "(" + x.Op + " " + a + " " + b + ")", Typ: tInt}
	case "++":
		return Val{T: c.strcat(a, b), Typ: tString}
	case "/":
		return Val{T: "(div " + a + " " + b + ")", Typ: tInt}
	case "%":
		return Val{T: "(mod " + a + " " + b + ")", Typ: tInt}
	}
	unsupported("operator %s", x.Op)
	return Val{}
}

type goalT struct {
	e     Expr
	env   *SEnv
	hyp   []string
	skol  map[string]Val
}

// goals splits a clause into its top-level conjuncts, through specification functions with a body; with
// skolem set, leading universal quantifiers become fresh constants and premises become hypotheses.
func (ex *Exec) goals(e Expr, env *SEnv, skolem bool, hyp []string, skol map[string]Val) []goalT {
	switch x := e.(type) {
	case EBin:
		if x.Op == "&&" {
			return append(ex.goals(x.L, env, skolem, hyp, skol), ex.goals(x.R, env, skolem, hyp, skol)...)
		}
		if x.Op == "==>" && skolem && skol != nil {
			h := append(append([]string{}, hyp...), ex.boolTerm(x.L, env))
			return ex.goals(x.R, env, skolem, h, skol)
		}
	case EQuant:
		if x.Forall && skolem {
			ne := &SEnv{vars: map[string]Val{}, st: env.st, old: env.old, pre: env.pre, preV: env.preV, up: env, macro: env.macro}
			sk := map[string]Val{}
			for k, v := range skol {
				sk[k] = v
			}
			for _, v := range x.Vars {
				t := ex.eng.resolveType(v.T)
				ne.vars[v.N] = Val{T: ex.c.freshConst("sk_"+v.N, ex.c.sort(t)), Typ: t}
				sk[v.N] = ne.vars[v.N]
			}
			return ex.goals(x.Body, ne, skolem, hyp, sk)
		}
	case ECall:
		f := ex.eng.spec.Funcs[x.F]
		if f != nil && f.Body != nil && len(f.Vars) == len(x.Args) && !(f.Opaque && !ex.c.theoryStr) && !(f.Hidden && !ex.con.Reveal[f.Name]) {
			b, isBin := f.Body.(EBin)
			q, isQ := f.Body.(EQuant)
			if isBin && b.Op == "&&" && !(skolem && skol != nil) || skolem && isQ && q.Forall {
				ne := &SEnv{vars: map[string]Val{}, st: env.st, old: env.old, pre: env.pre, preV: env.preV, macro: env.macro + 1}
				for i, v := range f.Vars {
					a := ex.tr(x.Args[i], env)
					want := ex.eng.resolveType(v.T)
					if a.LV == nil {
						a.T = ex.coerce(ex.term(env.st, a), a.Typ, want)
						a.Reg = nil
					}
					a.Typ = want
					ne.vars[v.N] = a
				}
				return ex.goals(f.Body, ne, skolem, hyp, skol)
			}
		}
	}
	return []goalT{{e, env, hyp, skol}}
}

func (ex *Exec) specCall(f *SpecFunc, args []Val, env *SEnv) Val {
	c := ex.c
	rt := ex.eng.resolveType(f.Ret)
	if f.Hidden && !(f.Body != nil && ex.con.Reveal[f.Name]) {
		return ex.hiddenCall(f, args, env)
	}
	if f.Body != nil && !(f.Opaque && !c.theoryStr) {
		if env.macro > 30 {
			unsupported("recursive specification function %s", f.Name)
		}
		ne := &SEnv{vars: map[string]Val{}, st: env.st, old: env.old, pre: env.pre, preV: env.preV, macro: env.macro + 1}
		for i, v := range f.Vars {
			a := args[i]
			want := ex.eng.resolveType(v.T)
			if a.LV == nil {
				a.T = ex.coerce(ex.term(env.st, a), a.Typ, want)
				a.Reg = nil
			}
			a.Typ = want
			ne.vars[v.N] = a
		}
		r := ex.tr(f.Body, ne)
		r.Typ = rt
		return r
	}
	var ss, as []string
	for i, v := range f.Vars {
		t := ex.eng.resolveType(v.T)
		ss = append(ss, c.sort(t))
		as = append(as, ex.coerce(ex.term(env.st, args[i]), args[i].Typ, t))
	}
	n := "sp_" + f.Name
	c.decl("(declare-fun " + n + " (" + strings.Join(ss, " ") + ") " + c.sort(rt) + ")")
	if len(as) == 0 {
		return Val{T: n, Typ: rt}
	}
	return Val{T: "(" + n + " " + strings.Join(as, " ") + ")", Typ: rt}
}

// hiddenCall applies a hidden specification function: an uninterpreted function of its arguments and of the
// components of memory its definition reads. A "where" characterisation is asserted if the contract reveals it.
func (ex *Exec) hiddenCall(f *SpecFunc, args []Val, env *SEnv) Val {
	c := ex.c
	rt := ex.eng.resolveType(f.Ret)
	n := "hs_" + f.Name
	comps, ok := ex.hiddenFn[f.Name]
	var ss, as []string
	for _, v := range f.Vars {
		ss = append(ss, c.sort(ex.eng.resolveType(v.T)))
	}
	if !ok {
		def := f.Body
		if def == nil {
			def = f.Where
		}
		if ex.hiddenFn == nil {
			ex.hiddenFn = map[string][]string{}
		}
		if def != nil {
			ex.hiddenFn[f.Name] = nil // breaks the cycle through "result"
			st := &State{guard: "true", comps: map[string]string{}, track: &[]string{}}
			ne := &SEnv{vars: map[string]Val{}, st: st, macro: env.macro + 1}
			var bs, ps []string
			for i, v := range f.Vars {
				b := fmt.Sprintf("hv%d_%s", i, v.N)
				ne.vars[v.N] = Val{T: b, Typ: ex.eng.resolveType(v.T)}
				bs = append(bs, "("+b+" "+ss[i]+")")
				ps = append(ps, b)
			}
			ne.vars["result"] = Val{T: "hv_result", Typ: rt}
			nb := len(c.body)
			body := ex.tr(def, ne).T
			if len(c.body) != nb {
				unsupported("definition of %s needs auxiliary terms", f.Name)
			}
			comps = *st.track
			var cs []string
			for _, cn := range comps {
				cs = append(cs, ex.compSort[cn])
				bs = append(bs, "("+st.comps[cn]+" "+ex.compSort[cn]+")")
				ps = append(ps, st.comps[cn])
			}
			c.decl("(declare-fun " + n + " (" + strings.Join(append(append([]string{}, ss...), cs...), " ") + ") " + c.sort(rt) + ")")
			if f.Where != nil && ex.con.Reveal[f.Name] {
				app := "(" + n + " " + strings.Join(ps, " ") + ")"
				c.decls = append(c.decls, "(assert (forall ("+strings.Join(bs, " ")+") (! (let ((hv_result "+app+")) "+body+") :pattern ("+app+"))))")
			}
		} else {
			c.decl("(declare-fun " + n + " (" + strings.Join(ss, " ") + ") " + c.sort(rt) + ")")
		}
		ex.hiddenFn[f.Name] = comps
	}
	for i, v := range f.Vars {
		as = append(as, ex.coerce(ex.term(env.st, args[i]), args[i].Typ, ex.eng.resolveType(v.T)))
	}
	for _, cn := range comps {
		as = append(as, ex.get(env.st, cn))
	}
	if len(as) == 0 {
		return Val{T: n, Typ: rt}
	}
	return Val{T: "(" + n + " " + strings.Join(as, " ") + ")", Typ: rt}
}

// settled fixes a slice value to its content in st.
func (ex *Exec) settled(st *State, v Val) Val {
	if v.Reg != nil {
		return Val{T: ex.sliceNow(st, v), Typ: v.Typ}
	}
	return v
}

func (ex *Exec) trCall(x ECall, env *SEnv) Val {
	c := ex.c
	arg := func(i int) Val { return ex.tr(x.Args[i], env) }
	switch x.F {
	case "old":
		if env.old == nil {
			unsupported("old() without an entry state")
		}
		ne := *env
		ne.st = env.old
		ne.up = env
		ne.vars = map[string]Val{}
		return ex.settled(ne.st, ex.tr(x.Args[0], &ne))
	case "pre":
		if env.pre == nil {
			unsupported("pre() outside a loop invariant")
		}
		ne := *env
		ne.st = env.pre
		ne.up = env
		ne.vars = env.preV
		return ex.settled(ne.st, ex.tr(x.Args[0], &ne))
	case "len":
		v := arg(0)
		switch u := v.Typ.Underlying().(type) {
		case *types.Slice:
			return Val{T: "(len_" + c.sort(v.Typ) + " " + ex.term(env.st, v) + ")", Typ: tInt}
		case *types.Map:
			md, _ := ex.mapComps(u)
			return Val{T: c.card(u.Key(), "(select "+ex.get(env.st, md)+" "+ex.term(env.st, v)+")"), Typ: tInt}
		case *types.Basic:
			return Val{T: c.strlen(ex.term(env.st, v)), Typ: tInt}
		}
	case "finite":
		v := arg(0)
		return Val{T: c.fin(v.Typ.(*SetType).Elem, ex.term(env.st, v)), Typ: tBool}
	case "card":
		v := arg(0)
		return Val{T: c.card(v.Typ.(*SetType).Elem, ex.term(env.st, v)), Typ: tInt}
	case "dom":
		v := arg(0)
		mt := v.Typ.Underlying().(*types.Map)
		md, _ := ex.mapComps(mt)
		return Val{T: "(select " + ex.get(env.st, md) + " " + ex.term(env.st, v) + ")", Typ: &SetType{mt.Key()}}
	case "vals":
		v := arg(0)
		mt := v.Typ.Underlying().(*types.Map)
		_, mv := ex.mapComps(mt)
		return Val{T: "(select " + ex.get(env.st, mv) + " " + ex.term(env.st, v) + ")", Typ: &FMapType{mt.Key(), mt.Elem()}}
	case "at": // Go map lookup
		v := arg(0)
		mt := v.Typ.Underlying().(*types.Map)
		k, _ := ex.val2(x.Args[1], env)
		md, mv := ex.mapComps(mt)
		m := ex.term(env.st, v)
		return Val{T: "(ite (select (select " + ex.get(env.st, md) + " " + m + ") " + k + ") (select (select " + ex.get(env.st, mv) + " " + m + ") " + k + ") " + c.zero(mt.Elem()) + ")", Typ: mt.Elem()}
	case "upd":
		s := arg(0)
		k, kt := ex.val2(x.Args[1], env)
		v, vt := ex.val2(x.Args[2], env)
		switch u := s.Typ.(type) {
		case *SetType:
			k = ex.coerce(k, kt, u.Elem)
		case *FMapType:
			k = ex.coerce(k, kt, u.Key)
			v = ex.coerce(v, vt, u.Val)
		}
		return Val{T: "(store " + ex.term(env.st, s) + " " + k + " " + v + ")", Typ: s.Typ}
	case "emptyset":
		t := ex.eng.resolveType(x.Args[0].(EType).T)
		return Val{T: c.zero(&SetType{t}), Typ: &SetType{t}}
	case "zero":
		t := ex.eng.resolveType(x.Args[0].(EType).T)
		return Val{T: c.zero(t), Typ: t}
	case "box":
		v := arg(0)
		return Val{T: c.box(v.Typ, ex.term(env.st, v)), Typ: tIface}
	case "unbox":
		t := ex.eng.resolveType(x.Args[0].(EType).T)
		v := arg(1)
		return Val{T: c.unbox(t, ex.term(env.st, v)), Typ: t}
	case "is":
		t := ex.eng.resolveType(x.Args[0].(EType).T)
		v := arg(1)
		return Val{T: fmt.Sprintf("(= (itag %s) %d)", ex.term(env.st, v), c.tagOf(t)), Typ: tBool}
	case "fresh": // allocated during this call
		v := arg(0)
		o := env.old
		return Val{T: "(and (>= " + ex.term(env.st, v) + " " + ex.get(o, ex.next()) + ") (< " + ex.term(env.st, v) + " " + ex.get(env.st, "next") + "))", Typ: tBool}
	case "allocated":
		v := arg(0)
		t := ex.term(env.st, v)
		return Val{T: "(and (< 0 " + t + ") (< " + t + " " + ex.get(env.st, ex.next()) + "))", Typ: tBool}
	case "itoa":
		t, _ := ex.val2(x.Args[0], env)
		return Val{T: c.itoa(t), Typ: tString}
	case "ref":
		return Val{T: ex.term(env.st, arg(0)), Typ: tRef}
	case "fmt":
		// fmt("%v", e): the text produced by that verb for a non-basic value
		v := arg(1)
		n := "fmt_" + sanitize(strings.Replace(x.Args[0].(EStr).V, "%", "v", 1))
		c.decl("(declare-fun " + n + " (Iface) " + c.strSort() + ")")
		t := ex.term(env.st, v)
		t = ex.coerce(t, v.Typ, tIface)
		return Val{T: "(" + n + " " + t + ")", Typ: tString}
	case "bytes": // the conversions between a string and its bytes
		t, _ := ex.val2(x.Args[0], env)
		return Val{T: ex.convTerm(t, tString, types.NewSlice(types.Typ[types.Byte])), Typ: types.NewSlice(types.Typ[types.Byte])}
	case "str":
		return Val{T: ex.convTerm(ex.term(env.st, arg(0)), types.NewSlice(types.Typ[types.Byte]), tString), Typ: tString}
	case "strlit_prefix":
		unsupported("strlit_prefix")
	case "prefixof", "suffixof", "contains", "indexof", "replace1":
		var as []string
		for i := range x.Args {
			a, _ := ex.val2(x.Args[i], env)
			as = append(as, a)
		}
		t := types.Type(tBool)
		rs := "Bool"
		if x.F == "indexof" {
			t, rs = tInt, "Int"
		}
		if x.F == "replace1" {
			t, rs = tString, c.strSort()
		}
		op := map[string]string{"prefixof": "str.prefixof", "suffixof": "str.suffixof", "contains": "str.contains", "indexof": "str.indexof", "replace1": "str.replace"}[x.F]
		if c.theoryStr {
			if x.F == "indexof" && len(as) == 2 {
				as = append(as, "0")
			}
		} else {
			op = "s_" + x.F + fmt.Sprint(len(as))
			c.decl("(declare-fun " + op + " (" + strings.Repeat("Str ", len(as)) + ") " + rs + ")")
			if x.F == "indexof" && len(as) == 3 {
				unsupported("indexof with a start needs mode theory")
			}
		}
		return Val{T: "(" + op + " " + strings.Join(as, " ") + ")", Typ: t}
	case "substr":
		s, _ := ex.val2(x.Args[0], env)
		a, _ := ex.val2(x.Args[1], env)
		b, _ := ex.val2(x.Args[2], env)
		if c.theoryStr {
			return Val{T: "(str.substr " + s + " " + a + " (- " + b + " " + a + "))", Typ: tString}
		}
		return Val{T: "(substr " + s + " " + a + " " + b + ")", Typ: tString}
	}
	// struct constructor by type name? e.g. T{...} is not supported; spec function
	if f := ex.eng.spec.Funcs[x.F]; f != nil {
		if len(x.Args) != len(f.Vars) {
			unsupported("specification function %s takes %d arguments", x.F, len(f.Vars))
		}
		var as []Val
		for i := range x.Args {
			as = append(as, arg(i))
		}
		return ex.specCall(f, as, env)
	}
	unsupported("unknown function %s in specification", x.F)
	return Val{}
}

// ---------- contracts at calls

func clauseName(cl Clause, kind string, i int) string {
	if cl.Name != "" {
		return cl.Name
	}
	return fmt.Sprintf("%s-%d", kind, i+1)
}

type modRoot struct {
	comp string
	ref  string // "" : the whole component
	lv   *LV    // tracked variable
	slice *Val
}

// modRoots evaluates a modifies clause.
func (ex *Exec) modRoots(con *Contract, env *SEnv) []modRoot {
	var out []modRoot
	for _, m := range con.Modifies {
		switch e := m.(type) {
		case EId:
			if _, bound := env.lookup(e.N); !bound {
				if comp, _ := ex.ghostComp(e.N); comp != "" {
					out = append(out, modRoot{comp: comp})
					continue
				}
			}
			v := ex.tr(m, env)
			out = append(out, ex.modOf(v, env)...)
		case EUn:
			if e.Op == "*" {
				p := ex.tr(e.X, env)
				lv := ex.addr(env.st, p)
				if lv.Ref != "" && len(lv.Path) == 0 {
					out = append(out, modRoot{comp: lv.Comp, ref: lv.Ref})
				} else {
					out = append(out, modRoot{lv: lv})
				}
				continue
			}
			unsupported("modifies clause")
		case ECall:
			if e.F == "elems" {
				v := ex.tr(e.Args[0], env)
				vv := v
				out = append(out, modRoot{slice: &vv})
				continue
			}
			if e.F == "contents" { // the map or object a variable refers to
				v := ex.tr(e.Args[0], env)
				if v.LV != nil && v.T == "" {
					v = Val{T: ex.term(env.st, v), Typ: v.Typ}
				}
				out = append(out, ex.modOf(v, env)...)
				continue
			}
			if e.F == "heap" { // every object of that type
				t := ex.eng.resolveType(e.Args[0].(EType).T)
				if mt, ok := t.Underlying().(*types.Map); ok {
					md, mv := ex.mapComps(mt)
					out = append(out, modRoot{comp: md}, modRoot{comp: mv})
				} else {
					out = append(out, modRoot{comp: ex.heapComp(t)})
				}
				continue
			}
			v := ex.tr(m, env)
			out = append(out, ex.modOf(v, env)...)
		case ESel:
			if id, ok := e.X.(EId); ok {
				if _, bound := env.lookup(id.N); !bound {
					// package variable
					n := "G:" + id.N + "." + e.F
					v := ex.pkgMember(id.N, e.F, env)
					if _, isM := v.Typ.Underlying().(*types.Map); !isM {
						out = append(out, modRoot{comp: n})
						continue
					}
					out = append(out, ex.modOf(v, env)...)
					continue
				}
				b := ex.tr(id, env)
				if p, ok := b.Typ.Underlying().(*types.Pointer); ok && ex.c.structOf(p.Elem()) == nil {
					_, path, _ := types.LookupFieldOrMethod(p.Elem(), true, pkgOf(p.Elem()), e.F)
					out = append(out, modRoot{comp: ex.xfieldComp(p.Elem(), path[0]), ref: ex.term(env.st, b)})
					continue
				}
			}
			v := ex.tr(m, env)
			out = append(out, ex.modOf(v, env)...)
		default:
			v := ex.tr(m, env)
			out = append(out, ex.modOf(v, env)...)
		}
	}
	return out
}

func (ex *Exec) modOf(v Val, env *SEnv) []modRoot {
	switch u := v.Typ.Underlying().(type) {
	case *types.Map:
		md, mv := ex.mapComps(u)
		r := ex.term(env.st, v)
		return []modRoot{{comp: md, ref: r}, {comp: mv, ref: r}}
	case *types.Pointer:
		lv := ex.addr(env.st, v)
		if lv.Ref != "" && len(lv.Path) == 0 {
			return []modRoot{{comp: lv.Comp, ref: lv.Ref}}
		}
		return []modRoot{{lv: lv}}
	}
	unsupported("modifies %s", v.Typ)
	return nil
}

func (fr *Frame) contractCall(in ssa.Instruction, con *Contract, f *ssa.Function, sig *types.Signature, args []Val, recvT types.Type, st *State, pos token.Pos) []Val {
	ex := fr.ex
	if con.Trusted {
		ex.trusted[con.Func] = true
	} else {
		ex.contracts[con.Func] = true
	}
	env := &SEnv{vars: map[string]Val{}, st: st}
	if con.Opts["keeps"] != "" {
		for _, a := range args {
			ex.keep(a)
			if kc := ex.keptContract(a); kc != nil { // what it needs of its captured variables
				kenv := &SEnv{vars: map[string]Val{}, st: st}
				for i, b := range a.Bind {
					if i < len(a.Fn.FreeVars) {
						kenv.vars[a.Fn.FreeVars[i].Name()] = b
					}
				}
				for i, cl := range kc.Requires {
					args := false
					for _, p := range kc.Params {
						args = args || mentions(cl.E, p)
					}
					if !args {
						ex.oblig(st, "precondition", "kept "+lastName(kc.Func)+": "+clauseName(cl, "requires", i), ex.boolTerm(cl.E, kenv), pos, cl.Props)
					}
				}
			}
		}
	}
	for i, p := range con.Params {
		if i < len(args) {
			a := args[i]
			if a.Typ == nil && f != nil && i < len(f.Params) {
				a.Typ = f.Params[i].Type()
			}
			if a.Fn != nil {
				a.T = ex.fnTerm(a)
				a.Fn = nil
			}
			env.vars[p] = a
		}
	}
	ex.beforeCall(con.Func, env.vars, st, pos)
	for i, cl := range con.Requires {
		ex.oblig(st, "precondition", "call "+lastName(con.Func)+": "+clauseName(cl, "requires", i), ex.boolTerm(cl.E, env), pos, cl.Props)
	}
	before := st.clone()
	env.old = before
	roots := ex.modRoots(con, env)
	// components that may change
	byComp := map[string][]modRoot{}
	for _, r := range roots {
		if r.comp != "" {
			byComp[r.comp] = append(byComp[r.comp], r)
		}
	}
	eff := map[string]bool{}
	if f != nil && f.Blocks != nil && ex.eng.fnInModule(f) && !con.Trusted {
		for e := range ex.eng.effects(f) {
			eff[e] = true
		}
	}
	allocs := false
	for _, a := range con.Allocs {
		t := ex.eng.resolveType(a)
		allocs = true
		if mt, ok := t.Underlying().(*types.Map); ok {
			md, mv := ex.mapComps(mt)
			eff[md], eff[mv] = true, true
		} else {
			eff[ex.heapComp(t)] = true
		}
	}
	for c := range byComp {
		eff[c] = true
	}
	if con.ModAll {
		if con.Trusted || f == nil || f.Blocks == nil {
			for g := range ex.eng.spec.Ghosts {
				eff["X:"+g] = true
			}
		}
		for c := range eff {
			if strings.HasPrefix(c, "X:") {
				ex.ghostComp(c[2:])
			}
		}
	}
	ex.reachProbe(st, "before "+con.Func, pos)
	next0 := ex.get(st, ex.next())
	if eff["next"] || allocs || len(eff) > 0 || !con.Trusted || mentionsFresh(con) {
		nn := ex.c.freshConst("next", "Int")
		ex.c.assert("(>= " + nn + " " + next0 + ")")
		st.comps["next"] = nn
	}
	for _, comp := range sortedKeys(eff) {
		if comp == "next" {
			continue
		}
		if _, ok := ex.compSort[comp]; !ok {
			ex.regByName(comp)
		}
		s := ex.compSort[comp]
		rs := byComp[comp]
		heap := isHeapComp(comp)
		if !heap {
			if len(rs) == 0 && !con.ModAll {
				continue
			}
			st.comps[comp] = ex.c.freshConst(comp, s)
			continue
		}
		cur := ex.get(before, comp)
		whole := con.ModAll
		for _, r := range rs {
			if r.ref == "" {
				whole = true
			}
			ex.logWrite(comp, r.ref)
		}
		n := ex.c.freshConst(comp, s)
		if !whole {
			cond := "(and (< 0 r) (< r " + next0 + "))"
			for _, r := range rs {
				cond = and(cond, "(not (= r "+r.ref+"))")
			}
			ex.c.assert("(forall ((r Int)) (! (=> " + cond + " (= (select " + n + " r) (select " + cur + " r))) :pattern ((select " + n + " r)) :pattern ((select " + cur + " r))))")
			if strings.HasPrefix(comp, "MD:") {
				ex.c.assert("(= (select " + n + " 0) (select " + cur + " 0))")
			}
		}
		st.comps[comp] = n
	}
	for _, r := range roots {
		if r.lv != nil {
			nv := ex.c.freshConst("mod", ex.c.sort(r.lv.Typ))
			ex.wf(st, nv, r.lv.Typ)
			ex.writeLV(st, r.lv, nv)
		}
		if r.slice != nil {
			n := ex.c.sort(r.slice.Typ)
			nv := ex.c.freshConst("mod", n)
			ex.c.assert("(= (len_" + n + " " + nv + ") (len_" + n + " " + ex.term(st, *r.slice) + "))")
			ex.c.assert("(= (tight_" + n + " " + nv + ") (tight_" + n + " " + ex.term(st, *r.slice) + "))")
			ex.writeSlice(st, *r.slice, nv)
		}
	}
	// results
	var res []Val
	for i, t := range resultTypes(sig) {
		v := ex.arb(st, t, "r_"+lastName(con.Func))
		if con.Opts["nonnil"] == fmt.Sprint(i) {
			ex.assume(st, "(> "+v.T+" 0)")
		}
		res = append(res, v)
	}
	env2 := &SEnv{vars: map[string]Val{}, st: st, old: before, up: env}
	for i, n := range con.Results {
		if i < len(res) {
			env2.vars[n] = res[i]
		}
	}
	for n, v := range env.vars {
		if _, ok := env2.vars[n]; !ok {
			env2.vars[n] = v
		}
	}
	for _, gs := range con.Sets {
		comp, _ := ex.ghostComp(gs.N)
		e3 := *env2
		e3.st = before
		ex.set(st, comp, ex.term(before, ex.tr(gs.E, env2)))
	}
	for _, cl := range con.Ensures {
		if strings.HasPrefix(cl.Name, "local_") {
			continue
		}
		ex.assume(st, ex.boolTerm(cl.E, env2))
	}
	ex.reachProbe(st, "after "+con.Func, pos)
	if con.Opts["noreturn"] != "" {
		st.dead = true
		st.guard = "false"
	}
	ex.interfere(st)
	return res
}

func isHeapComp(c string) bool {
	return strings.HasPrefix(c, "H:") || strings.HasPrefix(c, "HX:") || strings.HasPrefix(c, "MD:") || strings.HasPrefix(c, "MV:")
}

// mentionsFresh tells whether the contract promises a newly allocated object.
func mentionsFresh(con *Contract) bool {
	for _, c := range con.Ensures {
		if exprCalls(c.E, "fresh") {
			return true
		}
	}
	return false
}

// reachProbe (development only, GVC_REACH=1): can the solver refute that this point is reached? A point that becomes
// unreachable by a call means that the callee's contract contradicts what is known there.
func (ex *Exec) reachProbe(st *State, what string, pos token.Pos) {
	if !probing || ex.spec > 0 || st.dead || st.guard == "false" {
		return
	}
	if pos.IsValid() {
		p := ex.eng.prog.Fset.Position(pos)
		what += fmt.Sprintf(" %s:%d", strings.TrimPrefix(p.Filename, ex.eng.repo+"/"), p.Line)
	}
	ex.obls = append(ex.obls, &Obl{Name: what, Func: ex.con.Func, Kind: "smoke", body: ex.c.body[:len(ex.c.body):len(ex.c.body)], guard: st.guard, goal: "false", ctx: ex.c, Smoke: true})
}

var probing = os.Getenv("GVC_REACH") != ""

func exprCalls(e Expr, f string) bool {
	any := func(es ...Expr) bool {
		for _, x := range es {
			if x != nil && exprCalls(x, f) {
				return true
			}
		}
		return false
	}
	switch x := e.(type) {
	case EBin:
		return any(x.L, x.R)
	case EUn:
		return any(x.X)
	case ESel:
		return any(x.X)
	case EIdx:
		return any(x.X, x.I)
	case ECall:
		return x.F == f || any(x.Args...)
	case EIf:
		return any(x.C, x.A, x.B)
	case EQuant:
		return any(x.Body)
	case ELet:
		return any(x.V, x.B)
	case *EBin:
		return exprCalls(*x, f)
	case *EUn:
		return exprCalls(*x, f)
	case *ESel:
		return exprCalls(*x, f)
	case *EIdx:
		return exprCalls(*x, f)
	case *ECall:
		return exprCalls(*x, f)
	case *EIf:
		return exprCalls(*x, f)
	case *EQuant:
		return exprCalls(*x, f)
	case *ELet:
		return exprCalls(*x, f)
	}
	return false
}

package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var regTypes = map[string]types.Type{}   // component name -> type to register it
var regX = map[string][2]interface{}{}    // HX components

func (ex *Exec) regByName(comp string) {
	if strings.HasPrefix(comp, "X:") {
		ex.ghostComp(comp[2:])
		return
	}
	if t, ok := regTypes[comp]; ok {
		switch {
		case strings.HasPrefix(comp, "MD:"), strings.HasPrefix(comp, "MV:"):
			ex.mapComps(t.Underlying().(*types.Map))
		case strings.HasPrefix(comp, "H:"):
			ex.heapComp(t)
		case strings.HasPrefix(comp, "G:"):
			ex.regComp(comp, ex.c.sort(t), t)
		}
		return
	}
	if x, ok := regX[comp]; ok {
		ex.xfieldComp(x[0].(types.Type), x[1].(int))
		return
	}
	if comp == "next" {
		ex.next()
		return
	}
	unsupported("component %s is not registered", comp)
}

func mapCompNames(m *types.Map) (string, string) {
	k := canonType(m.Key()) + "," + canonType(m.Elem())
	regTypes["MD:"+k], regTypes["MV:"+k] = m, m
	return "MD:" + k, "MV:" + k
}

func heapName(t types.Type) string {
	n := "H:" + canonType(t)
	regTypes[n] = t
	return n
}

// effects: components a function may write (transitively through the functions it calls).
func (e *Engine) effects(f *ssa.Function) map[string]bool {
	if r, ok := e.effCache[f]; ok {
		return r
	}
	// fixpoint over the call graph reachable from f
	reach := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	direct := map[*ssa.Function]map[string]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		reach = append(reach, g)
		d := map[string]bool{}
		direct[g] = d
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				e.instrEffects(in, d, func(h *ssa.Function) {
					callees[g] = append(callees[g], h)
					visit(h)
				})
			}
		}
	}
	visit(f)
	for ch := true; ch; {
		ch = false
		for _, g := range reach {
			for _, h := range callees[g] {
				for k := range direct[h] {
					if !direct[g][k] {
						direct[g][k] = true
						ch = true
					}
				}
			}
		}
	}
	e.effCache[f] = direct[f]
	return direct[f]
}

func (e *Engine) addrEffect(v ssa.Value, d map[string]bool) {
	switch x := v.(type) {
	case *ssa.Alloc:
		if e.escapes(x) {
			d[heapName(x.Type().(*types.Pointer).Elem())] = true
		}
	case *ssa.Global:
		n := "G:" + x.Pkg.Pkg.Name() + "." + x.Name()
		regTypes[n] = x.Type().(*types.Pointer).Elem()
		d[n] = true
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		if e.extStruct(st) {
			n := "HX:" + canonType(st) + "." + st.Underlying().(*types.Struct).Field(x.Field).Name()
			regX[n] = [2]interface{}{st, x.Field}
			d[n] = true
			return
		}
		e.addrEffect(x.X, d)
	case *ssa.IndexAddr:
		if isSlice(x.X.Type()) {
			// in-place element write: only slices made here or loaded from memory
			if u, ok := x.X.(*ssa.UnOp); ok {
				e.addrEffect(u.X, d)
			}
			if l, ok := x.X.(*ssa.Lookup); ok {
				if m, ok := l.X.Type().Underlying().(*types.Map); ok {
					_, mv := mapCompNames(m)
					d[mv] = true
				}
			}
			return
		}
		e.addrEffect(x.X, d)
	case *ssa.FreeVar:
		// captured variable of an enclosing function: tracked there
		d[heapName(x.Type().(*types.Pointer).Elem())] = true
	default:
		if p, ok := v.Type().Underlying().(*types.Pointer); ok {
			d[heapName(p.Elem())] = true
		}
	}
}

func (e *Engine) extStruct(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && !e.inModule(n.Obj().Pkg()) && !e.transparent[canonType(n)]
}

func (e *Engine) instrEffects(in ssa.Instruction, d map[string]bool, call func(*ssa.Function)) {
	switch x := in.(type) {
	case *ssa.Alloc:
		if e.escapes(x) {
			t := x.Type().(*types.Pointer).Elem()
			d["next"] = true
			d[heapName(t)] = true
			if e.extStruct(t) && t.Underlying().(*types.Struct).NumFields() <= 8 {
				st := t.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Exported() {
						n := "HX:" + canonType(t) + "." + st.Field(i).Name()
						regX[n] = [2]interface{}{t, i}
						d[n] = true
					}
				}
			}
		}
	case *ssa.Store:
		e.addrEffect(x.Addr, d)
	case *ssa.MapUpdate:
		md, mv := mapCompNames(x.Map.Type().Underlying().(*types.Map))
		d[md], d[mv] = true, true
	case *ssa.MakeMap:
		md, _ := mapCompNames(x.Type().Underlying().(*types.Map))
		d[md] = true
		d["next"] = true
	case *ssa.MakeClosure:
		call(x.Fn.(*ssa.Function))
	case *ssa.Send:
		if con := e.chanContract("send", x.Chan.Type()); con != nil {
			for _, g := range con.Sets {
				d["X:"+g.N] = true
			}
		}
	case *ssa.Select:
		for _, ss := range x.States {
			op := "recv"
			if ss.Dir == types.SendOnly {
				op = "send"
			}
			if con := e.chanContract(op, ss.Chan.Type()); con != nil {
				for _, g := range con.Sets {
					d["X:"+g.N] = true
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			if con := e.chanContract("recv", x.X.Type()); con != nil {
				for _, g := range con.Sets {
					d["X:"+g.N] = true
				}
			}
		}
	case *ssa.Go:
		if f := x.Call.StaticCallee(); f != nil {
			if con := e.spec.Contracts[e.canonFn(f)]; con != nil {
				for _, g := range con.Spawn {
					d["X:"+g.N] = true
				}
			}
		}
	case *ssa.Call, *ssa.Defer:
		cc := in.(ssa.CallInstruction).Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "delete" {
				md, _ := mapCompNames(cc.Args[0].Type().Underlying().(*types.Map))
				d[md] = true
			}
			return
		}
		for _, v := range append([]ssa.Value{cc.Value}, cc.Args...) {
			e.fnEffects(v, in.Parent(), call)
		}
		var con *Contract
		var name string
		if !cc.IsInvoke() && cc.StaticCallee() == nil {
			con = e.spec.Contracts["dyncall:"+e.canonFn(in.Parent())]
		} else if cc.IsInvoke() {
			name = "(" + e.canonStr(types.TypeString(cc.Value.Type(), nil)) + ")." + cc.Method.Name()
			con = e.spec.Contracts[name]
		} else if f := cc.StaticCallee(); f != nil {
			name = e.canonFn(f)
			con = e.spec.Contracts[name]
			if con == nil && f.Blocks != nil && e.fnInModule(f) && !e.isIgnored(name) && !e.isExit(name) {
				call(f)
				return
			}
			if con != nil && !con.Trusted && f.Blocks != nil {
				for _, g := range con.Sets {
					d["X:"+g.N] = true
				}
				call(f)
				return
			}
		}
		if con != nil {
			e.contractEffects(con, cc, d)
			return
		}
		if e.isIgnored(name) || e.isExit(name) {
			return
		}
		if fsWriter(name) {
			for _, g := range e.spec.World {
				d["X:"+g] = true
			}
		}
		// unknown: pointer and map arguments
		for _, a := range cc.Args {
			e.argEffects(a, d, 0)
		}
	}
}

// fnEffects: a call through (or handing over) a function value may have the effects of the functions it may denote.
func (e *Engine) fnEffects(v ssa.Value, in *ssa.Function, call func(*ssa.Function)) {
	if _, ok := v.Type().Underlying().(*types.Signature); !ok {
		return
	}
	switch x := v.(type) {
	case *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.Const:
	case *ssa.MakeClosure:
		call(x.Fn.(*ssa.Function))
	default:
		for f := in; f != nil; f = f.Parent() {
			for _, a := range f.AnonFuncs {
				call(a)
			}
		}
	}
}

func (e *Engine) argEffects(a ssa.Value, d map[string]bool, depth int) {
	if depth > 3 {
		return
	}
	if mi, ok := a.(*ssa.MakeInterface); ok {
		e.argEffects(mi.X, d, depth+1)
		return
	}
	if sl, ok := a.(*ssa.Slice); ok {
		for _, el := range varargElems(sl) {
			if el != nil {
				e.argEffects(el, d, depth+1)
			}
		}
		return
	}
	switch u := a.Type().Underlying().(type) {
	case *types.Pointer:
		if e.extStruct(u.Elem()) {
			return
		}
		e.addrEffect(a, d)
	case *types.Map:
		md, mv := mapCompNames(u)
		d[md], d[mv] = true, true
	}
}

// contractEffects adds the components named by a modifies clause at a call site.
func (e *Engine) contractEffects(con *Contract, cc *ssa.CallCommon, d map[string]bool) {
	argOf := map[string]ssa.Value{}
	var as []ssa.Value
	if cc.IsInvoke() {
		as = append(as, cc.Value)
	}
	as = append(as, cc.Args...)
	for i, p := range con.Params {
		if i < len(as) {
			argOf[p] = as[i]
		}
	}
	for _, g := range con.Sets {
		d["X:"+g.N] = true
	}
	if con.ModAll {
		for g := range e.spec.Ghosts {
			d["X:"+g] = true
		}
	}
	for _, m := range con.Modifies {
		x := m
		if u, ok := x.(EUn); ok {
			x = u.X
		}
		switch t := x.(type) {
		case EId:
			if e.spec.Ghosts[t.N] != nil {
				d["X:"+t.N] = true
				continue
			}
			if a := argOf[t.N]; a != nil {
				e.argEffects(a, d, 0)
			}
		case ECall:
			if t.F == "elems" {
				if id, ok := t.Args[0].(EId); ok {
					if a := argOf[id.N]; a != nil {
						if u, ok := a.(*ssa.UnOp); ok {
							e.addrEffect(u.X, d)
						}
						if l, ok := a.(*ssa.Lookup); ok {
							if mt, ok := l.X.Type().Underlying().(*types.Map); ok {
								_, mv := mapCompNames(mt)
								d[mv] = true
							}
						}
					}
				}
			}
			if t.F == "heap" {
				rt := e.resolveType(t.Args[0].(EType).T)
				if mt, ok := rt.Underlying().(*types.Map); ok {
					md, mv := mapCompNames(mt)
					d[md], d[mv] = true, true
				} else {
					d[heapName(rt)] = true
				}
			}
		case ESel:
			if id, ok := t.X.(EId); ok && argOf[id.N] == nil {
				n := "G:" + id.N + "." + t.F
				for _, p := range e.pkgs {
					if p.Pkg.Name() == id.N {
						if g, ok := p.Members[t.F].(*ssa.Global); ok {
							regTypes[n] = g.Type().(*types.Pointer).Elem()
							d[n] = true
						}
					}
				}
			} else if ok {
				a := argOf[id.N]
				if p, ok := a.Type().Underlying().(*types.Pointer); ok {
					if obj, path, _ := types.LookupFieldOrMethod(p.Elem(), true, pkgOf(p.Elem()), t.F); obj != nil {
						if e.extStruct(p.Elem()) {
							n := "HX:" + canonType(p.Elem()) + "." + t.F
							regX[n] = [2]interface{}{p.Elem(), path[0]}
							d[n] = true
						} else if mt, ok := obj.Type().Underlying().(*types.Map); ok {
							md, mv := mapCompNames(mt)
							d[md], d[mv] = true, true
						}
					}
				}
			}
		}
	}
	for _, s := range con.Sets {
		d["X:"+s.N] = true
	}
	for _, a := range con.Allocs {
		t := e.resolveType(a)
		d["next"] = true
		if mt, ok := t.Underlying().(*types.Map); ok {
			md, mv := mapCompNames(mt)
			d[md], d[mv] = true, true
		} else {
			d[heapName(t)] = true
		}
	}
}

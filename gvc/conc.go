package main

// Channels and goroutines. A send or receive is a call of the contract "send:<element type>" or
// "recv:<element type>"; a go statement checks the precondition of the started function's contract and applies its
// onspawn ghost updates. What a started goroutine does is what its own contract says, at some later time; it may
// write only what its contract lists, and it is checked not to write variables it shares with its creator.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) chanContract(op string, t types.Type) *Contract {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil
	}
	n := canonType(ch.Elem())
	if _, isI := ch.Elem().Underlying().(*types.Interface); isI {
		n = "any"
	}
	return e.spec.Contracts[op+":"+n]
}

func sigOf(ps, rs []types.Type) *types.Signature {
	mk := func(ts []types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewVar(token.NoPos, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, mk(ps), mk(rs), false)
}

func (fr *Frame) send(x *ssa.Send, st *State) {
	ex := fr.ex
	con := ex.eng.chanContract("send", x.Chan.Type())
	if con == nil {
		unsupported("send on a channel of %s without a contract", x.X.Type())
	}
	fr.contractCall(x, con, nil, sigOf([]types.Type{x.Chan.Type(), x.X.Type()}, nil), []Val{fr.val(st, x.Chan), fr.val(st, x.X)}, nil, st, x.Pos())
}

func (fr *Frame) recv(x *ssa.UnOp, st *State) {
	ex := fr.ex
	con := ex.eng.chanContract("recv", x.X.Type())
	if con == nil {
		unsupported("receive on a channel of %s without a contract", x.X.Type())
	}
	el := x.X.Type().Underlying().(*types.Chan).Elem()
	rs := fr.contractCall(x, con, nil, sigOf([]types.Type{x.X.Type()}, []types.Type{el, tBool}), []Val{fr.val(st, x.X)}, nil, st, x.Pos())
	if x.CommaOk {
		fr.env[x] = Val{Tup: rs, Typ: x.Type()}
		return
	}
	fr.setVal(x, rs[0])
}

// A select statement takes one of its cases, any one.
func (fr *Frame) selectStmt(x *ssa.Select, st *State) {
	ex := fr.ex
	idx := ex.c.freshConst("sel", "Int")
	lo := "0"
	if !x.Blocking {
		lo = "(- 1)"
	}
	ex.assume(st, fmt.Sprintf("(and (<= %s %s) (< %s %d))", lo, idx, idx, len(x.States)))
	ok := ex.c.freshConst("selok", "Bool")
	tup := []Val{{T: idx, Typ: types.Typ[types.Int]}, {T: ok, Typ: tBool}}
	var sts []*State
	if !x.Blocking {
		s := st.clone()
		s.guard = ex.guardAnd(st.guard, "(= "+idx+" (- 1))")
		sts = append(sts, s)
	}
	for i, ss := range x.States {
		s := st.clone()
		s.guard = ex.guardAnd(st.guard, fmt.Sprintf("(= %s %d)", idx, i))
		el := ss.Chan.Type().Underlying().(*types.Chan).Elem()
		if ss.Dir == types.SendOnly {
			con := ex.eng.chanContract("send", ss.Chan.Type())
			if con == nil {
				unsupported("send on a channel of %s without a contract", el)
			}
			fr.contractCall(x, con, nil, sigOf([]types.Type{ss.Chan.Type(), ss.Send.Type()}, nil), []Val{fr.val(s, ss.Chan), fr.val(s, ss.Send)}, nil, s, x.Pos())
		} else {
			con := ex.eng.chanContract("recv", ss.Chan.Type())
			if con == nil {
				unsupported("receive on a channel of %s without a contract", el)
			}
			rs := fr.contractCall(x, con, nil, sigOf([]types.Type{ss.Chan.Type()}, []types.Type{el, tBool}), []Val{fr.val(s, ss.Chan)}, nil, s, x.Pos())
			tup = append(tup, rs[0])
			ex.assume(s, "(= "+ok+" "+ex.term(s, rs[1])+")")
		}
		sts = append(sts, s)
	}
	*st = *ex.mergeStates(sts)
	fr.env[x] = Val{Tup: tup, Typ: x.Type()}
}

func (fr *Frame) chanClose(cc *ssa.CallCommon, args []Val, st *State) {}

func (fr *Frame) goStmt(x *ssa.Go, st *State) {
	ex := fr.ex
	cc := &x.Call
	if cc.IsInvoke() {
		unsupported("go statement on an interface method")
	}
	f := cc.StaticCallee()
	var binds []Val
	fv := fr.val(st, cc.Value)
	if f == nil {
		v, ok := ex.fnOf(fv)
		if !ok {
			unsupported("go statement on an unknown function value")
		}
		f = v.Fn
		binds = v.Bind
	} else {
		binds = fv.Bind
	}
	name := ex.eng.canonFn(f)
	con := ex.eng.spec.Contracts[name]
	if con == nil {
		unsupported("go statement on %s, which has no contract", name)
	}
	if con.Trusted {
		ex.trusted[con.Func] = true
	} else {
		ex.contracts[con.Func] = true
	}
	env := &SEnv{vars: map[string]Val{}, st: st}
	for i, b := range binds {
		if i < len(f.FreeVars) {
			env.vars[f.FreeVars[i].Name()] = b
		}
	}
	for i, p := range con.Params {
		if i < len(cc.Args) {
			env.vars[p] = fr.val(st, cc.Args[i])
		}
	}
	for i, cl := range con.Requires {
		ex.oblig(st, "precondition", "go "+lastName(name)+": "+clauseName(cl, "requires", i), ex.boolTerm(cl.E, env), x.Pos(), cl.Props)
	}
	before := st.clone()
	for _, gs := range con.Spawn {
		comp, _ := ex.ghostComp(gs.N)
		ex.set(st, comp, ex.term(before, ex.tr(gs.E, env)))
	}
	ex.keep(Val{Fn: f, Bind: binds})
	ex.interfere(st)
	ex.assumed["a goroutine started with go runs its function once and then has done what that function's contract says"] = true
}

// A function literal handed to a function that keeps it (opt keeps = 1) or started as a goroutine may run at any later
// time: from then on, whatever its contract lists as modified is unknown again after every call, except for ghosts,
// which count the events of the verified function's own thread.
type keptFn struct {
	con *Contract
	env map[string]Val
}

func (ex *Exec) keptContract(v Val) *Contract {
	if v.Fn == nil || len(v.Bind) == 0 {
		return nil
	}
	return ex.eng.spec.Contracts[ex.eng.canonFn(v.Fn)]
}

func (ex *Exec) keep(v Val) {
	if v.Fn == nil || len(v.Bind) == 0 {
		return
	}
	name := ex.eng.canonFn(v.Fn)
	con := ex.eng.spec.Contracts[name]
	if con == nil {
		unsupported("the function literal %s is kept by another function and has no contract", name)
	}
	ex.contracts[con.Func] = true
	k := keptFn{con, map[string]Val{}}
	for i, b := range v.Bind {
		if i < len(v.Fn.FreeVars) {
			k.env[v.Fn.FreeVars[i].Name()] = b
		}
	}
	for _, o := range ex.kept {
		if o.con == con {
			return
		}
	}
	ex.kept = append(ex.kept, k)
}

func (ex *Exec) interfere(st *State) {
	joined := ""
	if len(ex.kept) > 0 {
		if comp, _ := ex.ghostComp("joined"); comp != "" { // set once the others are known to have finished
			joined = ex.get(st, comp)
		}
	}
	or := func(old, nv, sort string) string {
		if joined == "" {
			return nv
		}
		return ex.nm("async", sort, "(ite "+joined+" "+old+" "+nv+")")
	}
	for _, k := range ex.kept {
		if k.con.ModAll {
			unsupported("%s runs concurrently and its contract says that it modifies anything", k.con.Func)
		}
		env := &SEnv{vars: k.env, st: st}
		for _, r := range ex.modRoots(k.con, env) {
			switch {
			case r.lv != nil:
				nv := ex.c.freshConst("async", ex.c.sort(r.lv.Typ))
				ex.wf(st, nv, r.lv.Typ)
				ex.writeLV(st, r.lv, or(ex.term(st, ex.readLV(st, r.lv)), nv, ex.c.sort(r.lv.Typ)))
			case r.slice != nil:
				unsupported("a kept function literal that modifies elements of a slice")
			case r.comp != "" && isHeapComp(r.comp):
				ex.logWrite(r.comp, r.ref)
				n := ex.c.freshConst(r.comp, ex.compSort[r.comp])
				if r.ref != "" {
					cur := ex.get(st, r.comp)
					ex.c.assert("(= " + n + " (store " + cur + " " + r.ref + " (select " + n + " " + r.ref + ")))")
				}
				st.comps[r.comp] = or(ex.get(st, r.comp), n, ex.compSort[r.comp])
			}
		}
	}
}

// beforeCall proves the "before" clauses of the function under verification.
func (ex *Exec) beforeCall(callee string, vars map[string]Val, st *State, pos token.Pos) {
	if ex.con == nil {
		return
	}
	for i, b := range ex.con.Before {
		if b.Callee != callee {
			continue
		}
		env := ex.rootEnv(st)
		if ex.root != nil {
			for v, x := range ex.root.env {
				if al, ok := v.(*ssa.Alloc); ok && al.Comment != "" {
					if _, has := env.vars[al.Comment]; !has {
						env.vars[al.Comment] = x
					}
				}
			}
		}
		env = &SEnv{vars: map[string]Val{}, st: st, old: ex.entry, up: env}
		for n, v := range vars {
			env.vars[n] = v
		}
		ex.oblig(st, "before "+lastName(callee), clauseName(b.C, "before", i), ex.boolTerm(b.C.E, env), pos, b.C.Props)
	}
}

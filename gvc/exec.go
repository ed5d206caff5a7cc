package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- frames and control flow

func (ex *Exec) newFrame(fn *ssa.Function, path string, caller *Frame) *Frame {
	fr := &Frame{ex: ex, fn: fn, path: path, caller: caller, env: map[ssa.Value]Val{}, iters: map[ssa.Value]*iterInfo{}}
	fr.rpo = map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.rpo[post[i]] = len(fr.order)
		fr.order = append(fr.order, post[i])
	}
	fr.loops = map[*ssa.BasicBlock]*Loop{}
	for _, b := range fr.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fr.loops[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			} else if fr.rpo[s] <= fr.rpo[b] {
				unsupported("irreducible control flow in %s", fn.Name())
			}
		}
	}
	return fr
}

type edgeVal struct {
	edgeIn
}

// runFunction executes the function body from st.
func (fr *Frame) runFunction(st *State) []retVal {
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.order {
		all[b] = true
	}
	_, _, rets := fr.runRegion(all, []edgeIn{{nil, fr.fn.Blocks[0], st}}, nil)
	return rets
}

func (fr *Frame) runRegion(blocks map[*ssa.BasicBlock]bool, start []edgeIn, cur *Loop) (exits, backs []edgeIn, rets []retVal) {
	pending := map[*ssa.BasicBlock][]edgeIn{}
	first := true
	route := func(e edgeIn) {
		if e.st.dead || e.st.guard == "false" {
			return
		}
		switch {
		case cur != nil && e.to == cur.head && !first:
			backs = append(backs, e)
		case !blocks[e.to]:
			exits = append(exits, e)
		default:
			pending[e.to] = append(pending[e.to], e)
		}
	}
	for _, e := range start {
		route(e)
	}
	first = false
	for _, b := range fr.order {
		if !blocks[b] || len(pending[b]) == 0 {
			continue
		}
		ins := pending[b]
		if l := fr.loops[b]; l != nil && l != cur {
			ex, rs := fr.execLoop(l, ins)
			rets = append(rets, rs...)
			for _, e := range ex {
				route(e)
			}
			continue
		}
		var st *State
		if cur != nil && b == cur.head {
			st = ins[0].st // phis already set by execLoop
		} else {
			st = fr.enterBlock(b, ins)
		}
		outs, rv := fr.execBlock(b, st)
		if rv != nil {
			rets = append(rets, *rv)
		}
		for _, e := range outs {
			route(e)
		}
	}
	return
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			ps = append(ps, p)
		} else {
			break
		}
	}
	return ps
}

func predIndex(b, from *ssa.BasicBlock, n int) int {
	k := 0
	for i, p := range b.Preds {
		if p == from {
			if k == n {
				return i
			}
			k++
		}
	}
	return -1
}

func (fr *Frame) phiEdgeVals(b *ssa.BasicBlock, ins []edgeIn) map[*ssa.Phi][]Val {
	out := map[*ssa.Phi][]Val{}
	for _, p := range phisOf(b) {
		cnt := map[*ssa.BasicBlock]int{}
		for _, e := range ins {
			i := predIndex(b, e.from, cnt[e.from])
			if i < 0 {
				i = predIndex(b, e.from, 0)
			}
			cnt[e.from]++
			out[p] = append(out[p], fr.val(e.st, p.Edges[i]))
		}
	}
	return out
}

func statesOf(ins []edgeIn) []*State {
	var r []*State
	for _, e := range ins {
		r = append(r, e.st)
	}
	return r
}

func (fr *Frame) enterBlock(b *ssa.BasicBlock, ins []edgeIn) *State {
	ex := fr.ex
	sts := statesOf(ins)
	ev := fr.phiEdgeVals(b, ins)
	vals := map[*ssa.Phi]Val{}
	for _, p := range phisOf(b) {
		vals[p] = fr.phiVal(p, ex.mergeVals(phiName(p), sts, ev[p], p.Type()))
	}
	for p, v := range vals {
		fr.env[p] = v
	}
	return ex.mergeStates(sts)
}

// phiVal keeps slice-overlay identity only when the value is unchanged.
func (fr *Frame) phiVal(p *ssa.Phi, v Val) Val {
	if _, ok := p.Type().Underlying().(*types.Slice); ok && v.Reg == nil && v.T != "" {
		v.Reg, v.Fr = p, fr
	}
	return v
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (fr *Frame) execBlock(b *ssa.BasicBlock, st *State) (outs []edgeIn, rv *retVal) {
	if probing && len(b.Instrs) > 0 {
		var at token.Pos
		for _, in := range b.Instrs {
			if at = in.Pos(); at.IsValid() {
				break
			}
		}
		fr.ex.reachProbe(st, fmt.Sprintf("block %s %s", b, b.Comment), at)
	}
	ex := fr.ex
	for _, in := range b.Instrs {
		if st.dead {
			return nil, nil
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := ex.term(st, fr.val(st, x.Cond))
			c = ex.nm("c", "Bool", c)
			t := st.clone()
			t.guard = ex.guardAnd(st.guard, c)
			f := st
			f.guard = ex.guardAnd(st.guard, not(c))
			if c == "true" {
				return []edgeIn{{b, b.Succs[0], t}}, nil
			}
			if c == "false" {
				return []edgeIn{{b, b.Succs[1], f}}, nil
			}
			return []edgeIn{{b, b.Succs[0], t}, {b, b.Succs[1], f}}, nil
		case *ssa.Jump:
			return []edgeIn{{b, b.Succs[0], st}}, nil
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, fr.val(st, r))
			}
			return nil, &retVal{st, rs, x.Pos()}
		case *ssa.Panic:
			if ex.con != nil && ex.con.Safety["panics"] {
				ex.oblig(st, "safety", "no-panic", "false", x.Pos(), nil)
			}
			return nil, nil
		default:
			fr.instr(in, st)
		}
	}
	return nil, nil
}

func (ex *Exec) guardAnd(g, c string) string {
	if g == "true" {
		return c
	}
	if c == "true" {
		return g
	}
	n := ex.c.fresh("g")
	t := "(and " + g + " " + c + ")"
	ex.c.body = append(ex.c.body, "(define-fun "+n+" () Bool "+t+")")
	ex.c.defs[n] = t
	return n
}

// ---------- values

func (fr *Frame) val(st *State, v ssa.Value) Val {
	ex := fr.ex
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return Val{T: ex.c.zero(x.Type()), Typ: x.Type()}
		}
		return Val{T: ex.constVal(x.Value, x.Type()), Typ: x.Type()}
	case *ssa.Global:
		t := x.Type().(*types.Pointer).Elem()
		n := "G:" + x.Pkg.Pkg.Name() + "." + x.Name()
		ex.regComp(n, ex.c.sort(t), t)
		return Val{LV: &LV{Comp: n, RootT: t, Typ: t}, Typ: x.Type()}
	case *ssa.Function:
		return Val{Fn: x, Typ: x.Type()}
	case *ssa.Builtin:
		return Val{Typ: x.Type()}
	case *ssa.FreeVar:
		if r, ok := fr.env[x]; ok {
			return r
		}
		for i, f := range fr.fn.FreeVars {
			if f == x && i < len(fr.binds) {
				return fr.binds[i]
			}
		}
		unsupported("free variable %s", x.Name())
	}
	r, ok := fr.env[v]
	if !ok {
		unsupported("no value for %s in %s", v.Name(), fr.fn.Name())
	}
	return r
}

func (fr *Frame) setVal(v ssa.Value, r Val) {
	r.Typ = v.Type()
	if _, ok := v.Type().Underlying().(*types.Slice); ok && r.T != "" {
		r.Reg, r.Fr = v, fr
	}
	fr.env[v] = r
}

// addr makes an LV from a pointer value.
func (ex *Exec) addr(st *State, v Val) *LV {
	if v.LV != nil {
		return v.LV
	}
	pt, ok := v.Typ.Underlying().(*types.Pointer)
	if !ok {
		unsupported("dereference of %s", v.Typ)
	}
	el := pt.Elem()
	return &LV{Comp: ex.heapCompFor(el), Ref: ex.term(st, v), RootT: el, Typ: el}
}

func (ex *Exec) heapCompFor(t types.Type) string {
	return ex.heapComp(t)
}

func (fr *Frame) nonNil(st *State, v Val, pos token.Pos) {
	ex := fr.ex
	if v.LV != nil {
		return
	}
	t := ex.term(st, v)
	f := "(not (= " + t + " 0))"
	if ex.con != nil && ex.con.Safety["nil"] {
		ex.oblig(st, "safety", "nil-dereference", f, pos, nil)
		return
	}
	ex.assume(st, f)
}

func (e *Engine) escapes(a *ssa.Alloc) bool { return e.ptrEscapes(a, map[ssa.Value]bool{}) }

// ptrEscapes: may the address v be kept anywhere but in registers we track?
func (e *Engine) ptrEscapes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Slice:
		case *ssa.FieldAddr:
			if e.ptrEscapes(x, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if e.ptrEscapes(x, seen) {
				return true
			}
		case *ssa.BinOp:
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && i < len(f.FreeVars) && e.ptrEscapes(f.FreeVars[i], seen) {
					return true
				}
			}
		case *ssa.Call, *ssa.Defer, *ssa.Go:
			c := r.(ssa.CallInstruction).Common()
			f := c.StaticCallee()
			if f == nil {
				if _, isB := c.Value.(*ssa.Builtin); isB {
					continue
				}
				return true
			}
			if e.spec.Contracts[e.canonFn(f)] != nil {
				continue
			}
			if !e.fnInModule(f) || f.Blocks == nil {
				return true
			}
			for i, arg := range c.Args {
				if arg == v && i < len(f.Params) && e.ptrEscapes(f.Params[i], seen) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// ---------- instructions

func (fr *Frame) instr(in ssa.Instruction, st *State) {
	ex := fr.ex
	c := ex.c
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if ex.eng.escapes(x) {
			r := ex.newRef(st)
			comp := ex.heapComp(t)
			ex.logWrite(comp, r)
			ex.set(st, comp, "(store "+ex.get(st, comp)+" "+r+" "+c.zero(t)+")")
			if est, ok := t.Underlying().(*types.Struct); ok && c.structOf(t) == nil && est.NumFields() <= 8 {
				for i := 0; i < est.NumFields(); i++ {
					if ft := est.Field(i).Type(); est.Field(i).Exported() {
						xc := ex.xfieldComp(t, i)
						ex.set(st, xc, "(store "+ex.get(st, xc)+" "+r+" "+c.zero(ft)+")")
					}
				}
			}
			fr.env[x] = Val{T: r, Typ: x.Type()}
			return
		}
		n := "A:" + fr.path + ":" + x.Name() + ":" + x.Comment
		ex.regComp(n, c.sort(t), t)
		st.comps[n] = c.zero(t)
		fr.env[x] = Val{LV: &LV{Comp: n, RootT: t, Typ: t}, Typ: x.Type()}
	case *ssa.Store:
		p := fr.val(st, x.Addr)
		fr.nonNil(st, p, x.Pos())
		v := fr.val(st, x.Val)
		lv := ex.addr(st, p)
		ex.storeVal(st, lv, v)
	case *ssa.UnOp:
		fr.unop(x, st)
	case *ssa.BinOp:
		fr.setVal(x, Val{T: fr.binop(x, st)})
	case *ssa.FieldAddr:
		p := fr.val(st, x.X)
		fr.nonNil(st, p, x.Pos())
		stt := x.X.Type().Underlying().(*types.Pointer).Elem()
		ft := stt.Underlying().(*types.Struct).Field(x.Field).Type()
		if c.structOf(stt) == nil {
			if p.LV != nil {
				unsupported("field address inside external struct %s", stt)
			}
			fr.env[x] = Val{LV: &LV{Comp: ex.xfieldComp(stt, x.Field), Ref: ex.term(st, p), RootT: ft, Typ: ft}, Typ: x.Type()}
			return
		}
		lv := *ex.addr(st, p)
		lv.Path = append(append([]pstep{}, lv.Path...), pstep{field: x.Field, st: stt})
		lv.Typ = ft
		fr.env[x] = Val{LV: &lv, Typ: x.Type()}
	case *ssa.Field:
		v := fr.val(st, x.X)
		t := c.getField(x.X.Type(), ex.term(st, v), x.Field)
		ex.wf(st, t, x.Type())
		fr.setVal(x, Val{T: ex.nm("fld", c.sort(x.Type()), t)})
	case *ssa.IndexAddr:
		i := ex.term(st, fr.val(st, x.Index))
		base := fr.val(st, x.X)
		switch bt := x.X.Type().Underlying().(type) {
		case *types.Slice:
			n := c.sort(x.X.Type())
			ln := "(len_" + n + " " + ex.sliceNow(st, base) + ")"
			ex.bounds(st, i, ln, x.Pos())
			b := base
			fr.env[x] = Val{LV: &LV{Sl: &b, Idx: i, Typ: bt.Elem()}, Typ: x.Type()}
		case *types.Pointer:
			at := bt.Elem().Underlying().(*types.Array)
			ex.bounds(st, i, fmt.Sprint(at.Len()), x.Pos())
			lv := *ex.addr(st, base)
			lv.Path = append(append([]pstep{}, lv.Path...), pstep{field: -1, idx: i})
			lv.Typ = at.Elem()
			fr.env[x] = Val{LV: &lv, Typ: x.Type()}
		default:
			unsupported("IndexAddr on %s", x.X.Type())
		}
	case *ssa.Index:
		i := ex.term(st, fr.val(st, x.Index))
		switch bt := x.X.Type().Underlying().(type) {
		case *types.Array:
			fr.setVal(x, Val{T: "(select " + ex.term(st, fr.val(st, x.X)) + " " + i + ")"})
		case *types.Basic:
			s := ex.term(st, fr.val(st, x.X))
			ex.bounds(st, i, c.strlen(s), x.Pos())
			fr.setVal(x, Val{T: ex.strAt(s, i)})
		default:
			unsupported("Index on %s", bt)
		}
	case *ssa.Lookup:
		fr.lookup(x, st)
	case *ssa.MapUpdate:
		m := fr.val(st, x.Map)
		mt := x.Map.Type().Underlying().(*types.Map)
		ref := ex.term(st, m)
		if ex.con != nil && ex.con.Safety["nil"] {
			ex.oblig(st, "safety", "nil-map-write", "(not (= "+ref+" 0))", x.Pos(), nil)
		} else {
			ex.assume(st, "(not (= "+ref+" 0))")
		}
		ex.mapStore(st, mt, ref, ex.term(st, fr.val(st, x.Key)), ex.term(st, fr.val(st, x.Value)))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		r := ex.newRef(st)
		md, _ := ex.mapComps(mt)
		ex.logWrite(md, r)
		ex.set(st, md, "(store "+ex.get(st, md)+" "+r+" "+c.zero(&SetType{mt.Key()})+")")
		fr.setVal(x, Val{T: r})
	case *ssa.MakeSlice:
		ln := ex.term(st, fr.val(st, x.Len))
		if ex.con != nil && ex.con.Safety["bounds"] {
			ex.oblig(st, "safety", "makeslice-length", "(>= "+ln+" 0)", x.Pos(), nil)
		} else {
			ex.assume(st, "(>= "+ln+" 0)")
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		fr.setVal(x, Val{T: ex.newSlice(x.Type(), "((as const (Array Int "+c.sort(el)+")) "+c.zero(el)+")", ln, "true")})
	case *ssa.MakeChan:
		r := ex.newRef(st)
		fr.setVal(x, Val{T: r})
	case *ssa.MakeInterface:
		v := fr.val(st, x.X)
		var t string
		switch x.X.Type().Underlying().(type) {
		case *types.Signature:
			t = c.box(x.X.Type(), c.freshConst("fnbox", "Int"))
		default:
			if v.LV != nil {
				// address of a tracked variable boxed: opaque non-nil value
				k := c.freshConst("addr", "Int")
				c.assert("(> " + k + " 0)")
				t = c.box(x.X.Type(), k)
			} else {
				t = c.box(x.X.Type(), ex.term(st, v))
			}
		}
		fr.setVal(x, Val{T: ex.nm("bx", "Iface", t)})
	case *ssa.ChangeInterface:
		fr.setVal(x, Val{T: ex.term(st, fr.val(st, x.X))})
	case *ssa.ChangeType:
		v := fr.val(st, x.X)
		if c.sortEq(x.X.Type(), x.Type()) {
			v.Typ = x.Type()
			r := v
			if _, ok := x.Type().Underlying().(*types.Slice); ok && r.Reg == nil {
				r.Reg, r.Fr = x, fr
			}
			fr.env[x] = r
			return
		}
		fr.setVal(x, Val{T: ex.changeType(ex.term(st, v), x.X.Type(), x.Type())})
	case *ssa.Convert:
		fr.convert(x, st)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, fr.val(st, b))
		}
		fr.env[x] = Val{Fn: x.Fn.(*ssa.Function), Bind: bs, Typ: x.Type()}
	case *ssa.Extract:
		t := fr.val(st, x.Tuple)
		if x.Index >= len(t.Tup) {
			unsupported("extract from %s", x.Tuple)
		}
		v := t.Tup[x.Index]
		if _, ok := x.Type().Underlying().(*types.Slice); ok && v.T != "" {
			v.Reg, v.Fr = x, fr
		}
		fr.env[x] = v
	case *ssa.TypeAssert:
		fr.typeAssert(x, st)
	case *ssa.Slice:
		fr.slice(x, st)
	case *ssa.Range:
		comp := "IT:" + fr.path + ":" + x.Name()
		switch mt := x.X.Type().Underlying().(type) {
		case *types.Map:
			ex.regComp(comp, c.sort(&SetType{mt.Key()}), &SetType{mt.Key()})
			st.comps[comp] = c.zero(&SetType{mt.Key()})
			m := ex.term(st, fr.val(st, x.X))
			md, _ := ex.mapComps(mt)
			fr.iters[x] = &iterInfo{comp: comp, m: m, mt: mt, dom0: ex.nm("dom", c.sort(&SetType{mt.Key()}), "(select "+ex.get(st, md)+" "+m+")")}
		default:
			fr.iters[x] = &iterInfo{comp: ""}
		}
		fr.env[x] = Val{Typ: x.Type()}
	case *ssa.Next:
		fr.next(x, st)
	case *ssa.Call:
		r := fr.call(x, &x.Call, st, x.Pos())
		fr.setCall(x, r)
	case *ssa.Defer:
		d := deferred{guard: st.guard, call: &x.Call, instr: x}
		if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
			if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
				d.fn = fr.val(st, x.Call.Value)
			}
		} else if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			d.fn = fr.val(st, mc)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, fr.val(st, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		fr.runDefers(st)
	case *ssa.Go:
		fr.goStmt(x, st)
	case *ssa.Send:
		fr.send(x, st)
	case *ssa.Select:
		fr.selectStmt(x, st)
	default:
		unsupported("instruction %T", in)
	}
}

func (c *Ctx) sortEq(a, b types.Type) bool { return c.sort(a) == c.sort(b) }

// changeType converts between struct types with identical fields, or slices.
func (ex *Exec) changeType(t string, from, to types.Type) string {
	c := ex.c
	if a, b := c.structOf(from), c.structOf(to); a != nil && b != nil {
		t = ex.nm("cv", c.sort(from), t)
		var fs []string
		for i := 0; i < a.NumFields(); i++ {
			fs = append(fs, ex.changeType(c.getField(from, t, i), a.Field(i).Type(), b.Field(i).Type()))
		}
		return c.mkStruct(to, fs)
	}
	if c.sortEq(from, to) {
		return t
	}
	unsupported("conversion %s to %s", from, to)
	return ""
}

func (fr *Frame) setCall(x *ssa.Call, r []Val) {
	if tt, ok := x.Type().(*types.Tuple); ok {
		if tt.Len() == 0 {
			return
		}
		fr.env[x] = Val{Tup: r, Typ: x.Type()}
		return
	}
	if len(r) == 1 {
		v := r[0]
		if _, ok := x.Type().Underlying().(*types.Slice); ok && v.T != "" {
			v.Reg, v.Fr = x, fr
		}
		v.Typ = x.Type()
		fr.env[x] = v
		return
	}
	unsupported("call result of %s", x)
}

func (ex *Exec) bounds(st *State, i, n string, pos token.Pos) {
	f := "(and (<= 0 " + i + ") (< " + i + " " + n + "))"
	if ex.con != nil && ex.con.Safety["bounds"] {
		ex.oblig(st, "safety", "index-in-range", f, pos, nil)
		return
	}
	ex.assume(st, f)
}

func (ex *Exec) strAt(s, i string) string {
	if ex.c.theoryStr {
		return "(str.to_code (str.at " + s + " " + i + "))"
	}
	return "(strat " + s + " " + i + ")"
}

func (ex *Exec) mapStore(st *State, mt *types.Map, ref, k, v string) {
	md, mv := ex.mapComps(mt)
	ex.logWrite(md, ref)
	ex.logWrite(mv, ref)
	d, w := ex.get(st, md), ex.get(st, mv)
	k = ex.nm("mk", ex.c.sort(mt.Key()), k)
	v = ex.nm("mv", ex.c.sort(mt.Elem()), v)
	ex.set(st, md, "(store "+d+" "+ref+" (store (select "+d+" "+ref+") "+k+" true))")
	ex.set(st, mv, "(store "+w+" "+ref+" (store (select "+w+" "+ref+") "+k+" "+v+"))")
}

// storeVal stores v to lv, keeping closures and interior pointers when stored in variables.
func (ex *Exec) storeVal(st *State, lv *LV, v Val) {
	if v.Fn != nil && lv.Ref == "" && len(lv.Path) == 0 && lv.Sl == nil {
		t := ex.fnTerm(v)
		ex.writeLV(st, lv, t)
		return
	}
	if v.Fn != nil {
		ex.writeLV(st, lv, ex.fnTerm(v))
		return
	}
	if v.LV != nil && v.T == "" && !(v.LV.Ref != "" && len(v.LV.Path) == 0) {
		// store of an address of a tracked variable
		k := ex.c.freshConst("addr", "Int")
		ex.c.assert("(> " + k + " 0)")
		ex.addrOf(k, v)
		ex.writeLV(st, lv, k)
		return
	}
	ex.writeLV(st, lv, ex.term(st, v))
}

func (ex *Exec) addrOf(k string, v Val) {
	if ex.fnVals == nil {
		ex.fnVals = map[string]Val{}
	}
	ex.fnVals[k] = v
}

func (ex *Exec) fnTerm(v Val) string {
	if ex.fnVals == nil {
		ex.fnVals = map[string]Val{}
	}
	if len(v.Bind) == 0 {
		t := ex.term(nil, Val{Fn: v.Fn})
		ex.fnVals[t] = v
		return t
	}
	k := ex.c.freshConst("clos", "Int")
	ex.c.assert("(> " + k + " 0)")
	ex.fnVals[k] = v
	return k
}

// fnOf recovers the function behind a value.
func (ex *Exec) fnOf(v Val) (Val, bool) {
	if v.Fn != nil {
		return v, true
	}
	t := v.T
	for i := 0; i < 6; i++ {
		if f, ok := ex.fnVals[t]; ok {
			return f, true
		}
		d, ok := ex.c.defs[t]
		if !ok {
			break
		}
		t = d
	}
	// select of a store chain: (S.f (mk ...)) is not simplified; give up
	return Val{}, false
}

func (fr *Frame) unop(x *ssa.UnOp, st *State) {
	ex := fr.ex
	switch x.Op {
	case token.MUL:
		p := fr.val(st, x.X)
		fr.nonNil(st, p, x.Pos())
		if p.LV == nil {
			// whole-struct load from external struct
			el := x.X.Type().Underlying().(*types.Pointer).Elem()
			if _, ok := el.Underlying().(*types.Struct); ok && ex.c.structOf(el) == nil {
				v := ex.readLV(st, ex.addr(st, p))
				fr.setVal(x, v)
				return
			}
		}
		v := ex.readLV(st, ex.addr(st, p))
		if _, ok := x.Type().Underlying().(*types.Signature); ok {
			if f, ok := ex.fnOf(v); ok {
				f.Typ = x.Type()
				fr.env[x] = f
				return
			}
		}
		if f, ok := ex.fnVals[v.T]; ok && f.LV != nil {
			f.Typ = x.Type()
			fr.env[x] = f
			return
		}
		fr.setVal(x, v)
	case token.NOT:
		fr.setVal(x, Val{T: not(ex.term(st, fr.val(st, x.X)))})
	case token.SUB:
		t := ex.term(st, fr.val(st, x.X))
		if ex.c.sort(x.Type()) == "Float" {
			t = ex.c.freshConst("f", "Float")
		} else {
			t = "(- " + t + ")"
		}
		fr.setVal(x, Val{T: t})
	case token.ARROW:
		fr.recv(x, st)
	default:
		fr.setVal(x, Val{T: ex.c.freshConst("u", ex.c.sort(x.Type()))})
	}
}

func (fr *Frame) binop(x *ssa.BinOp, st *State) string {
	ex := fr.ex
	c := ex.c
	lv, rv := fr.val(st, x.X), fr.val(st, x.Y)
	t := x.X.Type()
	if x.Op == token.EQL || x.Op == token.NEQ {
		var r string
		lc, rc := isNilConst(x.X), isNilConst(x.Y)
		switch {
		case (lc || rc) && isSlice(t):
			o := lv
			if lc {
				o = rv
			}
			n := c.sort(t)
			if lc {
				n = c.sort(x.Y.Type())
			}
			r = "(isnil_" + n + " " + ex.term(st, o) + ")"
		case (lc && rv.LV != nil) || (rc && lv.LV != nil):
			r = "false"
			o := lv
			if lc {
				o = rv
			}
			if o.LV.Ref != "" && len(o.LV.Path) == 0 {
				r = "(= " + o.LV.Ref + " 0)"
			}
		case (lc && rv.Fn != nil) || (rc && lv.Fn != nil):
			r = "false"
		default:
			a, b := ex.term(st, lv), ex.term(st, rv)
			// comparison between an interface and a concrete value
			_, li := x.X.Type().Underlying().(*types.Interface)
			_, ri := x.Y.Type().Underlying().(*types.Interface)
			if li && !ri && !rc {
				b = c.box(x.Y.Type(), b)
			}
			if ri && !li && !lc {
				a = c.box(x.X.Type(), a)
			}
			r = "(= " + a + " " + b + ")"
			if a == b {
				r = "true"
			}
		}
		if x.Op == token.NEQ {
			r = not(r)
		}
		return r
	}
	a, b := ex.term(st, lv), ex.term(st, rv)
	s := c.sort(t)
	switch x.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if s == c.strSort() {
			switch x.Op {
			case token.LSS:
				return c.strlt(a, b)
			case token.GTR:
				return c.strlt(b, a)
			case token.LEQ:
				return not(c.strlt(b, a))
			default:
				return not(c.strlt(a, b))
			}
		}
		if s == "Float" {
			return c.freshConst("fcmp", "Bool")
		}
		return "(" + x.Op.String() + " " + a + " " + b + ")"
	case token.ADD:
		if s == c.strSort() {
			return c.strcat(a, b)
		}
		if s == "Int" {
			return "(+ " + a + " " + b + ")"
		}
	case token.SUB:
		if s == "Int" {
			return "(- " + a + " " + b + ")"
		}
	case token.MUL:
		if s == "Int" {
			return "(* " + a + " " + b + ")"
		}
	case token.QUO, token.REM:
		if s == "Int" {
			ex.assume(st, "(not (= "+b+" 0))")
			q := "(ite (>= " + a + " 0) (div " + a + " " + b + ") (- (div (- " + a + ") " + b + ")))"
			if x.Op == token.QUO {
				return q
			}
			return "(- " + a + " (* " + b + " " + q + "))"
		}
	case token.AND:
		if s == "Bool" {
			return and(a, b)
		}
	case token.OR:
		if s == "Bool" {
			return "(or " + a + " " + b + ")"
		}
	}
	// other arithmetic: uninterpreted but deterministic
	n := "op_" + sanitize(fmt.Sprintf("%d", int(x.Op))) + "_" + sanitize(s)
	c.decl(fmt.Sprintf("(declare-fun %s (%s %s) %s)", n, s, c.sort(x.Y.Type()), c.sort(x.Type())))
	return "(" + n + " " + a + " " + b + ")"
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil && !isStructish(k.Type())
}
func isStructish(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Basic:
		return true
	}
	return false
}
func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func (fr *Frame) lookup(x *ssa.Lookup, st *State) {
	ex := fr.ex
	c := ex.c
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		m := ex.term(st, fr.val(st, x.X))
		k := ex.term(st, fr.val(st, x.Index))
		md, mv := ex.mapComps(mt)
		in := ex.nm("in", "Bool", "(select (select "+ex.get(st, md)+" "+m+") "+k+")")
		raw := "(select (select " + ex.get(st, mv) + " " + m + ") " + k + ")"
		v := ex.nm("lk", c.sort(mt.Elem()), "(ite "+in+" "+raw+" "+c.zero(mt.Elem())+")")
		ex.wf(st, v, mt.Elem())
		val := Val{T: v, Typ: mt.Elem(), Orig: &LV{MapT: mt, MapRef: m, MapKey: k, Typ: mt.Elem()}}
		if x.CommaOk {
			fr.env[x] = Val{Tup: []Val{val, {T: in, Typ: tBool}}, Typ: x.Type()}
			return
		}
		fr.setVal(x, val)
		return
	}
	s := ex.term(st, fr.val(st, x.X))
	i := ex.term(st, fr.val(st, x.Index))
	ex.bounds(st, i, c.strlen(s), x.Pos())
	fr.setVal(x, Val{T: ex.strAt(s, i)})
}

func (fr *Frame) convert(x *ssa.Convert, st *State) {
	ex := fr.ex
	c := ex.c
	v := fr.val(st, x.X)
	to := x.Type().Underlying()
	fs, ts := c.sort(x.X.Type()), c.sort(x.Type())
	if fs == ts && fs != "Float" {
		fr.setVal(x, Val{T: ex.term(st, v)})
		return
	}
	r := ex.convTerm(ex.term(st, v), x.X.Type(), x.Type())
	if k, ok := x.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && isSlice(x.Type()) && mangle(to.(*types.Slice).Elem()) == "uint8" {
		// the bytes of a constant
		b := []byte(constant.StringVal(k.Value))
		n := c.sort(x.Type())
		ex.assume(st, fmt.Sprintf("(= (len_%s %s) %d)", n, r, len(b)))
		for i := 0; i < len(b) && i < 16; i++ {
			ex.assume(st, fmt.Sprintf("(= (select (arr_%s %s) %d) %d)", n, r, i, b[i]))
		}
	}
	fr.setVal(x, Val{T: r})
}

func (ex *Exec) convTerm(t string, fromT, toT types.Type) string {
	c := ex.c
	from, to := fromT.Underlying(), toT.Underlying()
	fs, ts := c.sort(fromT), c.sort(toT)
	n := "conv_" + mangle(from) + "_" + mangle(to)
	c.decl(fmt.Sprintf("(declare-fun %s (%s) %s)", n, fs, ts))
	if isSlice(toT) && fs == c.strSort() {
		// string -> []byte and back
		inv := "conv_" + mangle(to) + "_" + mangle(from)
		c.decl(fmt.Sprintf("(declare-fun %s (%s) %s)", inv, ts, fs))
		c.decl(fmt.Sprintf("(assert (forall ((s %s)) (! (= (%s (%s s)) s) :pattern ((%s s)))))", fs, inv, n, n))
	}
	return "(" + n + " " + t + ")"
}

func (fr *Frame) typeAssert(x *ssa.TypeAssert, st *State) {
	ex := fr.ex
	c := ex.c
	v := ex.term(st, fr.val(st, x.X))
	var ok, r string
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = "(and (not (= " + v + " inil)) " + c.freshConst("impl", "Bool") + ")"
		r = v
		if x.CommaOk {
			ok = ex.nm("ok", "Bool", ok)
			fr.env[x] = Val{Tup: []Val{{T: "(ite " + ok + " " + v + " inil)", Typ: x.AssertedType}, {T: ok, Typ: tBool}}, Typ: x.Type()}
			return
		}
		ex.assume(st, ok)
		fr.setVal(x, Val{T: r})
		return
	}
	ok = fmt.Sprintf("(= (itag %s) %d)", v, c.tagOf(x.AssertedType))
	r = c.unbox(x.AssertedType, v)
	if x.CommaOk {
		ok = ex.nm("ok", "Bool", ok)
		fr.env[x] = Val{Tup: []Val{{T: "(ite " + ok + " " + r + " " + c.zero(x.AssertedType) + ")", Typ: x.AssertedType}, {T: ok, Typ: tBool}}, Typ: x.Type()}
		return
	}
	if ex.con != nil && ex.con.Safety["panics"] {
		ex.oblig(st, "safety", "type-assertion", ok, x.Pos(), nil)
	} else {
		ex.assume(st, ok)
	}
	fr.setVal(x, Val{T: r})
}

func (fr *Frame) slice(x *ssa.Slice, st *State) {
	ex := fr.ex
	c := ex.c
	base := fr.val(st, x.X)
	opt := func(v ssa.Value, d string) string {
		if v == nil {
			return d
		}
		return ex.term(st, fr.val(st, v))
	}
	switch bt := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := bt.Elem().Underlying().(*types.Array)
		arr := ex.readLV(st, ex.addr(st, base)).T
		lo, hi := opt(x.Low, "0"), opt(x.High, fmt.Sprint(at.Len()))
		if lo != "0" {
			unsupported("slice of array with low bound")
		}
		fr.setVal(x, Val{T: ex.newSlice(x.Type(), arr, hi, "true")})
	case *types.Slice:
		n := c.sort(x.X.Type())
		cur := ex.nm("s", n, ex.term(st, base))
		ln := "(len_" + n + " " + cur + ")"
		lo, hi := opt(x.Low, "0"), opt(x.High, ln)
		g := "(and (<= 0 " + lo + ") (<= " + lo + " " + hi + ") (<= " + hi + " " + ln + "))"
		if ex.con != nil && ex.con.Safety["bounds"] {
			ex.oblig(st, "safety", "slice-in-range", g, x.Pos(), nil)
		} else {
			ex.assume(st, g)
		}
		tight := "(and (tight_" + n + " " + cur + ") (= " + hi + " " + ln + "))"
		if lo == "0" {
			fr.setVal(x, Val{T: ex.newSlice(x.Type(), "(arr_"+n+" "+cur+")", hi, tight)})
			return
		}
		el := bt.Elem()
		arr := c.freshConst("sub", "(Array Int "+c.sort(el)+")")
		c.assert("(forall ((k Int)) (! (= (select " + arr + " k) (select (arr_" + n + " " + cur + ") (+ k " + lo + "))) :pattern ((select " + arr + " k))))")
		r := ex.newSlice(x.Type(), arr, "(- "+hi+" "+lo+")", tight)
		// membership of the source in terms of the part is found through the inverse index
		c.assert("(forall ((k Int)) (! (=> (and (<= " + lo + " k) (< k " + hi + ")) (= (select (arr_" + n + " " + cur + ") k) (select (arr_" + n + " " + r + ") (- k " + lo + ")))) :pattern ((select (arr_" + n + " " + cur + ") k))))")
		fr.setVal(x, Val{T: r})
	case *types.Basic:
		s := ex.term(st, base)
		lo, hi := opt(x.Low, "0"), opt(x.High, c.strlen(s))
		g := "(and (<= 0 " + lo + ") (<= " + lo + " " + hi + ") (<= " + hi + " " + c.strlen(s) + "))"
		if ex.con != nil && ex.con.Safety["bounds"] {
			ex.oblig(st, "safety", "slice-in-range", g, x.Pos(), nil)
		} else {
			ex.assume(st, g)
		}
		if c.theoryStr {
			fr.setVal(x, Val{T: "(str.substr " + s + " " + lo + " (- " + hi + " " + lo + "))"})
		} else {
			fr.setVal(x, Val{T: "(substr " + s + " " + lo + " " + hi + ")"})
		}
	default:
		unsupported("slice of %s", x.X.Type())
	}
}

func (fr *Frame) next(x *ssa.Next, st *State) {
	ex := fr.ex
	c := ex.c
	tt := x.Type().(*types.Tuple)
	it := fr.iters[x.Iter]
	ok := c.freshConst("more", "Bool")
	if x.IsString || it == nil || it.comp == "" {
		i := c.freshConst("i", "Int")
		r := c.freshConst("rune", "Int")
		fr.env[x] = Val{Tup: []Val{{T: ok, Typ: tBool}, {T: i, Typ: tInt}, {T: r, Typ: types.Typ[types.Rune]}}, Typ: x.Type()}
		return
	}
	ks := c.sort(it.mt.Key())
	md, mv := ex.mapComps(it.mt)
	vis := ex.get(st, it.comp)
	dom := ex.nm("dom", "(Array "+ks+" Bool)", "(select "+ex.get(st, md)+" "+it.m+")")
	k := c.freshConst("key", ks)
	ex.assume(st, "(=> "+ok+" (and (select "+dom+" "+k+") (not (select "+vis+" "+k+"))))")
	ex.assume(st, "(=> (not "+ok+") (forall ((k "+ks+")) (! (=> (and (select "+dom+" k) (select "+it.dom0+" k)) (select "+vis+" k)) :pattern ((select "+vis+" k)) :pattern ((select "+dom+" k)))))")
	ex.assume(st, "(=> (and (not "+ok+") (= "+dom+" "+it.dom0+") (forall ((k "+ks+")) (! (=> (select "+vis+" k) (select "+dom+" k)) :pattern ((select "+vis+" k))))) (= "+vis+" "+dom+"))")
	v := c.freshConst("elem", c.sort(it.mt.Elem()))
	ex.assume(st, "(=> "+ok+" (= "+v+" (select (select "+ex.get(st, mv)+" "+it.m+") "+k+")))")
	ex.wf(st, v, it.mt.Elem())
	ex.wf(st, k, it.mt.Key())
	ex.set(st, it.comp, "(ite "+ok+" (store "+vis+" "+k+" true) "+vis+")")
	kv, vv := Val{T: k, Typ: it.mt.Key()}, Val{T: v, Typ: it.mt.Elem(), Orig: &LV{MapT: it.mt, MapRef: it.m, MapKey: k, Typ: it.mt.Elem()}}
	fr.env[x] = Val{Tup: []Val{{T: ok, Typ: tBool}, kv, vv}, Typ: tt}
}

func (fr *Frame) runDefers(st *State) {
	ex := fr.ex
	ds := fr.defers
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		// the defer may not have been executed on this path
		s1 := st.clone()
		cond := d.guard
		if d.instr.Block().Dominates(fr.fn.Blocks[0]) || d.instr.Block() == fr.fn.Blocks[0] {
			cond = "true"
		}
		if cond == "true" || cond == st.guard {
			fr.callVals(d.instr, d.call, d.fn, d.args, st, d.instr.Pos())
			continue
		}
		s1.guard = ex.guardAnd(st.guard, cond)
		s2 := st.clone()
		s2.guard = ex.guardAnd(st.guard, not(cond))
		fr.callVals(d.instr, d.call, d.fn, d.args, s1, d.instr.Pos())
		m := ex.mergeStates([]*State{s1, s2})
		*st = *m
	}
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func constString(v ssa.Value) (string, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

var _ = strings.Join

package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type snapshot struct {
	nbody, nfresh int
	stack         int
}

func (ex *Exec) snap() snapshot { return snapshot{len(ex.c.body), ex.c.nfresh, len(ex.stack)} }
func (ex *Exec) rollback(s snapshot) {
	ex.c.body = ex.c.body[:s.nbody:s.nbody]
	ex.c.nfresh = s.nfresh
	ex.stack = ex.stack[:s.stack]
}

type candidate struct {
	name string
	gen  func(st *State, phi map[*ssa.Phi]Val) (string, bool)
}

// resolvePhiVal gives the value a phi has in the given environment.
type phiEnv map[*ssa.Phi]Val

func (fr *Frame) execLoop(L *Loop, ins []edgeIn) (exits []edgeIn, rets []retVal) {
	ex := fr.ex
	c := ex.c
	sts := statesOf(ins)
	ev := fr.phiEdgeVals(L.head, ins)
	phis := phisOf(L.head)
	preV := phiEnv{}
	for _, p := range phis {
		preV[p] = ex.mergeVals(phiName(p)+"0", sts, ev[p], p.Type())
	}
	pre := ex.mergeStates(sts)
	if pre.dead || pre.guard == "false" {
		return nil, nil
	}
	key := fmt.Sprintf("%s#%d", fr.path, L.head.Index)
	if ex.modCache[key] == nil {
		ex.modCache[key] = map[string]bool{}
	}
	mods := ex.modCache[key]
	info := &loopInfo{fr: fr, pre: pre, prePhis: preV}
	// the iterator driving this loop, if it ranges over a map
	for b := range L.blocks {
		inner := false
		for h, l2 := range fr.loops {
			if h != L.head && L.blocks[h] && l2.blocks[b] {
				inner = true
			}
		}
		if inner {
			continue
		}
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				if it := fr.iters[nx.Iter]; it != nil && it.comp != "" {
					info.iter = it.comp
					info.iterT = ex.compType[it.comp]
					info.nextI = nx
				}
			}
		}
	}
	mkHead := func() (*State, phiEnv) {
		h := pre.clone()
		for _, m := range sortedKeys(mods) {
			if _, ok := pre.comps[m]; !ok && isLocalComp(m) && !strings.HasPrefix(m, "SL:") {
				continue
			}
			if strings.HasPrefix(m, "SL:") {
				if _, ok := pre.comps[m]; !ok {
					if !ex.outerSL(m, L, fr) {
						continue
					}
				}
			}
			if m == "next" {
				n := c.freshConst("next", "Int")
				c.assert("(>= " + n + " " + ex.get(pre, ex.next()) + ")")
				h.comps[m] = n
				continue
			}
			h.comps[m] = c.freshConst(m, ex.compSort[m])
			if st, ok := ex.compType[m].(*SetType); ok && strings.HasPrefix(m, "IT:") {
				c.assert(c.fin(st.Elem, h.comps[m]))
			}
			if strings.HasPrefix(m, "MD:") {
				c.assert("(= (select " + h.comps[m] + " 0) " + c.zero(&SetType{ex.compType[m].(*types.Map).Key()}) + ")")
			}
		}
		pv := phiEnv{}
		for _, p := range phis {
			if preV[p].Fn != nil || (preV[p].LV != nil && preV[p].T == "") {
				unsupported("loop-carried address or function value in %s", fr.fn.Name())
			}
			v := Val{T: c.freshConst(phiName(p), c.sort(p.Type())), Typ: p.Type()}
			ex.wfFree(h, v.T, p.Type())
			pv[p] = fr.phiVal(p, v)
		}
		for _, m := range sortedKeys(mods) {
			if v, ok := h.comps[m]; ok && (strings.HasPrefix(m, "A:") || strings.HasPrefix(m, "G:")) {
				ex.wf(h, v, ex.compType[m])
			}
		}
		return h, pv
	}
	run := func(h *State, pv phiEnv) (exs, backs []edgeIn, rs []retVal) {
		for p, v := range pv {
			fr.env[p] = v
		}
		ex.loops = append(ex.loops, info)
		exs, backs, rs = fr.runRegion(L.blocks, []edgeIn{{nil, L.head, h}}, L)
		ex.loops = ex.loops[:len(ex.loops)-1]
		return
	}
	nd := len(fr.defers)
	// 1. discover what the loop modifies
	saveW, saveN := ex.writeLog, ex.noHoud
	var wl map[string]map[string]bool
	mark := 0
	for {
		s := ex.snap()
		ex.spec++
		ex.noHoud = true
		ex.writeLog = map[string]map[string]bool{}
		mark = c.nfresh
		h, pv := mkHead()
		hc := h.clone()
		_, backs, _ := run(h, pv)
		changed := false
		for _, b := range backs {
			for k, v := range b.st.comps {
				hv, ok := hc.comps[k]
				if !ok {
					if isLocalComp(k) && !strings.HasPrefix(k, "SL:") {
						continue
					}
					if strings.HasPrefix(k, "SL:") {
						if !ex.outerSL(k, L, fr) {
							continue
						}
					} else {
						hv = ex.initial(k)
					}
				}
				if v != hv && !mods[k] {
					mods[k] = true
					changed = true
				}
			}
		}
		wl = ex.writeLog
		// expand write references while the definitions are still there
		wl2 := map[string]map[string]bool{}
		for comp, refs := range wl {
			wl2[comp] = map[string]bool{}
			for r := range refs {
				x := ex.expand(r, 0)
				if dependsAfter(x, mark) {
					x = "?"
				}
				wl2[comp][x] = true
			}
		}
		wl = wl2
		ex.spec--
		ex.rollback(s)
		fr.defers = fr.defers[:nd]
		if !changed {
			break
		}
	}
	ex.writeLog, ex.noHoud = saveW, saveN
	if ex.eng.verbose && ex.spec == 0 {
		fmt.Printf("   [%s] modifies %v\n", key, sortedKeys(mods))
	}
	// propagate to the enclosing loop's log
	if ex.writeLog != nil {
		for comp, refs := range wl {
			for r := range refs {
				if r == "?" {
					r = "loop!999999999"
				}
				ex.logWrite(comp, r)
			}
		}
	}
	var alive []*candidate
	if !ex.noHoud {
		cands := fr.candidates(L, info, mods, wl, pre, preV)
		drop := ex.survivors[key]
		if drop == nil {
			drop = map[string]bool{}
			ex.survivors[key] = drop
		}
		for _, cd := range cands {
			if !drop[cd.name] {
				alive = append(alive, cd)
			}
		}
		// entry
		var goals []string
		var ok []*candidate
		for _, cd := range alive {
			t, good := cd.gen(pre, preV)
			if !good {
				drop[cd.name] = true
				continue
			}
			goals = append(goals, t)
			ok = append(ok, cd)
		}
		alive = ok
		res := ex.eng.sol.batch(ex.c, pre.guard, goals)
		alive = nil
		for i, r := range res {
			if r {
				alive = append(alive, ok[i])
			} else {
				drop[ok[i].name] = true
				if ex.eng.verbose && strings.HasPrefix(ok[i].name, "U:") {
					fmt.Printf("   [%s] drop at entry %s\n", key, ok[i].name)
				}
			}
		}
		for round := 0; len(alive) > 0; round++ {
			s := ex.snap()
			ex.spec++
			h, pv := mkHead()
			for _, cd := range alive {
				t, good := cd.gen(h, pv)
				if good {
					ex.assume(h, t)
				}
			}
			_, backs, _ := run(h, pv)
			dropped := false
			if len(backs) > 0 {
				bm, bp := fr.backMerge(L, backs)
				var goals []string
				for _, cd := range alive {
					t, good := cd.gen(bm, bp)
					if !good {
						t = "false"
					}
					goals = append(goals, t)
				}
				res := ex.eng.sol.batch(ex.c, bm.guard, goals)
				var nx []*candidate
				for i, r := range res {
					if r {
						nx = append(nx, alive[i])
					} else {
						dropped = true
						drop[alive[i].name] = true
						if ex.eng.verbose && strings.HasPrefix(alive[i].name, "U:") {
							fmt.Printf("   [%s] drop at step %s (round %d)\n", key, alive[i].name, round)
						}
						if ex.eng.dumpCand != "" && strings.Contains(alive[i].name, ex.eng.dumpCand) {
							ex.eng.sol.dump("/tmp/cand.smt2", ex.c, bm.guard, goals[i])
							ex.eng.sol.dump("/tmp/cand"+sanitize(key)+".smt2", ex.c, bm.guard, goals[i])
						}
					}
				}
				alive = nx
			}
			ex.spec--
			ex.rollback(s)
			fr.defers = fr.defers[:nd]
			if !dropped {
				break
			}
		}
		if ex.spec == 0 {
			ex.invCount += 2 * len(alive)
			for _, cd := range alive {
				ex.invNames[key+" "+cd.name]++
			}
		}
	}
	// final run
	h, pv := mkHead()
	for _, cd := range alive {
		t, good := cd.gen(h, pv)
		if good {
			ex.assume(h, t)
		}
	}
	if ex.eng.verbose && ex.spec == 0 {
		for _, cd := range alive {
			if strings.HasPrefix(cd.name, "U:") {
				fmt.Printf("   [%s] keep %s\n", key, cd.name)
			}
		}
	}
	exits, _, rets = run(h, pv)
	if len(fr.defers) > nd {
		unsupported("defer inside a loop in %s", fr.fn.Name())
	}
	return exits, rets
}

// wfFree: well-formedness of a havoced value (same facts as any value).
func (ex *Exec) wfFree(st *State, t string, typ types.Type) { ex.wf(st, t, typ) }

func isLocalComp(k string) bool {
	return strings.HasPrefix(k, "A:") || strings.HasPrefix(k, "IT:") || strings.HasPrefix(k, "SL:")
}

// outerSL: is this overlay for a register defined outside the loop?
func (ex *Exec) outerSL(k string, L *Loop, fr *Frame) bool {
	p := strings.LastIndex(k, ":")
	path, reg := k[3:p], k[p+1:]
	if path != fr.path {
		// register of an enclosing frame, or of an inlined callee
		return !strings.HasPrefix(path, fr.path+"/")
	}
	for b := range L.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && v.Name() == reg {
				return false
			}
		}
	}
	return true
}

// backMerge merges the back edges of a loop.
func (fr *Frame) backMerge(L *Loop, backs []edgeIn) (*State, phiEnv) {
	ex := fr.ex
	ev := fr.phiEdgeVals(L.head, backs)
	sts := statesOf(backs)
	pe := phiEnv{}
	for _, p := range phisOf(L.head) {
		pe[p] = ex.mergeVals(phiName(p)+"b", sts, ev[p], p.Type())
	}
	return ex.mergeStates(sts), pe
}

// ---------- candidate invariants

type binder struct {
	name string
	typ  types.Type
	mod  bool
	get  func(st *State, pe phiEnv) (Val, bool)
}

func (fr *Frame) localBinders(L *Loop, mods map[string]bool, pre *State) []binder {
	ex := fr.ex
	var bs []binder
	for _, p := range phisOf(L.head) {
		p := p
		bs = append(bs, binder{phiName(p) + "/" + p.Name(), p.Type(), true, func(st *State, pe phiEnv) (Val, bool) {
			v, ok := pe[p]
			return v, ok
		}})
	}
	var names []string
	for k := range pre.comps {
		if strings.HasPrefix(k, "A:") || strings.HasPrefix(k, "SL:") {
			names = append(names, k)
		}
	}
	for k := range mods {
		if strings.HasPrefix(k, "SL:") {
			if _, ok := pre.comps[k]; !ok {
				names = append(names, k)
			}
		}
	}
	sort.Strings(names)
	for _, k := range names {
		k := k
		bs = append(bs, binder{k, ex.compType[k], mods[k], func(st *State, pe phiEnv) (Val, bool) {
			v, ok := st.comps[k]
			if !ok {
				if strings.HasPrefix(k, "SL:") {
					v, ok = ex.slBase[k]
					if !ok {
						return Val{}, false
					}
				} else {
					return Val{}, false
				}
			}
			return Val{T: v, Typ: ex.compType[k]}, true
		}})
	}
	// fields of local structures
	for _, b := range append([]binder{}, bs...) {
		b := b
		stt, ok := b.typ.Underlying().(*types.Struct)
		if !ok || strings.HasPrefix(b.name, "SL:") || strings.HasSuffix(b.name, ":complit") {
			continue
		}
		for i := 0; i < stt.NumFields(); i++ {
			i := i
			ft := stt.Field(i).Type()
			bs = append(bs, binder{b.name + "." + stt.Field(i).Name(), ft, b.mod, func(st *State, pe phiEnv) (Val, bool) {
				v, ok := b.get(st, pe)
				if !ok || v.LV != nil && v.T == "" {
					return Val{}, false
				}
				return Val{T: ex.c.getField(b.typ, ex.term(st, v), i), Typ: ft}, true
			}})
		}
	}
	return bs
}

// mapWritten tells whether the map a binder denotes is (possibly) written in the loop.
func (ex *Exec) mapWritten(b binder, mods map[string]bool, wl map[string]map[string]bool, pre *State, preV phiEnv) bool {
	mt, ok := b.typ.Underlying().(*types.Map)
	if !ok {
		return false
	}
	md, mv := ex.mapComps(mt)
	if !mods[md] && !mods[mv] {
		return false
	}
	v, ok := b.get(pre, preV)
	if !ok || v.T == "" {
		return false
	}
	x := ex.expand(v.T, 0)
	return wl[md]["?"] || wl[md][x] || wl[mv]["?"] || wl[mv][x]
}

func (fr *Frame) fixedBinders(L *Loop) []binder {
	ex := fr.ex
	var bs []binder
	add := func(name string, v Val, t types.Type) {
		if v.T == "" && v.LV == nil || v.Fn != nil || len(v.Tup) > 0 {
			return
		}
		if v.LV != nil && v.LV.Sl != nil {
			return
		}
		v.Typ = t
		bs = append(bs, binder{name, t, false, func(st *State, pe phiEnv) (Val, bool) { return v, true }})
	}
	f := fr
	blk := L.head
	for f != nil {
		for _, p := range f.fn.Params {
			if v, ok := f.env[p]; ok {
				add("param:"+f.path+p.Name(), v, p.Type())
			}
		}
		for i, fv := range f.fn.FreeVars {
			if i < len(f.binds) {
				add("free:"+fv.Name(), f.binds[i], fv.Type())
			}
		}
		for _, b := range f.order {
			if blk != nil && (b == blk || !b.Dominates(blk)) {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				switch in.(type) {
				case *ssa.Alloc: // an object on the heap
					if val, ok := f.env[v]; !ok || val.T == "" {
						continue
					}
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeClosure, *ssa.Range, *ssa.Next, *ssa.BinOp:
					continue
				}
				if val, ok := f.env[v]; ok && len(val.Tup) == 0 {
					add("reg:"+f.path+v.Name(), val, v.Type())
				}
			}
		}
		f = f.caller
		blk = nil
		break // callers' registers: only through parameters
	}
	// callers' parameters (contract parameters are always available by name)
	_ = ex
	return bs
}

func (fr *Frame) candidates(L *Loop, info *loopInfo, mods map[string]bool, wl map[string]map[string]bool, pre *State, preV phiEnv) []*candidate {
	ex := fr.ex
	c := ex.c
	var out []*candidate
	add := func(name string, g func(st *State, pe phiEnv) (string, bool)) {
		out = append(out, &candidate{name, func(st *State, phi map[*ssa.Phi]Val) (string, bool) { return g(st, phi) }})
	}
	// frames
	next0 := ex.get(pre, ex.next())
	for _, comp := range sortedKeys(mods) {
		if !isHeapComp(comp) {
			continue
		}
		comp := comp
		p0 := ex.get(pre, comp)
		cond := "(and (< 0 r) (< r " + next0 + "))"
		if !strings.HasPrefix(comp, "MD:") {
			cond = "(and (< 0 r) (< r " + next0 + "))"
		}
		inv := true
		_ = inv
		cond1 := cond
		for _, r := range sortedKeys(wl[comp]) {
			if r == "?" || strings.HasPrefix(r, "loop!") {
				continue
			}
			cond1 = and(cond1, "(not (= r "+r+"))")
		}
		mk := func(cond, base string) func(st *State, pe phiEnv) (string, bool) {
			return func(st *State, pe phiEnv) (string, bool) {
				cur := ex.get(st, comp)
				if cur == base {
					return "true", true
				}
				return "(forall ((r Int)) (! (=> " + cond + " (= (select " + cur + " r) (select " + base + " r))) :pattern ((select " + cur + " r)) :pattern ((select " + base + " r))))", true
			}
		}
		add("frame "+comp, mk(cond1, p0))
		// objects that existed when the function was entered
		if ex.entry != nil {
			e0 := ex.get(ex.entry, comp)
			n0 := ex.get(ex.entry, ex.next())
			if e0 != p0 || n0 != next0 {
				cond2 := "(and (< 0 r) (< r " + n0 + "))"
				for _, m := range ex.rootMods {
					if m.comp == comp && m.ref != "" {
						cond2 = and(cond2, "(not (= r "+m.ref+"))")
					}
				}
				add("entry-frame "+comp, mk(cond2, e0))
			}
			// objects allocated in this function before the loop keep their content
		}
	}
	// integer counters
	bins := fr.localBinders(L, mods, pre)
	for _, p := range phisOf(L.head) {
		p := p
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		p0 := preV[p].T
		add("lower "+phiName(p)+p.Name(), func(st *State, pe phiEnv) (string, bool) { return "(>= " + pe[p].T + " " + p0 + ")", true })
		add("nonneg1 "+phiName(p)+p.Name(), func(st *State, pe phiEnv) (string, bool) { return "(>= " + pe[p].T + " (- 1))", true })
		for b := range L.blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch bo.Op.String() {
				case "<", "<=", ">", ">=", "!=", "==":
				default:
					continue
				}
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if bt, ok := o.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
						continue
					}
					var term string
					if k, ok := o.(*ssa.Const); ok {
						term = ex.constVal(k.Value, k.Type())
					} else if d, ok := o.(ssa.Instruction); ok && !L.blocks[d.Block()] {
						if v, ok := fr.env[o]; ok {
							term = v.T
						}
					} else if prm, ok := o.(*ssa.Parameter); ok {
						term = fr.env[prm].T
					}
					if term == "" {
						continue
					}
					term2 := term
					add("upper "+phiName(p)+p.Name()+" "+o.Name()+bo.Op.String(), func(st *State, pe phiEnv) (string, bool) {
						return "(<= " + pe[p].T + " " + term2 + ")", true
					})
					add("upper1 "+phiName(p)+p.Name()+" "+o.Name()+bo.Op.String(), func(st *State, pe phiEnv) (string, bool) {
						return "(<= (+ 1 " + pe[p].T + ") " + term2 + ")", true
					})
				}
			}
		}
	}
	// tightness of slices built in the loop
	for _, b := range bins {
		b := b
		if b.mod && isSlice(b.typ) {
			n := c.sort(b.typ)
			add("tight "+b.name, func(st *State, pe phiEnv) (string, bool) {
				v, ok := b.get(st, pe)
				if !ok {
					return "", false
				}
				return "(tight_" + n + " " + ex.term(st, v) + ")", true
			})
			pv, ok := b.get(pre, preV)
			if ok && strings.HasPrefix(b.name, "SL:") {
				t0 := ex.term(pre, pv)
				add("length "+b.name, func(st *State, pe phiEnv) (string, bool) {
					v, ok := b.get(st, pe)
					if !ok {
						return "", false
					}
					return "(= (len_" + n + " " + ex.term(st, v) + ") (len_" + n + " " + t0 + "))", true
				})
			}
		}
	}
	// iterator
	if info.iter != "" {
		ks := c.sort(info.iterT.(*SetType).Elem)
		it := fr.iters[info.nextI.Iter]
		add("visited", func(st *State, pe phiEnv) (string, bool) {
			v := ex.get(st, it.comp)
			return "(forall ((k " + ks + ")) (! (=> (select " + v + " k) (select " + it.dom0 + " k)) :pattern ((select " + v + " k))))", true
		})
	}
	if ex.con == nil {
		return out
	}
	// templates
	all := append([]binder{}, bins...)
	fixed := fr.fixedBinders(L)
	seenT := map[string]bool{}
	var fx []binder
	for i := range all {
		if !all[i].mod {
			all[i].mod = ex.mapWritten(all[i], mods, wl, pre, preV)
		}
		if v, ok := all[i].get(pre, preV); ok && v.T != "" {
			if !mods[strings.SplitN(all[i].name, ".", 2)[0]] && !strings.Contains(all[i].name, "/") {
				seenT[ex.expand(v.T, 0)] = true
			}
		}
	}
	for _, b := range fixed { // a map written in the loop counts as modified
		if v, _ := b.get(pre, preV); v.T != "" {
			x := ex.expand(v.T, 0)
			if seenT[x] {
				continue
			}
			seenT[x] = true
		}
		if ex.mapWritten(b, mods, wl, pre, preV) {
			b.mod = true
			all = append(all, b)
		}
		fx = append(fx, b)
	}
	fixed = fx
	// loop counters: number of completed iterations
	type idxB struct {
		name string
		get  func(st *State, pe phiEnv) (string, bool)
	}
	var idxs []idxB
	for _, p := range phisOf(L.head) {
		p := p
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			idxs = append(idxs, idxB{p.Name(), func(st *State, pe phiEnv) (string, bool) { return pe[p].T, true }})
			idxs = append(idxs, idxB{p.Name() + "+1", func(st *State, pe phiEnv) (string, bool) { return "(+ 1 " + pe[p].T + ")", true }})
		}
	}
	// enclosing loops
	type encl struct {
		vars map[string]Val
		name string
	}
	enclosing := func() []encl {
		base := encl{vars: map[string]Val{}}
		list := []encl{base}
		n := 0
		for i := len(ex.loops) - 1; i >= 0; i-- {
			li := ex.loops[i]
			n++
			sfx := fmt.Sprint(n)
			if li.iter != "" {
				k := Val{}
				if nv, ok := li.fr.env[li.nextI]; ok && len(nv.Tup) > 2 {
					k = nv.Tup[1]
					for j := range list {
						list[j].vars["elem"+sfx] = nv.Tup[2]
					}
				}
				for j := range list {
					if k.T != "" {
						list[j].vars["key"+sfx] = k
					}
				}
			}
			var nl []encl
			any := false
			for p, v := range li.fr.env {
				ph, ok := p.(*ssa.Phi)
				if !ok || li.head == nil || ph.Block() != li.head {
					continue
				}
				if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.T != "" {
					any = true
					for _, t := range []string{v.T, "(+ 1 " + v.T + ")"} {
						for _, l := range list {
							m := map[string]Val{}
							for a, b := range l.vars {
								m[a] = b
							}
							m["IDX"+sfx] = Val{T: t, Typ: tInt}
							suffix := ""
							if strings.HasPrefix(t, "(+") {
								suffix = "+1"
							}
							nl = append(nl, encl{m, l.name + " IDX" + sfx + "=" + ph.Name() + suffix})
						}
					}
				}
			}
			if any {
				list = nl
			}
		}
		return list
	}()
	info.head = L.head
	for ti, tpl := range ex.con.Invs {
		tpl := tpl
		usesIdx := mentions(tpl.E, "IDX")
		usesVis := mentions(tpl.E, "visited")
		if usesVis && info.iter == "" {
			continue
		}
		need := map[string]bool{}
		for d := 1; d <= 4; d++ {
			for _, s := range []string{"IDX", "key", "elem", "visited"} {
				if mentions(tpl.E, fmt.Sprintf("%s%d", s, d)) {
					need[fmt.Sprintf("%s%d", s, d)] = true
				}
			}
		}
		// choose bindings
		var choose func(i int, cur map[string]binder, desc string)
		count := 0
		inst := func(cur map[string]binder, desc string) {
			for _, en := range enclosing {
				miss := false
				for nme := range need {
					if strings.HasPrefix(nme, "visited") {
						continue
					}
					if _, ok := en.vars[nme]; !ok {
						miss = true
					}
				}
				if miss {
					continue
				}
				if !usesAny(need, "IDX") && strings.Contains(en.name, "+1") {
					continue // avoid duplicates
				}
				is := idxs
				if !usesIdx {
					is = []idxB{{"", nil}}
				}
				for _, ix := range is {
					ix := ix
					en := en
					cc := map[string]binder{}
					for k, v := range cur {
						cc[k] = v
					}
					count++
					if count > 400 {
						return
					}
					nm := fmt.Sprintf("U:%d:%s{%s}%s%s", ti, tpl.Name, desc, ix.name, en.name)
					add(nm, func(st *State, pe phiEnv) (res string, good bool) {
						defer func() {
							if r := recover(); r != nil {
								if u, ok := r.(Unsupported); ok {
									ex.warn["template "+tpl.Name+": "+u.Msg] = true
									res, good = "", false
									return
								}
								panic(r)
							}
						}()
						env := ex.rootEnv(st)
						env.pre = pre
						env.preV = map[string]Val{}
						env = &SEnv{vars: map[string]Val{}, st: st, old: ex.entry, pre: pre, preV: env.preV, up: env}
						for n, b := range cc {
							v, ok := b.get(st, pe)
							if !ok {
								return "", false
							}
							env.vars[n] = v
							if pv, ok := b.get(pre, preV); ok {
								env.preV[n] = pv
							}
						}
						for n, v := range en.vars {
							env.vars[n] = v
						}
						if ix.get != nil {
							t, _ := ix.get(st, pe)
							env.vars["IDX"] = Val{T: t, Typ: tInt}
						}
						if info.iter != "" {
							env.vars["visited"] = Val{T: ex.get(st, info.iter), Typ: info.iterT}
						}
						for d, i := 1, len(ex.loops)-1; i >= 0; i, d = i-1, d+1 {
							li := ex.loops[i]
							if li == info {
								d--
								continue
							}
							if li.iter != "" {
								env.vars[fmt.Sprintf("visited%d", d)] = Val{T: ex.get(st, li.iter), Typ: li.iterT}
							}
						}
						return ex.boolTerm(tpl.E, env), true
					})
				}
			}
		}
		choose = func(i int, cur map[string]binder, desc string) {
			if i == len(tpl.Vars) {
				inst(cur, desc)
				return
			}
			v := tpl.Vars[i]
			t := ex.eng.resolveType(v.T)
			pool := all
			if strings.HasPrefix(v.N, "any") {
				pool = append([]binder{}, all...)
				for _, b := range fixed {
					if !b.mod {
						pool = append(pool, b)
					}
				}
			}
			for _, b := range pool {
				if !strings.HasPrefix(v.N, "any") && !b.mod {
					continue
				}
				if canonTypeS(b.typ) != canonTypeS(t) {
					continue
				}
				nc := map[string]binder{}
				dup := false
				for k, x := range cur {
					nc[k] = x
					if x.name == b.name {
						dup = true
					}
				}
				if dup {
					continue
				}
				nc[v.N] = b
				choose(i+1, nc, desc+v.N+"="+b.name+",")
			}
		}
		choose(0, map[string]binder{}, "")
	}
	return out
}

func canonTypeS(t types.Type) string {
	switch x := t.(type) {
	case *SetType:
		return "set[" + canonTypeS(x.Elem) + "]"
	case *GSort:
		return "sort " + x.Name
	}
	return aliasRE.ReplaceAllStringFunc(canonType(t), func(m string) string { return map[string]string{"byte": "uint8", "rune": "int32"}[m] })
}

func usesAny(need map[string]bool, p string) bool {
	for n := range need {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func mentions(e Expr, n string) bool {
	switch x := e.(type) {
	case EId:
		return x.N == n
	case EBin:
		return mentions(x.L, n) || mentions(x.R, n)
	case EUn:
		return mentions(x.X, n)
	case ESel:
		return mentions(x.X, n)
	case EIdx:
		return mentions(x.X, n) || mentions(x.I, n)
	case ECall:
		for _, a := range x.Args {
			if mentions(a, n) {
				return true
			}
		}
	case EIf:
		return mentions(x.C, n) || mentions(x.A, n) || mentions(x.B, n)
	case EQuant:
		for _, t := range x.Trigs {
			for _, a := range t {
				if mentions(a, n) {
					return true
				}
			}
		}
		return mentions(x.Body, n)
	case ELet:
		return mentions(x.V, n) || mentions(x.B, n)
	}
	return false
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	Name       string
	Obls       []*Obl
	Err        string // not within reach: no verdict
	InvCount   int
	InvNames   []string
	Inlined    []string
	Trusted    []string
	Contracts  []string
	Assumed    []string
	Warn       []string
	Mode       string
	ParamTerms []string
}

func newExec(e *Engine, fn *ssa.Function, con *Contract, theory bool) *Exec {
	return &Exec{eng: e, c: newCtx(e, theory), fn: fn, con: con, compSort: map[string]string{}, compType: map[string]types.Type{},
		survivors: map[string]map[string]bool{}, slBase: map[string]string{}, modCache: map[string]map[string]bool{},
		assumed: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, contracts: map[string]bool{}, warn: map[string]bool{},
		invNames: map[string]int{}, capVals: map[string]Val{}, volatile: map[string]bool{}, fnVals: map[string]Val{}}
}

func (ex *Exec) useLemmas(names []string) {
	for _, n := range names {
		l := ex.eng.spec.Lemmas[n]
		if l == nil {
			unsupported("unknown lemma %s", n)
		}
		env := &SEnv{vars: map[string]Val{}, st: &State{guard: "true", comps: map[string]string{}}}
		ex.c.decls = append(ex.c.decls, "(assert "+ex.boolTerm(l.E, env)+")")
		if !l.Proof {
			ex.assumed["axiom "+n] = true
		} else {
			ex.contracts["lemma "+n] = true
		}
	}
}

func (e *Engine) verifyLemma(n string) (fr *FuncResult) {
	l := e.spec.Lemmas[n]
	fr = &FuncResult{Name: "lemma " + n, Mode: l.Mode}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				fr.Err = u.Msg
				return
			}
			fr.Err = fmt.Sprint(r) + "\n" + string(debug.Stack())
		}
	}()
	con := &Contract{Opts: map[string]string{}, Safety: map[string]bool{}, Reveal: map[string]bool{}}
	for _, n := range l.Reveal {
		con.Reveal[n] = true
	}
	ex := newExec(e, nil, con, l.Mode == "theory")
	ex.useLemmas(l.Uses)
	st := &State{guard: "true", comps: map[string]string{}}
	env := &SEnv{vars: map[string]Val{}, st: st}
	ex.oblig(st, "lemma", n, ex.boolTerm(l.E, env), token.NoPos, l.Props)
	for _, o := range ex.obls {
		o.Func = "lemma " + n
	}
	fr.Obls = ex.obls
	fr.Assumed = sortedKeys(ex.assumed)
	fr.Contracts = sortedKeys(ex.contracts)
	return
}

func (e *Engine) verify(con *Contract) (fr *FuncResult) {
	fr = &FuncResult{Name: con.Func, Mode: con.Mode}
	fn := e.fns[con.Func]
	if fn == nil {
		fr.Err = "function " + con.Func + " not found in the current tree"
		return
	}
	ex := newExec(e, fn, con, con.Mode == "theory")
	fill := func() {
		fr.Obls = ex.obls
		fr.InvCount = ex.invCount
		for n, k := range ex.invNames {
			_ = k
			fr.InvNames = append(fr.InvNames, n)
		}
		sort.Strings(fr.InvNames)
		fr.Inlined, fr.Trusted, fr.Contracts = sortedKeys(ex.inlined), sortedKeys(ex.trusted), sortedKeys(ex.contracts)
		fr.Assumed, fr.Warn = sortedKeys(ex.assumed), sortedKeys(ex.warn)
		for _, p := range ex.params {
			if p.T != "" {
				fr.ParamTerms = append(fr.ParamTerms, p.T)
			}
		}
	}
	defer func() {
		fill()
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				fr.Err = u.Msg
				if e.verbose {
					debug.PrintStack()
				}
				return
			}
			fr.Err = fmt.Sprint(r)
			fmt.Println(string(debug.Stack()))
		}
	}()
	ex.useLemmas(con.Lemmas)
	st := &State{guard: "true", comps: map[string]string{}}
	f := ex.newFrame(fn, "", nil)
	f.root = true
	ex.root = f
	if len(con.Params) != len(fn.Params) {
		unsupported("contract of %s names %d parameters, the function has %d", con.Func, len(con.Params), len(fn.Params))
	}
	for i, p := range fn.Params {
		name := "p_" + con.Params[i]
		v := Val{T: ex.c.freshConst(name, ex.c.sort(p.Type())), Typ: p.Type()}
		ex.wf(st, v.T, p.Type())
		if isSlice(p.Type()) {
			v.Reg, v.Fr = p, f
		}
		f.env[p] = v
		ex.params = append(ex.params, v)
	}
	for _, fv := range fn.FreeVars {
		t := fv.Type().(*types.Pointer).Elem()
		n := "A:free:" + fv.Name()
		ex.regComp(n, ex.c.sort(t), t)
		st.comps[n] = ex.c.freshConst("fv_"+fv.Name(), ex.c.sort(t))
		ex.wf(st, st.comps[n], t)
		v := Val{LV: &LV{Comp: n, RootT: t, Typ: t}, Typ: fv.Type()}
		f.binds = append(f.binds, v)
		ex.capVals[fv.Name()] = v
	}
	ex.get(st, ex.next())
	entry := st.clone()
	ex.entry = entry
	for _, cl := range con.Requires {
		ex.c.assert(ex.boolTerm(cl.E, ex.rootEnv(entry)))
	}
	if !con.ModAll {
		ex.rootMods = ex.modRoots(con, ex.rootEnv(entry))
	}
	ex.stack = []*ssa.Function{fn}
	entryLen := len(ex.c.body)
	rets := f.runFunction(st)
	var guards []string
	for _, r := range rets {
		if r.st.dead || r.st.guard == "false" {
			continue
		}
		guards = append(guards, r.st.guard)
		env := ex.rootEnv(r.st)
		for i, n := range con.Results {
			if i < len(r.res) {
				v := r.res[i]
				if v.Fn != nil {
					v.T = ex.fnTerm(v)
				}
				env.vars[n] = v
			}
		}
		for _, gs := range con.Sets {
			comp, _ := ex.ghostComp(gs.N)
			ex.set(r.st, comp, ex.term(r.st, ex.tr(gs.E, env)))
		}
		ex.beforeCall("return", env.vars, r.st, r.pos)
		base := r.st.clone()
		for i, cl := range con.Ensures {
			n := len(ex.c.body)
			_ = n
			env.st = r.st
			gs := ex.goals(cl.E, env, len(con.Haves) > 0, nil, nil)
			for k, g := range gs {
				nm := clauseName(cl, "ensures", i)
				if len(gs) > 1 {
					nm += fmt.Sprintf("#%d", k+1)
				}
				ex.postGoal(base, g, nm, r, cl.Props, entryLen)
			}
		}
		if !con.ModAll && !con.NoFrame {
			ex.frameObls(r.st, entry, r.pos)
		}
	}
	if len(guards) > 0 {
		g := "(or " + strings.Join(guards, " ") + " false)"
		ex.obls = append(ex.obls, &Obl{Name: "reachable-return", Func: con.Func, Kind: "smoke", body: ex.c.body[:len(ex.c.body):len(ex.c.body)], guard: g, goal: "false", ctx: ex.c, Smoke: true})
	}
	return
}

// obligNoAssume records an obligation without using it as a fact later.
func (ex *Exec) obligNoAssume(st *State, kind, name, goal string, pos token.Pos, props []string) {
	ex.oblig(st, kind, name, goal, pos, props)
	// oblig appended an assumption as the last body line; drop it
	if n := len(ex.c.body); n > 0 && goal != "true" && !st.dead && st.guard != "false" {
		ex.c.body = ex.c.body[: n-1 : n-1]
	}
}

func (ex *Exec) frameObls(st, entry *State, pos token.Pos) {
	for _, comp := range sortedComps(st.comps) {
		if comp == "next" || isLocalComp(comp) && !strings.HasPrefix(comp, "A:free:") {
			continue
		}
		cur, was := st.comps[comp], ex.get(entry, comp)
		if cur == was {
			continue
		}
		allowed := false
		cond := "(and (< 0 r) (< r " + ex.get(entry, "next") + "))"
		for _, m := range ex.rootMods {
			if m.comp == comp {
				if m.ref == "" {
					allowed = true
				} else {
					cond = and(cond, "(not (= r "+m.ref+"))")
				}
			}
			if m.lv != nil && m.lv.Comp == comp {
				allowed = true
			}
		}
		if allowed {
			continue
		}
		var goal string
		if isHeapComp(comp) {
			goal = "(forall ((r Int)) (=> " + cond + " (= (select " + cur + " r) (select " + was + " r))))"
		} else {
			goal = "(= " + cur + " " + was + ")"
		}
		ex.obligNoAssume(st, "frame", "unchanged "+comp, goal, pos, nil)
	}
}

func sortedComps(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// postGoal records one conjunct of a postcondition. The contract's "have" facts are proved first, from the
// hypotheses of the conjunct alone (no function body), and then used for the conjunct.
func (ex *Exec) postGoal(base *State, g goalT, nm string, r retVal, props []string, entryLen int) {
	keep := len(ex.c.body)
	imp := func(goal string) string {
		for i := len(g.hyp) - 1; i >= 0; i-- {
			goal = "(=> " + g.hyp[i] + " " + goal + ")"
		}
		return goal
	}
	if g.skol != nil {
		var facts []string
		for hi, h := range ex.con.Haves {
			ok := true
			for _, v := range h.Vars {
				if _, has := g.skol[v.N]; !has {
					ok = false
				}
			}
			if !ok {
				continue
			}
			henv := ex.rootEnv(ex.entry)
			for n, v := range g.skol {
				henv.vars[n] = v
			}
			n0 := len(ex.c.body)
			t := ex.boolTerm(h.E, henv)
			goal := imp(t)
			// the context: declarations up to the entry of the function and the constants of this goal
			body := append([]string{}, ex.c.body[:entryLen]...)
			for _, v := range sortedVals(g.skol) {
				body = append(body, "(declare-const "+v.T+" "+ex.c.sort(v.Typ)+")")
			}
			body = append(body, ex.c.body[n0:]...)
			body = append(body, facts...)
			o := &Obl{Name: fmt.Sprintf("%s/have%d", nm, hi+1), Func: ex.eng.canonFn(ex.fn), Kind: "lemma", guard: "true", goal: goal, ctx: ex.c, Props: props, body: body, Timeout: ex.con.Timeout}
			ex.obls = append(ex.obls, o)
			f := "(assert " + goal + ")"
			facts = append(facts, ex.c.body[n0:]...)
			facts = append(facts, f)
			ex.c.body = append(ex.c.body, f)
		}
	}
	ex.obligNoAssume(base, "postcondition", nm, imp(ex.boolTerm(g.e, g.env)), r.pos, props)
	_ = keep
}

func sortedVals(m map[string]Val) []Val {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []Val
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}

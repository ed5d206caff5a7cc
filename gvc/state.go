package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val struct {
	T    string
	Typ  types.Type
	LV   *LV
	Fn   *ssa.Function
	Bind []Val
	Tup  []Val
	Orig *LV       // where a slice value was loaded from (write-back of element stores)
	Reg  ssa.Value // register holding a slice (element-store overlay)
	Fr   *Frame
}

type pstep struct {
	field int        // >=0: struct field
	st    types.Type // struct type at this point
	idx   string     // array index
}

type LV struct {
	Comp   string
	Ref    string // "" for variable components
	Path   []pstep
	RootT  types.Type
	Typ    types.Type
	Sl     *Val // slice element
	Idx    string
	MapRef string // map element (for write-back only)
	MapKey string
	MapT   *types.Map
}

type State struct {
	track *[]string // (specification functions only) components read, each represented by a bound variable
	guard string
	comps map[string]string
	dead  bool
}

func (s *State) clone() *State {
	n := &State{track: s.track, guard: s.guard, comps: make(map[string]string, len(s.comps)+4), dead: s.dead}
	for k, v := range s.comps {
		n.comps[k] = v
	}
	return n
}

type Obl struct {
	Name    string
	Func    string
	Props   []string
	Kind    string
	Pos     string
	prefix  int
	body    []string
	guard   string
	goal    string
	Status  string
	Solver  string
	TimeMS  int64
	Detail  string
	ctx     *Ctx
	Timeout int
	Smoke   bool
	Hash    string
}

type loopInfo struct {
	iter    string // iterator comp
	iterT   types.Type
	idx     []Val
	key     *Val
	fr      *Frame
	pre     *State
	prePhis map[*ssa.Phi]Val
	nextI   *ssa.Next
	head    *ssa.BasicBlock
}

// Exec verifies one target function.
type Exec struct {
	eng       *Engine
	c         *Ctx
	fn        *ssa.Function
	con       *Contract
	obls      []*Obl
	spec      int // >0: speculative (Houdini) run
	entry     *State
	params    []Val
	frameN    int
	depth     int
	loops     []*loopInfo
	writeLog  map[string]map[string]bool
	compSort  map[string]string
	compType  map[string]types.Type
	survivors map[string]map[string]bool
	slBase    map[string]string
	modCache  map[string]map[string]bool
	noHoud    bool
	curWrites map[string]bool
	assumed   map[string]bool
	inlined   map[string]bool
	trusted   map[string]bool
	contracts map[string]bool
	warn      map[string]bool
	invCount  int
	invNames  map[string]int
	capVals   map[string]Val
	kept      []keptFn
	root      *Frame
	volatile  map[string]bool
	stack     []*ssa.Function
	fnVals    map[string]Val
	quantN    int
	rootMods  []modRoot
	hiddenFn  map[string][]string
}

type Frame struct {
	ex     *Exec
	fn     *ssa.Function
	id     int
	env    map[ssa.Value]Val
	defers []deferred
	loops  map[*ssa.BasicBlock]*Loop
	rpo    map[*ssa.BasicBlock]int
	order  []*ssa.BasicBlock
	root   bool
	binds  []Val
	iters  map[ssa.Value]*iterInfo
	path   string
	caller *Frame
}

type deferred struct {
	guard string
	call  *ssa.CallCommon
	args  []Val
	fn    Val
	instr ssa.Instruction
}

type iterInfo struct {
	comp   string
	m      string // map ref
	mt     *types.Map
	dom0   string
	ch     string
	isChan bool
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type edgeIn struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	st   *State
}
type retVal struct {
	st  *State
	res []Val
	pos token.Pos
}

// ---------- components

func (ex *Exec) sortOfComp(name string) string { return ex.compSort[name] }

func (ex *Exec) regComp(name, sort string, t types.Type) {
	if _, ok := ex.compSort[name]; !ok {
		ex.compSort[name] = sort
		ex.compType[name] = t
	}
}

func (ex *Exec) get(st *State, name string) string {
	if v, ok := st.comps[name]; ok {
		return v
	}
	if st.track != nil && !(strings.HasPrefix(name, "G:") && ex.eng.spec.GlobalMap[name[2:]]) {
		v := "hc" + fmt.Sprint(len(*st.track)) + "_" + sanitize(name)
		*st.track = append(*st.track, name)
		st.comps[name] = v
		return v
	}
	return ex.initial(name)
}

// initial returns the entry value of a persistent component.
func (ex *Exec) initial(name string) string {
	c := ex.c
	if v, ok := c.consts[name]; ok {
		return v
	}
	s, ok := ex.compSort[name]
	if !ok {
		unsupported("internal: component %s has no sort", name)
	}
	n := "C0_" + sanitize(name)
	for _, o := range c.consts {
		if o == n {
			n = n + fmt.Sprintf("_%d", len(c.consts))
		}
	}
	c.consts[name] = n
	c.decls = append(c.decls, "(declare-const "+n+" "+s+")")
	if strings.HasPrefix(name, "MD:") {
		kt := ex.compType[name].(*types.Map)
		c.decls = append(c.decls, "(assert (= (select "+n+" 0) "+c.zero(&SetType{kt.Key()})+"))")
	}
	if name == "next" {
		c.decls = append(c.decls, "(assert (> "+n+" 0))")
	}
	if strings.HasPrefix(name, "G:") && ex.eng.spec.GlobalMap[name[2:]] {
		ex.constMap(name, n)
	}
	return n
}

func (ex *Exec) constMap(name, ref string) {
	ents, mt, ok := ex.eng.evalConstMap(name[2:])
	if !ok {
		ex.warn["constant table "+name[2:]+" could not be evaluated"] = true
		return
	}
	ex.assumed["contents of "+name[2:]+" evaluated from its package initialiser; no other writer found in the module"] = true
	md, mv := ex.mapComps(mt)
	d := ex.initial(md)
	v := ex.initial(mv)
	c := ex.c
	set := c.zero(&SetType{mt.Key()})
	for _, e := range ents {
		k := ex.constTerm(e[0], mt.Key())
		set = "(store " + set + " " + k + " true)"
		c.decls = append(c.decls, "(assert (= (select (select "+v+" "+ref+") "+k+") "+ex.constTerm(e[1], mt.Elem())+"))")
	}
	var ors []string
	for _, e := range ents {
		ors = append(ors, "(= k "+ex.constTerm(e[0], mt.Key())+")")
	}
	c.decls = append(c.decls, "(assert (> "+ref+" 0))")
	c.decls = append(c.decls, "(assert (forall ((k "+c.sort(mt.Key())+")) (! (= (select (select "+d+" "+ref+") k) (or "+strings.Join(ors, " ")+")) :pattern ((select (select "+d+" "+ref+") k)))))")
	// remember: these comps at ref never change (checked by scanning the module)
	ex.eng.constRefs[name] = true
}

func (ex *Exec) set(st *State, name, term string) {
	s := ex.compSort[name]
	st.comps[name] = ex.nm(name, s, term)
}

func (ex *Exec) nm(prefix, sort, term string) string {
	return ex.c.name(prefix, sort, term)
}

func (ex *Exec) heapComp(t types.Type) string {
	n := "H:" + canonType(t)
	ex.regComp(n, "(Array Int "+ex.c.sort(t)+")", t)
	return n
}
func (ex *Exec) xfieldComp(t types.Type, i int) string {
	f := t.Underlying().(*types.Struct).Field(i)
	n := "HX:" + canonType(t) + "." + f.Name()
	ex.regComp(n, "(Array Int "+ex.c.sort(f.Type())+")", f.Type())
	return n
}
func (ex *Exec) mapComps(m *types.Map) (string, string) {
	k := canonType(m.Key()) + "," + canonType(m.Elem())
	d, v := "MD:"+k, "MV:"+k
	ex.regComp(d, "(Array Int (Array "+ex.c.sort(m.Key())+" Bool))", m)
	ex.regComp(v, "(Array Int (Array "+ex.c.sort(m.Key())+" "+ex.c.sort(m.Elem())+"))", m)
	return d, v
}
func (ex *Exec) next() string {
	ex.regComp("next", "Int", tInt)
	return "next"
}
func (ex *Exec) ghostComp(n string) (string, types.Type) {
	g := ex.eng.spec.Ghosts[n]
	if g == nil {
		return "", nil
	}
	t := ex.eng.resolveType(g.T)
	ex.regComp("X:"+n, ex.c.sort(t), t)
	return "X:" + n, t
}

func (ex *Exec) newRef(st *State) string {
	nx := ex.get(st, ex.next())
	r := ex.c.freshConst("ref", "Int")
	ex.c.assert("(= " + r + " " + nx + ")")
	ex.set(st, "next", "(+ "+r+" 1)")
	return r
}

// ---------- facts

func and(a, b string) string {
	if a == "true" || a == "" {
		return b
	}
	if b == "true" || b == "" {
		return a
	}
	return "(and " + a + " " + b + ")"
}
func not(a string) string {
	if a == "true" {
		return "false"
	}
	if a == "false" {
		return "true"
	}
	if strings.HasPrefix(a, "(not ") {
		return a[5 : len(a)-1]
	}
	return "(not " + a + ")"
}
func implies(a, b string) string {
	if a == "true" {
		return b
	}
	if b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func (ex *Exec) assume(st *State, fact string) {
	ex.c.assert(implies(st.guard, fact))
}

func (ex *Exec) wf(st *State, term string, t types.Type) {
	f := ex.wfTerm(st, term, t, 0)
	if f != "true" {
		ex.assume(st, f)
	}
}

func (ex *Exec) wfTerm(st *State, term string, t types.Type, depth int) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return "(and (<= 0 " + term + ") (< " + term + " " + ex.get(st, ex.next()) + "))"
	case *types.Interface:
		return "(< (istamp " + term + ") " + ex.get(st, ex.next()) + ")"
	case *types.Slice:
		n := ex.c.sort(t)
		return "(and (>= (len_" + n + " " + term + ") 0) (tight_" + n + " " + term + "))"
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return "(>= " + term + " 0)"
		}
	case *types.Struct:
		if ex.c.structOf(t) == nil || depth > 2 {
			return "true"
		}
		r := "true"
		for i := 0; i < u.NumFields(); i++ {
			r = and(r, ex.wfTerm(st, ex.c.getField(t, term, i), u.Field(i).Type(), depth+1))
		}
		return r
	}
	return "true"
}

// ---------- lvalues

func (ex *Exec) readLV(st *State, lv *LV) Val {
	if lv.Sl != nil {
		s := ex.sliceNow(st, *lv.Sl)
		n := ex.c.sort(lv.Sl.Typ)
		t := "(select (arr_" + n + " " + s + ") " + lv.Idx + ")"
		v := ex.pathRead(t, lv.Path)
		v = ex.nm("ld", ex.c.sort(lv.Typ), v)
		ex.wf(st, v, lv.Typ)
		return Val{T: v, Typ: lv.Typ}
	}
	if lv.MapT != nil {
		_, mv := ex.mapComps(lv.MapT)
		return Val{T: "(select (select " + ex.get(st, mv) + " " + lv.MapRef + ") " + lv.MapKey + ")", Typ: lv.Typ}
	}
	base := ex.get(st, lv.Comp)
	if ex.volatile[lv.Comp] {
		base = ex.c.freshConst("vol", ex.compSort[lv.Comp])
	}
	if lv.Ref != "" {
		base = "(select " + base + " " + lv.Ref + ")"
	}
	v := ex.nm("ld", ex.c.sort(lv.Typ), ex.pathRead(base, lv.Path))
	ex.wf(st, v, lv.Typ)
	o := *lv
	return Val{T: v, Typ: lv.Typ, Orig: &o}
}

func (ex *Exec) pathRead(t string, path []pstep) string {
	for _, p := range path {
		if p.field >= 0 {
			t = ex.c.getField(p.st, t, p.field)
		} else {
			t = "(select " + t + " " + p.idx + ")"
		}
	}
	return t
}

func (ex *Exec) pathWrite(t string, path []pstep, v string) string {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.field >= 0 {
		t = ex.nm("pw", ex.c.sort(p.st), t)
		inner := ex.pathWrite(ex.c.getField(p.st, t, p.field), path[1:], v)
		return ex.c.setField(p.st, t, p.field, inner)
	}
	inner := ex.pathWrite("(select "+t+" "+p.idx+")", path[1:], v)
	return "(store " + t + " " + p.idx + " " + inner + ")"
}

func (ex *Exec) writeLV(st *State, lv *LV, v string) {
	if lv.Sl != nil {
		ex.writeElem(st, lv, v)
		return
	}
	if lv.MapT != nil {
		_, mv := ex.mapComps(lv.MapT)
		cur := ex.get(st, mv)
		ex.logWrite(mv, lv.MapRef)
		ex.set(st, mv, "(store "+cur+" "+lv.MapRef+" (store (select "+cur+" "+lv.MapRef+") "+lv.MapKey+" "+v+"))")
		return
	}
	cur := ex.get(st, lv.Comp)
	if lv.Ref != "" {
		ex.logWrite(lv.Comp, lv.Ref)
		inner := ex.pathWrite("(select "+cur+" "+lv.Ref+")", lv.Path, v)
		ex.set(st, lv.Comp, "(store "+cur+" "+lv.Ref+" "+inner+")")
		return
	}
	ex.set(st, lv.Comp, ex.pathWrite(cur, lv.Path, v))
}

func (ex *Exec) logWrite(comp, ref string) {
	if ex.writeLog == nil {
		return
	}
	if ex.writeLog[comp] == nil {
		ex.writeLog[comp] = map[string]bool{}
	}
	ex.writeLog[comp][ref] = true
}

// slice register overlay
func slComp(v Val) string {
	return "SL:" + v.Fr.path + ":" + v.Reg.Name()
}

func (ex *Exec) sliceNow(st *State, v Val) string {
	if v.Reg != nil {
		if t, ok := st.comps[slComp(v)]; ok {
			return t
		}
	}
	return v.T
}

func (ex *Exec) writeElem(st *State, lv *LV, v string) {
	s := *lv.Sl
	if s.Reg == nil {
		unsupported("element store through an untracked slice")
	}
	switch s.Reg.(type) {
	case *ssa.Parameter, *ssa.Phi, *ssa.FreeVar:
		if !s.Fr.root || !ex.con.Inline["elemwrites"] {
			unsupported("element store through slice %s whose backing array may be shared (%s)", s.Reg.Name(), s.Fr.fn.Name())
		}
	}
	cur := ex.sliceNow(st, s)
	n := ex.c.sort(s.Typ)
	el := s.Typ.Underlying().(*types.Slice).Elem()
	inner := v
	if len(lv.Path) > 0 {
		inner = ex.pathWrite("(select (arr_"+n+" "+cur+") "+lv.Idx+")", lv.Path, v)
	}
	inner = ex.nm("el", ex.c.sort(el), inner)
	ns := ex.newSlice(s.Typ, "(store (arr_"+n+" "+cur+") "+lv.Idx+" "+inner+")", "(len_"+n+" "+cur+")", "(tight_"+n+" "+cur+")")
	name := slComp(s)
	ex.regComp(name, n, s.Typ)
	if _, ok := ex.slBase[name]; !ok {
		ex.slBase[name] = s.T
	}
	if _, ok := st.comps[name]; !ok {
		ex.slBase[name] = s.T
	}
	st.comps[name] = ns
	if s.Orig != nil {
		ex.writeLV(st, s.Orig, ns)
	}
}

// newSlice makes a named slice constant.
func (ex *Exec) newSlice(t types.Type, arr, ln, tight string) string {
	n := ex.c.sort(t)
	k := ex.c.freshConst("sl", n)
	ex.c.assert("(= (arr_" + n + " " + k + ") " + arr + ")")
	if strings.HasPrefix(ln, "(len_") || strings.Trim(ln, "0123456789") == "" {
		ex.c.assert("(= (len_" + n + " " + k + ") " + ln + ")")
	} else { // the defining fact must be satisfiable also where the path condition is false
		ex.c.assert("(=> (>= " + ln + " 0) (= (len_" + n + " " + k + ") " + ln + "))")
	}
	ex.c.assert("(= (tight_" + n + " " + k + ") " + tight + ")")
	return k
}

// ---------- merging

func (ex *Exec) mergeStates(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if s != nil && !s.dead && s.guard != "false" {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return &State{guard: "false", comps: map[string]string{}, dead: true}
	}
	if len(live) == 1 {
		return live[0].clone()
	}
	var gs []string
	for _, s := range live {
		gs = append(gs, s.guard)
	}
	g := ex.c.fresh("g")
	ex.c.body = append(ex.c.body, "(define-fun "+g+" () Bool (or "+strings.Join(gs, " ")+"))")
	ex.c.defs[g] = "(or " + strings.Join(gs, " ") + ")"
	out := &State{guard: g, comps: map[string]string{}}
	keys := map[string]bool{}
	for _, s := range live {
		for k := range s.comps {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		local := strings.HasPrefix(k, "A:") || strings.HasPrefix(k, "IT:") || strings.HasPrefix(k, "SL:")
		same := true
		missing := false
		var first string
		for i, s := range live {
			v, ok := s.comps[k]
			if !ok {
				if local {
					missing = true
					break
				}
				v = ex.initial(k)
			}
			if i == 0 {
				first = v
			} else if v != first {
				same = false
			}
		}
		if missing {
			if strings.HasPrefix(k, "SL:") {
				// overlay exists on some paths only: fall back to a merge with the register value is not possible here
				st := ex.mergeOverlay(live, k)
				if st != "" {
					out.comps[k] = st
				}
			}
			continue
		}
		if same {
			out.comps[k] = first
			continue
		}
		n := ex.c.freshConst(k, ex.compSort[k])
		for _, s := range live {
			v, ok := s.comps[k]
			if !ok {
				v = ex.initial(k)
			}
			ex.c.assert("(=> " + s.guard + " (= " + n + " " + v + "))")
		}
		out.comps[k] = n
	}
	return out
}

func (ex *Exec) mergeOverlay(live []*State, k string) string {
	base, ok := ex.slBase[k]
	if !ok {
		return ""
	}
	n := ex.c.freshConst(k, ex.compSort[k])
	for _, s := range live {
		v, ok := s.comps[k]
		if !ok {
			v = base
		}
		ex.c.assert("(=> " + s.guard + " (= " + n + " " + v + "))")
	}
	return n
}

func (ex *Exec) mergeVals(prefix string, sts []*State, vs []Val, t types.Type) Val {
	var ls []*State
	var lv []Val
	for i, s := range sts {
		if s != nil && !s.dead && s.guard != "false" {
			ls = append(ls, s)
			lv = append(lv, vs[i])
		}
	}
	if len(lv) == 0 {
		return Val{T: ex.c.freshConst("dead", ex.c.sort(t)), Typ: t}
	}
	if len(lv) == 1 {
		return lv[0]
	}
	same := true
	for _, v := range lv[1:] {
		if v.T != lv[0].T || v.LV != lv[0].LV || v.Fn != lv[0].Fn {
			same = false
		}
	}
	if same && len(lv[0].Tup) == 0 {
		return lv[0]
	}
	if _, ok := t.(*types.Tuple); ok {
		unsupported("merge of tuples")
	}
	n := ex.c.freshConst(prefix, ex.c.sort(t))
	for i, s := range ls {
		ex.c.assert("(=> " + s.guard + " (= " + n + " " + ex.term(s, lv[i]) + "))")
	}
	return Val{T: n, Typ: t}
}

// term forces a value to an SMT term.
func (ex *Exec) term(st *State, v Val) string {
	if v.LV != nil && v.T == "" {
		lv := v.LV
		if lv.Ref != "" && len(lv.Path) == 0 && strings.HasPrefix(lv.Comp, "H:") {
			return lv.Ref
		}
		// an address of a variable, used only as an opaque value
		unsupported("address of %s used as a value", lv.Comp)
	}
	if v.Fn != nil && v.T == "" {
		n := "fn_" + sanitize(v.Fn.String())
		ex.c.decl("(declare-const " + n + " Int)")
		ex.c.decl("(assert (> " + n + " 0))")
		return n
	}
	if v.Reg != nil {
		return ex.sliceNow(st, v)
	}
	if v.T == "" {
		unsupported("value without a term (%v)", v.Typ)
	}
	return v.T
}

func (ex *Exec) oblig(st *State, kind, name string, goal string, pos token.Pos, props []string) {
	if ex.spec > 0 {
		// still usable as an assumption afterwards
		ex.assume(st, goal)
		return
	}
	if st.dead || st.guard == "false" {
		return
	}
	o := &Obl{Name: name, Func: ex.eng.canonFn(ex.fn), Kind: kind, guard: st.guard, goal: goal, prefix: len(ex.c.body), ctx: ex.c, Props: props}
	if pos.IsValid() {
		p := ex.eng.prog.Fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, ex.eng.repo+"/"), p.Line)
	}
	o.Timeout = ex.con.Timeout
	if goal == "true" {
		o.Status = "proved"
		o.Solver = "simplifier"
	}
	o.body = ex.c.body[:len(ex.c.body):len(ex.c.body)]
	ex.obls = append(ex.obls, o)
	ex.assume(st, goal)
}

// ---------- dependency of terms on constants created after a mark

var numRe = regexp.MustCompile(`[A-Za-z0-9_]+!([0-9]+)`)

func (ex *Exec) expand(t string, depth int) string {
	budget := 6000
	return ex.expandB(t, depth, &budget)
}

func (ex *Exec) expandB(t string, depth int, budget *int) string {
	if depth > 12 || len(t) > 4000 || *budget < 0 {
		return t
	}
	*budget -= len(t)
	return numRe.ReplaceAllStringFunc(t, func(n string) string {
		if d, ok := ex.c.defs[n]; ok {
			return ex.expandB(d, depth+1, budget)
		}
		return n
	})
}

func dependsAfter(t string, mark int) bool {
	for _, m := range numRe.FindAllStringSubmatch(t, -1) {
		var k int
		fmt.Sscan(m[1], &k)
		if k > mark {
			return true
		}
	}
	return false
}

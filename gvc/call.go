package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call executes a call instruction.
func (fr *Frame) call(in ssa.Instruction, cc *ssa.CallCommon, st *State, pos token.Pos) []Val {
	var fn Val
	if !cc.IsInvoke() {
		if _, isB := cc.Value.(*ssa.Builtin); !isB {
			fn = fr.val(st, cc.Value)
		}
	} else {
		fn = fr.val(st, cc.Value)
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, fr.val(st, a))
	}
	return fr.callVals(in, cc, fn, args, st, pos)
}

func resultTypes(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

func (ex *Exec) arbResults(st *State, sig *types.Signature, name string) []Val {
	var rs []Val
	for _, t := range resultTypes(sig) {
		rs = append(rs, ex.arb(st, t, "r_"+name))
	}
	return rs
}

func (ex *Exec) arb(st *State, t types.Type, name string) Val {
	v := ex.c.freshConst(name, ex.c.sort(t))
	ex.wf(st, v, t)
	return Val{T: v, Typ: t}
}

func (fr *Frame) callVals(in ssa.Instruction, cc *ssa.CallCommon, fn Val, args []Val, st *State, pos token.Pos) []Val {
	ex := fr.ex
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return fr.builtin(b, cc, args, st, pos)
	}
	sig := cc.Signature()
	if cc.IsInvoke() {
		rt := cc.Value.Type()
		key := "(" + ex.eng.canonStr(types.TypeString(rt, nil)) + ")." + cc.Method.Name()
		if _, ok := rt.Underlying().(*types.Interface); ok && types.TypeString(rt, nil) == "error" {
			key = "(error)." + cc.Method.Name()
		}
		recv := fn
		if con := ex.eng.spec.Contracts[key]; con != nil {
			return fr.contractCall(in, con, nil, sig, append([]Val{recv}, args...), recv.Typ, st, pos)
		}
		if ex.eng.isExit(key) {
			return fr.exitCall(st, sig, pos)
		}
		if ex.eng.isIgnored(key) {
			return ex.arbResults(st, sig, cc.Method.Name())
		}
		return fr.unknownCall(in, cc, key, args, st)
	}
	f := cc.StaticCallee()
	var binds []Val
	if f == nil {
		v, ok := ex.fnOf(fn)
		if !ok {
			// unknown function value: contract by the type of the value, if any
			key := "dyncall"
			if con := ex.eng.spec.Contracts[key+":"+ex.eng.canonFn(fr.fn)]; con != nil {
				return fr.contractCall(in, con, nil, sig, args, nil, st, pos)
			}
			if ex.con != nil && ex.con.Opts["dyncall"] == "pure" {
				ex.assumed["calls through function values in "+ex.eng.canonFn(fr.fn)+" have no effect on the verified state"] = true
				return ex.arbResults(st, sig, "dyn")
			}
			unsupported("call through an unknown function value in %s", fr.fn.Name())
		}
		f, binds = v.Fn, v.Bind
	} else if len(fn.Bind) > 0 {
		binds = fn.Bind
	}
	return fr.callFn(in, cc, f, binds, args, st, pos)
}

func (fr *Frame) callFn(in ssa.Instruction, cc *ssa.CallCommon, f *ssa.Function, binds []Val, args []Val, st *State, pos token.Pos) []Val {
	ex := fr.ex
	sig := f.Signature
	name := ex.eng.canonFn(f)
	if ex.eng.isExit(name) {
		return fr.exitCall(st, sig, pos)
	}
	if r, ok := fr.intrinsic(in, cc, name, args, st); ok {
		return r
	}
	if con := ex.eng.spec.Contracts[name]; con != nil && !(ex.con != nil && ex.con.Inline[name]) {
		return fr.contractCall(in, con, f, sig, args, nil, st, pos)
	}
	if ex.eng.isIgnored(name) {
		return ex.arbResults(st, sig, f.Name())
	}
	if f.Blocks != nil && (ex.eng.fnInModule(f)) {
		for _, s := range ex.stack {
			if s == f {
				unsupported("recursive call of %s without a contract", name)
			}
		}
		if len(ex.stack) > 14 {
			unsupported("inlining too deep at %s", name)
		}
		return fr.inline(in, f, binds, args, st)
	}
	return fr.unknownCall(in, cc, name, args, st)
}

func (fr *Frame) inline(in ssa.Instruction, f *ssa.Function, binds []Val, args []Val, st *State) []Val {
	ex := fr.ex
	ex.inlined[ex.eng.canonFn(f)] = true
	idx := 0
	if in != nil {
		b := in.Block()
		for i, x := range b.Instrs {
			if x == in {
				idx = b.Index*1000 + i
			}
		}
	}
	path := fmt.Sprintf("%s/%d%s", fr.path, idx, sanitize(f.Name()))
	nf := ex.newFrame(f, path, fr)
	nf.binds = binds
	for i, p := range f.Params {
		a := args[i]
		if a.LV == nil && a.Fn == nil && isSlice(p.Type()) && a.Reg == nil {
			a.Reg, a.Fr = p, nf
		}
		nf.env[p] = a
	}
	ex.stack = append(ex.stack, f)
	rets := nf.runFunction(st.clone())
	ex.stack = ex.stack[:len(ex.stack)-1]
	var sts []*State
	for _, r := range rets {
		sts = append(sts, r.st)
	}
	m := ex.mergeStates(sts)
	var out []Val
	for i, t := range resultTypes(f.Signature) {
		var vs []Val
		for _, r := range rets {
			vs = append(vs, r.res[i])
		}
		if len(rets) == 0 {
			out = append(out, Val{T: ex.c.freshConst("dead", ex.c.sort(t)), Typ: t})
			continue
		}
		v := ex.mergeVals("ret_"+f.Name(), sts, vs, t)
		if isSlice(t) && v.Reg != nil {
			// resolve the overlay before leaving the frame
			v = Val{T: ex.sliceNow(m, v), Typ: t, Orig: v.Orig}
		}
		out = append(out, v)
	}
	*st = *m
	return out
}

func (fr *Frame) exitCall(st *State, sig *types.Signature, pos token.Pos) []Val {
	ex := fr.ex
	if ex.con != nil && !st.dead && st.guard != "false" {
		for i, cl := range ex.con.Exits {
			env := ex.rootEnv(st)
			ex.oblig(st, "exits", clauseName(cl, "exits", i), ex.boolTerm(cl.E, env), pos, cl.Props)
		}
	}
	st.dead = true
	st.guard = "false"
	return ex.arbDead(sig)
}

func (ex *Exec) arbDead(sig *types.Signature) []Val {
	var rs []Val
	for _, t := range resultTypes(sig) {
		rs = append(rs, Val{T: ex.c.freshConst("dead", ex.c.sort(t)), Typ: t})
	}
	return rs
}

// unknownCall: arbitrary results; everything reachable through pointer and map arguments may change.
func (fr *Frame) unknownCall(in ssa.Instruction, cc *ssa.CallCommon, name string, args []Val, st *State) []Val {
	ex := fr.ex
	ex.assumed["no contract for "+name+": results arbitrary; memory reachable through its pointer and map arguments arbitrary afterwards; no other effect on the verified state"] = true
	for i, a := range args {
		var sv ssa.Value
		if i < len(cc.Args) {
			sv = cc.Args[i]
		}
		fr.havocArg(a, sv, st, 0)
	}
	if fsWriter(name) {
		for _, g := range ex.eng.spec.World {
			if comp, _ := ex.ghostComp(g); comp != "" {
				ex.set(st, comp, ex.c.freshConst("world", ex.compSort[comp]))
			}
		}
	}
	return ex.arbResults(st, cc.Signature(), lastName(name))
}

var fsWriters = map[string]bool{"Create": true, "CreateTemp": true, "OpenFile": true, "Mkdir": true, "MkdirAll": true, "MkdirTemp": true, "TempDir": true, "TempFile": true,
	"Remove": true, "RemoveAll": true, "Rename": true, "WriteFile": true, "WriteReader": true, "SafeWriteReader": true, "Symlink": true, "SymlinkIfPossible": true, "Link": true,
	"Truncate": true, "Copy": true, "CopyFS": true, "Mknod": true, "Mkfifo": true, "Creat": true, "Unlink": true, "Rmdir": true}

// fsWriter: the external functions that may change what is on the file system.
func fsWriter(name string) bool {
	for _, p := range []string{"os.", "(*os.Root).", "ioutil.", "afero.", "(afero.Fs).", "(*afero.", "(afero.Afero).", "(afero.Linker).", "syscall.", "unix.", "goutils."} {
		if strings.HasPrefix(name, p) {
			return name != "os.TempDir" && fsWriters[lastName(name)]
		}
	}
	return false
}

func lastName(n string) string {
	if i := strings.LastIndexAny(n, "./"); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (fr *Frame) havocArg(a Val, sv ssa.Value, st *State, depth int) {
	ex := fr.ex
	if depth > 2 {
		return
	}
	if mi, ok := sv.(*ssa.MakeInterface); ok {
		fr.havocArg(fr.val(st, mi.X), mi.X, st, depth+1)
		return
	}
	if a.LV != nil {
		ex.writeLV(st, a.LV, ex.c.freshConst("hv", ex.c.sort(a.LV.Typ)))
		return
	}
	if a.Typ == nil {
		return
	}
	if sl, ok := sv.(*ssa.Slice); ok {
		// variadic arguments
		if al, ok := sl.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
			for _, e := range varargElems(sl) {
				if e != nil {
					fr.havocArg(fr.val(st, e), e, st, depth+1)
				}
			}
			return
		}
	}
	switch u := a.Typ.Underlying().(type) {
	case *types.Pointer:
		el := u.Elem()
		if _, isS := el.Underlying().(*types.Struct); isS && ex.c.structOf(el) == nil {
			return // external object: no modelled state except explicit fields
		}
		if a.T == "" {
			return
		}
		comp := ex.heapComp(el)
		ex.logWrite(comp, a.T)
		nv := ex.c.freshConst("hv", ex.c.sort(el))
		ex.wf(st, nv, el)
		ex.set(st, comp, "(store "+ex.get(st, comp)+" "+a.T+" "+nv+")")
	case *types.Map:
		ex.havocMap(st, u, a.T)
	case *types.Signature:
		// a callback may be invoked: its captured variables become arbitrary
		if f, ok := ex.fnOf(a); ok {
			for _, b := range f.Bind {
				if b.LV != nil {
					ex.writeLV(st, b.LV, ex.c.freshConst("hv", ex.c.sort(b.LV.Typ)))
				}
			}
			if eff := ex.eng.effects(f.Fn); len(eff) > 0 {
				for _, e := range sortedKeys(eff) {
					ex.havocComp(st, e)
				}
			}
		}
	}
}

func (ex *Exec) havocComp(st *State, comp string) {
	if s, ok := ex.compSort[comp]; ok {
		st.comps[comp] = ex.c.freshConst(comp, s)
	} else {
		ex.regByName(comp)
		if s, ok := ex.compSort[comp]; ok {
			st.comps[comp] = ex.c.freshConst(comp, s)
		}
	}
}

func (ex *Exec) havocMap(st *State, mt *types.Map, ref string) {
	md, mv := ex.mapComps(mt)
	ex.logWrite(md, ref)
	ex.logWrite(mv, ref)
	ks := ex.c.sort(mt.Key())
	ex.set(st, md, "(store "+ex.get(st, md)+" "+ref+" "+ex.c.freshConst("hd", "(Array "+ks+" Bool)")+")")
	ex.set(st, mv, "(store "+ex.get(st, mv)+" "+ref+" "+ex.c.freshConst("hm", "(Array "+ks+" "+ex.c.sort(mt.Elem())+")")+")")
}

// varargElems returns the element values of a variadic slice literal.
func varargElems(sl *ssa.Slice) []ssa.Value {
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok {
				out[int(k.Int64())] = s.Val
			}
		}
	}
	return out
}

// ---------- builtins

func (fr *Frame) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []Val, st *State, pos token.Pos) []Val {
	ex := fr.ex
	c := ex.c
	switch b.Name() {
	case "len", "cap":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				k := c.freshConst("cap", "Int")
				ex.assume(st, "(>= "+k+" (len_"+c.sort(t)+" "+ex.term(st, args[0])+"))")
				return []Val{{T: k, Typ: tInt}}
			}
			r := ex.nm("len", "Int", "(len_"+c.sort(t)+" "+ex.term(st, args[0])+")")
			return []Val{{T: r, Typ: tInt}}
		case *types.Map:
			md, _ := ex.mapComps(u)
			c.assert(c.fin(u.Key(), "(select "+ex.get(st, md)+" "+ex.term(st, args[0])+")"))
			return []Val{{T: ex.nm("len", "Int", c.card(u.Key(), "(select "+ex.get(st, md)+" "+ex.term(st, args[0])+")")), Typ: tInt}}
		case *types.Basic:
			return []Val{{T: c.strlen(ex.term(st, args[0])), Typ: tInt}}
		case *types.Array:
			return []Val{{T: fmt.Sprint(u.Len()), Typ: tInt}}
		case *types.Chan:
			return []Val{ex.arb(st, tInt, "chlen")}
		}
	case "append":
		return []Val{fr.appendSlices(cc, args, st)}
	case "copy":
		if isSlice(cc.Args[0].Type()) && isSlice(cc.Args[1].Type()) {
			n := c.sort(cc.Args[0].Type())
			d, s := ex.nm("d", n, ex.term(st, args[0])), ex.nm("s", n, ex.term(st, args[1]))
			ld, ls := "(len_"+n+" "+d+")", "(len_"+n+" "+s+")"
			k := ex.nm("ncopy", "Int", "(ite (< "+ld+" "+ls+") "+ld+" "+ls+")")
			arr := c.freshConst("cp", "(Array Int "+c.sort(cc.Args[0].Type().Underlying().(*types.Slice).Elem())+")")
			c.assert("(forall ((k Int)) (! (= (select " + arr + " k) (ite (and (<= 0 k) (< k " + k + ")) (select (arr_" + n + " " + s + ") k) (select (arr_" + n + " " + d + ") k))) :pattern ((select " + arr + " k))))")
			ns := ex.newSlice(cc.Args[0].Type(), arr, ld, "(tight_"+n+" "+d+")")
			ex.writeSlice(st, args[0], ns)
			return []Val{{T: k, Typ: tInt}}
		}
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		m, k := ex.term(st, args[0]), ex.term(st, args[1])
		md, _ := ex.mapComps(mt)
		ex.logWrite(md, m)
		d := ex.get(st, md)
		// delete on a nil map is a no-op: its domain is empty either way
		ex.set(st, md, "(store "+d+" "+m+" (store (select "+d+" "+m+") "+k+" false))")
		return nil
	case "close", "print", "println":
		if b.Name() == "close" {
			fr.chanClose(cc, args, st)
		}
		return nil
	case "recover":
		return []Val{{T: "inil", Typ: tIface}}
	case "min", "max":
		a, bb := ex.term(st, args[0]), ex.term(st, args[1])
		op := "<"
		if b.Name() == "max" {
			op = ">"
		}
		return []Val{{T: "(ite (" + op + " " + a + " " + bb + ") " + a + " " + bb + ")", Typ: args[0].Typ}}
	case "ssa:wrapnilchk":
		return []Val{args[0]}
	}
	unsupported("builtin %s", b.Name())
	return nil
}

// writeSlice changes the elements of a slice value in place.
func (ex *Exec) writeSlice(st *State, s Val, nt string) {
	if s.Reg == nil {
		if s.Orig != nil {
			ex.writeLV(st, s.Orig, nt)
			return
		}
		unsupported("in-place change of an untracked slice")
	}
	name := slComp(s)
	ex.regComp(name, ex.c.sort(s.Typ), s.Typ)
	if _, ok := st.comps[name]; !ok {
		ex.slBase[name] = s.T
	}
	st.comps[name] = nt
	if s.Orig != nil {
		ex.writeLV(st, s.Orig, nt)
	}
}

func (fr *Frame) appendSlices(cc *ssa.CallCommon, args []Val, st *State) Val {
	ex := fr.ex
	c := ex.c
	t := cc.Args[0].Type()
	n := c.sort(t)
	es := c.sort(t.Underlying().(*types.Slice).Elem())
	a := ex.nm("s", n, ex.term(st, args[0]))
	la := "(len_" + n + " " + a + ")"
	if ex.con != nil && ex.con.Opts["alias"] != "off" {
		if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.High != nil {
			// append(s[:i], ...) overwrites the backing array of s
			if src := fr.val(st, sl.X); src.Reg != nil && src.LV == nil {
				hv := c.freshConst("clob", n)
				c.assert("(= (len_" + n + " " + hv + ") (len_" + n + " " + ex.sliceNow(st, src) + "))")
				c.assert("(= (tight_" + n + " " + hv + ") (tight_" + n + " " + ex.sliceNow(st, src) + "))")
				name := slComp(src)
				ex.regComp(name, n, src.Typ)
				if _, ok := st.comps[name]; !ok {
					ex.slBase[name] = src.T
				}
				cur := ex.sliceNow(st, src)
				// elements below the cut are untouched
				c.assert("(forall ((k Int)) (! (=> (and (<= 0 k) (< k " + la + ")) (= (select (arr_" + n + " " + hv + ") k) (select (arr_" + n + " " + cur + ") k))) :pattern ((select (arr_" + n + " " + hv + ") k))))")
				defer func() { st.comps[name] = hv }()
			}
		}
	}
	// literal varargs: explicit stores
	if sl, ok := cc.Args[1].(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
			elems := varargElems(sl)
			arr := "(arr_" + n + " " + a + ")"
			for i, e := range elems {
				if e == nil {
					arr = ""
					break
				}
				v := fr.val(st, e)
				vt := ""
				if v.Fn != nil {
					vt = ex.fnTerm(v)
				} else {
					vt = ex.term(st, v)
				}
				idx := la
				if i > 0 {
					idx = fmt.Sprintf("(+ %s %d)", la, i)
				}
				arr = "(store " + arr + " " + idx + " " + ex.nm("el", es, vt) + ")"
			}
			if arr != "" {
				r := ex.newSlice(t, arr, fmt.Sprintf("(+ %s %d)", la, len(elems)), "true")
				ex.membAppend(r, a, n, es)
				for i := range elems {
					c.assert(fmt.Sprintf("(memb_%s %s (select (arr_%s %s) (+ %s %d)))", n, r, n, r, la, i))
				}
				return Val{T: r, Typ: t}
			}
		}
	}
	if isSlice(cc.Args[1].Type()) {
		b := ex.nm("s", n, ex.term(st, args[1]))
		lb := "(len_" + n + " " + b + ")"
		arr := c.freshConst("app", "(Array Int "+es+")")
		c.assert("(forall ((k Int)) (! (= (select " + arr + " k) (ite (< k " + la + ") (select (arr_" + n + " " + a + ") k) (select (arr_" + n + " " + b + ") (- k " + la + ")))) :pattern ((select " + arr + " k))))")
		r := ex.newSlice(t, arr, "(+ "+la+" "+lb+")", "true")
		ex.membAppend(r, a, n, es)
		c.assert("(forall ((x " + es + ")) (! (= (memb_" + n + " " + r + " x) (or (memb_" + n + " " + a + " x) (memb_" + n + " " + b + " x))) :pattern ((memb_" + n + " " + r + " x)) :pattern ((memb_" + n + " " + b + " x))))")
		return Val{T: r, Typ: t}
	}
	unsupported("append of %s", cc.Args[1].Type())
	return Val{}
}

// membAppend: members of a stay members of r (membership is defined by the
// index axioms; this instance only helps the solver's triggers).
func (ex *Exec) membAppend(r, a, n, es string) {
	ex.c.assert("(forall ((x " + es + ")) (! (=> (memb_" + n + " " + a + " x) (memb_" + n + " " + r + " x)) :pattern ((memb_" + n + " " + a + " x)) :pattern ((memb_" + n + " " + r + " x))))")
}

// ---------- intrinsics

var verbRe = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]+)?[a-zA-Z%]`)

func (fr *Frame) intrinsic(in ssa.Instruction, cc *ssa.CallCommon, name string, args []Val, st *State) ([]Val, bool) {
	ex := fr.ex
	c := ex.c
	switch name {
	case "fmt.Sprintf":
		if len(cc.Args) != 2 {
			return nil, false
		}
		f, ok := constString(cc.Args[0])
		if !ok {
			return nil, false
		}
		var elems []ssa.Value
		if sl, ok := cc.Args[1].(*ssa.Slice); ok {
			elems = varargElems(sl)
		} else if k, ok := cc.Args[1].(*ssa.Const); !ok || k.Value != nil {
			return nil, false
		}
		return []Val{{T: fr.sprintf(f, elems, st), Typ: tString}}, true
	case "strconv.Itoa":
		return []Val{{T: c.itoa(ex.term(st, args[0])), Typ: tString}}, true
	}
	return nil, false
}

func (c *Ctx) itoa(t string) string { return "(itoa " + t + ")" }

func (fr *Frame) sprintf(f string, elems []ssa.Value, st *State) string {
	ex := fr.ex
	c := ex.c
	var parts []string
	last, k := 0, 0
	for _, m := range verbRe.FindAllStringIndex(f, -1) {
		if m[0] > last {
			parts = append(parts, c.strLit(f[last:m[0]]))
		}
		v := f[m[0]:m[1]]
		last = m[1]
		if v == "%%" {
			parts = append(parts, c.strLit("%"))
			continue
		}
		if k >= len(elems) || elems[k] == nil {
			parts = append(parts, c.freshConst("fmt", c.strSort()))
			k++
			continue
		}
		parts = append(parts, fr.fmtArg(v, elems[k], st))
		k++
	}
	if last < len(f) {
		parts = append(parts, c.strLit(f[last:]))
	}
	t := c.strLit("")
	for i, p := range parts {
		if i == 0 {
			t = p
		} else {
			t = c.strcat(t, p)
		}
	}
	return ex.nm("fmt", c.strSort(), t)
}

func (fr *Frame) fmtArg(verb string, e ssa.Value, st *State) string {
	ex := fr.ex
	c := ex.c
	if mi, ok := e.(*ssa.MakeInterface); ok {
		t := mi.X.Type()
		hasStr := types.NewMethodSet(t).Lookup(nil, "String") != nil || types.NewMethodSet(t).Lookup(nil, "Error") != nil
		if b, ok := t.Underlying().(*types.Basic); ok && !hasStr {
			v := fr.val(st, mi.X)
			if b.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v") {
				return ex.term(st, v)
			}
			if b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v") {
				return c.itoa(ex.term(st, v))
			}
		}
	}
	n := "fmt_" + sanitize(strings.Replace(verb, "%", "v", 1))
	c.decl("(declare-fun " + n + " (Iface) " + c.strSort() + ")")
	return "(" + n + " " + ex.term(st, fr.val(st, e)) + ")"
}

func wild(m map[string]bool, n string) bool {
	if m[n] {
		return true
	}
	for k := range m {
		if strings.HasSuffix(k, "*") && strings.HasPrefix(n, k[:len(k)-1]) {
			return true
		}
	}
	return false
}
func (e *Engine) isExit(n string) bool    { return wild(e.spec.Exit, n) }
func (e *Engine) isIgnored(n string) bool { return wild(e.spec.Ignored, n) }

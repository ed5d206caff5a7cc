package main

// SMT sorts and declarations for Go types.

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

// Spec-only types.
type SetType struct{ Elem types.Type }    // mathematical set
func (t *SetType) Underlying() types.Type { return t }
func (t *SetType) String() string         { return "set[" + t.Elem.String() + "]" }

type FMapType struct{ Key, Val types.Type } // total mathematical map
func (t *FMapType) Underlying() types.Type  { return t }
func (t *FMapType) String() string {
	return "fmap[" + t.Key.String() + "]" + t.Val.String()
}

type GSort struct{ Name string }        // uninterpreted spec sort
func (t *GSort) Underlying() types.Type { return t }
func (t *GSort) String() string         { return t.Name }

// Opaque ref type used in specs ("ref")
var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tString = types.Typ[types.String]
var tRef = types.Typ[types.UnsafePointer]
var tIface types.Type = types.NewInterfaceType(nil, nil)
var tError = types.Universe.Lookup("error").Type()

type Unsupported struct{ Msg string }

func unsupported(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

// Ctx is the SMT context of one verification target.
type Ctx struct {
	eng        *Engine
	theoryStr  bool
	decls      []string
	declSet    map[string]bool
	axiomsDone map[string]bool
	body       []string // asserts and define-funs in program order
	nfresh     int
	strLits    map[string]string
	strOrder   []string
	tags       map[string]int
	nonnull    map[string]bool
	assumes    map[string]bool // textual log of assumptions relied upon
	fmtFuncs   map[string]int
	ordUsed    bool
	consts     map[string]string
	catParts   map[string][]string
	defs       map[string]string
}

func newCtx(e *Engine, theory bool) *Ctx {
	c := &Ctx{eng: e, theoryStr: theory, declSet: map[string]bool{}, axiomsDone: map[string]bool{}, strLits: map[string]string{},
		tags: map[string]int{}, assumes: map[string]bool{}, fmtFuncs: map[string]int{}, consts: map[string]string{}, catParts: map[string][]string{}, defs: map[string]string{}}
	c.decl("(declare-sort Iface 0)")
	c.decl("(declare-sort Float 0)")
	c.decl("(declare-fun inil () Iface)")
	c.decl("(declare-fun itag (Iface) Int)")
	c.decl("(declare-fun istamp (Iface) Int)")
	c.decl("(assert (= (itag inil) 0))")
	c.decl("(assert (= (istamp inil) 0))")
	if !theory {
		c.decl("(declare-sort Str 0)")
		c.decl("(declare-fun strcat (Str Str) Str)")
		c.decl("(declare-fun strlen (Str) Int)")
		c.decl("(assert (forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s)))))")
		c.decl("(declare-fun strat (Str Int) Int)")
		c.decl("(declare-fun substr (Str Int Int) Str)")
		e0 := c.strLit("")
		c.decl("(assert (forall ((s Str)) (! (= (= (strlen s) 0) (= s " + e0 + ")) :pattern ((strlen s)))))")
		c.decl("(assert (forall ((s Str)) (! (= (strcat s " + e0 + ") s) :pattern ((strcat s " + e0 + ")))))")
		c.decl("(assert (forall ((s Str)) (! (= (strcat " + e0 + " s) s) :pattern ((strcat " + e0 + " s)))))")
		c.decl("(assert (forall ((a Str) (b Str)) (! (= (strlen (strcat a b)) (+ (strlen a) (strlen b))) :pattern ((strcat a b)))))")
	}
	c.decl("(declare-fun itoa (Int) " + c.strSort() + ")")
	if !theory {
		c.decl("(assert (forall ((i Int) (j Int)) (! (=> (= (itoa i) (itoa j)) (= i j)) :pattern ((itoa i) (itoa j)))))")
	}
	return c
}

func (c *Ctx) strSort() string {
	if c.theoryStr {
		return "String"
	}
	return "Str"
}

func (c *Ctx) decl(s string) {
	if !c.declSet[s] {
		c.declSet[s] = true
		c.decls = append(c.decls, s)
	}
}

func (c *Ctx) fresh(prefix string) string {
	c.nfresh++
	p := sanitize(prefix)
	if len(p) > 24 {
		p = p[len(p)-24:]
		if p[0] >= '0' && p[0] <= '9' {
			p = "v" + p
		}
	}
	n := fmt.Sprintf("%s!%d", p, c.nfresh)
	delete(c.catParts, n)
	delete(c.defs, n)
	return n
}

var sanRe = regexp.MustCompile(`[^A-Za-z0-9_]+`)

func sanitize(s string) string {
	r := sanRe.ReplaceAllString(s, "_")
	if r == "" {
		r = "x"
	}
	return r
}

// freshConst declares a fresh constant of the given sort.
func (c *Ctx) freshConst(prefix, sort string) string {
	n := c.fresh(prefix)
	c.body = append(c.body, "(declare-const "+n+" "+sort+")")
	return n
}

// name gives a long term a name.
func (c *Ctx) name(prefix, sort, term string) string {
	if len(term) < 48 {
		return term
	}
	n := c.fresh(prefix)
	c.body = append(c.body, "(define-fun "+n+" () "+sort+" "+term+")")
	c.defs[n] = term
	if p, ok := c.catParts[term]; ok {
		c.catParts[n] = p
	}
	return n
}

func (c *Ctx) assert(t string) {
	if t != "true" {
		c.body = append(c.body, "(assert "+t+")")
	}
}

func smtEscape(s string) string {
	var b strings.Builder
	for _, r := range []byte(s) {
		if r == '"' {
			b.WriteString("\"\"")
		} else if r < 32 || r > 126 || r == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", r)
		} else {
			b.WriteByte(r)
		}
	}
	return b.String()
}

func (c *Ctx) strLit(s string) string {
	if c.theoryStr {
		return "\"" + smtEscape(s) + "\""
	}
	if n, ok := c.strLits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit%d_%s", len(c.strLits), sanitize(s))
	if len(n) > 30 {
		n = n[:30]
	}
	c.strLits[s] = n
	c.decl("(declare-const " + n + " Str)")
	c.decl(fmt.Sprintf("(assert (= (strlen %s) %d))", n, len(s)))
	c.decl("(declare-fun litcode (Str) Int)")
	c.decl(fmt.Sprintf("(assert (= (litcode %s) %d))", n, len(c.strLits)))
	c.strOrder = append(c.strOrder, s)
	return n
}

// byte and rune are other names of uint8 and int32
var aliasRE = regexp.MustCompile(`\b(byte|rune)\b`)

func mangle(t types.Type) string {
	s := aliasRE.ReplaceAllStringFunc(types.TypeString(t, func(p *types.Package) string { return p.Name() }), func(m string) string { return map[string]string{"byte": "uint8", "rune": "int32"}[m] })
	if len(s) > 60 {
		s = fmt.Sprintf("%s_%x", s[:40], hashStr(s))
	}
	s = strings.NewReplacer("[]", "Sl_", "*", "P_", "map[", "Map_", "]", "_").Replace(s)
	return sanitize(s)
}

func hashStr(s string) uint32 {
	var h uint32 = 2166136261
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

func (c *Ctx) isModuleType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return false
		}
		return c.eng.inModule(n.Obj().Pkg())
	}
	return false
}

// structInfo returns the struct type if t is represented as a datatype.
func (c *Ctx) structOf(t types.Type) *types.Struct {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && !c.eng.inModule(n.Obj().Pkg()) && !c.eng.transparent[canonType(n)] {
			return nil
		}
	}
	return st
}

func canonType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (c *Ctx) sort(t types.Type) string {
	switch tt := t.(type) {
	case *SetType:
		return "(Array " + c.sort(tt.Elem) + " Bool)"
	case *FMapType:
		return "(Array " + c.sort(tt.Key) + " " + c.sort(tt.Val) + ")"
	case *GSort:
		c.decl("(declare-sort " + tt.Name + " 0)")
		return tt.Name
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return c.strSort()
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return "Float"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		return "(Array Int " + c.sort(u.Elem()) + ")"
	case *types.Slice:
		es := c.sort(u.Elem())
		n := "Slc_" + mangle(u.Elem())
		if c.declSet["sort:"+n] {
			return n
		}
		c.declSet["sort:"+n] = true
		c.decls = append(c.decls, "(declare-sort "+n+" 0)")
		c.decls = append(c.decls, fmt.Sprintf("(declare-fun arr_%s (%s) (Array Int %s))", n, n, es))
		c.decls = append(c.decls, fmt.Sprintf("(declare-fun len_%s (%s) Int)", n, n))
		c.decls = append(c.decls, fmt.Sprintf("(declare-fun tight_%s (%s) Bool)", n, n))
		c.decls = append(c.decls, fmt.Sprintf("(declare-const nil_%s %s)", n, n))
		c.decls = append(c.decls, fmt.Sprintf("(assert (and (= (len_%s nil_%s) 0) (tight_%s nil_%s)))", n, n, n, n))
		c.decls = append(c.decls, fmt.Sprintf("(declare-fun isnil_%s (%s) Bool)", n, n))
		c.decls = append(c.decls, fmt.Sprintf("(assert (forall ((s %s)) (! (=> (isnil_%s s) (= (len_%s s) 0)) :pattern ((isnil_%s s)))))", n, n, n, n))
		c.decls = append(c.decls, fmt.Sprintf("(assert (isnil_%s nil_%s))", n, n))
		// membership
		c.decls = append(c.decls, fmt.Sprintf("(declare-fun memb_%s (%s %s) Bool)", n, n, es))
		c.decls = append(c.decls, fmt.Sprintf("(declare-fun midx_%s (%s %s) Int)", n, n, es))
		c.decls = append(c.decls, fmt.Sprintf("(assert (forall ((s %s) (i Int)) (! (=> (and (<= 0 i) (< i (len_%s s))) (memb_%s s (select (arr_%s s) i))) :pattern ((select (arr_%s s) i)))))", n, n, n, n, n))
		c.decls = append(c.decls, fmt.Sprintf("(assert (forall ((s %s) (x %s)) (! (=> (memb_%s s x) (and (<= 0 (midx_%s s x)) (< (midx_%s s x) (len_%s s)) (= (select (arr_%s s) (midx_%s s x)) x))) :pattern ((memb_%s s x)))))", n, es, n, n, n, n, n, n, n))
		c.decls = append(c.decls, fmt.Sprintf("(assert (forall ((s %s)) (! (>= (len_%s s) 0) :pattern ((len_%s s)))))", n, n, n))
		return n
	case *types.Struct:
		if c.structOf(t) == nil {
			n := "X_" + mangle(t)
			c.decl("(declare-sort " + n + " 0)")
			return n
		}
		n := "S_" + mangle(t)
		if c.declSet["sort:"+n] {
			return n
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, fmt.Sprintf("(%s %s)", c.sel(t, i), c.sort(f.Type())))
		}
		c.declSet["sort:"+n] = true
		c.decls = append(c.decls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", n, n, strings.Join(fs, " ")))
		return n
	case *types.Tuple:
		return "Int"
	}
	unsupported("no sort for type %s", t)
	return ""
}

func (c *Ctx) sel(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	return "S_" + mangle(t) + "." + fmt.Sprint(i) + "_" + st.Field(i).Name()
}

func (c *Ctx) mkStruct(t types.Type, fields []string) string {
	n := c.sort(t)
	if len(fields) == 0 {
		return "mk_" + n
	}
	return "(mk_" + n + " " + strings.Join(fields, " ") + ")"
}

func (c *Ctx) getField(t types.Type, term string, i int) string {
	c.sort(t)
	if c.structOf(t) == nil {
		st := t.Underlying().(*types.Struct)
		f := "fld_" + mangle(t) + "_" + st.Field(i).Name()
		c.decl(fmt.Sprintf("(declare-fun %s (%s) %s)", f, c.sort(t), c.sort(st.Field(i).Type())))
		return "(" + f + " " + term + ")"
	}
	return "(" + c.sel(t, i) + " " + term + ")"
}

func (c *Ctx) setField(t types.Type, term string, i int, v string) string {
	st := c.structOf(t)
	if st == nil {
		unsupported("field update of external struct %s", t)
	}
	if !isAtom(term) {
		term = c.name("st", c.sort(t), term)
	}
	var fs []string
	for j := 0; j < st.NumFields(); j++ {
		if j == i {
			fs = append(fs, v)
		} else {
			fs = append(fs, c.getField(t, term, j))
		}
	}
	return c.mkStruct(t, fs)
}

func isAtom(s string) bool { return !strings.HasPrefix(s, "(") }

func (c *Ctx) zero(t types.Type) string {
	switch tt := t.(type) {
	case *SetType:
		return "((as const " + c.sort(tt) + ") false)"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsInteger != 0:
			return "0"
		case u.Info()&types.IsString != 0:
			return c.strLit("")
		case u.Info()&types.IsFloat != 0:
			c.decl("(declare-const fzero Float)")
			return "fzero"
		}
		return "0"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "0"
	case *types.Interface:
		return "inil"
	case *types.Array:
		return "((as const " + c.sort(t) + ") " + c.zero(u.Elem()) + ")"
	case *types.Slice:
		n := c.sort(t)
		return "nil_" + n
	case *types.Struct:
		if c.structOf(t) == nil {
			n := "zero_" + mangle(t)
			c.decl("(declare-const " + n + " " + c.sort(t) + ")")
			return n
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, c.zero(u.Field(i).Type()))
		}
		return c.mkStruct(t, fs)
	}
	unsupported("zero of %s", t)
	return ""
}

// boxing
func (c *Ctx) box(t types.Type, term string) string {
	n := mangle(t)
	s := c.sort(t)
	if !c.declSet["box:"+n] {
		c.declSet["box:"+n] = true
		id := len(c.tags) + 1
		c.tags[n] = id
		c.decls = append(c.decls,
			fmt.Sprintf("(declare-fun box_%s (%s) Iface)", n, s),
			fmt.Sprintf("(declare-fun unbox_%s (Iface) %s)", n, s),
			fmt.Sprintf("(assert (forall ((x %s)) (! (and (= (unbox_%s (box_%s x)) x) (= (itag (box_%s x)) %d) (= (istamp (box_%s x)) 0)) :pattern ((box_%s x)))))", s, n, n, n, id, n, n),
			fmt.Sprintf("(assert (forall ((x Iface)) (! (=> (= (itag x) %d) (= (box_%s (unbox_%s x)) x)) :pattern ((unbox_%s x)))))", id, n, n, n))
	}
	return "(box_" + n + " " + term + ")"
}

func (c *Ctx) unbox(t types.Type, term string) string {
	c.box(t, "x")
	return "(unbox_" + mangle(t) + " " + term + ")"
}
func (c *Ctx) tagOf(t types.Type) int {
	c.box(t, "x")
	return c.tags[mangle(t)]
}

// fin states that a set is finite. Sets of the specification language are arbitrary arrays; the domain of a map, the
// keys a loop has visited and what is built from them one element at a time are finite.
func (c *Ctx) fin(elem types.Type, set string) string {
	s := c.sort(elem)
	n := mangle(elem)
	if !c.declSet["fin:"+n] {
		c.declSet["fin:"+n] = true
		as := "(Array " + s + " Bool)"
		c.decls = append(c.decls,
			fmt.Sprintf("(declare-fun fin_%s (%s) Bool)", n, as),
			fmt.Sprintf("(assert (fin_%s ((as const %s) false)))", n, as),
			fmt.Sprintf("(assert (forall ((a %s) (x %s) (b Bool)) (! (= (fin_%s (store a x b)) (fin_%s a)) :pattern ((fin_%s (store a x b))))))", as, s, n, n, n))
	}
	return "(fin_" + n + " " + set + ")"
}

// card of sets: the number of elements of a finite set, some positive number for an infinite one
func (c *Ctx) card(elem types.Type, set string) string {
	s := c.sort(elem)
	n := mangle(elem)
	if !c.declSet["card:"+n] {
		c.declSet["card:"+n] = true
		as := "(Array " + s + " Bool)"
		c.fin(elem, "")
		c.decls = append(c.decls,
			fmt.Sprintf("(declare-fun card_%s (%s) Int)", n, as),
			fmt.Sprintf("(declare-fun cwit_%s (%s) %s)", n, as, s),
			fmt.Sprintf("(assert (forall ((a %s)) (! (>= (card_%s a) 0) :pattern ((card_%s a)))))", as, n, n),
			fmt.Sprintf("(assert (forall ((a %s) (x %s)) (! (=> (select a x) (> (card_%s a) 0)) :pattern ((select a x) (card_%s a)))))", as, s, n, n),
			fmt.Sprintf("(assert (forall ((a %s)) (! (=> (not (= (card_%s a) 0)) (select a (cwit_%s a))) :pattern ((card_%s a)))))", as, n, n, n),
			fmt.Sprintf("(assert (= (card_%s ((as const %s) false)) 0))", n, as),
			fmt.Sprintf("(assert (forall ((a %s) (x %s)) (! (=> (fin_%s a) (= (card_%s (store a x true)) (ite (select a x) (card_%s a) (+ 1 (card_%s a))))) :pattern ((card_%s (store a x true))))))", as, s, n, n, n, n, n),
			fmt.Sprintf("(assert (forall ((a %s) (x %s)) (! (=> (fin_%s a) (= (card_%s (store a x false)) (ite (select a x) (- (card_%s a) 1) (card_%s a)))) :pattern ((card_%s (store a x false))))))", as, s, n, n, n, n, n))
	}
	return "(card_" + n + " " + set + ")"
}

func (c *Ctx) strcat(a, b string) string {
	if c.theoryStr {
		return "(str.++ " + a + " " + b + ")"
	}
	parts := append(append([]string{}, c.parts(a)...), c.parts(b)...)
	// merge adjacent literals
	var out []string
	for _, p := range parts {
		if l, ok := c.litVal(p); ok {
			if l == "" {
				continue
			}
			if len(out) > 0 {
				if l2, ok := c.litVal(out[len(out)-1]); ok {
					out[len(out)-1] = c.strLit(l2 + l)
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return c.strLit("")
	}
	t := out[0]
	for _, p := range out[1:] {
		t = "(strcat " + t + " " + p + ")"
	}
	if len(out) > 1 {
		c.catParts[t] = out
	}
	return t
}
func (c *Ctx) parts(t string) []string {
	if p, ok := c.catParts[t]; ok {
		return p
	}
	return []string{t}
}
func (c *Ctx) litVal(t string) (string, bool) {
	if !strings.HasPrefix(t, "lit") {
		return "", false
	}
	for k, v := range c.strLits {
		if v == t {
			return k, true
		}
	}
	return "", false
}
func (c *Ctx) strlen(a string) string {
	if c.theoryStr {
		return "(str.len " + a + ")"
	}
	return "(strlen " + a + ")"
}
func (c *Ctx) strlt(a, b string) string {
	if c.theoryStr {
		return "(str.< " + a + " " + b + ")"
	}
	if !c.ordUsed {
		c.ordUsed = true
		c.decls = append(c.decls, "(declare-fun strlt (Str Str) Bool)",
			"(assert (forall ((a Str)) (not (strlt a a))))",
			"(assert (forall ((a Str) (b Str)) (! (or (= a b) (strlt a b) (strlt b a)) :pattern ((strlt a b)))))",
			"(assert (forall ((a Str) (b Str) (d Str)) (! (=> (and (strlt a b) (strlt b d)) (strlt a d)) :pattern ((strlt a b) (strlt b d)))))")
	}
	return "(strlt " + a + " " + b + ")"
}

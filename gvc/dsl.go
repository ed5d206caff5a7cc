package main

// Contract language: lexer, parser, AST.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type tok struct {
	k    string // id, int, str, op, eof
	s    string
	line int
	file string
}

func lex(file, src string) []tok {
	var ts []tok
	line := 1
	i := 0
	add := func(k, s string) { ts = append(ts, tok{k, s, line, file}) }
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ":", ".", "?", "=", ";", "|", "#", "$", "&", "@"}
	for i < len(src) {
		ch := src[i]
		switch {
		case ch == '\n':
			line++
			i++
		case ch == ' ' || ch == '\t' || ch == '\r':
			i++
		case ch == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case ch == '"':
			j := i + 1
			var b strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					default:
						b.WriteByte(src[j])
					}
				} else {
					b.WriteByte(src[j])
				}
				j++
			}
			add("str", b.String())
			i = j + 1
		case ch == '`':
			j := i + 1
			for src[j] != '`' {
				j++
			}
			add("id", src[i+1:j])
			i = j + 1
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			add("int", src[i:j])
			i = j
		case isIdStart(ch):
			j := i
			for j < len(src) && (isIdStart(src[j]) || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			add("id", src[i:j])
			i = j
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					add("op", o)
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				panic(fmt.Sprintf("%s:%d: bad character %q", file, line, ch))
			}
		}
	}
	add("eof", "")
	return ts
}
func isIdStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// ---- AST
type Expr interface{}
type (
	EId    struct{ N string }
	EInt   struct{ V string }
	EStr   struct{ V string }
	EBin   struct {
		Op   string
		L, R Expr
	}
	EUn struct {
		Op string
		X  Expr
	}
	ESel struct {
		X Expr
		F string
	}
	EIdx   struct{ X, I Expr }
	ECall  struct {
		F    string
		Args []Expr
	}
	EIf    struct{ C, A, B Expr }
	EQuant struct {
		Forall bool
		Vars   []TVar
		Trigs  [][]Expr
		Body   Expr
	}
	ELet struct {
		N string
		V Expr
		B Expr
	}
	EType struct{ T TExpr } // type used as value (e.g. unbox(T, e))
)

// Type expressions
type TExpr struct {
	K    string // name, ptr, slice, map, set, fmap
	Name string
	A, B *TExpr
}
type TVar struct {
	N string
	T TExpr
}

type parser struct {
	ts []tok
	p  int
}

func (p *parser) cur() tok  { return p.ts[p.p] }
func (p *parser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *parser) fail(f string, a ...interface{}) {
	t := p.cur()
	panic(fmt.Sprintf("%s:%d: %s (at %q)", t.file, t.line, fmt.Sprintf(f, a...), t.s))
}
func (p *parser) isOp(s string) bool { return p.cur().k == "op" && p.cur().s == s }
func (p *parser) isId(s string) bool { return p.cur().k == "id" && p.cur().s == s }
func (p *parser) accept(s string) bool {
	if p.isOp(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) acceptId(s string) bool {
	if p.isId(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) id() string {
	if p.cur().k != "id" {
		p.fail("identifier expected")
	}
	return p.next().s
}

func (p *parser) typ() TExpr {
	if p.accept("*") {
		t := p.typ()
		return TExpr{K: "ptr", A: &t}
	}
	if p.accept("[") {
		p.expect("]")
		t := p.typ()
		return TExpr{K: "slice", A: &t}
	}
	n := p.id()
	switch n {
	case "map", "fmap":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		v := p.typ()
		return TExpr{K: n, A: &k, B: &v}
	case "set", "chan", "rchan", "schan":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return TExpr{K: n, A: &k}
	}
	for p.isOp(".") {
		p.next()
		n += "." + p.id()
	}
	return TExpr{K: "name", Name: n}
}

func (p *parser) tvars() []TVar {
	var vs []TVar
	for {
		var ns []string
		ns = append(ns, p.id())
		for p.accept(",") {
			ns = append(ns, p.id())
		}
		p.expect(":")
		t := p.typ()
		for _, n := range ns {
			vs = append(vs, TVar{n, t})
		}
		if !p.accept(",") {
			return vs
		}
	}
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "+": 7, "-": 7, "++": 7, "*": 8, "/": 8, "%": 8}

func (p *parser) expr() Expr {
	if p.isId("forall") || p.isId("exists") {
		fa := p.next().s == "forall"
		vs := p.tvars()
		var trigs [][]Expr
		for p.accept("{") {
			var tr []Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			trigs = append(trigs, tr)
		}
		p.expect("::")
		return EQuant{fa, vs, trigs, p.expr()}
	}
	if p.isId("let") {
		p.next()
		n := p.id()
		p.expect("=")
		v := p.expr()
		if !p.acceptId("in_") {
			p.expect(";")
		}
		return ELet{n, v, p.expr()}
	}
	e := p.bin(1)
	if p.accept("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return EIf{e, a, b}
	}
	return e
}

func (p *parser) bin(min int) Expr {
	l := p.unary()
	for {
		t := p.cur()
		op := t.s
		if t.k == "id" && op != "in" || t.k != "op" && t.k != "id" {
			return l
		}
		pr, ok := binPrec[op]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r Expr
		if op == "==>" {
			if p.isId("forall") || p.isId("exists") || p.isId("let") {
				r = p.expr()
			} else {
				r = p.bin(pr)
			}
		} else {
			if p.isId("forall") || p.isId("exists") || p.isId("let") {
				r = p.expr()
			} else {
				r = p.bin(pr + 1)
			}
		}
		l = EBin{op, l, r}
	}
}

func (p *parser) unary() Expr {
	if p.accept("!") {
		return EUn{"!", p.unary()}
	}
	if p.accept("-") {
		return EUn{"-", p.unary()}
	}
	if p.accept("*") {
		return EUn{"*", p.unary()}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e Expr) Expr {
	for {
		switch {
		case p.accept("."):
			f := p.id()
			e = ESel{e, f}
		case p.accept("["):
			i := p.expr()
			p.expect("]")
			e = EIdx{e, i}
		default:
			return e
		}
	}
}

func (p *parser) primary() Expr {
	t := p.cur()
	switch t.k {
	case "int":
		p.next()
		return EInt{t.s}
	case "str":
		p.next()
		return EStr{t.s}
	case "op":
		if p.accept("(") {
			e := p.expr()
			p.expect(")")
			return e
		}
		if t.s == "@" { // @T : type as argument
			p.next()
			return EType{p.typ()}
		}
	case "id":
		p.next()
		if p.isOp("(") {
			p.next()
			var as []Expr
			if !p.accept(")") {
				for {
					as = append(as, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
			}
			return ECall{t.s, as}
		}
		return EId{t.s}
	}
	p.fail("expression expected")
	return nil
}

// ---- Declarations
type Clause struct {
	Name  string
	E     Expr
	Line  int
	Props []string
}
type LoopInv struct {
	Name string
	Vars []TVar
	E    Expr
	Line int
}
type Contract struct {
	Func     string
	Params   []string
	Results  []string
	Props    []string
	Trusted  bool
	Mode     string // "", "theory"
	Requires []Clause
	Ensures  []Clause
	Exits    []Clause // must hold when the process is terminated on purpose
	Modifies []Expr
	ModAll   bool
	Allocs   []TExpr
	Invs     []LoopInv
	Haves    []LoopInv
	Safety   map[string]bool
	Ghost    []string
	Lemmas   []string
	Inline   map[string]bool
	Reveal   map[string]bool
	Volatile map[string]bool
	File     string
	Line     int
	NoFrame  bool
	Timeout  int
	Opts     map[string]string
	Sets     []GhostSet
	Spawn    []GhostSet // ghost updates where a goroutine running this function is started
	ChanInv  []Clause
	Captures []TVar
	Before   []BeforeClause
}

// BeforeClause must hold whenever the function is about to call Callee (or, for "return", to return); it may name
// the callee's parameters and the captured or address-taken variables of the function.
type BeforeClause struct {
	Callee string
	C      Clause
}
type GhostSet struct {
	N string
	E Expr
}
type SpecFunc struct {
	Name string
	Vars []TVar
	Ret  TExpr
	Body Expr // nil: uninterpreted
	Opaque bool // uninterpreted except in mode theory
	Hidden bool // a function of its arguments and of the memory it reads, expanded only where revealed
	Where  Expr // (hidden only) characterises the result; usable where revealed
	File string
	Line int
}
type Lemma struct {
	Reveal []string
	Name  string
	E     Expr
	Proof bool // lemma (to be proved) vs axiom
	Props []string
	Mode  string
	Uses  []string
	Line  int
	File  string
}
type GhostVar struct {
	Name string
	T    TExpr
}
type Spec struct {
	Funcs     map[string]*SpecFunc
	Lemmas    map[string]*Lemma
	LemmaOrd  []string
	Ghosts    map[string]*GhostVar
	World     []string
	GhostOrd  []string
	Contracts map[string]*Contract
	Order     []string
	Sorts     map[string]bool
	Ignored   map[string]bool // pure / effect-free external functions (arbitrary result)
	Exit      map[string]bool // functions that never return
	GlobalMap map[string]bool // package-level constant maps
	Transp    map[string]bool
}

func newSpec() *Spec {
	return &Spec{Funcs: map[string]*SpecFunc{}, Lemmas: map[string]*Lemma{}, Ghosts: map[string]*GhostVar{}, Contracts: map[string]*Contract{}, Sorts: map[string]bool{}, Ignored: map[string]bool{}, Exit: map[string]bool{}, GlobalMap: map[string]bool{}, Transp: map[string]bool{}}
}

func loadSpecs(dir string) *Spec {
	sp := newSpec()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parse(filepath.Base(f), string(b))
	}
	return sp
}

func (sp *Spec) parse(file, src string) {
	p := &parser{ts: lex(file, src)}
	for p.cur().k != "eof" {
		line := p.cur().line
		kw := p.id()
		switch kw {
		case "sort":
			sp.Sorts[p.id()] = true
		case "ignore", "exit", "constmap", "transparent":
			m := map[string]map[string]bool{"ignore": sp.Ignored, "exit": sp.Exit, "constmap": sp.GlobalMap, "transparent": sp.Transp}[kw]
			for {
				m[p.strOrId()] = true
				if !p.accept(",") {
					break
				}
			}
		case "ghost":
			n := p.id()
			p.expect(":")
			sp.Ghosts[n] = &GhostVar{n, p.typ()}
			sp.GhostOrd = append(sp.GhostOrd, n)
		case "worldghosts": // describe the file system: arbitrary after a call without a contract that may write to it
			for {
				sp.World = append(sp.World, p.id())
				if !p.accept(",") {
					break
				}
			}
		case "spec":
			n := p.id()
			opaque := n == "opaque" && p.cur().k == "id"
			hidden := n == "hidden" && p.cur().k == "id"
			if opaque || hidden {
				n = p.id()
			}
			p.expect("(")
			var vs []TVar
			if !p.accept(")") {
				vs = p.tvars()
				p.expect(")")
			}
			p.expect(":")
			t := p.typ()
			f := &SpecFunc{Name: n, Vars: vs, Ret: t, Opaque: opaque, Hidden: hidden, File: file, Line: line}
			if hidden && p.acceptId("where") {
				f.Where = p.expr()
			}
			if p.accept("=") {
				f.Body = p.expr()
			}
			if sp.Funcs[n] != nil {
				p.fail("duplicate spec %s", n)
			}
			sp.Funcs[n] = f
		case "axiom", "lemma":
			l := &Lemma{Proof: kw == "lemma", Line: line, File: file}
			l.Name = p.id()
			for {
				if p.acceptId("props") {
					for p.cur().k == "id" && isPropId(p.cur().s) {
						l.Props = append(l.Props, p.next().s)
					}
				} else if p.acceptId("mode") {
					l.Mode = p.id()
				} else if p.acceptId("reveal") {
					for p.cur().k == "id" {
						l.Reveal = append(l.Reveal, p.next().s)
					}
				} else if p.acceptId("uses") {
					for p.cur().k == "id" {
						l.Uses = append(l.Uses, p.next().s)
					}
				} else {
					break
				}
			}
			p.expect(":")
			l.E = p.expr()
			sp.Lemmas[l.Name] = l
			sp.LemmaOrd = append(sp.LemmaOrd, l.Name)
		case "contract", "trusted":
			c := &Contract{Safety: map[string]bool{}, Inline: map[string]bool{}, Reveal: map[string]bool{}, Volatile: map[string]bool{}, Opts: map[string]string{}, File: file, Line: line}
			if kw == "trusted" {
				c.Trusted = true
			}
			c.Func = p.strOrId()
			p.expect("(")
			for !p.accept(")") {
				c.Params = append(c.Params, p.id())
				p.accept(",")
			}
			if p.accept("(") {
				for !p.accept(")") {
					c.Results = append(c.Results, p.id())
					p.accept(",")
				}
			}
			for !p.acceptId("end") {
				l := p.cur().line
				k := p.id()
				switch k {
				case "props":
					for p.cur().k == "id" && isPropId(p.cur().s) {
						c.Props = append(c.Props, p.next().s)
					}
				case "mode":
					c.Mode = p.id()
				case "opt":
					n := p.id()
					p.expect("=")
					c.Opts[n] = p.next().s
				case "timeout":
					fmt.Sscan(p.next().s, &c.Timeout)
				case "requires", "ensures", "exits", "chaninv", "before":
					cl := Clause{Line: l}
					callee := ""
					if k == "before" {
						callee = p.strOrId()
					}
					if p.cur().k == "id" && p.ts[p.p+1].k == "op" && (p.ts[p.p+1].s == ":" || p.ts[p.p+1].s == "[") && hasNameColon(p) {
						cl.Name = p.id()
						if p.accept("[") {
							for !p.accept("]") {
								cl.Props = append(cl.Props, p.id())
								p.accept(",")
							}
						}
						p.expect(":")
					}
					cl.E = p.expr()
					switch k {
					case "requires":
						c.Requires = append(c.Requires, cl)
					case "ensures":
						c.Ensures = append(c.Ensures, cl)
					case "exits":
						c.Exits = append(c.Exits, cl)
					case "before":
						c.Before = append(c.Before, BeforeClause{callee, cl})
					case "chaninv":
						c.ChanInv = append(c.ChanInv, cl)
					}
				case "set", "onspawn":
					n := p.id()
					p.expect("=")
					if k == "set" {
						c.Sets = append(c.Sets, GhostSet{n, p.expr()})
					} else {
						c.Spawn = append(c.Spawn, GhostSet{n, p.expr()})
					}
				case "modifies":
					if p.acceptId("nothing") {
						break
					}
					if p.acceptId("anything") {
						c.ModAll = true
						break
					}
					for {
						c.Modifies = append(c.Modifies, p.expr())
						if !p.accept(",") {
							break
						}
					}
				case "allocs":
					for {
						c.Allocs = append(c.Allocs, p.typ())
						if !p.accept(",") {
							break
						}
					}
				case "safety":
					for {
						c.Safety[p.id()] = true
						if !p.accept(",") {
							break
						}
					}
				case "lemmas":
					for {
						c.Lemmas = append(c.Lemmas, p.id())
						if !p.accept(",") {
							break
						}
					}
				case "reveal":
					for {
						c.Reveal[p.id()] = true
						if !p.accept(",") {
							break
						}
					}
				case "inline":
					for {
						c.Inline[p.strOrId()] = true
						if !p.accept(",") {
							break
						}
					}
				case "captures":
					c.Captures = append(c.Captures, p.tvars()...)
				case "noframe":
					c.NoFrame = true
				case "have":
					li := LoopInv{Line: l}
					p.expect("(")
					li.Vars = p.tvars()
					p.expect(")")
					p.expect(":")
					li.E = p.expr()
					c.Haves = append(c.Haves, li)
				case "loopinv":
					li := LoopInv{Line: l}
					if p.accept("(") {
						if !p.accept(")") {
							li.Vars = p.tvars()
							p.expect(")")
						}
					}
					if p.cur().k == "id" && p.ts[p.p+1].s == ":" {
						li.Name = p.id()
						p.expect(":")
					}
					li.E = p.expr()
					c.Invs = append(c.Invs, li)
				default:
					p.fail("unknown clause %s", k)
				}
			}
			if sp.Contracts[c.Func] != nil {
				p.fail("duplicate contract %s", c.Func)
			}
			sp.Contracts[c.Func] = c
			sp.Order = append(sp.Order, c.Func)
		default:
			p.fail("unknown declaration %s", kw)
		}
	}
}

func isPropId(s string) bool {
	return len(s) >= 3 && s[0] == 'C' && s[1] >= '0' && s[1] <= '9'
}

func hasNameColon(p *parser) bool {
	// NAME ':' or NAME '[' ids ']' ':'
	if p.ts[p.p+1].s == ":" {
		return p.ts[p.p+2].s != ":"
	}
	i := p.p + 2
	for p.ts[i].s != "]" {
		if p.ts[i].k != "id" && p.ts[i].s != "," {
			return false
		}
		i++
	}
	return p.ts[i+1].k == "op" && p.ts[i+1].s == ":"
}

func (p *parser) strOrId() string {
	if p.cur().k == "str" {
		return p.next().s
	}
	n := p.id()
	for p.isOp(".") {
		p.next()
		n += "." + p.id()
	}
	return n
}

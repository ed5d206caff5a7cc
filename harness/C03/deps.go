// dir: desc
package desc

import (
	"fmt"
	"strings"
	"testing"
)

func verifC03Version(s string) (r [5]int) {
	k := 0
	n, any := 0, false
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' || s[i] == '-' {
			if k < 5 && any {
				r[k] = n
			}
			k++
			n, any = 0, false
			continue
		}
		n, any = n*10+int(s[i]-'0'), true
	}
	return
}

type verifC03Entry struct {
	Name, Op, Ver string
}

func TestVerifC03Fields(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	ops := map[string]Constraint{">=": GTE, ">": GT, "<=": LTE, "<": LT, "==": Equals}
	fields := []string{"Depends", "Imports", "Suggests", "LinkingTo"}
	for i := 0; i < v.N(1500) && v.More(); i++ {
		want := map[string]map[string]verifC03Entry{}
		var text strings.Builder
		text.WriteString("Package: verif\nVersion: 1.0\n")
		for _, f := range fields {
			want[f] = map[string]verifC03Entry{}
			n := v.R.Intn(5)
			if n == 0 {
				continue
			}
			var parts []string
			for k := 0; k < n; k++ {
				e := verifC03Entry{Name: v.Pick("R", "R6", "dplyr", "data.table", "rlang", "MASS", "Rcpp", "RcppEigen", "a", "b")}
				if _, dup := want[f][e.Name]; dup {
					continue
				}
				txt := e.Name
				if v.R.Intn(3) > 0 {
					e.Op = v.Pick(">=", ">", "<=", "<", "==")
					for j := 1 + v.R.Intn(5); j > 0; j-- {
						e.Ver += fmt.Sprint(v.R.Intn(120))
						if j > 1 {
							e.Ver += v.Pick(".", "-")
						}
					}
					txt += v.Pick("", " ", "  ", "\n ") + "(" + v.Pick("", " ") + e.Op + v.Pick("", " ", "  ") + e.Ver + v.Pick("", " ") + ")"
				}
				want[f][e.Name] = e
				parts = append(parts, txt)
			}
			text.WriteString(f + ": " + strings.Join(parts, v.Pick(",", ", ", ",\n    ")) + v.Pick("", "", "", ",", ", ") + "\n")
		}
		v.Case(text.String(), func() {
			d, err := ParseDesc(strings.NewReader(text.String()))
			if err != nil {
				v.Fail(text.String(), "not read: %v", err)
				return
			}
			got := map[string]map[string]Dep{"Depends": d.Depends, "Imports": d.Imports, "Suggests": d.Suggests, "LinkingTo": d.LinkingTo}
			for _, f := range fields {
				for n, e := range want[f] {
					g, ok := got[f][n]
					if !ok {
						v.Fail(text.String(), "%s: no requirement for %s", f, n)
						continue
					}
					if g.Name != n {
						v.Fail(text.String(), "%s: requirement for %s is named %q", f, n, g.Name)
					}
					if e.Op == "" {
						if g.Constraint != None {
							v.Fail(text.String(), "%s: %s has operator %s, none was written", f, n, g.Constraint.ToString())
						}
						continue
					}
					w := verifC03Version(e.Ver)
					h := [5]int{g.Version.Major, g.Version.Minor, g.Version.Patch, g.Version.Dev, g.Version.Other}
					if g.Constraint != ops[e.Op] || h != w {
						v.Fail(text.String(), "%s: %s understood as %s %v, written %s %s", f, n, g.Constraint.ToString(), h, e.Op, e.Ver)
					}
				}
				for n := range got[f] {
					if _, ok := want[f][n]; !ok {
						v.Fail(text.String(), "%s: requirement %q was not listed", f, n)
					}
				}
			}
			for _, sug := range []bool{false, true} {
				c := d.GetCombinedDependencies(sug)
				exp := map[string]bool{}
				for _, f := range fields {
					if f == "Suggests" && !sug {
						continue
					}
					for n := range want[f] {
						if !(f == "Depends" && n == "R") {
							exp[n] = true
						}
					}
				}
				for n := range exp {
					if _, ok := c[n]; !ok {
						v.Fail(text.String(), "dependencies (suggests %v) lack %s", sug, n)
					}
				}
				for n := range c {
					if !exp[n] {
						v.Fail(text.String(), "dependencies (suggests %v) contain %s", sug, n)
					}
				}
			}
		})
	}
}

// dir: cran
package cran

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

type verifC02Entry struct {
	Name, Op, Ver string
	Depends       string
	Path          string
}

func verifC02Cmp(rv [5]int, w [5]int) int {
	for i := range rv {
		if rv[i] < w[i] {
			return -1
		}
		if rv[i] > w[i] {
			return 1
		}
	}
	return 0
}

func TestVerifC02Offered(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for i := 0; i < v.N(150) && v.More(); i++ {
		rv := RVersion{v.R.Intn(5), v.R.Intn(12), v.R.Intn(12)}
		var es []verifC02Entry
		want := map[string]bool{}
		txt := ""
		for k := 0; k < 1+v.R.Intn(25); k++ {
			e := verifC02Entry{Name: fmt.Sprintf("pkg%d", k)}
			ok := true
			if v.R.Intn(5) > 0 {
				w := [5]int{rv.Major + v.R.Intn(3) - 1, rv.Minor + v.R.Intn(3) - 1, rv.Patch + v.R.Intn(3) - 1, 0, 0}
				if v.R.Intn(4) > 0 {
					w[0] = rv.Major
				}
				if v.R.Intn(3) > 0 {
					w[1] = rv.Minor
				}
				for j := range w {
					if w[j] < 0 {
						w[j] = 0
					}
				}
				n := 1 + v.R.Intn(4)
				if n == 4 {
					w[3] = v.R.Intn(2)
				}
				for j := 0; j < n; j++ {
					if j > 0 {
						e.Ver += "."
					}
					e.Ver += fmt.Sprint(w[j])
				}
				for j := n; j < 5; j++ {
					w[j] = 0
				}
				c := verifC02Cmp([5]int{rv.Major, rv.Minor, rv.Patch}, w)
				e.Op = v.Pick(">=", ">", "==", "<=", "<", ">=", "")
				switch e.Op {
				case ">=":
					ok = c >= 0
				case ">":
					ok = c > 0
				case "==":
					ok = c == 0
				case "<=":
					ok = c <= 0
				case "<":
					ok = c < 0
				}
				r := "R"
				if e.Op != "" {
					r = "R (" + e.Op + " " + e.Ver + ")"
				}
				e.Depends = v.Pick(r, r+", methods", "methods, "+r, "Rcpp (>= 0.1), "+r)
			} else {
				e.Depends = v.Pick("", "methods", "Rcpp (>= 99.0), RSQLite (< 0.1)")
			}
			es = append(es, e)
			if ok {
				want[e.Name] = true
			}
			txt += "Package: " + e.Name + "\nVersion: 1.0\n"
			if e.Depends != "" {
				txt += "Depends: " + e.Depends + "\n"
			}
			txt += "NeedsCompilation: no\n\n"
		}
		in := map[string]interface{}{"R": rv, "entries": es}
		v.Case(in, func() {
			d := v.Scratch()
			defer v.Drop(d)
			os.MkdirAll(filepath.Join(d, "src", "contrib"), 0755)
			ioutil.WriteFile(filepath.Join(d, "src", "contrib", "PACKAGES"), []byte(txt), 0644)
			db, err := NewRepoDb(RepoURL{URL: d, Name: "r"}, Source, RepoConfig{}, rv, false)
			if err != nil {
				v.Fail(in, "error %v", err)
				return
			}
			got := db.DescriptionsBySourceType[Source]
			for _, e := range es {
				if _, is := got[e.Name]; is != want[e.Name] {
					v.Fail(in, "R %v, package %s (Depends: %s) offered: %v, want %v", rv, e.Name, e.Depends, is, want[e.Name])
				}
			}
			if len(got) != len(want) {
				v.Fail(in, "%d packages offered, want %d", len(got), len(want))
			}
		})
	}
}

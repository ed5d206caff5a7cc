// dir: pacman
package pacman

import (
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
)

func verifC11Cmp(a, b string) int {
	sp := func(s string) (r [5]int) {
		for i, x := range strings.FieldsFunc(s, func(c rune) bool { return c == '.' || c == '-' }) {
			if i < 5 {
				r[i], _ = strconv.Atoi(x)
			}
		}
		return
	}
	x, y := sp(a), sp(b)
	for i := range x {
		if x[i] != y[i] {
			if x[i] < y[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func TestVerifC11Outdated(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	vs := []string{"1.0", "1.0.0", "1.0-1", "1.10", "1.9", "2.0.1", "1.0.0.9000", "1.0.0.9000.1", "0.1", "10.2.3", "2.0", "1.0.1", "0.9.12", "1.2.3.4.5"}
	names := []string{"a", "b", "B", "R6", "dplyr", "x"}
	for i := 0; i < v.N(4000) && v.More(); i++ {
		inst := map[string]desc.Desc{}
		in := []string{}
		for k := v.R.Intn(6); k > 0; k-- {
			n, ver := names[v.R.Intn(len(names))], vs[v.R.Intn(len(vs))]
			inst[n] = desc.Desc{Package: n, Version: ver, PkgrVersion: v.Pick("", "1.0"), Repository: v.Pick("", "CRAN", "MPN")}
			in = append(in, "installed "+n+" "+ver)
		}
		av := []cran.PkgDl{}
		for k := v.R.Intn(7); k > 0; k-- {
			n, ver := names[v.R.Intn(len(names))], vs[v.R.Intn(len(vs))]
			p := cran.PkgDl{Package: desc.Desc{Package: n, Version: ver, Repository: v.Pick("", "CRAN", "MPN")}}
			p.Config.Type = []cran.SourceType{cran.Default, cran.Source, cran.Binary}[v.R.Intn(3)]
			av = append(av, p)
			in = append(in, "available "+n+" "+ver)
		}
		if v.R.Intn(4) == 0 { // a package that is in no repository comes as an empty entry
			av = append(av, cran.PkgDl{})
		}
		v.Case(in, func() {
			got := GetOutdatedPackages(inst, av)
			want := []cran.OutdatedPackage{}
			for _, p := range av {
				if o, ok := inst[p.Package.Package]; ok && verifC11Cmp(p.Package.Version, o.Version) > 0 {
					want = append(want, cran.OutdatedPackage{Package: p.Package.Package, OldVersion: o.Version, NewVersion: p.Package.Version})
				}
			}
			if len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
				v.Fail(in, "outdated %v, want %v", got, want)
			}
		})
	}
}

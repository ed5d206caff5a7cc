// dir: gpsr
package gpsr

import (
	"reflect"
	"sort"
	"testing"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
)

func TestVerifC10Invert(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	names := []string{"a", "b", "c", "B", "a1", "zoo", "Rcpp", "R6", "x.y"}
	for i := 0; i < v.N(3000) && v.More(); i++ {
		db := map[string][]string{}
		for k := v.R.Intn(7); k > 0; k-- {
			perm := v.R.Perm(len(names))
			l := []string{}
			for _, x := range perm[:v.R.Intn(6)] {
				l = append(l, names[x])
			}
			db[names[v.R.Intn(len(names))]] = l
		}
		v.Case(db, func() {
			keep := map[string][]string{}
			want := map[string][]string{}
			for p, l := range db {
				// spare capacity, so that an append to one of these lists would be visible in its neighbour
				big := append(append(make([]string, 0, len(l)+4), l...), "canary")
				db[p] = big[:len(l)]
				keep[p] = append([]string{}, big...)
				for _, d := range l {
					want[d] = append(want[d], p)
				}
			}
			for d := range want {
				sort.Strings(want[d])
			}
			ip := InstallPlan{DepDb: db, StartingPackages: []string{"s"}, Update: v.R.Intn(2) == 0, CreateLibrary: v.R.Intn(2) == 0,
				InstalledPackages: map[string]desc.Desc{}, AdditionalPackageSources: map[string]AdditionalPkg{}}
			for _, q := range names { // the rest of the plan does not matter
				switch v.R.Intn(6) {
				case 0:
					ip.InstalledPackages[q] = desc.Desc{Package: q, Version: "1.0"}
				case 1:
					ip.InstalledPackages[q] = desc.Desc{Package: q, Version: "0.9"}
					ip.OutdatedPackages = append(ip.OutdatedPackages, cran.OutdatedPackage{Package: q, OldVersion: "0.9", NewVersion: "1.0"})
				case 2:
					ip.AdditionalPackageSources[q] = AdditionalPkg{}
				case 3:
					if _, ok := db[q]; !ok {
						ip.StartingPackages = append(ip.StartingPackages, q)
					}
				case 4:
					ip.PackageDownloads = append(ip.PackageDownloads, cran.PkgDl{Package: desc.Desc{Package: q}})
				}
			}
			got := ip.InvertDependencies()
			if len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
				v.Fail(db, "reverse dependencies %v, want %v", got, want)
			}
			if len(ip.DepDb) != len(keep) {
				v.Fail(db, "the plan was changed to %v", ip.DepDb)
			}
			for p, l := range keep {
				if g, ok := ip.DepDb[p]; !ok || len(g) != len(l)-1 || !reflect.DeepEqual(g[:len(l)], l) {
					v.Fail(db, "the plan was changed to %v", ip.DepDb)
				}
			}
		})
	}
}

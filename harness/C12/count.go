// dir: gpsr
package gpsr

import (
	"fmt"
	"testing"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
)

func TestVerifC12Count(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for i := 0; i < v.N(4000) && v.More(); i++ {
		n := 1 + v.R.Intn(12)
		ip := InstallPlan{DepDb: map[string][]string{}, InstalledPackages: map[string]desc.Desc{}, AdditionalPackageSources: map[string]AdditionalPkg{}, Update: v.R.Intn(2) == 0, CreateLibrary: v.R.Intn(5) == 0}
		in := []string{fmt.Sprint("update=", ip.Update)}
		want := 0
		for k := 0; k < n; k++ {
			p := fmt.Sprintf("p%d", k)
			installed := v.R.Intn(2) == 0
			outdated := installed && v.R.Intn(2) == 0
			role := v.R.Intn(4)
			switch role {
			case 0:
				ip.StartingPackages = append(ip.StartingPackages, p)
			case 1:
				ip.DepDb[p] = []string{"p0"}
			case 2:
				ip.AdditionalPackageSources[p] = AdditionalPkg{InstallPath: "/x/" + p}
			}
			switch {
			case role == 2:
				want++
			case role < 2 && !installed:
				want++
			case role < 2 && outdated && ip.Update:
				want++
			}
			if installed {
				ip.InstalledPackages[p] = desc.Desc{Package: p, Version: "1"}
			}
			if outdated {
				ip.OutdatedPackages = append(ip.OutdatedPackages, cran.OutdatedPackage{Package: p, OldVersion: "1", NewVersion: "2"})
			}
			in = append(in, fmt.Sprintf("%s role=%s installed=%v outdated=%v", p, []string{"start", "dependent", "tarball", "unrelated"}[role], installed, outdated))
		}
		v.Case(in, func() {
			if got := ip.GetNumPackagesToInstall(); got != want {
				v.Fail(in, "announces %d packages to install, want %d", got, want)
			}
		})
	}
}

// dir: rcmd
package rcmd

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/spf13/afero"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
)

type bcKey struct {
	Repo     cran.RepoURL
	Pkg, Ver string
	RV       cran.RVersion
}

func (k bcKey) request() InstallRequest {
	d := desc.Desc{Package: k.Pkg, Version: k.Ver}
	return InstallRequest{Package: k.Pkg, RSettings: RSettings{Version: k.RV, Platform: rwPlatform},
		Metadata: cran.Download{Metadata: cran.PkgDl{Package: d, Config: cran.PkgConfig{Repo: k.Repo, Type: cran.Source}}}}
}

func (k bcKey) same(o bcKey) bool {
	return k.Repo.Name == o.Repo.Name && k.Repo.URL == o.Repo.URL && k.Pkg == o.Pkg && k.Ver == o.Ver && k.RV.Major == o.RV.Major && k.RV.Minor == o.RV.Minor
}

// A binary that one package left in the cache is offered for that package, repository and R version only.
func TestVerifC17Binary(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	os.Setenv("PATH", os.Getenv("PATH"))
	key := func() bcKey {
		return bcKey{cran.RepoURL{Name: v.Pick("CRAN", "cran", "a-b", "a"), URL: v.Pick("https://a.example", "https://a.example/", "https://a.example/packages/of/a/long/address/1", "https://a.example/packages/of/a/long/address/2", "/repo", "/Repo")},
			v.Pick("R6", "ab", "abc", "a.b"), v.Pick("1.0", "1.0.1", "10.1", "1.0-1"), cran.RVersion{Major: 3 + v.R.Intn(2), Minor: v.R.Intn(3), Patch: v.R.Intn(2)}}
	}
	for i := 0; i < v.N(1500) && v.More(); i++ {
		a, b := key(), key()
		if v.R.Intn(2) == 0 { // they differ in one thing
			c := a
			switch v.R.Intn(5) {
			case 0:
				c.Repo.Name = b.Repo.Name
			case 1:
				c.Repo.URL = b.Repo.URL
			case 2:
				c.Pkg = b.Pkg
			case 3:
				c.Ver = b.Ver
			case 4:
				c.RV = b.RV
			}
			b = c
		}
		dir := v.Scratch()
		in := map[string]interface{}{"stored": a, "asked": b}
		v.Case(in, func() {
			pc := PackageCache{BaseDir: dir}
			p := filepath.Join(dir, cran.RepoURLHash(a.Repo), "binary", a.RV.ToString(), binaryName(a.Pkg, a.Ver, rwPlatform))
			rwWrite(p, "binary")
			found, ir := isInCache(afero.NewOsFs(), b.request(), pc)
			if found != a.same(b) {
				v.Fail(in, "found in the cache: %v", found)
			}
			if found && ir.Metadata.Path != p {
				v.Fail(in, "the file offered is %s", ir.Metadata.Path)
			}
			if !found && ir.Metadata.Path != "" {
				v.Fail(in, "not found, but the request now names %s", ir.Metadata.Path)
			}
		})
		v.Drop(dir)
	}
}

// What an install builds and keeps is found by the next install of the same package, and R is then given that file; a
// request for another version builds its own.
func TestVerifC17Build(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for i := 0; i < v.N(60) && v.More(); i++ {
		w := v.rwWorld0()
		w.Fail, w.NoCache = map[string]string{}, nil
		if i%3 > 0 {
			w.Binary = nil
		}
		dir := v.Scratch()
		v.Case(w, func() {
			r := v.rwInstall(w, dir)
			if !r.Ended || r.Err != nil {
				v.Fail(w, "the install did not end well: %v", r.Err)
				return
			}
			for _, p := range w.all() {
				if rwHas(w.Installed, p) {
					continue
				}
				bin := filepath.Join(dir, "cache", cran.RepoURLHash(rwRepo), "binary", rwRV.ToString(), p+"_1.0_R_"+rwPlatform+".tar.gz")
				b, err := ioutil.ReadFile(bin)
				if err != nil {
					v.Fail(w, "no binary of %s was kept", p)
					return
				}
				if rwHas(w.Binary, p) != (strings.TrimSpace(string(b)) == "binary of "+p) {
					v.Fail(w, "the binary of %s is: %s", p, b)
				}
				built := rwHas(r.Log, "start "+p+" build")
				if built == rwHas(w.Binary, p) {
					v.Fail(w, "%s built: %v, in the cache before: %v", p, built, rwHas(w.Binary, p))
				}
			}
		})
		v.Drop(dir)
	}
}

// dir: cran
package cran

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/spf13/afero"
)

type dcReq struct {
	Repo    int
	Pkg     string
	Version string
	Type    SourceType
}

type dcWorld struct {
	Repos []RepoURL
	Runs  []dcRun
}

type dcRun struct {
	RV   RVersion
	Reqs []dcReq
}

func dcContent(w dcWorld, q dcReq, rv RVersion) string {
	if q.Type == Binary {
		return fmt.Sprintf("repository %d, binary for %d.%d, %s %s", q.Repo, rv.Major, rv.Minor, q.Pkg, q.Version)
	}
	return fmt.Sprintf("repository %d, source, %s %s", q.Repo, q.Pkg, q.Version)
}

// dcServe puts the file a request asks for where its repository has it.
func dcServe(w dcWorld, q dcReq, rv RVersion) {
	r := w.Repos[q.Repo]
	t, name := q.Type, q.Pkg+"_"+q.Version+".tar.gz"
	if t == Binary {
		name = binaryName(q.Pkg, q.Version)
	} else {
		t = Source
	}
	p := filepath.Join(filepath.Dir(GetPackagesFileURL(&RepoDb{Repo: r, RepoSuffix: r.Suffix}, t, rv)), name)
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := ioutil.WriteFile(p, []byte(dcContent(w, q, rv)), 0644); err != nil {
		panic(err)
	}
}

// Several installs share one package cache: what each gets for a package is what its repository has for it.
func TestVerifC17Cache(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for i := 0; i < v.N(250) && v.More(); i++ {
		dir := v.Scratch()
		w := dcWorld{}
		names := []string{"CRAN", "cran", "my-repo", "R", "MPN_2020"}
		v.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		for k := 1 + v.R.Intn(4); k > 0; k-- {
			url := filepath.Join(dir, "server/"+v.Pick("a", "A", "b"), v.Pick("", "cran", "cran/2020", "mirror.example.org/packages/of/a/long/address/snapshot-1", "mirror.example.org/packages/of/a/long/address/snapshot-2"))
			w.Repos = append(w.Repos, RepoURL{Name: names[len(w.Repos)], URL: url + v.Pick("", "", "/"), Suffix: v.Pick("", "", "suf")})
		}
		if len(w.Repos) > 1 && v.R.Intn(3) == 0 { // a repository that moved
			w.Repos[1].Name = w.Repos[0].Name
		}
		for k := 1 + v.R.Intn(3); k > 0; k-- {
			run := dcRun{RV: RVersion{3 + v.R.Intn(2), v.R.Intn(3), v.R.Intn(3)}}
			seen := map[string]bool{}
			one := map[string]int{}
			for n := 1 + v.R.Intn(5); n > 0; n-- {
				q := dcReq{v.R.Intn(len(w.Repos)), v.Pick("R6", "ab", "abc", "a.b", "data.table"), v.Pick("1.0", "1.0.1", "10.1", "1.0-1"), SourceType(v.R.Intn(3))}
				nm := w.Repos[q.Repo].Name
				if r, ok := one[nm]; ok && r != q.Repo {
					continue
				}
				if !seen[q.Pkg] {
					seen[q.Pkg], one[nm] = true, q.Repo
					run.Reqs = append(run.Reqs, q)
				}
			}
			w.Runs = append(w.Runs, run)
		}
		base := filepath.Join(dir, "cache")
		// distinct repositories with one address have one content
		same := func(a, b int) bool {
			return filepath.Clean(w.Repos[a].URL) == filepath.Clean(w.Repos[b].URL) && w.Repos[a].Suffix == w.Repos[b].Suffix
		}
		ok := true
		for a := range w.Repos {
			for b := range w.Repos {
				if a != b && (same(a, b) || filepath.Clean(w.Repos[a].URL) == filepath.Clean(w.Repos[b].URL)) {
					ok = false
				}
			}
		}
		if !ok {
			v.Drop(dir)
			continue
		}
		v.Case(w, func() {
			for ri, run := range w.Runs {
				var ds []PkgDl
				for _, q := range run.Reqs {
					dcServe(w, q, run.RV)
					ds = append(ds, PkgDl{Package: desc.Desc{Package: q.Pkg, Version: q.Version}, Config: PkgConfig{Repo: w.Repos[q.Repo], Type: q.Type}})
				}
				var m *PkgMap
				var err error
				m, err = DownloadPackages(afero.NewOsFs(), ds, base, run.RV, v.R.Intn(2) == 0)
				if err != nil {
					v.Fail(w, "run %d: %v", ri, err)
					return
				}
				for _, q := range run.Reqs {
					dl, ok := m.Get(q.Pkg)
					if !ok {
						v.Fail(w, "run %d: nothing was downloaded for %+v", ri, q)
						return
					}
					b, _ := ioutil.ReadFile(dl.Path)
					if string(b) != dcContent(w, q, run.RV) {
						v.Fail(w, "run %d: for %+v the file handed over (%s) is: %s", ri, q, dl.Path, b)
						return
					}
				}
			}
		})
		v.Drop(dir)
	}
}

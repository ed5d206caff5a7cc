// dir: cran
package cran

import (
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

type rrRepo struct {
	Kind  string // how it fails, or ok
	Bin   string // the same for its list of binaries, if it has one
	Http  bool
	Delay int // milliseconds
}

func (r rrRepo) fails() bool {
	return !strings.HasPrefix(r.Kind, "ok") && (r.Bin == "" || !strings.HasPrefix(r.Bin, "ok"))
}

func rrList(i int, bin bool) string {
	return fmt.Sprintf("Package: common\nVersion: %d.0\n\nPackage: only%d\nVersion: 1.%v\n", i+1, i, map[bool]int{true: 1, false: 2}[bin])
}

// Several repositories, of which some cannot be read; then the same once more with all of them in order again.
func TestVerifC28Repos(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	var repos []rrRepo
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		var c, i int
		fmt.Sscanf(q.URL.Path, "/c%d/r%d/", &c, &i)
		r := repos[i]
		time.Sleep(time.Duration(r.Delay) * time.Millisecond)
		bin := strings.Contains(q.URL.Path, "/bin/")
		k := r.Kind
		if bin {
			k = r.Bin
		}
		body := rrList(i, bin)
		switch k {
		case "ok":
			fmt.Fprint(w, body)
		case "cut":
			w.Header().Set("Content-Length", fmt.Sprint(len(body)+10))
			fmt.Fprint(w, body)
			w.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		case "okempty":
		default:
			code := 404
			fmt.Sscan(k, &code)
			w.WriteHeader(code)
			fmt.Fprint(w, body)
		}
	}))
	defer srv.Close()
	rv := RVersion{3, 6, 1}
	binOk := SupportsBinary(MPN)
	for i := 0; i < v.N(120) && v.More(); i++ {
		dir := v.Scratch()
		cache := filepath.Join(dir, "xdg")
		os.Setenv("XDG_CACHE_HOME", cache)
		repos = nil
		failing := 0
		for k := 1 + v.R.Intn(4); k > 0; k-- {
			pick := func() string {
				return v.Pick("ok", "ok", "ok", "okempty", "404", "500", "403", "204", "cut", "missing", "dir")
			}
			r := rrRepo{Kind: pick(), Http: v.R.Intn(2) == 0, Delay: v.R.Intn(8)}
			if binOk && v.R.Intn(2) == 0 {
				r.Bin = pick()
			}
			if v.R.Intn(2) == 0 {
				r.Kind = "ok"
			}
			repos = append(repos, r)
			if r.fails() {
				failing++
			}
		}
		asked := append([]rrRepo{}, repos...)
		v.Case(asked, func() {
			cfg := &InstallConfig{Packages: map[string]PkgConfig{}, Repos: map[string]RepoConfig{}}
			var urls []RepoURL
			for k, r := range repos {
				u := RepoURL{Name: fmt.Sprintf("repo%d", k), URL: filepath.Join(dir, fmt.Sprintf("local%d", k))}
				if r.Http {
					u.URL = fmt.Sprintf("%s/c%d/r%d", srv.URL, i, k)
				}
				if r.Bin != "" {
					cfg.Repos[u.Name] = RepoConfig{RepoType: MPN}
				}
				urls = append(urls, u)
			}
			for round := 0; round < 2; round++ {
				for k, r := range repos {
					if r.Http {
						continue
					}
					for _, st := range []SourceType{Source, Binary} {
						p := GetPackagesFileURL(&RepoDb{Repo: urls[k]}, st, rv)
						kind := r.Kind
						if st == Binary {
							kind = r.Bin
						}
						os.RemoveAll(p)
						os.MkdirAll(filepath.Dir(p), 0755)
						switch kind {
						case "ok":
							ioutil.WriteFile(p, []byte(rrList(k, st == Binary)), 0644)
						case "okempty":
							ioutil.WriteFile(p, nil, 0644)
						case "dir":
							os.MkdirAll(p, 0755)
						}
					}
				}
				var db *PkgNexus
				var err error
				if !v.Within(20*time.Second, func() { db, err = NewPkgDb(urls, Source, cfg, rv, false) }) {
					v.Fail(asked, "round %d: the database was never ready", round)
					return
				}
				bad := 0
				for _, r := range repos {
					if r.fails() {
						bad++
					}
				}
				if (err != nil) != (bad > 0) {
					v.Fail(asked, "round %d: error %v, but %d repositories cannot be read", round, err, bad)
					return
				}
				fis, _ := ioutil.ReadDir(filepath.Join(cache, "pkgr", "r_packagedb_caches"))
				if len(fis) != len(repos)-bad {
					v.Fail(asked, "round %d: %d package lists were kept, %d of %d repositories cannot be read", round, len(fis), bad, len(repos))
					return
				}
				if err == nil {
					if len(db.Db) != len(urls) {
						v.Fail(asked, "round %d: %d repositories in the database", round, len(db.Db))
						return
					}
					for k, r := range asked {
						if db.Db[k].Repo != urls[k] {
							v.Fail(asked, "round %d: at position %d is %v", round, k, db.Db[k].Repo)
							return
						}
						if round == 1 && !r.fails() {
							continue // as kept by the first round
						}
						for st, kind := range map[SourceType]string{Source: repos[k].Kind, Binary: repos[k].Bin} {
							d, ok := db.Db[k].DescriptionsBySourceType[st]["common"]
							if ok != (kind == "ok") || (ok && d.Version != fmt.Sprintf("%d.0", k+1)) {
								v.Fail(asked, "round %d: repository %d (kind %v) gives %v %v", round, k, st, ok, d.Version)
								return
							}
						}
					}
				}
				for k := range repos {
					repos[k].Kind = "ok"
					if repos[k].Bin != "" {
						repos[k].Bin = "ok"
					}
				}
			}
		})
		v.Drop(dir)
	}
}

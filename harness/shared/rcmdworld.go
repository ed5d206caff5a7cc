// dir: rcmd
package rcmd

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/spf13/afero"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/gpsr"
)

// Installs with a stand-in for R: a script that "installs" a package by writing a folder, fails where the situation says
// so, and writes down what it was started with.

const rwScript = `#!/bin/sh
D='%DIR%'
lib=; build=; last=
for a in "$@"; do case "$a" in --library=*) lib=${a#--library=};; --build) build=1;; esac; last=$a; done
b=${last##*/}; name=${b%%_*}; rest=${b#*_}; ver=${rest%%_*}; ver=${ver%.tar.gz}
phase=build; [ "$lib" = "$D/lib" ] && phase=final
if [ ! -e "$last" ]; then echo "nofile $name" >> "$D/fake/log"; exit 1; fi
echo "start $name $phase" >> "$D/fake/log"
if [ -f "$D/fake/deps.$name" ]; then
  while read -r d; do [ -d "$D/lib/$d" ] || echo "early $name $d" >> "$D/fake/log"; done < "$D/fake/deps.$name"
fi
[ -f "$D/fake/slow.$name" ] && sleep "$(cat "$D/fake/slow.$name")"
kind=; [ -f "$D/fake/fail.$name" ] && kind=$(cat "$D/fake/fail.$name")
case "$lib" in "$D"/*) ;; *) echo "outside $lib" >> "$D/fake/log"; exit 1;; esac
case "$kind.$phase" in
exit.*|exitfinal.final|exitbuild.build) echo "fail $name" >> "$D/fake/log"; exit 1;;
kill.*|killfinal.final|killbuild.build) echo "fail $name" >> "$D/fake/log"; kill -9 $$;;
partial.final) mkdir -p "$lib/$name"; echo junk > "$lib/$name/junk"; echo "fail $name" >> "$D/fake/log"; exit 3;;
late.*) mkdir -p "$lib/$name"; printf 'Package: %s\nVersion: 1\n' "$name" > "$lib/$name/DESCRIPTION"; echo "fail $name" >> "$D/fake/log"
  [ -n "$build" ] && echo bin > "${name}_${ver}_R_x86_64-pc-linux-gnu.tar.gz"; exit 2;;
esac
mkdir -p "$lib/$name"
printf 'Package: %s\nVersion: %s\nRepository: CRAN\n' "$name" "$ver" > "$lib/$name/DESCRIPTION"
if [ -n "$build" ]; then
  if [ "$kind" = nobinary ]; then echo "fail $name" >> "$D/fake/log"; else echo bin > "${name}_${ver}_R_x86_64-pc-linux-gnu.tar.gz"; fi
fi
echo "done $name $phase" >> "$D/fake/log"
exit 0
`

type rwWorld struct {
	Starting  []string
	DepDb     map[string][]string
	Fail      map[string]string
	Slow      map[string]int // hundredths of a second
	Installed []string
	Binary    []string // there is a binary in the package cache
	NoCache   []string // their binary cannot be kept
	Ncpu      int
}

type rwRun struct {
	Err   error
	Ended bool
	Log   []string
	Lib   []string
}

func rwWrite(p, s string) {
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {
		panic(err)
	}
}

func rwHas(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var rwRV = cran.RVersion{Major: 3, Minor: 6, Patch: 1}

const rwPlatform = "x86_64-pc-linux-gnu"

var rwRepo = cran.RepoURL{Name: "repo", URL: "https://repo.example"}

func (w rwWorld) all() []string {
	var l []string
	for p := range w.DepDb {
		l = append(l, p)
	}
	sort.Strings(l)
	return append(append([]string{}, w.Starting...), l...)
}

// rwWorld0: a random acyclic plan.
func (v *verifRun) rwWorld0() rwWorld {
	w := rwWorld{DepDb: map[string][]string{}, Fail: map[string]string{}, Slow: map[string]int{}, Ncpu: 1 + v.R.Intn(4)}
	names := []string{"aa", "bb", "cc", "dd", "ee", "ff", "R6", "x.y"}
	names = names[:2+v.R.Intn(len(names)-1)]
	v.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	closure := map[string]map[string]bool{}
	for i, p := range names {
		deps := map[string]bool{}
		if i > 0 {
			for k := v.R.Intn(3); k > 0; k-- {
				d := names[v.R.Intn(i)]
				deps[d] = true
				for e := range closure[d] {
					deps[e] = true
				}
			}
		}
		closure[p] = deps
		if len(deps) == 0 {
			w.Starting = append(w.Starting, p)
			continue
		}
		for d := range deps {
			w.DepDb[p] = append(w.DepDb[p], d)
		}
	}
	if v.R.Intn(3) > 0 {
		for k := 1 + v.R.Intn(2); k > 0; k-- {
			w.Fail[v.Pick(names...)] = v.Pick("exit", "exit", "kill", "partial", "exitfinal", "exitbuild", "nobinary", "late", "nofile")
		}
	}
	for _, p := range names {
		if v.R.Intn(5) == 0 {
			w.Slow[p] = 1 + v.R.Intn(3)
		}
		if w.Fail[p] == "" {
			if v.R.Intn(8) == 0 && w.installable(p, closure) {
				w.Installed = append(w.Installed, p)
			} else if v.R.Intn(5) == 0 {
				w.Binary = append(w.Binary, p)
			} else if v.R.Intn(8) == 0 {
				w.NoCache = append(w.NoCache, p)
			}
		}
	}
	return w
}

func (w rwWorld) installable(p string, closure map[string]map[string]bool) bool { return true }

func (w rwWorld) fails(p string) bool { return w.Fail[p] != "" && !rwHas(w.Installed, p) }

func (w rwWorld) setup(dir string) (*cran.PkgMap, PackageCache, InstallArgs, RSettings) {
	for _, d := range []string{"fake", "tmp", "lib", "cache"} {
		os.MkdirAll(filepath.Join(dir, d), 0755)
	}
	os.Setenv("TMPDIR", filepath.Join(dir, "tmp"))
	script := filepath.Join(dir, "fake", "R")
	rwWrite(script, strings.Replace(rwScript, "%DIR%", dir, -1))
	os.Chmod(script, 0755)
	dl := cran.NewPkgMap()
	for _, p := range w.all() {
		src := filepath.Join(dir, "cache", cran.RepoURLHash(rwRepo), "src-"+p, p+"_1.0.tar.gz")
		if !rwHas(w.NoCache, p) {
			src = filepath.Join(dir, "cache", cran.RepoURLHash(rwRepo), "src", p+"_1.0.tar.gz")
		}
		bin := filepath.Join(dir, "cache", cran.RepoURLHash(rwRepo), "binary", rwRV.ToString(), p+"_1.0_R_"+rwPlatform+".tar.gz")
		if rwHas(w.NoCache, p) { // the folder for its binary is a file
			src = filepath.Join(dir, "cache", "other-"+p, "src", p+"_1.0.tar.gz")
			rwWrite(filepath.Join(dir, "cache", "other-"+p, "binary"), "in the way")
		}
		os.MkdirAll(filepath.Dir(bin), 0755)
		if w.Fail[p] != "nofile" {
			rwWrite(src, "source of "+p)
		}
		if rwHas(w.Binary, p) {
			rwWrite(bin, "binary of "+p)
		}
		if rwHas(w.Installed, p) {
			rwWrite(filepath.Join(dir, "lib", p, "DESCRIPTION"), "Package: "+p+"\nVersion: 1.0\n")
		}
		dl.Put(p, cran.Download{Path: src, Metadata: cran.PkgDl{Package: desc.Desc{Package: p, Version: "1.0"}, Config: cran.PkgConfig{Repo: rwRepo, Type: cran.Source}}})
	}
	for p, k := range w.Fail {
		rwWrite(filepath.Join(dir, "fake", "fail."+p), k)
	}
	for p, s := range w.Slow {
		rwWrite(filepath.Join(dir, "fake", "slow."+p), fmt.Sprintf("0.%02d", s))
	}
	for p, l := range w.DepDb {
		rwWrite(filepath.Join(dir, "fake", "deps."+p), strings.Join(append(append([]string{}, l...), ""), "\n"))
	}
	args := NewDefaultInstallArgs()
	args.Library = filepath.Join(dir, "lib")
	rs := RSettings{Version: rwRV, Platform: rwPlatform, Rpath: script, PkgEnvVars: map[string]map[string]string{}}
	return dl, PackageCache{BaseDir: filepath.Join(dir, "cache")}, args, rs
}

func (v *verifRun) rwInstall(w rwWorld, dir string) rwRun {
	old := os.Getenv("TMPDIR")
	defer os.Setenv("TMPDIR", old)
	dl, pc, args, rs := w.setup(dir)
	plan := gpsr.InstallPlan{StartingPackages: append([]string{}, w.Starting...), DepDb: map[string][]string{}, InstalledPackages: map[string]desc.Desc{}}
	for p, l := range w.DepDb {
		plan.DepDb[p] = append([]string{}, l...)
	}
	for _, p := range w.Installed {
		plan.InstalledPackages[p] = desc.Desc{Package: p, Version: "1.0"}
	}
	var r rwRun
	res := make(chan error, 1)
	r.Ended = v.Within(20*time.Second, func() {
		res <- InstallPackagePlan(afero.NewOsFs(), plan, dl, pc, args, rs, ExecSettings{PkgrVersion: "dev"}, w.Ncpu)
	})
	if r.Ended {
		select {
		case r.Err = <-res:
		default:
		}
	}
	b, _ := ioutil.ReadFile(filepath.Join(dir, "fake", "log"))
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			r.Log = append(r.Log, l)
		}
	}
	fis, _ := ioutil.ReadDir(filepath.Join(dir, "lib"))
	for _, fi := range fis {
		r.Lib = append(r.Lib, fi.Name())
	}
	return r
}

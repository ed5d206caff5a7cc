// dir: cmd
package cmd

import (
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/spf13/afero"

	"github.com/metrumresearchgroup/pkgr/cran"
)

// Whole installs of planworld situations with a stand-in for R: a script that "installs" a package by writing a
// folder, fails where the situation says so, and writes down what it was started with.

type iwGuard struct {
	afero.Fs
	root string
	bad  *[]string
}

func (g iwGuard) inside(p string) bool {
	q, err := filepath.Abs(p)
	if err != nil || !strings.HasPrefix(q, g.root+"/") {
		*g.bad = append(*g.bad, p)
		return false
	}
	return true
}
func (g iwGuard) RemoveAll(p string) error {
	if !g.inside(p) {
		return errors.New("outside of the scratch directory")
	}
	return g.Fs.RemoveAll(p)
}
func (g iwGuard) Remove(p string) error {
	if !g.inside(p) {
		return errors.New("outside of the scratch directory")
	}
	return g.Fs.Remove(p)
}
func (g iwGuard) Rename(a, b string) error {
	if !g.inside(a) || !g.inside(b) {
		return errors.New("outside of the scratch directory")
	}
	return g.Fs.Rename(a, b)
}

type iwWorld struct {
	W    pwWorld
	Fail map[string]string // package: how its installation goes wrong
	Slow map[string]int    // hundredths of a second
	// packages whose file cannot be downloaded
	NoFile     []string
	NoRollback bool
}

type iwRun struct {
	Dir           string
	Before, After map[string]string
	Log           []string
	Exited, Ended bool
	Outside       []string
	Env           map[string]string
}

const iwScript = `#!/bin/sh
D='%DIR%'
if [ "$1" = --version ]; then
  echo 'R version 3.6.1 (2019-07-05) -- "Action of the Toes"'
  echo 'Platform: x86_64-pc-linux-gnu (64-bit)'
  exit 0
fi
lib=; build=; last=
for a in "$@"; do case "$a" in --library=*) lib=${a#--library=};; --build) build=1;; esac; last=$a; done
b=${last##*/}; name=${b%%_*}; rest=${b#*_}; ver=${rest%%_*}; ver=${ver%.tar.gz}
if [ -d "$last" ]; then name=$b; ver=0.1; fi
if [ ! -e "$last" ]; then echo "nofile $name" >> "$D/fake/log"; exit 1; fi
phase=build; [ "$lib" = "$D/lib" ] && phase=final
echo "start $name $ver $phase" >> "$D/fake/log"
env > "$D/fake/env.$name.$phase"
echo "$@" > "$D/fake/args.$name.$phase"
if [ -f "$D/fake/deps.$name" ]; then
  while read -r d; do [ -d "$D/lib/$d" ] || echo "early $name $d" >> "$D/fake/log"; done < "$D/fake/deps.$name"
fi
[ -f "$D/fake/slow.$name" ] && sleep "$(cat "$D/fake/slow.$name")"
kind=; [ -f "$D/fake/fail.$name" ] && kind=$(cat "$D/fake/fail.$name")
case "$lib" in "$D"/*) ;; *) echo "outside $lib" >> "$D/fake/log"; exit 1;; esac
case "$kind.$phase" in
exit.*) echo "fail $name" >> "$D/fake/log"; exit 1;;
kill.*) echo "fail $name" >> "$D/fake/log"; kill -9 $$;;
empty.final) mkdir -p "$lib/$name"; echo "fail $name" >> "$D/fake/log"; exit 3;;
partial.final) mkdir -p "$lib/$name"; echo junk > "$lib/$name/junk"; echo "fail $name" >> "$D/fake/log"; exit 3;;
esac
mkdir -p "$lib/$name/R"
printf 'Package: %s\nVersion: %s\nRepository: CRAN\nPackaged: now\n' "$name" "$ver" > "$lib/$name/DESCRIPTION"
echo "code of $name $ver" > "$lib/$name/R/code"
if [ -n "$build" ]; then
  if [ "$kind" = nobinary ]; then echo "fail $name" >> "$D/fake/log"; else echo bin > "${name}_${ver}_R_x86_64-pc-linux-gnu.tar.gz"; fi
fi
echo "done $name $phase" >> "$D/fake/log"
exit 0
`

func (v *verifRun) installWorld() iwWorld {
	w := iwWorld{W: v.world(), Fail: map[string]string{}, Slow: map[string]int{}}
	if w.W.Tarball != nil && v.R.Intn(2) == 0 { // an installed, maybe outdated package is overridden by a tarball
		w.W.Tarball.Pkg = v.Pick(pwPool...)
		w.W.Tarball.Depends, w.W.Tarball.Imports, w.W.Tarball.Suggests, w.W.Tarball.LinkingTo = nil, nil, nil, nil
	}
	if v.R.Intn(3) > 0 {
		all := pwKeys(w.W.resolved())
		if w.W.Tarball != nil {
			all = append(all, w.W.Tarball.Pkg)
		}
		for i := 0; i < 1+v.R.Intn(2) && len(all) > 0; i++ {
			w.Fail[v.Pick(all...)] = v.Pick("exit", "exit", "kill", "partial", "empty")
		}
	}
	for q := range w.W.resolved() {
		if v.R.Intn(6) == 0 {
			w.Slow[q] = 1 + v.R.Intn(4)
		}
	}
	return w
}

// fails: will this install fail at all?
func (w iwWorld) fails() bool {
	for q, k := range w.Fail {
		if f, ok := w.W.lookup(q); k == "nobinary" && ok && f.Type == cran.Binary {
			continue // nothing is built for it
		}
		if w.toInstall(q) || (w.W.Tarball != nil && w.W.Tarball.Pkg == q) {
			return true
		}
	}
	return false
}

// toInstall: q is in the plan and not there yet, or outdated and updated.
func (w iwWorld) toInstall(q string) bool {
	if !w.W.resolved()[q] {
		return false
	}
	ver, inst := w.W.Installed[q]
	f, _ := w.W.lookup(q)
	return !inst || (!w.W.NoUpdate && pwNewer(f.E.Ver, ver)) || (w.W.Tarball != nil && w.W.Tarball.Pkg == q)
}

func iwTree(dir string) map[string]string {
	r := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			r[rel+"/"] = ""
			return nil
		}
		b, _ := ioutil.ReadFile(p)
		r[rel] = string(b)
		return nil
	})
	return r
}

func (v *verifRun) install(w iwWorld, dir string) iwRun {
	r := iwRun{Dir: dir, Env: map[string]string{}}
	w.W.setup(dir)
	for _, d := range []string{"fake", "tmp", "home"} {
		os.MkdirAll(filepath.Join(dir, d), 0755)
	}
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", filepath.Join(dir, "tmp"))
	defer os.Setenv("TMPDIR", old)
	script := filepath.Join(dir, "fake", "R")
	pwWrite(script, strings.Replace(iwScript, "%DIR%", dir, -1))
	os.Chmod(script, 0755)
	cfg.RPath = script
	cfg.NoRollback = w.NoRollback
	for i, rp := range w.W.Repos {
		db := &cran.RepoDb{Repo: cran.RepoURL{Name: rp.Name, URL: filepath.Join(dir, fmt.Sprintf("repo%d", i))}}
		for _, e := range rp.Src {
			if !pwHas(w.NoFile, e.Pkg) {
				pwWrite(filepath.Join(filepath.Dir(cran.GetPackagesFileURL(db, cran.Source, pwRV)), e.Pkg+"_"+e.Ver+".tar.gz"), "source "+e.Pkg)
			}
		}
		for _, e := range rp.Bin {
			if !pwHas(w.NoFile, e.Pkg) {
				pwWrite(filepath.Join(filepath.Dir(cran.GetPackagesFileURL(db, cran.Binary, pwRV)), e.Pkg+"_"+e.Ver+"_R_x86_64-pc-linux-gnu.tar.gz"), "binary "+e.Pkg)
			}
		}
	}
	for q := range w.W.resolved() {
		pwWrite(filepath.Join(dir, "fake", "deps."+q), strings.Join(append(w.W.reqs(q), ""), "\n"))
	}
	for q, k := range w.Fail {
		pwWrite(filepath.Join(dir, "fake", "fail."+q), k)
	}
	for q, s := range w.Slow {
		pwWrite(filepath.Join(dir, "fake", "slow."+q), fmt.Sprintf("0.%02d", s))
	}
	for q := range w.W.Installed { // something nested in every installed package
		pwWrite(filepath.Join(dir, "lib", q, "R", "old"), "old code of "+q)
	}
	fs = iwGuard{afero.NewOsFs(), dir, &r.Outside}
	r.Before = iwTree(filepath.Join(dir, "lib"))
	r.Ended = v.Within(60*time.Second, func() { r.Exited = v.Exits(func() { rInstall(nil, nil) }) })
	r.After = iwTree(filepath.Join(dir, "lib"))
	b, _ := ioutil.ReadFile(filepath.Join(dir, "fake", "log"))
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			r.Log = append(r.Log, l)
		}
	}
	for _, e := range []string{"build", "final"} {
		fis, _ := filepath.Glob(filepath.Join(dir, "fake", "env.*."+e))
		for _, f := range fis {
			b, _ := ioutil.ReadFile(f)
			r.Env[strings.TrimPrefix(filepath.Base(f), "env.")] = string(b)
		}
	}
	return r
}

// installs runs whole installs and hands each to check, which returns "" or what is wrong.
func (v *verifRun) installs(n int, change func(w *iwWorld), check func(w iwWorld, r iwRun) string) {
	out := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	defer func() { os.Stdout = out }()
	for i := 0; i < n && v.More(); i++ {
		w := v.installWorld()
		if change != nil {
			change(&w)
		}
		if len(w.W.requested()) == 0 {
			continue
		}
		dir := v.Scratch()
		v.Case(w, func() {
			os.Stdout = null
			defer func() { os.Stdout = out }()
			r := v.install(w, dir)
			if !r.Ended {
				v.Fail(w, "the install did not end; started so far: %v", r.Log)
				return
			}
			if len(r.Outside) > 0 {
				v.Fail(w, "removal or renaming of %v", r.Outside)
			}
			if s := check(w, r); s != "" {
				v.Fail(w, "%s (R was run as: %v)", s, r.Log)
			}
		})
		v.Drop(dir)
	}
}

func iwDiff(a, b map[string]string) string {
	for k, x := range a {
		if y, ok := b[k]; !ok {
			return k + " is gone"
		} else if x != y {
			return fmt.Sprintf("%s changed from %q to %q", k, x, y)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return k + " is left over"
		}
	}
	return ""
}

// iwRolledBack: a failed install leaves the library as it was.
func iwRolledBack(w iwWorld, r iwRun) string {
	if w.NoRollback || !(w.fails() || r.Exited) {
		return ""
	}
	if d := iwDiff(r.Before, r.After); d != "" {
		return "after the failed install the library differs: " + d
	}
	return ""
}

// iwUpdated: a successful install replaces the outdated packages of the plan and those with a tarball, adds the new
// ones, and leaves everything else alone.
func iwUpdated(w iwWorld, r iwRun) string {
	if w.fails() || r.Exited {
		return ""
	}
	want := map[string]string{}
	for q, ver := range w.W.Installed {
		want[q] = ver
	}
	for q := range w.W.resolved() {
		if w.toInstall(q) {
			f, _ := w.W.lookup(q)
			want[q] = f.E.Ver
		}
	}
	if w.W.Tarball != nil {
		want[w.W.Tarball.Pkg] = "0.1"
	}
	for k := range r.After {
		q := strings.SplitN(k, "/", 2)[0]
		if _, ok := want[q]; !ok && q != "." {
			return "unexpected in the library: " + k
		}
	}
	for q, ver := range want {
		d := "\n" + r.After[q+"/DESCRIPTION"]
		if !strings.Contains(d, "\nVersion: "+ver+"\n") {
			return fmt.Sprintf("%s should be there in version %s, its DESCRIPTION is %q", q, ver, d)
		}
		fresh := w.toInstall(q) || (w.W.Tarball != nil && w.W.Tarball.Pkg == q)
		_, hasOld := r.After[q+"/R/old"]
		if fresh == hasOld {
			return fmt.Sprintf("%s: replaced %v, but its former files are there: %v", q, fresh, hasOld)
		}
		if !fresh && d != "\n"+r.Before[q+"/DESCRIPTION"] {
			return "the DESCRIPTION of " + q + " changed"
		}
	}
	return ""
}

// iwOrder: nothing is started before its dependencies are there, or twice.
func iwOrder(w iwWorld, r iwRun) string {
	seen := map[string]bool{}
	for _, l := range r.Log {
		if strings.HasPrefix(l, "early") {
			return "started before a dependency was installed: " + l
		}
		if strings.HasPrefix(l, "outside") || strings.HasPrefix(l, "nofile") {
			return "R was started for something else: " + l
		}
		if strings.HasPrefix(l, "start") && !(w.W.Tarball != nil && strings.HasPrefix(l, "start "+w.W.Tarball.Pkg+" ")) {
			if seen[l] {
				return "done twice: " + l
			}
			seen[l] = true
		}
	}
	return ""
}

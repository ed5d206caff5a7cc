// dir: cmd
package cmd

import (
	"archive/tar"
	"compress/gzip"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/spf13/afero"
	"github.com/spf13/viper"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/gpsr"
	"github.com/metrumresearchgroup/pkgr/rollback"
)

// A random planning situation: repositories on disk, a library, a configuration file, and what planning it must give.

type pwEntry struct {
	Pkg, Ver                              string
	Depends, Imports, LinkingTo, Suggests []string
	RReq                                  string
}
type pwRepo struct {
	Name, RepoType, Type string
	Src, Bin             []pwEntry
}
type pwCust struct {
	Pkg                  string
	Suggests, Repo, Type string
}
type pwWorld struct {
	Repos         []pwRepo
	Packages      []string
	Installed     map[string]string
	Cust          []pwCust
	Suggests      bool
	NoRecommended bool
	NoUpdate      bool
	NoLibrary     bool
	Tarball       *pwEntry
	Description   *pwEntry
	Ignore        []string
}

var pwBase = map[string]bool{"base": true, "compiler": true, "datasets": true, "grDevices": true, "graphics": true, "grid": true, "methods": true, "parallel": true, "splines": true, "stats": true, "stats4": true, "tcltk": true, "tools": true, "utils": true}
var pwRec = map[string]bool{"MASS": true, "lattice": true, "Matrix": true, "nlme": true, "survival": true, "boot": true, "cluster": true, "codetools": true, "foreign": true, "KernSmooth": true, "rpart": true, "class": true, "nnet": true, "spatial": true, "mgcv": true}
var pwPool = []string{"MASS", "lattice", "survival", "utils", "pa", "pa.x", "pb", "pc", "Pc", "pd", "pe", "pf", "pg", "ph"}
var pwRV = cran.RVersion{Major: 3, Minor: 6, Patch: 1}

func (v *verifRun) world() pwWorld {
	w := pwWorld{Installed: map[string]string{}, Suggests: v.R.Intn(3) == 0, NoRecommended: v.R.Intn(3) == 0, NoUpdate: v.R.Intn(3) == 0, NoLibrary: v.R.Intn(6) == 0}
	pool := append([]string{}, pwPool...)
	v.R.Shuffle(len(pool)-4, func(i, j int) { pool[4+i], pool[4+j] = pool[4+j], pool[4+i] })
	vers := []string{"1.0", "1.0.1", "1.2", "1.10", "2.0-1", "0.9"}
	names := []string{"CRAN", "MPN", "zz", "r_dev"}
	v.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	sub := func(i int, p int) []string {
		var r []string
		for j := 0; j < i; j++ {
			if v.R.Intn(p) == 0 {
				r = append(r, pool[j])
			}
		}
		if v.R.Intn(6) == 0 {
			r = append(r, v.Pick("utils", "methods", "nowhere", "stats"))
		}
		v.R.Shuffle(len(r), func(a, b int) { r[a], r[b] = r[b], r[a] })
		var u []string
		for _, x := range r {
			if !pwHas(u, x) {
				u = append(u, x)
			}
		}
		return u
	}
	entry := func(i int) pwEntry {
		e := pwEntry{Pkg: pool[i], Ver: v.Pick(vers...)}
		if i >= 4 {
			e.Depends, e.Imports, e.LinkingTo, e.Suggests = sub(i, 6), sub(i, 5), sub(i, 9), sub(i, 5)
		}
		switch v.R.Intn(8) {
		case 0:
			e.RReq = "R (>= 3.6.1)"
		case 1:
			e.RReq = "R (>= 4.0)"
		case 2:
			e.RReq = "R (< 3.6.1)"
		case 3:
			e.RReq = "R (>= 3.5)"
		case 4:
			e.RReq = "R"
		}
		return e
	}
	for k := 0; k < 1+v.R.Intn(3); k++ {
		r := pwRepo{Name: names[k], Type: v.Pick("", "", "source", "Binary"), RepoType: v.Pick("", "", "", "MPN", "RSPM", "mpn")}
		if strings.EqualFold(r.Type, "binary") && !strings.EqualFold(r.RepoType, "mpn") {
			r.Type = ""
		}
		for i := range pool {
			if v.R.Intn(3) > 0 {
				r.Src = append(r.Src, entry(i))
			}
			if v.R.Intn(3) > 0 {
				r.Bin = append(r.Bin, entry(i))
			}
		}
		w.Repos = append(w.Repos, r)
	}
	for k := 0; k < v.R.Intn(4); k++ {
		q := v.Pick(pool...)
		if _, has := w.custOf(q); has {
			continue
		}
		c := pwCust{Pkg: q, Suggests: v.Pick("", "true", "false"), Type: v.Pick("", "", "source", "Source", "binary")}
		if v.R.Intn(3) == 0 {
			c.Repo = w.Repos[v.R.Intn(len(w.Repos))].Name
		}
		w.Cust = append(w.Cust, c)
	}
	for i := 0; i < v.R.Intn(2); i++ {
		w.Ignore = append(w.Ignore, v.Pick(pool[4:]...))
	}
	for i := 0; i < 1+v.R.Intn(5); i++ {
		p := v.Pick(pool...)
		if _, ok := w.lookup(p); ok || pwBase[p] {
			w.Packages = append(w.Packages, p)
		}
	}
	if len(w.Packages) > 1 { // each package once
		var u []string
		for _, p := range w.Packages {
			if !pwHas(u, p) {
				u = append(u, p)
			}
		}
		w.Packages = u
	}
	avail := func(l []string) []string {
		var r []string
		for _, x := range l {
			if _, ok := w.lookup(x); ok || pwBase[x] {
				r = append(r, x)
			}
		}
		return r
	}
	if v.R.Intn(4) == 0 {
		w.Tarball = &pwEntry{Pkg: "tarpkg", Ver: "0.1", Depends: avail(sub(len(pool), 8)), Imports: avail(sub(len(pool), 8)), Suggests: avail(sub(len(pool), 4)), RReq: v.Pick("", "R (>= 3.0)")}
	}
	if v.R.Intn(4) == 0 {
		w.Description = &pwEntry{Pkg: "descpkg", Ver: "0.1", Depends: avail(sub(len(pool), 8)), LinkingTo: avail(sub(len(pool), 8)), Suggests: avail(sub(len(pool), 6))}
	}
	if !w.NoLibrary {
		for _, p := range append([]string{"other", "other2", "tarpkg"}, pool...) {
			if v.R.Intn(3) == 0 {
				w.Installed[p] = v.Pick(vers...)
			}
		}
	}
	return w
}

func pwHas(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (e pwEntry) offered() bool {
	return !(strings.Contains(e.RReq, "4.0") || strings.Contains(e.RReq, "<"))
}

type pwFound struct {
	E    pwEntry
	Repo string
	Type cran.SourceType
}

func (w pwWorld) custOf(p string) (pwCust, bool) {
	r := pwCust{Pkg: p}
	found := false
	for _, c := range w.Cust {
		if c.Pkg != p {
			continue
		}
		found = true
		if c.Suggests != "" {
			r.Suggests = c.Suggests
		}
		if c.Repo != "" {
			r.Repo = c.Repo
		}
		if c.Type != "" {
			r.Type = c.Type
		}
	}
	return r, found
}

// lookup: the first configured repository that has the package under the type in force.
func (w pwWorld) lookup(p string) (pwFound, bool) {
	if pwHas(w.Ignore, p) {
		return pwFound{}, false
	}
	c, _ := w.custOf(p)
	for _, r := range w.Repos {
		if c.Repo != "" && c.Repo != r.Name {
			continue
		}
		bin := strings.EqualFold(r.RepoType, "mpn")
		if r.Type != "" {
			bin = strings.EqualFold(r.Type, "binary")
		}
		if c.Type != "" {
			bin = strings.EqualFold(c.Type, "binary")
		}
		l, t := r.Src, cran.Source
		if bin {
			l, t = r.Bin, cran.Binary
			if !strings.EqualFold(r.RepoType, "mpn") {
				l = nil
			}
		}
		for _, e := range l {
			if e.Pkg == p && e.offered() {
				return pwFound{e, r.Name, t}, true
			}
		}
	}
	return pwFound{}, false
}

func (w pwWorld) excluded(p string) bool { return pwBase[p] || (pwRec[p] && w.NoRecommended) }

// requested: the user's packages, those of the tarball and of the DESCRIPTION, without base packages.
func (w pwWorld) requested() []string {
	l := append([]string{}, w.Packages...)
	add := func(xs []string) {
		for _, x := range xs {
			if !pwHas(l, x) {
				l = append(l, x)
			}
		}
	}
	if w.Tarball != nil {
		add(w.Tarball.Depends)
		add(w.Tarball.Imports)
		add(w.Tarball.LinkingTo)
	}
	if w.Description != nil {
		add(w.Description.Depends)
		add(w.Description.Imports)
		add(w.Description.LinkingTo)
		add(w.Description.Suggests)
	}
	var r []string
	for _, x := range l {
		if !pwBase[x] {
			r = append(r, x)
		}
	}
	return r
}

func (w pwWorld) suggestsOn(p string) bool {
	c, _ := w.custOf(p)
	if c.Suggests != "" {
		return c.Suggests == "true"
	}
	return w.Suggests && pwHas(w.Packages, p)
}

func (w pwWorld) reqs(p string) []string {
	f, ok := w.lookup(p)
	if !ok {
		return nil
	}
	var r []string
	for _, l := range [][]string{f.E.Depends, f.E.Imports, f.E.LinkingTo} {
		for _, d := range l {
			if _, ok := w.lookup(d); ok && !w.excluded(d) && !pwHas(r, d) {
				r = append(r, d)
			}
		}
	}
	return r
}

// resolved: everything that has to be in the plan.
func (w pwWorld) resolved() map[string]bool {
	done := map[string]bool{}
	var add func(p string)
	add = func(p string) {
		if done[p] {
			return
		}
		done[p] = true
		f, _ := w.lookup(p)
		for _, d := range w.reqs(p) {
			add(d)
		}
		if w.suggestsOn(p) {
			for _, s := range f.E.Suggests {
				if _, ok := w.lookup(s); ok && !w.excluded(s) {
					add(s)
				}
			}
		}
	}
	for _, p := range w.requested() {
		add(p)
	}
	return done
}

func (w pwWorld) closure(p string) map[string]bool {
	r := map[string]bool{}
	var add func(q string)
	add = func(q string) {
		for _, d := range w.reqs(q) {
			if !r[d] {
				r[d] = true
				add(d)
			}
		}
	}
	add(p)
	return r
}

func pwDesc(e pwEntry) string {
	s := "Package: " + e.Pkg + "\nVersion: " + e.Ver + "\n"
	dep := e.Depends
	if e.RReq != "" {
		dep = append([]string{e.RReq}, dep...)
	}
	for _, f := range []struct {
		n string
		l []string
	}{{"Depends", dep}, {"Imports", e.Imports}, {"LinkingTo", e.LinkingTo}, {"Suggests", e.Suggests}} {
		if len(f.l) > 0 {
			s += f.n + ": " + strings.Join(f.l, ", ") + "\n"
		}
	}
	return s
}

func pwPackages(l []pwEntry) string {
	var b []string
	for _, e := range l {
		b = append(b, pwDesc(e))
	}
	return strings.Join(b, "\n")
}

func pwWrite(path, s string) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(path, []byte(s), 0644); err != nil {
		panic(err)
	}
}

// setup writes the world below dir and loads its configuration.
func (w pwWorld) setup(dir string) {
	os.Setenv("XDG_CACHE_HOME", filepath.Join(dir, "xdg"))
	os.Setenv("HOME", filepath.Join(dir, "home"))
	y := "Version: 1\nPackages:\n"
	for _, p := range w.Packages {
		y += "  - " + p + "\n"
	}
	if len(w.Packages) == 0 {
		y = "Version: 1\n"
	}
	y += "Repos:\n"
	for i, r := range w.Repos {
		d := filepath.Join(dir, fmt.Sprintf("repo%d", i))
		y += "  - " + r.Name + ": " + d + "\n"
		db := &cran.RepoDb{Repo: cran.RepoURL{Name: r.Name, URL: d}}
		pwWrite(cran.GetPackagesFileURL(db, cran.Source, pwRV), pwPackages(r.Src))
		pwWrite(cran.GetPackagesFileURL(db, cran.Binary, pwRV), pwPackages(r.Bin))
	}
	y += "Library: " + filepath.Join(dir, "lib") + "\nCache: " + filepath.Join(dir, "cache") + "\n"
	if w.Suggests {
		y += "Suggests: true\n"
	}
	if w.NoRecommended {
		y += "NoRecommended: true\n"
	}
	if w.NoUpdate {
		y += "NoUpdate: true\n"
	}
	if len(w.Ignore) > 0 {
		y += "IgnorePackages:\n"
		for _, p := range w.Ignore {
			y += "  - " + p + "\n"
		}
	}
	c := ""
	for _, r := range w.Repos {
		if r.Type == "" && r.RepoType == "" {
			continue
		}
		c += "    - " + r.Name + ":\n"
		if r.Type != "" {
			c += "        Type: " + r.Type + "\n"
		}
		if r.RepoType != "" {
			c += "        RepoType: " + r.RepoType + "\n"
		}
	}
	if c != "" {
		c = "  Repos:\n" + c
	}
	p := ""
	for _, x := range w.Cust {
		if x.Suggests == "" && x.Repo == "" && x.Type == "" {
			continue
		}
		p += "    - " + x.Pkg + ":\n"
		if x.Suggests != "" {
			p += "        Suggests: " + x.Suggests + "\n"
		}
		if x.Repo != "" {
			p += "        Repo: " + x.Repo + "\n"
		}
		if x.Type != "" {
			p += "        Type: " + x.Type + "\n"
		}
	}
	if p != "" {
		p = "  Packages:\n" + p
	}
	if p+c != "" {
		y += "Customizations:\n" + p + c
	}
	if !w.NoLibrary {
		os.MkdirAll(filepath.Join(dir, "lib"), 0755)
		for q, ver := range w.Installed {
			pwWrite(filepath.Join(dir, "lib", q, "DESCRIPTION"), "Package: "+q+"\nVersion: "+ver+"\n")
		}
	}
	if w.Tarball != nil {
		f, err := os.Create(filepath.Join(dir, ""+w.Tarball.Pkg+"_0.1.tar.gz"))
		if err != nil {
			panic(err)
		}
		g := gzip.NewWriter(f)
		t := tar.NewWriter(g)
		b := []byte(pwDesc(*w.Tarball))
		t.WriteHeader(&tar.Header{Name: w.Tarball.Pkg + "/", Typeflag: tar.TypeDir, Mode: 0755})
		t.WriteHeader(&tar.Header{Name: w.Tarball.Pkg + "/DESCRIPTION", Typeflag: tar.TypeReg, Mode: 0644, Size: int64(len(b))})
		t.Write(b)
		t.Close()
		g.Close()
		f.Close()
		y += "Tarballs:\n  - " + filepath.Join(dir, ""+w.Tarball.Pkg+"_0.1.tar.gz") + "\n"
	}
	if w.Description != nil {
		pwWrite(filepath.Join(dir, "d", "DESCRIPTION"), pwDesc(*w.Description))
		y += "Descriptions:\n  - " + filepath.Join(dir, "d", "DESCRIPTION") + "\n"
	}
	pwWrite(filepath.Join(dir, "pkgr.yml"), y)
	viper.Reset()
	cfg = configlib.PkgrConfig{}
	fs = afero.NewOsFs()
	configlib.NewConfig(filepath.Join(dir, "pkgr.yml"), &cfg)
}

type pwPlan struct {
	Nexus *cran.PkgNexus
	Plan  gpsr.InstallPlan
	Roll  rollback.RollbackPlan
	Dir   string
}

// plans generates worlds and hands each plan to check, which returns "" or what is wrong.
func (v *verifRun) plans(n int, want func(*pwWorld) bool, check func(w pwWorld, p pwPlan) string) {
	out := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	defer func() { os.Stdout = out }()
	for i := 0; i < n && v.More(); i++ {
		w := v.world()
		if len(w.requested()) == 0 || (want != nil && !want(&w)) {
			continue
		}
		dir := v.Scratch()
		v.Case(w, func() {
			os.Stdout = null
			defer func() { os.Stdout = out }()
			w.setup(dir)
			nx, ip, rb := planInstall(pwRV, false)
			if s := check(w, pwPlan{nx, ip, rb, dir}); s != "" {
				v.Fail(w, "%s", s)
			}
		})
		v.Drop(dir)
	}
}

func pwKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func pwSorted(l []string) []string {
	r := append([]string{}, l...)
	sort.Strings(r)
	return r
}

func pwSame(a, b []string) bool { return strings.Join(a, "|") == strings.Join(b, "|") }

// pwCover: the plan covers exactly the resolved packages (installed as starting package or with an entry).
func pwCover(w pwWorld, p pwPlan) string {
	got := append([]string{}, p.Plan.StartingPackages...)
	for k := range p.Plan.DepDb {
		got = append(got, k)
	}
	if want := pwKeys(w.resolved()); !pwSame(pwSorted(got), want) {
		return fmt.Sprintf("the plan covers %v, expected %v", pwSorted(got), want)
	}
	return ""
}

func pwStarting(w pwWorld, p pwPlan) string {
	var want []string
	for _, q := range pwKeys(w.resolved()) {
		if len(w.reqs(q)) == 0 {
			want = append(want, q)
		}
	}
	if got := pwSorted(p.Plan.StartingPackages); !pwSame(got, want) {
		return fmt.Sprintf("the starting packages are %v, expected %v", got, want)
	}
	return ""
}

func pwDeps(w pwWorld, p pwPlan) string {
	for q, l := range p.Plan.DepDb {
		if got, want := pwSorted(l), pwKeys(w.closure(q)); !pwSame(got, want) {
			return fmt.Sprintf("the dependencies of %s are %v, expected %v", q, got, want)
		}
	}
	return ""
}

func pwDownloads(w pwWorld, p pwPlan) string {
	seen := map[string]bool{}
	for _, d := range p.Plan.PackageDownloads {
		q := d.Package.Package
		f, ok := w.lookup(q)
		if !ok {
			return fmt.Sprintf("a download of %q, which no repository offers", q)
		}
		if d.Package.Version != f.E.Ver || d.Config.Repo.Name != f.Repo || d.Config.Type != f.Type {
			return fmt.Sprintf("%s is taken from %s (%v) in version %s, expected %s (%v) version %s", q, d.Config.Repo.Name, d.Config.Type, d.Package.Version, f.Repo, f.Type, f.E.Ver)
		}
		if seen[q] {
			return "two downloads of " + q
		}
		seen[q] = true
	}
	if got, want := pwKeys(seen), pwKeys(w.resolved()); !pwSame(got, want) {
		return fmt.Sprintf("the downloads are %v, expected %v", got, want)
	}
	return ""
}

func pwOutdated(w pwWorld, p pwPlan) string {
	var got, want []string
	for _, o := range p.Plan.OutdatedPackages {
		got = append(got, o.Package+" "+o.OldVersion+" "+o.NewVersion)
	}
	for q, ver := range w.Installed {
		if f, ok := w.lookup(q); ok && pwNewer(f.E.Ver, ver) {
			want = append(want, q+" "+ver+" "+f.E.Ver)
		}
	}
	if got, want := pwSorted(got), pwSorted(want); !pwSame(got, want) {
		return fmt.Sprintf("outdated: %v, expected %v", got, want)
	}
	return ""
}

func pwNewer(a, b string) bool {
	num := func(s string) [5]int {
		var r [5]int
		for i, x := range strings.FieldsFunc(s, func(c rune) bool { return c == '.' || c == '-' }) {
			fmt.Sscan(x, &r[i])
		}
		return r
	}
	x, y := num(a), num(b)
	for i := range x {
		if x[i] != y[i] {
			return x[i] > y[i]
		}
	}
	return false
}

func pwCount(w pwWorld, p pwPlan) string {
	n := 0
	for q := range w.resolved() {
		ver, inst := w.Installed[q]
		f, _ := w.lookup(q)
		if !inst || (!w.NoUpdate && pwNewer(f.E.Ver, ver)) {
			n++
		}
	}
	if w.Tarball != nil {
		n++
	}
	if got := p.Plan.GetNumPackagesToInstall(); got != n {
		return fmt.Sprintf("%d packages to install announced, expected %d", got, n)
	}
	return ""
}

// pwUser: the lookup of every package of the pool through the database built for the plan.
func pwLookups(w pwWorld, p pwPlan) string {
	for _, q := range append([]string{"nowhere"}, pwPool...) {
		d, c, ok := p.Nexus.GetPackage(q)
		f, want := w.lookup(q)
		if ok != want {
			return fmt.Sprintf("%s found: %v, expected %v", q, ok, want)
		}
		if ok && (d.Package != q || d.Version != f.E.Ver || c.Repo.Name != f.Repo || c.Type != f.Type) {
			return fmt.Sprintf("%s is taken from %s (%v) in version %s, expected %s (%v) version %s", q, c.Repo.Name, c.Type, d.Version, f.Repo, f.Type, f.E.Ver)
		}
	}
	return ""
}

var _ = desc.Desc{}

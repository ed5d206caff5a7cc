// C17: where a package file is kept. Repository names, R versions, package names and versions are plain folder or file
// name parts; package names contain no underscore (R forbids it).
// 12 hexadecimal digits of the MD5 sum are taken to identify an address
ghost hashin: string
spec md5of(s: string): []byte
spec hash12(s: string): string = substr(fmt("%x", md5of(s)), 0, 12)
trusted md5.New() (h)
  modifies hashin
  ensures h != nil
  set hashin = ""
end
trusted io.WriteString(w, s) (n, err)
  modifies hashin
  set hashin = old(hashin) + s
end
trusted "(hash.Hash).Sum"(h, b) (r)
  ensures b == nil ==> r == md5of(hashin)
end
spec repodir(n: string, u: string): string = n + "-" + hash12(u)
contract cran.RepoURLHash(r) (h)
  props C17
  modifies hashin
  ensures h == repodir(r.Name, r.URL)
end
spec srcfile(p: string, v: string): string = p + "_" + v + ".tar.gz"
spec binfile(p: string, v: string, plat: string): string = p + "_" + v + "_R_" + plat + ".tar.gz"
lemma same_repo mode theory props C17: forall n1: string, n2: string, h1: string, h2: string :: len(h1) == 12 && len(h2) == 12 && n1 + "-" + h1 == n2 + "-" + h2 ==> n1 == n2 && h1 == h2
lemma same_src mode theory props C17: forall p1: string, v1: string, p2: string, v2: string :: !contains(p1, "_") && !contains(p2, "_") && srcfile(p1, v1) == srcfile(p2, v2) ==> p1 == p2 && v1 == v2
lemma same_bin mode theory props C17: forall p1: string, v1: string, p2: string, v2: string, t: string :: !contains(p1, "_") && !contains(p2, "_") && binfile(p1, v1, t) == binfile(p2, v2, t) ==> p1 == p2 && v1 == v2

// the path of a package in a cache: a function of base folder, repository, kind (with R version), package and version
spec srcpath(base: string, r: cran.RepoURL, p: string, v: string): string = joinp(joinp(joinp(base, repodir(r.Name, r.URL)), "src"), srcfile(p, v))
spec binpath(base: string, r: cran.RepoURL, rv: string, file: string): string = joinp(joinp(joinp(joinp(base, repodir(r.Name, r.URL)), "binary"), rv), file)
spec rvstr(rv: cran.RVersion): string = itoa(rv.Major) + "." + itoa(rv.Minor)
contract "(cran.RVersion).ToString"(rv) (r)
  props C17
  ensures r == rvstr(rv)
end
contract cran.binaryName(pkg, version) (r)
  props C17
  ensures r == binfile(pkg, version, "x86_64-pc-linux-gnu") || r == binfile(pkg, version, "x86_64-redhat-linux-gnu")
end
contract rcmd.binaryName(pkg, version, platform) (r)
  props C17
  ensures r == binfile(pkg, version, platform)
end
contract "(*cran.PkgMap).Put"(sm, key, value) ()
  props C17 C18
  requires sm != nil && sm.Map != nil
  modifies sm.Map
  ensures put: key in sm.Map && sm.Map[key] == value
  ensures kept: forall k: string {k in sm.Map} :: k != key ==> (k in sm.Map <==> old(k in sm.Map)) && sm.Map[k] == old(sm.Map[k])
end
trusted "send:struct{}"(c, v)
end
trusted "recv:struct{}"(c) (v, ok)
end
trusted "(*sync.RWMutex).Lock"(m) ()
end
trusted "(*sync.RWMutex).Unlock"(m) ()
end
trusted "(*sync.RWMutex).RLock"(m) ()
end
trusted "(*sync.RWMutex).RUnlock"(m) ()
end
contract "cran.DownloadPackages$func(cran.PkgDl, *sync.WaitGroup)"(d, wg) ()
  props C17 C18
  requires *result != nil && (*result).Map != nil
  requires tlsoff <==> *noSecure
  modifies hashin, (*result).Map, disk, ioerr, status, answered, nasked18, complete, pend, cran.osRelease
  before cran.DownloadPackage source: d.Config.Type != cran.Binary ==> dest == srcpath(*baseDir, d.Config.Repo, d.Package.Package, d.Package.Version)
  before cran.DownloadPackage binary: d.Config.Type == cran.Binary ==> dest == binpath(*baseDir, d.Config.Repo, rvstr(rv), binfile(d.Package.Package, d.Package.Version, "x86_64-pc-linux-gnu")) || dest == binpath(*baseDir, d.Config.Repo, rvstr(rv), binfile(d.Package.Package, d.Package.Version, "x86_64-redhat-linux-gnu"))
  before "(*cran.PkgMap).Put" delivered: key == d.Package.Package && value.Metadata.Package == d.Package && disk[value.Path] != 0 && (value.New ==> complete && (nasked18 > old(nasked18) ==> answered && status == 200))
  ensures done: pend == old(pend) - 1
end
contract cran.DownloadPackages(fs, ds, baseDir, rv, noSecure) (m, err)
  props C17 C18
  requires tlsoff <==> noSecure
  modifies pend, hashin, disk, files, stray, ioerr, joined
  ensures map: m != nil
  ensures every: err == nil ==> pend == old(pend) + len(ds)
  loopinv () every: pend == old(pend) + IDX
  loopinv () none: pend == old(pend)
end
// a built or downloaded binary is looked for where a binary of that package, version and origin is kept
contract rcmd.isInCache(fs, ir, pc) (found, nir)
  props C17
  modifies hashin, ioerr
  ensures path: found ==> nir.Metadata.Path == binpath(pc.BaseDir, ir.Metadata.Metadata.Config.Repo, rvstr(ir.RSettings.Version), binfile(ir.Metadata.Metadata.Package.Package, ir.Metadata.Metadata.Package.Version, ir.RSettings.Platform))
  ensures there: found ==> disk[nir.Metadata.Path] != 0
  ensures same: nir.Package == ir.Package && nir.Metadata.Metadata.Package == ir.Metadata.Metadata.Package && nir.Metadata.Metadata.Config.Repo == ir.Metadata.Metadata.Config.Repo
  ensures rest: nir.InstallArgs == ir.InstallArgs && nir.RSettings == ir.RSettings && nir.ExecSettings == ir.ExecSettings
  ensures untouched: !found ==> nir == ir
end
spec dirp(p: string): string
spec basep(p: string): string
trusted filepath.Dir(p) (r)
  ensures r == dirp(p)
end
trusted filepath.Base(p) (r)
  ensures r == basep(p)
end
axiom base_of: forall a: string, b: string {joinp(a, b)} :: plain(b) ==> basep(joinp(a, b)) == b && dirp(joinp(a, b)) == a
contract "(*cran.PkgMap).Get"(m, k) (v, ok)
  props C17
  requires m != nil
  ensures ok <==> k in m.Map
  ensures ok ==> v == m.Map[k]
end
contract rcmd.binaryExt(p, platform) (r)
  props C17
  ensures r == replace1(basep(p), ".tar.gz", "_R_" + platform + ".tar.gz")
end
lemma built_name mode theory props C17: forall p: string, v: string, t: string :: indexof(srcfile(p, v), ".tar.gz") == len(p + "_" + v) ==> replace1(srcfile(p, v), ".tar.gz", "_R_" + t + ".tar.gz") == binfile(p, v, t)

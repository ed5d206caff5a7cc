// C12: the announced number of packages to install
trusted "go-funk.Contains"(inn, e) (r)
  ensures is(@[]string, inn) && is(@string, e) ==> (r <==> unbox(@string, e) in unbox(@[]string, inn))
end
trusted "go-funk.ContainsString"(l, e) (r)
  ensures r <==> e in l
end

contract "(*gpsr.InstallPlan).GetAllPackages"(ip) (r)
  props C12 C13 C14
  requires ip != nil
  ensures members: forall p: string {p in r} :: p in r <==> (p in ip.StartingPackages || p in ip.DepDb || p in ip.AdditionalPackageSources)
  ensures number: len(r) == len(ip.StartingPackages) + len(ip.DepDb) + len(ip.AdditionalPackageSources)
  loopinv (r: []string) mem: forall p: string {p in r} :: p in r <==> pre(p in r) || p in visited
  loopinv (r: []string) len: len(r) == pre(len(r)) + card(visited)
end

// |a intersected with b|
spec ncommon(a: set[string], b: set[string]): int
axiom ncommon_empty: forall b: set[string] {ncommon(emptyset(@string), b)} :: ncommon(emptyset(@string), b) == 0
axiom ncommon_add: forall a: set[string], k: string, b: set[string] {ncommon(upd(a, k, true), b)} ::
  !(k in a) ==> ncommon(upd(a, k, true), b) == ncommon(a, b) + (k in b ? 1 : 0)
spec replaced(st: []string, dep: set[string], add: set[string]): set[string]
axiom replaced_def: forall st: []string, dep: set[string], add: set[string], p: string {p in replaced(st, dep, add)} ::
  p in replaced(st, dep, add) <==> ((p in st || p in dep) && !(p in add))
// how many of the first n outdated packages are in the set
spec nOutIn(l: []cran.OutdatedPackage, s: set[string], n: int): int
axiom nOutIn_def: forall l: []cran.OutdatedPackage, s: set[string], n: int {nOutIn(l, s, n)} ::
     (n <= 0 ==> nOutIn(l, s, n) == 0)
  && (n > 0 ==> nOutIn(l, s, n) == nOutIn(l, s, n - 1) + (l[n - 1].Package in s ? 1 : 0))
spec planSet(ip: *gpsr.InstallPlan): set[string] = replaced(ip.StartingPackages, dom(ip.DepDb), dom(ip.AdditionalPackageSources))

contract "(*gpsr.InstallPlan).GetNumPackagesToInstall"(ip) (r)
  props C12
  lemmas ncommon_empty, ncommon_add, replaced_def, nOutIn_def
  requires ip != nil
  ensures number: r == len(ip.StartingPackages) + len(ip.DepDb) + len(ip.AdditionalPackageSources)
        - ncommon(dom(ip.InstalledPackages), planSet(ip))
        + (ip.Update ? nOutIn(ip.OutdatedPackages, planSet(ip), len(ip.OutdatedPackages)) : 0)
  loopinv (n: int) inst: n == ncommon(visited, planSet(ip))
  loopinv (n: int) upd: n == nOutIn(ip.OutdatedPackages, planSet(ip), IDX)
end

// C07: the install plan
spec stdDeps(c: gpsr.PkgDeps): bool = c.Depends && c.Imports && c.LinkingTo
spec hidden req(n: *cran.PkgNexus, nr: bool, k: string, p: string): bool =
  found(n, p) && !excluded(p, nr) && (p in lookup(n, k).Depends || p in lookup(n, k).Imports || p in lookup(n, k).LinkingTo)

contract "(*gpsr.InstallPlan).Pack"(ip, n) ()
  props C07 C18
  modifies *ip
  requires ip != nil && n != nil
  ensures others: ip.StartingPackages == old(ip.StartingPackages) && ip.DepDb == old(ip.DepDb) && ip.InstalledPackages == old(ip.InstalledPackages) && ip.OutdatedPackages == old(ip.OutdatedPackages)
      && ip.AdditionalPackageSources == old(ip.AdditionalPackageSources) && ip.CreateLibrary == old(ip.CreateLibrary) && ip.Update == old(ip.Update)
  ensures number: len(ip.PackageDownloads) == len(ip.StartingPackages) + len(ip.DepDb)
  ensures starting: forall i: int {ip.StartingPackages[i]} :: 0 <= i && i < len(ip.StartingPackages) && found(n, ip.StartingPackages[i]) ==>
      ip.PackageDownloads[i].Package == lookup(n, ip.StartingPackages[i]) && firstMatch(n, ip.StartingPackages[i], ip.PackageDownloads[i].Package, ip.PackageDownloads[i].Config)
  ensures rest: forall p: string {p in ip.DepDb} :: p in ip.DepDb && found(n, p) ==>
      (exists j: int {ip.PackageDownloads[j]} :: len(ip.StartingPackages) <= j && j < len(ip.PackageDownloads) && ip.PackageDownloads[j].Package == lookup(n, p) && firstMatch(n, p, ip.PackageDownloads[j].Package, ip.PackageDownloads[j].Config))
  ensures nothing_else: forall j: int {ip.PackageDownloads[j]} :: len(ip.StartingPackages) <= j && j < len(ip.PackageDownloads) ==>
      (exists p: string {p in ip.DepDb} :: p in ip.DepDb && (found(n, p) ==> ip.PackageDownloads[j].Package == lookup(n, p)))
  loopinv (dl: []cran.PkgDl) len1: len(dl) == IDX
  loopinv (dl: []cran.PkgDl) start: forall i: int {ip.StartingPackages[i]} {dl[i]} :: 0 <= i && i < IDX && found(n, ip.StartingPackages[i]) ==>
      dl[i].Package == lookup(n, ip.StartingPackages[i]) && firstMatch(n, ip.StartingPackages[i], dl[i].Package, dl[i].Config)
  loopinv (dl: []cran.PkgDl) len2: len(dl) == len(ip.StartingPackages) + card(visited)
  loopinv (dl: []cran.PkgDl) prefix: forall i: int {dl[i]} :: 0 <= i && i < len(ip.StartingPackages) ==> dl[i] == pre(dl)[i]
  loopinv (dl: []cran.PkgDl) restdone: forall p: string {p in visited} :: p in visited && found(n, p) ==>
      (exists j: int {dl[j]} :: len(ip.StartingPackages) <= j && j < len(dl) && dl[j].Package == lookup(n, p) && firstMatch(n, p, dl[j].Package, dl[j].Config))
  loopinv (dl: []cran.PkgDl) only: forall j: int {dl[j]} :: len(ip.StartingPackages) <= j && j < len(dl) ==>
      (exists p: string {p in visited} :: p in visited && (found(n, p) ==> dl[j].Package == lookup(n, p)))
end

// --- planning ---
lemma placed_step props C07 reveal placed : forall r: [][]string, p: string, m: int {placed(r, p, m), r[m]} :: m >= 0 ==> (placed(r, p, m + 1) <==> placed(r, p, m) || p in r[m])
lemma placed_none props C07 reveal placed : forall r: [][]string, p: string {placed(r, p, 0)} :: !placed(r, p, 0)
lemma wants_req props C07 reveal req wants : forall n: *cran.PkgNexus, c: gpsr.PkgDeps, nr: bool, k: string, p: string {wants(lookup(n, k), c, n, p), req(n, nr, k, p)} ::
  stdDeps(c) && c.NoRecommended == nr ==> (wants(lookup(n, k), c, n, p) <==> req(n, nr, k, p))
lemma req_avail props C07 reveal req : forall n: *cran.PkgNexus, nr: bool, k: string, p: string {req(n, nr, k, p)} :: req(n, nr, k, p) ==> found(n, p) && !excluded(p, nr)

contract gpsr.ResolveInstallationReqs(pkgs, inst, ic, n, update, libExists, nr) (r, err)
  props C07
  lemmas wants_req, req_avail, placed_in, placed_more, placed_step, placed_none
  modifies ic.Deps, msets, mslive, chrem
  requires wellKeyed(n) && (forall i: int {pkgs[i]} :: 0 <= i && i < len(pkgs) ==> found(n, pkgs[i]))
  requires stdDeps(ic.Default) && ic.Default.NoRecommended == nr && (forall k: string {k in ic.Deps} :: k in ic.Deps ==> stdDeps(ic.Deps[k]))
  ensures installed: err == nil ==> r.InstalledPackages == inst && r.CreateLibrary == !libExists && r.Update == update
  ensures requested: err == nil ==> (forall i: int {pkgs[i]} :: 0 <= i && i < len(pkgs) ==> pkgs[i] in r.StartingPackages || pkgs[i] in r.DepDb)
  ensures exclusive: err == nil ==> (forall k: string {k in r.DepDb} {k in r.StartingPackages} :: !(k in r.DepDb && k in r.StartingPackages))
  ensures once: err == nil ==> (forall a: int, b: int {r.StartingPackages[a], r.StartingPackages[b]} :: 0 <= a && a < b && b < len(r.StartingPackages) ==> r.StartingPackages[a] != r.StartingPackages[b])
  ensures starting: err == nil ==> (forall k: string, p: string {k in r.StartingPackages, req(n, nr, k, p)} :: k in r.StartingPackages ==> !req(n, nr, k, p))
  loopinv () keys: forall k: string {k in ic.Deps} :: k in ic.Deps <==> pre(k in ic.Deps)
  loopinv () cfg1: forall k: string {k in ic.Deps} :: k in ic.Deps ==> stdDeps(ic.Deps[k]) && (k in visited ==> ic.Deps[k].NoRecommended == nr)
  loopinv (g: gpsr.Graph) gvalid: forall k: string {k in g} :: k in g ==> allocated(g[k]) && found(n, k) && listsOf(g[k], lookup(n, k), cfgOf(ic, k), n)
  loopinv (g: gpsr.Graph) greq: forall k: string, p: string {k in g, req(n, nr, k, p)} :: k in g && req(n, nr, k, p) ==> p in g[k].Deps
  loopinv (g: gpsr.Graph) ghas: forall i: int {pkgs[i]} :: 0 <= i && i < IDX ==> pkgs[i] in g
  loopinv (g: gpsr.Graph) gclosed: forall k: string, p: string {k in g, p in g} :: k in g && p in g[k].Deps ==> p in g
  loopinv (db: map[string][]string, anylay: [][]string) dom3: forall k: string {k in db} {placed(anylay, k, IDX)} :: k in db <==> placed(anylay, k, IDX) && !(k in anylay[0])
  loopinv (db: map[string][]string) dom4: forall k: string {k in db} :: pre(k in db) ==> k in db
  loopinv (db: map[string][]string, anylay: []string) dom4a: forall k: string {k in db} :: k in db ==> pre(k in db) || k in anylay
  loopinv (db: map[string][]string, anylay: []string) dom4b: forall i: int {anylay[i]} :: 0 <= i && i < IDX ==> anylay[i] in db
end

// C04: package lookup
spec ownType(n: *cran.PkgNexus, pkg: string): bool =
  pkg in n.Config.Packages && n.Config.Packages[pkg].Type != cran.Default
spec effType(n: *cran.PkgNexus, pkg: string, db: *cran.RepoDb): cran.SourceType =
  ownType(n, pkg) ? n.Config.Packages[pkg].Type : (db.DefaultSourceType != cran.Default ? db.DefaultSourceType : n.DefaultSourceType)
spec pinnedElsewhere(n: *cran.PkgNexus, pkg: string, db: *cran.RepoDb): bool =
  pkg in n.Config.Packages && n.Config.Packages[pkg].Repo.Name != "" && n.Config.Packages[pkg].Repo.Name != db.Repo.Name
spec qualifies(n: *cran.PkgNexus, pkg: string, db: *cran.RepoDb): bool =
  pkg in at(db.DescriptionsBySourceType, effType(n, pkg, db)) && !pinnedElsewhere(n, pkg, db)
spec hidden found(n: *cran.PkgNexus, pkg: string): bool =
  exists i: int {n.Db[i]} :: 0 <= i && i < len(n.Db) && qualifies(n, pkg, n.Db[i])
spec hidden firstMatch(n: *cran.PkgNexus, pkg: string, d: desc.Desc, cfg: cran.PkgConfig): bool =
  exists i: int {n.Db[i]} :: 0 <= i && i < len(n.Db) && qualifies(n, pkg, n.Db[i])
    && (forall j: int {n.Db[j]} :: 0 <= j && j < i ==> !qualifies(n, pkg, n.Db[j]))
    && d == at(n.Db[i].DescriptionsBySourceType, effType(n, pkg, n.Db[i]))[pkg]
    && cfg.Repo == n.Db[i].Repo && cfg.Type == effType(n, pkg, n.Db[i])

spec isFirst(n: *cran.PkgNexus, pkg: string, i: int): bool =
  0 <= i && i < len(n.Db) && qualifies(n, pkg, n.Db[i])
    && (forall j: int {n.Db[j]} :: 0 <= j && j < i ==> !qualifies(n, pkg, n.Db[j]))
spec entryOf(n: *cran.PkgNexus, pkg: string, i: int): desc.Desc = at(n.Db[i].DescriptionsBySourceType, effType(n, pkg, n.Db[i]))[pkg]
// the repository entry a lookup returns
spec hidden lookup(n: *cran.PkgNexus, pkg: string): desc.Desc where
  forall i: int {n.Db[i]} :: isFirst(n, pkg, i) ==> result == entryOf(n, pkg, i)
lemma first_unique props C04: forall n: *cran.PkgNexus, pkg: string, i: int, j: int {n.Db[i], n.Db[j], pkg in at(n.Db[i].DescriptionsBySourceType, effType(n, pkg, n.Db[i]))} :: isFirst(n, pkg, i) && isFirst(n, pkg, j) ==> i == j

contract "(*cran.PkgNexus).GetPackage"(n, pkg) (d, cfg, ok)
  props C04 C06 C07
  reveal found, firstMatch, lookup
  ensures entry: ok ==> d == lookup(n, pkg)
  requires n != nil
  ensures found: ok <==> found(n, pkg)
  ensures first: ok ==> firstMatch(n, pkg, d, cfg)
  ensures missing: !ok ==> d == zero(@desc.Desc) && cfg == zero(@cran.PkgConfig)
  loopinv () none: forall j: int {n.Db[j]} :: 0 <= j && j < IDX ==> !qualifies(n, pkg, n.Db[j])
end

contract "(*cran.PkgNexus).GetPackages"(n, pkgs) (ap)
  ensures lookups: forall k: int {ap.Packages[k]} :: 0 <= k && k < len(pkgs) && found(n, pkgs[k]) ==> ap.Packages[k].Package == lookup(n, pkgs[k])
  loopinv (ap: cran.AvailablePkgs) lk: forall k: int {ap.Packages[k]} :: 0 <= k && k < IDX && found(n, pkgs[k]) ==> ap.Packages[k].Package == lookup(n, pkgs[k])
  props C04
  requires n != nil
  ensures one_each: len(ap.Packages) == len(pkgs)
  ensures entries: forall k: int {ap.Packages[k]} :: 0 <= k && k < len(pkgs) && found(n, pkgs[k]) ==> firstMatch(n, pkgs[k], ap.Packages[k].Package, ap.Packages[k].Config)
  ensures missing_entries: forall k: int {ap.Packages[k]} :: 0 <= k && k < len(pkgs) && !found(n, pkgs[k]) ==> ap.Packages[k].Package == zero(@desc.Desc)
  ensures missing: forall p: string {p in ap.Missing} :: p in ap.Missing ==> p in pkgs && !found(n, p)
  ensures missing_all: forall k: int {pkgs[k]} :: 0 <= k && k < len(pkgs) && !found(n, pkgs[k]) ==> pkgs[k] in ap.Missing
  loopinv (ap: cran.AvailablePkgs) len: len(ap.Packages) == IDX
  loopinv (ap: cran.AvailablePkgs) ent: forall k: int {ap.Packages[k]} :: 0 <= k && k < IDX && found(n, pkgs[k]) ==> firstMatch(n, pkgs[k], ap.Packages[k].Package, ap.Packages[k].Config)
  loopinv (ap: cran.AvailablePkgs) ment: forall k: int {ap.Packages[k]} :: 0 <= k && k < IDX && !found(n, pkgs[k]) ==> ap.Packages[k].Package == zero(@desc.Desc)
  loopinv (ap: cran.AvailablePkgs) mis: forall p: string {p in ap.Missing} :: p in ap.Missing ==> p in pkgs && !found(n, p)
  loopinv (ap: cran.AvailablePkgs) misall: forall k: int {pkgs[k]} :: 0 <= k && k < IDX && !found(n, pkgs[k]) ==> pkgs[k] in ap.Missing
end

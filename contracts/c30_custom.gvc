// C30: customizations reach the package or repository they name
contract configlib.GetPackageCustomizationByName(nm, c) (r, ok)
  props C30
  ensures found: ok <==> (exists i: int {c.Packages[i]} :: 0 <= i && i < len(c.Packages) && nm in c.Packages[i])
  ensures first: forall i: int {c.Packages[i]} :: 0 <= i && i < len(c.Packages) && nm in c.Packages[i]
      && (forall j: int {c.Packages[j]} :: 0 <= j && j < i ==> !(nm in c.Packages[j])) ==> r == c.Packages[i][nm]
  ensures missing: !ok ==> r == zero(@configlib.PkgConfig)
  loopinv () none: forall j: int {c.Packages[j]} :: 0 <= j && j < IDX ==> !(nm in c.Packages[j])
end
contract configlib.GetRepoCustomizationByName(nm, c) (r, ok)
  props C30
  ensures found: ok <==> (exists i: int {c.Repos[i]} :: 0 <= i && i < len(c.Repos) && nm in c.Repos[i])
  ensures first: forall i: int {c.Repos[i]} :: 0 <= i && i < len(c.Repos) && nm in c.Repos[i]
      && (forall j: int {c.Repos[j]} :: 0 <= j && j < i ==> !(nm in c.Repos[j])) ==> r == c.Repos[i][nm]
  ensures missing: !ok ==> r == zero(@configlib.RepoConfig)
  loopinv () none: forall j: int {c.Repos[j]} :: 0 <= j && j < IDX ==> !(nm in c.Repos[j])
end

spec hasEnv(ps: []map[string]configlib.PkgConfig, i: int, n: string): bool =
  n in ps[i] && ps[i][n].Env != nil
// the last of the first m entries that declares an environment for n (-1: none does)
spec lastEnv(ps: []map[string]configlib.PkgConfig, n: string, m: int): int
axiom lastEnv_def: forall ps: []map[string]configlib.PkgConfig, n: string, m: int {lastEnv(ps, n, m)} ::
     (m <= 0 ==> lastEnv(ps, n, m) == -1)
  && (m > 0 ==> lastEnv(ps, n, m) == (hasEnv(ps, m - 1, n) ? m - 1 : lastEnv(ps, n, m - 1)))

contract configlib.SetCustomizations(rs, cfg) (r)
  props C30 C23
  lemmas lastEnv_def
  modifies rs.PkgEnvVars
  requires rs.PkgEnvVars != nil
  ensures same_settings: r == rs
  ensures applied: forall n: string {n in r.PkgEnvVars} :: lastEnv(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages)) >= 0 ==>
       n in r.PkgEnvVars && r.PkgEnvVars[n] == cfg.Customizations.Packages[lastEnv(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages))][n].Env
  ensures others_kept: forall n: string {n in r.PkgEnvVars} :: lastEnv(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages)) < 0 ==>
       (n in r.PkgEnvVars <==> old(n in rs.PkgEnvVars)) && r.PkgEnvVars[n] == old(rs.PkgEnvVars[n])
  loopinv () app: forall n: string {n in rs.PkgEnvVars} :: lastEnv(cfg.Customizations.Packages, n, IDX) >= 0 ==>
       n in rs.PkgEnvVars && rs.PkgEnvVars[n] == cfg.Customizations.Packages[lastEnv(cfg.Customizations.Packages, n, IDX)][n].Env
  loopinv () keep: forall n: string {n in rs.PkgEnvVars} :: lastEnv(cfg.Customizations.Packages, n, IDX) < 0 ==>
       (n in rs.PkgEnvVars <==> old(n in rs.PkgEnvVars)) && rs.PkgEnvVars[n] == old(rs.PkgEnvVars[n])
  loopinv (anym: map[string]configlib.PkgConfig) inner: forall n: string {n in rs.PkgEnvVars} ::
       (n in visited && anym[n].Env != nil ? n in rs.PkgEnvVars && rs.PkgEnvVars[n] == anym[n].Env
         : (n in rs.PkgEnvVars <==> pre(n in rs.PkgEnvVars)) && rs.PkgEnvVars[n] == pre(rs.PkgEnvVars[n]))
end

// the raw settings list (as read from the file) says something for key of package elem
spec asMap(e: any): map[any]any = unbox(@map[any]any, e)
spec saysFor(elems: []any, i: int, key: string, elem: string): bool =
  box(elem) in asMap(elems[i]) && box(key) in asMap(asMap(elems[i])[box(elem)])
spec custSet(elems: []any, key: string, elem: string): bool =
  exists i: int {elems[i]} :: 0 <= i && i < len(elems) && saysFor(elems, i, key, elem)
contract configlib.IsCustomizationSet(key, elems, elem) (r)
  props C30 C09
  ensures exactly: r <==> custSet(elems, key, elem)
  loopinv () none: forall j: int {elems[j]} :: 0 <= j && j < IDX ==> !saysFor(elems, j, key, elem)
  loopinv (anym: map[any]any) one: box(elem) in visited ==> !(box(key) in asMap(anym[box(elem)]))
  loopinv () two: !(box(key) in visited)
end

contract "(*cran.PkgNexus).SetPackageRepo"(n, pkg, repo) (err)
  props C30
  modifies n.Config.Packages
  requires n != nil && n.Config != nil && n.Config.Packages != nil
  requires forall i: int {n.Db[i]} :: 0 <= i && i < len(n.Db) ==> n.Db[i] != nil
  ensures known: err == nil <==> (exists i: int {n.Db[i]} :: 0 <= i && i < len(n.Db) && n.Db[i].Repo.Name == repo)
  ensures pinned: err == nil ==> pkg in n.Config.Packages && n.Config.Packages[pkg].Repo.Name == repo && n.Config.Packages[pkg].Type == (old(pkg in n.Config.Packages) ? old(n.Config.Packages[pkg].Type) : cran.Default)
  ensures others: forall p: string {p in n.Config.Packages} :: p != pkg || err != nil ==> (p in n.Config.Packages <==> old(p in n.Config.Packages)) && n.Config.Packages[p] == old(n.Config.Packages[p])
  loopinv () none: forall j: int {n.Db[j]} :: 0 <= j && j < IDX ==> n.Db[j].Repo.Name != repo
end
axiom fold_kinds: fold("source") != fold("binary")
contract "(*cran.PkgNexus).SetPackageType"(n, pkg, t) (err)
  props C30
  modifies n.Config.Packages
  requires n != nil && n.Config != nil && n.Config.Packages != nil
  lemmas fold_kinds
  ensures source: fold(t) == fold("source") ==> err == nil && n.Config.Packages[pkg].Type == cran.Source
  ensures binary: fold(t) == fold("binary") ==> err == nil && n.Config.Packages[pkg].Type == cran.Binary
  ensures neither: fold(t) != fold("source") && fold(t) != fold("binary") ==> err != nil
  ensures set: err == nil ==> pkg in n.Config.Packages && n.Config.Packages[pkg].Repo == (old(pkg in n.Config.Packages) ? old(n.Config.Packages[pkg].Repo) : zero(@cran.RepoURL))
  ensures others: forall p: string {p in n.Config.Packages} :: p != pkg || err != nil ==> (p in n.Config.Packages <==> old(p in n.Config.Packages)) && n.Config.Packages[p] == old(n.Config.Packages[p])
end

// the last of the first m entries that names package n (-1: none does)
spec lastIn(ps: []map[string]configlib.PkgConfig, n: string, m: int): int
axiom lastIn_def: forall ps: []map[string]configlib.PkgConfig, n: string, m: int {lastIn(ps, n, m)} ::
     (m <= 0 ==> lastIn(ps, n, m) == -1)
  && (m > 0 ==> lastIn(ps, n, m) == (n in ps[m - 1] ? m - 1 : lastIn(ps, n, m - 1)))
spec withSuggests(d: gpsr.PkgDeps, b: bool, r: gpsr.PkgDeps): bool =
  r.Suggests == b && r.Depends == d.Depends && r.Imports == d.Imports && r.LinkingTo == d.LinkingTo && r.NoRecommended == d.NoRecommended
spec typeIs(t: string, s: cran.SourceType): bool =
  (fold(t) == fold("source") && s == cran.Source) || (fold(t) == fold("binary") && s == cran.Binary)

contract configlib.setCfgCustomizations(cfg, dc) ()
  props C09 C30
  modifies dc.Deps
  requires dc != nil && dc.Deps != nil
  ensures listed: forall n: string {n in dc.Deps} :: cfg.Suggests && n in cfg.Packages ==> n in dc.Deps && withSuggests(dc.Default, true, dc.Deps[n])
  ensures others: forall n: string {n in dc.Deps} :: !(cfg.Suggests && n in cfg.Packages) ==> (n in dc.Deps <==> old(n in dc.Deps)) && dc.Deps[n] == old(dc.Deps[n])
  loopinv () done: forall n: string, j: int {n in dc.Deps, cfg.Packages[j]} :: 0 <= j && j < IDX && cfg.Packages[j] == n ==> n in dc.Deps && withSuggests(dc.Default, true, dc.Deps[n])
  loopinv () keep: forall n: string {n in dc.Deps} :: !(n in cfg.Packages) ==> (n in dc.Deps <==> old(n in dc.Deps)) && dc.Deps[n] == old(dc.Deps[n])
end

contract configlib.setViperCustomizations(cfg, s, dc, nx) ()
  props C09 C30
  lemmas lastIn_def
  modifies dc.Deps, nx.Config.Packages
  requires dc.Deps != nil && nx != nil && nx.Config != nil && nx.Config.Packages != nil
  requires forall i: int {nx.Db[i]} :: 0 <= i && i < len(nx.Db) ==> nx.Db[i] != nil
  ensures suggests: forall n: string {n in dc.Deps} :: custSet(s, "Suggests", n) && lastIn(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages)) >= 0 ==>
      n in dc.Deps && withSuggests(dc.Default, cfg.Customizations.Packages[lastIn(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages))][n].Suggests, dc.Deps[n])
  ensures suggests_others: forall n: string {n in dc.Deps} :: !(custSet(s, "Suggests", n) && lastIn(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages)) >= 0) ==>
      (n in dc.Deps <==> old(n in dc.Deps)) && dc.Deps[n] == old(dc.Deps[n])
  ensures repo: forall n: string {n in nx.Config.Packages} :: custSet(s, "Repo", n) && lastIn(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages)) >= 0 ==>
      n in nx.Config.Packages && nx.Config.Packages[n].Repo.Name == cfg.Customizations.Packages[lastIn(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages))][n].Repo
  ensures type: forall n: string {n in nx.Config.Packages} :: custSet(s, "Type", n) && lastIn(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages)) >= 0 ==>
      n in nx.Config.Packages && typeIs(cfg.Customizations.Packages[lastIn(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages))][n].Type, nx.Config.Packages[n].Type)
  ensures others: forall n: string {n in nx.Config.Packages} :: !(custSet(s, "Repo", n) || custSet(s, "Type", n)) || lastIn(cfg.Customizations.Packages, n, len(cfg.Customizations.Packages)) < 0 ==>
      (n in nx.Config.Packages <==> old(n in nx.Config.Packages)) && nx.Config.Packages[n] == old(nx.Config.Packages[n])
  loopinv () sug: forall n: string {n in dc.Deps} :: custSet(s, "Suggests", n) && lastIn(cfg.Customizations.Packages, n, IDX) >= 0 ==>
      n in dc.Deps && withSuggests(dc.Default, cfg.Customizations.Packages[lastIn(cfg.Customizations.Packages, n, IDX)][n].Suggests, dc.Deps[n])
  loopinv () sugo: forall n: string {n in dc.Deps} :: !(custSet(s, "Suggests", n) && lastIn(cfg.Customizations.Packages, n, IDX) >= 0) ==>
      (n in dc.Deps <==> old(n in dc.Deps)) && dc.Deps[n] == old(dc.Deps[n])
  loopinv () repo: forall n: string {n in nx.Config.Packages} :: custSet(s, "Repo", n) && lastIn(cfg.Customizations.Packages, n, IDX) >= 0 ==>
      n in nx.Config.Packages && nx.Config.Packages[n].Repo.Name == cfg.Customizations.Packages[lastIn(cfg.Customizations.Packages, n, IDX)][n].Repo
  loopinv () type: forall n: string {n in nx.Config.Packages} :: custSet(s, "Type", n) && lastIn(cfg.Customizations.Packages, n, IDX) >= 0 ==>
      n in nx.Config.Packages && typeIs(cfg.Customizations.Packages[lastIn(cfg.Customizations.Packages, n, IDX)][n].Type, nx.Config.Packages[n].Type)
  loopinv () oth: forall n: string {n in nx.Config.Packages} :: !(custSet(s, "Repo", n) || custSet(s, "Type", n)) || lastIn(cfg.Customizations.Packages, n, IDX) < 0 ==>
      (n in nx.Config.Packages <==> old(n in nx.Config.Packages)) && nx.Config.Packages[n] == old(nx.Config.Packages[n])
  loopinv (anym: map[string]configlib.PkgConfig) insug: forall n: string {n in dc.Deps} :: 
      (n in visited && custSet(s, "Suggests", n) ? n in dc.Deps && withSuggests(dc.Default, anym[n].Suggests, dc.Deps[n])
         : (n in dc.Deps <==> pre(n in dc.Deps)) && dc.Deps[n] == pre(dc.Deps[n]))
  loopinv (anym: map[string]configlib.PkgConfig) inrepo: forall n: string {n in nx.Config.Packages} :: 
      (n in visited && custSet(s, "Repo", n) ? n in nx.Config.Packages && nx.Config.Packages[n].Repo.Name == anym[n].Repo
         : !(custSet(s, "Type", n) && n in visited) ==> nx.Config.Packages[n].Repo == pre(nx.Config.Packages[n].Repo))
  loopinv (anym: map[string]configlib.PkgConfig) intype: forall n: string {n in nx.Config.Packages} :: 
      (n in visited && custSet(s, "Type", n) ? n in nx.Config.Packages && typeIs(anym[n].Type, nx.Config.Packages[n].Type)
         : !(custSet(s, "Repo", n) && n in visited) ==> nx.Config.Packages[n].Type == pre(nx.Config.Packages[n].Type))
  loopinv () inoth: forall n: string {n in nx.Config.Packages} :: !(n in visited && (custSet(s, "Repo", n) || custSet(s, "Type", n))) ==>
      (n in nx.Config.Packages <==> pre(n in nx.Config.Packages)) && nx.Config.Packages[n] == pre(nx.Config.Packages[n])
end

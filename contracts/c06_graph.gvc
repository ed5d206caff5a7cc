// C06: the dependency graph
spec cfgOf(ic: gpsr.InstallDeps, p: string): gpsr.PkgDeps = p in ic.Deps ? ic.Deps[p] : ic.Default
spec avail(n: *cran.PkgNexus, c: gpsr.PkgDeps, p: string): bool = found(n, p) && !excluded(p, c.NoRecommended)
spec hidden wants(d: desc.Desc, c: gpsr.PkgDeps, n: *cran.PkgNexus, p: string): bool =
  avail(n, c, p) && ((c.Depends && p in d.Depends) || (c.Imports && p in d.Imports) || (c.LinkingTo && p in d.LinkingTo))
// node nd lists exactly the requirements of description d
spec listsOf(nd: *gpsr.Node, d: desc.Desc, c: gpsr.PkgDeps, n: *cran.PkgNexus): bool =
  forall p: string {p in nd.Deps} {wants(d, c, n, p)} :: p in nd.Deps <==> wants(d, c, n, p)
// node nd lists exactly the requirements of the package k as the repositories offer it
spec nodeFor(nd: *gpsr.Node, n: *cran.PkgNexus, ic: gpsr.InstallDeps, k: string): bool =
  listsOf(nd, lookup(n, k), cfgOf(ic, k), n)
// repository entries are filed under their own name, and no package is called R
spec wellKeyed(n: *cran.PkgNexus): bool =
  n != nil && !found(n, "R") && (forall k: string {lookup(n, k)} :: found(n, k) ==> lookup(n, k).Package == k)
// q (as the repositories offer it) suggests p, and its suggestions are switched on
spec hidden suggestsOf(n: *cran.PkgNexus, ic: gpsr.InstallDeps, d: desc.Desc, p: string): bool =
  cfgOf(ic, d.Package).Suggests && avail(n, cfgOf(ic, d.Package), p) && p in d.Suggests
spec hidden suggests(n: *cran.PkgNexus, ic: gpsr.InstallDeps, q: string, p: string): bool =
  cfgOf(ic, q).Suggests && avail(n, cfgOf(ic, q), p) && p in lookup(n, q).Suggests
// whatever enters the graph is in every set of names that is closed under requirements and switched-on
// suggestions and has those of the package: nothing else is ever added (mark only names sets for the solver)
spec mark(s: set[string]): bool
spec closedSet(s: set[string], n: *cran.PkgNexus, ic: gpsr.InstallDeps): bool =
  forall q: string, p: string {lookup(n, q), p in s} :: q in s && (wants(lookup(n, q), cfgOf(ic, q), n, p) || suggests(n, ic, q, p)) ==> p in s
spec startSet(s: set[string], n: *cran.PkgNexus, ic: gpsr.InstallDeps, d: desc.Desc): bool =
  forall p: string {p in s} :: wants(d, cfgOf(ic, d.Package), n, p) || suggestsOf(n, ic, d, p) ==> p in s

contract gpsr.appendToGraph(m, d, ic, n) ()
  props C06 C07 C09
  reveal wants, suggests, suggestsOf
  modifies m
  requires wellKeyed(n) && m != nil
  requires forall k: string {k in m} :: k in m ==> allocated(m[k])
  ensures valid: forall k: string {k in m} :: k in m ==> allocated(m[k])
  ensures own: d.Package in m && listsOf(m[d.Package], d, cfgOf(ic, d.Package), n)
  ensures kept: forall k: string {k in m} :: old(k in m) ==> k in m && (k != d.Package ==> m[k] == old(m[k]))
  ensures added: forall k: string {k in m} :: k in m && !old(k in m) && k != d.Package ==> found(n, k) && nodeFor(m[k], n, ic, k)
  ensures closed: forall k: string, p: string {k in m, p in m} :: k in m && (!old(k in m) || k == d.Package) && p in m[k].Deps ==> p in m
  ensures suggested: forall p: string {p in m} :: suggestsOf(n, ic, d, p) ==> p in m
  ensures suggested_rest: forall k: string, p: string {k in m, p in m} :: k in m && !old(k in m) && k != d.Package && suggests(n, ic, k, p) ==> p in m
  ensures least: forall s: set[string] {mark(s)} :: mark(s) && closedSet(s, n, ic) && startSet(s, n, ic, d) ==> (forall k: string {k in m} :: k in m && !old(k in m) && k != d.Package ==> k in s)
  loopinv (reqs: []string) depends: forall p: string {p in reqs} :: p in reqs <==> p in visited && avail(n, cfgOf(ic, d.Package), p)
  loopinv (reqs: []string) imports: forall p: string {p in reqs} :: p in reqs <==> pre(p in reqs) || (p in visited && avail(n, cfgOf(ic, d.Package), p))
  loopinv () valid: forall k: string {k in m} :: k in m ==> allocated(m[k])
  loopinv () own: d.Package in m && listsOf(m[d.Package], d, cfgOf(ic, d.Package), n)
  loopinv () kept: forall k: string {k in m} :: old(k in m) ==> k in m && (k != d.Package ==> m[k] == old(m[k]))
  loopinv () kept2: forall k: string {k in m} :: pre(k in m) ==> k in m && m[k] == pre(m[k])
  loopinv () added: forall k: string {k in m} :: k in m && !old(k in m) && k != d.Package ==> found(n, k) && nodeFor(m[k], n, ic, k)
  loopinv () closed: forall k: string, p: string {k in m, p in m} :: k in m && !old(k in m) && k != d.Package && p in m[k].Deps ==> p in m
  loopinv () sugall: forall p: string {p in m} :: suggestsOf(n, ic, d, p) ==> p in m
  loopinv () sug: forall p: string {p in m} :: p in visited && suggestsOf(n, ic, d, p) ==> p in m
  loopinv () sugrest: forall k: string, p: string {k in m, p in m} :: k in m && !old(k in m) && k != d.Package && suggests(n, ic, k, p) ==> p in m
  loopinv () least: forall s: set[string] {mark(s)} :: mark(s) && closedSet(s, n, ic) && startSet(s, n, ic, d) ==> (forall k: string {k in m} :: k in m && !old(k in m) && k != d.Package ==> k in s)
  loopinv (anyreqs: []string) listed: forall j: int {anyreqs[j]} :: 0 <= j && j < len(anyreqs) ==> wants(d, cfgOf(ic, d.Package), n, anyreqs[j])
  loopinv (anyreqs: []string) todo: forall j: int {anyreqs[j]} :: 0 <= j && j < IDX ==> anyreqs[j] in m
end

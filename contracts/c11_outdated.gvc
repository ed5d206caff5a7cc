// C11: outdated packages
spec isNewer(d: set[string], v: fmap[string]desc.Desc, p: cran.PkgDl): bool =
  p.Package.Package in d && vcmp(pv(p.Package.Version), pv(v[p.Package.Package].Version)) > 0
// nOut(d, v, av, n): how many of the first n entries are newer than what is installed
spec nOut(d: set[string], v: fmap[string]desc.Desc, av: []cran.PkgDl, n: int): int
axiom nOut_def: forall d: set[string], v: fmap[string]desc.Desc, av: []cran.PkgDl, n: int {nOut(d, v, av, n)} ::
     (n <= 0 ==> nOut(d, v, av, n) == 0)
  && (n > 0 ==> nOut(d, v, av, n) == nOut(d, v, av, n - 1) + (isNewer(d, v, av[n - 1]) ? 1 : 0))

contract pacman.GetOutdatedPackages(installed, av) (r)
  props C11 C12
  lemmas nOut_def, pv_def
  ensures exactly: len(r) == nOut(dom(installed), vals(installed), av, len(av))
  ensures entries: forall i: int {av[i]} :: 0 <= i && i < len(av) && isNewer(dom(installed), vals(installed), av[i]) ==>
       nOut(dom(installed), vals(installed), av, i) < len(r)
    && r[nOut(dom(installed), vals(installed), av, i)].Package == av[i].Package.Package
    && r[nOut(dom(installed), vals(installed), av, i)].OldVersion == installed[av[i].Package.Package].Version
    && r[nOut(dom(installed), vals(installed), av, i)].NewVersion == av[i].Package.Version
  loopinv (r: []cran.OutdatedPackage) len: len(r) == nOut(dom(installed), vals(installed), av, IDX)
  loopinv (r: []cran.OutdatedPackage) ent: forall i: int {av[i]} :: 0 <= i && i < IDX && isNewer(dom(installed), vals(installed), av[i]) ==>
       nOut(dom(installed), vals(installed), av, i) < len(r)
    && r[nOut(dom(installed), vals(installed), av, i)].Package == av[i].Package.Package
    && r[nOut(dom(installed), vals(installed), av, i)].OldVersion == installed[av[i].Package.Package].Version
    && r[nOut(dom(installed), vals(installed), av, i)].NewVersion == av[i].Package.Version
end

// C08: base and recommended packages
constmap gpsr.DefaultPackages

spec isBase(p: string): bool = p in gpsr.DefaultPackages && gpsr.DefaultPackages[p] == "base"
spec isRecommended(p: string): bool = p in gpsr.DefaultPackages && gpsr.DefaultPackages[p] == "recommended"
spec excluded(p: string, noRec: bool): bool = isBase(p) || (noRec && isRecommended(p))

contract gpsr.isExcludedPackage(pkg, noRecommended) (r)
  props C08 C05 C06 C07 C09
  ensures exactly: r <==> excluded(pkg, noRecommended)
end

// the list without base packages: an order-preserving sub-sequence
contract cmd.removeBasePackages(pkgList) (r)
  props C08
  ensures no_base: forall p: string {p in r} :: p in r ==> !isBase(p)
  ensures kept: forall p: string {p in pkgList} :: p in pkgList && !isBase(p) ==> p in r
  ensures nothing_new: forall p: string {p in r} :: p in r ==> p in pkgList
  loopinv (r: []string) nb: forall p: string {p in r} :: p in r ==> !isBase(p) && p in pkgList
  loopinv (r: []string) kp: forall j: int {pkgList[j]} :: 0 <= j && j < IDX && !isBase(pkgList[j]) ==> pkgList[j] in r
end

// C02: the R version requirement of a repository entry
// the text "a.b.c" of a version has exactly the parts a, b, c
axiom vparts_three: forall a: int, b: int, c: int {vparts(itoa(a) + "." + itoa(b) + "." + itoa(c))} :: a >= 0 && b >= 0 && c >= 0 ==>
     len(vparts(itoa(a) + "." + itoa(b) + "." + itoa(c))) == 3
  && vparts(itoa(a) + "." + itoa(b) + "." + itoa(c))[0] == itoa(a)
  && vparts(itoa(a) + "." + itoa(b) + "." + itoa(c))[1] == itoa(b)
  && vparts(itoa(a) + "." + itoa(b) + "." + itoa(c))[2] == itoa(c)
axiom atoi_itoa: forall a: int {itoa(a)} :: a >= 0 ==> atoiv(itoa(a)) == a

contract "(cran.RVersion).ToFullString"(rv) (r)
  props C02
  ensures text: r == itoa(rv.Major) + "." + itoa(rv.Minor) + "." + itoa(rv.Patch)
end

// the order of the running R against a version
spec rLess(rv: cran.RVersion, v: desc.Version): bool =
     rv.Major < v.Major
  || (rv.Major == v.Major && (rv.Minor < v.Minor
  || (rv.Minor == v.Minor && (rv.Patch < v.Patch
  || (rv.Patch == v.Patch && (0 < v.Dev
  || (0 == v.Dev && 0 < v.Other)))))))
spec rEq(rv: cran.RVersion, v: desc.Version): bool =
     rv.Major == v.Major && rv.Minor == v.Minor && rv.Patch == v.Patch && v.Dev == 0 && v.Other == 0
spec rMeets(rv: cran.RVersion, d: desc.Dep): bool =
     d.Constraint == desc.None
  || (d.Constraint == desc.GT && !rLess(rv, d.Version) && !rEq(rv, d.Version))
  || (d.Constraint == desc.GTE && !rLess(rv, d.Version))
  || (d.Constraint == desc.LT && rLess(rv, d.Version))
  || (d.Constraint == desc.LTE && (rLess(rv, d.Version) || rEq(rv, d.Version)))
  || (d.Constraint == desc.Equals && rEq(rv, d.Version))
spec validR(rv: cran.RVersion): bool = rv.Major >= 0 && rv.Minor >= 0 && rv.Patch >= 0

contract cran.checkRVersionCompatibility(rv, d) (r)
  props C02
  lemmas vparts_three, atoi_itoa
  requires validR(rv)
  ensures exactly_when_met: r <==> rMeets(rv, d)
end
contract cran.isRVersionCompatible(p, rv) (d, ok)
  props C02
  requires validR(rv)
  ensures constrained: "R" in p.Depends ==> (ok <==> rMeets(rv, p.Depends["R"]))
  ensures unconstrained: !("R" in p.Depends) ==> ok
end

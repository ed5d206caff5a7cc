// C01: versions are ordered component by component.

// vparts(v): the pieces of v between '.' and '-' (all of them)
spec vparts(v: string): []string
spec atoiv(s: string): int
axiom vparts_nonempty: forall v: string {vparts(v)} :: len(vparts(v)) >= 1

spec ghost_repat(r: *regexp.Regexp): string
trusted regexp.MustCompile(s) (r)
  ensures r != nil
  ensures ghost_repat(r) == s
end
trusted "(*regexp.Regexp).Split"(re, s, n) (r)
  ensures (ghost_repat(re) == "[\\.-]" || ghost_repat(re) == "[.-]") && n < 0 ==> r == vparts(s)
  ensures (ghost_repat(re) == "[\\.-]" || ghost_repat(re) == "[.-]") && n > 0 ==>
      len(r) == (len(vparts(s)) <= n ? len(vparts(s)) : n)
   && (forall i: int {r[i]} :: 0 <= i && i < len(r) && (i < n - 1 || len(vparts(s)) <= n) ==> r[i] == vparts(s)[i])
end
trusted strconv.Atoi(s) (n, err)
  ensures n == atoiv(s)
end

spec vcomp(v: string, i: int): int = i < len(vparts(v)) ? atoiv(vparts(v)[i]) : 0

// the version a text denotes
spec pv(v: string): desc.Version
axiom pv_def: forall v: string {pv(v)} :: pv(v).Major == vcomp(v, 0) && pv(v).Minor == vcomp(v, 1) && pv(v).Patch == vcomp(v, 2) && pv(v).Dev == vcomp(v, 3) && pv(v).Other == vcomp(v, 4) && pv(v).String == v

contract desc.ParseVersion(v) (r)
  props C01 C02 C11
  lemmas vparts_nonempty, pv_def
  safety bounds, nil, panics
  ensures major: r.Major == vcomp(v, 0)
  ensures minor: r.Minor == vcomp(v, 1)
  ensures patch: r.Patch == vcomp(v, 2)
  ensures dev:   r.Dev == vcomp(v, 3)
  ensures other: r.Other == vcomp(v, 4)
  ensures string: r.String == v
  ensures value: r == pv(v)
end

spec vlt(a: desc.Version, b: desc.Version): bool =
     a.Major < b.Major
  || (a.Major == b.Major && (a.Minor < b.Minor
  || (a.Minor == b.Minor && (a.Patch < b.Patch
  || (a.Patch == b.Patch && (a.Dev < b.Dev
  || (a.Dev == b.Dev && a.Other < b.Other)))))))
spec veq(a: desc.Version, b: desc.Version): bool =
     a.Major == b.Major && a.Minor == b.Minor && a.Patch == b.Patch && a.Dev == b.Dev && a.Other == b.Other
spec vcmp(a: desc.Version, b: desc.Version): int = vlt(a, b) ? 0 - 1 : (veq(a, b) ? 0 : 1)

contract desc.CompareVersions(v1, v2) (r)
  props C01 C02 C11
  safety bounds, nil, panics
  ensures lexicographic: r == vcmp(v1, v2)
end

contract desc.CompareVersionStrings(v1, v2) (r)
  props C01 C02 C11
  lemmas pv_def
  safety bounds, nil, panics
  ensures lexicographic: r == vcmp(pv(v1), pv(v2))
end

contract "(desc.Versions).Less"(v, i, j) (r)
  props C01
  requires 0 <= i && i < len(v) && 0 <= j && j < len(v)
  safety bounds, nil, panics
  ensures same_order: r <==> vlt(v[i], v[j])
end
contract "(desc.Versions).Len"(v) (r)
  props C01
  ensures length: r == len(v)
end
contract "(desc.Versions).Swap"(v, i, j)
  props C01
  inline elemwrites
  requires 0 <= i && i < len(v) && 0 <= j && j < len(v)
  safety bounds
  modifies elems(v)
  ensures swapped: len(v) == len(old(v)) && v[i] == old(v[j]) && v[j] == old(v[i])
     && (forall k: int :: 0 <= k && k < len(v) && k != i && k != j ==> v[k] == old(v[k]))
end

lemma vcmp_antisymmetric props C01: forall a: desc.Version, b: desc.Version :: vcmp(a, b) == 0 - vcmp(b, a)
lemma vcmp_transitive props C01: forall a: desc.Version, b: desc.Version, c: desc.Version :: vcmp(a, b) <= 0 && vcmp(b, c) <= 0 ==> vcmp(a, c) <= 0
lemma vcmp_transitive_strict props C01: forall a: desc.Version, b: desc.Version, c: desc.Version :: vcmp(a, b) < 0 && vcmp(b, c) <= 0 ==> vcmp(a, c) < 0
lemma vcmp_equal props C01: forall a: desc.Version, b: desc.Version :: vcmp(a, b) == 0 <==> veq(a, b)

// C03: dependency fields
spec trimsp(s: string): string
spec before(s: string, c: string): string = contains(s, c) ? substr(s, 0, indexof(s, c)) : s
spec after(s: string, c: string): string = contains(s, c) ? substr(s, indexof(s, c) + len(c), len(s)) : ""

spec splitall(s: string, sep: string): []string
trusted strings.Split(s, sep) (r)
  ensures r == splitall(s, sep)
  ensures len(r) >= 1
  ensures r[0] == before(s, sep)
  ensures (len(r) > 1) <==> contains(s, sep)
  ensures len(r) > 1 ==> r[1] == before(after(s, sep), sep)
end
trusted strings.TrimSpace(s) (r)
  ensures r == trimsp(s)
  ensures prefixof(" ", s) ==> r == trimsp(substr(s, 1, len(s)))
  ensures s == "" ==> r == ""
end
trusted strings.Replace(s, old, new, n) (r)
  ensures n == 1 ==> r == replace1(s, old, new)
end
trusted strings.Contains(s, t) (r)
  ensures r <==> contains(s, t)
end
trusted strings.HasPrefix(s, t) (r)
  ensures r <==> prefixof(t, s)
end
trusted strings.HasSuffix(s, t) (r)
  ensures r <==> suffixof(t, s)
end
trusted strings.Index(s, t) (r)
  ensures r == indexof(s, t)
end
trusted strings.Cut(s, sep) (b, a, found)
  ensures found <==> contains(s, sep)
  ensures b == before(s, sep)
  ensures a == after(s, sep)
end
trusted strings.TrimPrefix(s, p) (r)
  ensures r == (prefixof(p, s) ? substr(s, len(p), len(s)) : s)
end
trusted strings.TrimSuffix(s, p) (r)
  ensures r == (suffixof(p, s) ? substr(s, 0, len(s) - len(p)) : s)
end

// an entry: a name, optionally followed by an operator and a version in parentheses
spec depName(e: string): string = trimsp(before(e, "("))
// e is name(op ver): the version has no operator characters or parentheses
spec depShape(e: string, op: string, nm: string, ver: string): bool =
     e == nm + "(" + op + ver + ")" && !contains(nm, "(") && len(ver) > 0
  && !contains(ver, "=") && !contains(ver, "<") && !contains(ver, ">") && !contains(ver, "(") && !contains(ver, ")")
spec depMeans(e: string, op: string, c: desc.Constraint, d: desc.Dep): bool =
  forall nm: string, ver: string, txt: string :: depShape(e, op, nm, ver) && txt == op + ver ==> d.Name == trimsp(nm) && d.Constraint == c && d.Version == pv(trimsp(ver))

spec opaque isDep(e: string, d: desc.Dep): bool =
     d.Name == depName(e)
  && (!contains(e, "(") ==> d.Constraint == desc.None && d.Version == zero(@desc.Version))
  && depMeans(e, ">=", desc.GTE, d)
  && depMeans(e, ">", desc.GT, d)
  && depMeans(e, "<=", desc.LTE, d)
  && depMeans(e, "<", desc.LT, d)
  && depMeans(e, "==", desc.Equals, d)

contract desc.ParseDep(d) (r)
  props C03
  mode theory
  ensures name: r.Name == depName(d)
  ensures requirement: isDep(d, r)
  have (nm: string, txt: string): contains(d, "(") && after(d, "(") == txt + ")"
end

// a dependency field: one requirement per entry, and nothing else
spec listed(l: []string, n: string): bool = exists i: int {l[i]} :: 0 <= i && i < len(l) && l[i] != "" && depName(l[i]) == n
spec fieldOK(l: []string, m: map[string]desc.Dep): bool =
     (forall i: int {l[i]} :: 0 <= i && i < len(l) && l[i] != "" ==> depName(l[i]) in m)
  && (forall n: string {n in m} :: n in m ==> (exists i: int {l[i]} :: 0 <= i && i < len(l) && l[i] != "" && isDep(l[i], m[n])))
  && (forall n: string {m[n]} :: n in m ==> m[n].Name == n)

contract desc.NewDesc(d) (r)
  props C03
  ensures imports: fieldOK(d.Imports, r.Imports)
  ensures suggests: fieldOK(d.Suggests, r.Suggests)
  ensures depends: fieldOK(d.Depends, r.Depends)
  ensures linking: fieldOK(d.LinkingTo, r.LinkingTo)
  ensures package: r.Package == d.Package && r.Version == d.Version && r.Path == d.Path
  loopinv (anyl: []string, m: map[string]desc.Dep) done: forall i: int {anyl[i]} :: 0 <= i && i < IDX && anyl[i] != "" ==> depName(anyl[i]) in m
  loopinv (anyl: []string, m: map[string]desc.Dep) only: forall n: string {n in m} :: n in m ==> (exists i: int {anyl[i]} :: 0 <= i && i < len(anyl) && anyl[i] != "" && isDep(anyl[i], m[n]))
  loopinv (m: map[string]desc.Dep) nm: forall n: string {m[n]} :: n in m ==> m[n].Name == n
end

spec combined(d: desc.Desc, sug: bool, n: string): bool =
     (n in d.Depends && n != "R") || n in d.Imports || n in d.LinkingTo || (sug && n in d.Suggests)
contract "(*desc.Desc).GetCombinedDependencies"(d, suggests) (r)
  props C03
  requires d != nil
  ensures union: forall n: string {n in r} :: n in r <==> combined(*d, suggests, n)
  ensures taken: forall n: string {r[n]} :: n in r ==> (n in d.Depends && r[n] == d.Depends[n]) || (n in d.Imports && r[n] == d.Imports[n]) || (n in d.LinkingTo && r[n] == d.LinkingTo[n]) || (suggests && n in d.Suggests && r[n] == d.Suggests[n])
  loopinv (m: map[string]desc.Dep) grow: forall n: string {n in m} :: n in m <==> pre(n in m) || n in visited
  loopinv (m: map[string]desc.Dep) growR: forall n: string {n in m} :: n in m <==> pre(n in m) || (n in visited && n != "R")
  loopinv (m: map[string]desc.Dep) same: forall n: string {n in m} :: n in m <==> pre(n in m)
  loopinv (m: map[string]desc.Dep) taken: forall n: string {m[n]} :: n in m ==> (n in d.Depends && m[n] == d.Depends[n]) || (n in d.Imports && m[n] == d.Imports[n]) || (n in d.LinkingTo && m[n] == d.LinkingTo[n]) || (suggests && n in d.Suggests && m[n] == d.Suggests[n])
end

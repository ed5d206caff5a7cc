// C10: reverse dependencies
spec strle(a: string, b: string): bool
spec sortedStr(l: []string): bool = forall i: int, j: int {l[i], l[j]} :: 0 <= i && i <= j && j < len(l) ==> strle(l[i], l[j])
trusted sort.Strings(x)
  modifies elems(x)
  ensures len(x) == len(old(x))
  ensures sortedStr(x)
  ensures forall s: string {s in x} :: s in x <==> s in old(x)
end

spec invHas(m: map[string][]string, b: string, a: string): bool = b in m && a in m[b]
contract "(*gpsr.InstallPlan).InvertDependencies"(ip) (r)
  props C10
  requires ip != nil
  ensures inverse: forall a: string, b: string {invHas(r, b, a)} :: invHas(r, b, a) <==> (a in ip.DepDb && b in ip.DepDb[a])
  ensures no_empty: forall b: string {r[b]} :: b in r ==> len(r[b]) > 0
  ensures sorted: forall b: string {r[b]} :: b in r ==> sortedStr(r[b])
  loopinv (m: map[string][]string) outer: forall a: string, b: string {invHas(m, b, a)} :: invHas(m, b, a) <==> (a in visited && b in ip.DepDb[a])
  loopinv (m: map[string][]string, anyl: []string, anyp: string) inner: forall a: string, b: string {invHas(m, b, a)} :: invHas(m, b, a) <==> (pre(invHas(m, b, a)) || (a == anyp && (exists j: int {anyl[j]} :: 0 <= j && j < IDX && anyl[j] == b)))
  loopinv (m: map[string][]string) ne: forall b: string {m[b]} :: b in m ==> len(m[b]) > 0
  loopinv (m: map[string][]string) same: forall a: string, b: string {invHas(m, b, a)} :: invHas(m, b, a) <==> pre(invHas(m, b, a))
  loopinv (m: map[string][]string) dom: forall b: string {b in m} :: b in m <==> pre(b in m)
  loopinv (m: map[string][]string) sorted: forall b: string {m[b]} :: b in visited ==> sortedStr(m[b])
end

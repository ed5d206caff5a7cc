// C05: layering the dependency graph
// sets of golang-set: the members of each set, which sets exist, and what each iteration channel still delivers
ghost msets: fmap[mapset.Set]set[any]
ghost mslive: set[mapset.Set]
ghost chrem: fmap[ref]set[any]
trusted "golang-set.NewSet"(es) (s)
  modifies msets, mslive
  ensures !(s in old(mslive)) && mslive == upd(old(mslive), s, true)
  ensures forall q: mapset.Set {msets[q]} :: q in old(mslive) ==> msets[q] == old(msets[q])
  ensures forall e: any {e in msets[s]} :: e in msets[s] <==> e in es
end
trusted "(golang-set.Set).Add"(s, e) (added)
  modifies msets
  ensures msets == upd(old(msets), s, upd(old(msets[s]), e, true))
end
trusted "(golang-set.Set).Cardinality"(s) (n)
  ensures n == card(msets[s])
end
trusted "(golang-set.Set).Difference"(s, o) (r)
  modifies msets, mslive
  ensures !(r in old(mslive)) && mslive == upd(old(mslive), r, true)
  ensures forall q: mapset.Set {msets[q]} :: q in old(mslive) ==> msets[q] == old(msets[q])
  ensures forall e: any {e in msets[r]} :: e in msets[r] <==> e in old(msets[s]) && !(e in old(msets[o]))
end
// the channel delivers every member once and is then closed
trusted "(golang-set.Set).Iter"(s) (c)
  modifies chrem
  ensures chrem == upd(old(chrem), ref(c), msets[s])
end
trusted "recv:any"(c) (v, ok)
  modifies chrem
  ensures ok ==> v in old(chrem[ref(c)]) && chrem == upd(old(chrem), ref(c), upd(old(chrem[ref(c)]), v, false))
  ensures !ok ==> chrem == old(chrem) && chrem[ref(c)] == emptyset(@any)
end

// p is in one of the first m layers
spec hidden placed(r: [][]string, p: string, m: int): bool = exists i: int {r[i]} :: 0 <= i && i < m && p in r[i]
lemma placed_in props C05 reveal placed : forall r: [][]string, p: string, i: int, m: int {p in r[i], placed(r, p, m)} :: 0 <= i && i < m && p in r[i] ==> placed(r, p, m)
lemma placed_more props C05 reveal placed : forall r: [][]string, s: [][]string, p: string, m: int, q: int {placed(r, p, m), placed(s, p, q)} ::
   placed(r, p, m) && m <= q && (forall i: int {s[i]} :: 0 <= i && i < m ==> s[i] == r[i]) ==> placed(s, p, q)
lemma placed_ex props C05 reveal placed : forall r: [][]string, p: string, m: int {placed(r, p, m)} :: placed(r, p, m) ==> (exists i: int {p in r[i]} :: 0 <= i && i < m && p in r[i])
spec hidden unplaced(r: [][]string, p: string, m: int): bool = forall i: int {r[i]} :: 0 <= i && i < m ==> !(p in r[i])
lemma unplaced_not props C05 reveal placed unplaced : forall r: [][]string, p: string, m: int {placed(r, p, m), unplaced(r, p, m)} :: !(placed(r, p, m) && unplaced(r, p, m))
lemma unplaced_if props C05 reveal placed unplaced : forall r: [][]string, p: string, m: int {unplaced(r, p, m)} :: (forall i: int {r[i]} :: 0 <= i && i < m ==> !(p in r[i])) ==> unplaced(r, p, m)
// what keeps k waiting
spec needs(g: map[string]*gpsr.Node, nr: bool, k: string, p: string): bool = p in g[k].Deps && !excluded(p, nr)

contract gpsr.ResolveLayers(graph, noRec) (r, err)
  props C05 C07
  lemmas placed_in, placed_ex, placed_more, unplaced_not, unplaced_if
  modifies msets, mslive, chrem
  requires forall k: string {graph[k]} :: k in graph ==> allocated(graph[k])
  ensures nonempty: forall i: int {r[i]} :: 0 <= i && i < len(r) ==> len(r[i]) > 0
  ensures known: forall i: int, p: string {p in r[i]} :: 0 <= i && i < len(r) && p in r[i] ==> p in graph
  ensures known_any: forall p: string {placed(r, p, len(r))} :: placed(r, p, len(r)) ==> p in graph
  ensures every: err == nil ==> (forall p: string {p in graph} :: p in graph ==> placed(r, p, len(r)))
  ensures once: forall i: int, j: int, p: string {r[i], p in r[j]} :: 0 <= i && i < j && j < len(r) && p in r[i] ==> !(p in r[j])
  ensures not_before: forall j: int, p: string {p in r[j]} :: 0 <= j && j < len(r) && p in r[j] ==> unplaced(r, p, j)
  ensures once_layer: forall i: int, a: int, b: int {r[i][a], r[i][b]} :: 0 <= i && i < len(r) && 0 <= a && a < b && b < len(r[i]) ==> r[i][a] != r[i][b]
  ensures order: forall i: int, k: string, p: string {k in r[i], p in graph[k].Deps} :: 0 <= i && i < len(r) && k in r[i] && needs(graph, noRec, k, p) ==> placed(r, p, i)
  // an error is reported only if every package left over waits for another one left over, or for one that is not there
  ensures stuck: err != nil ==> (forall k: string {k in graph} :: k in graph && unplaced(r, k, len(r)) ==> (exists p: string {p in graph[k].Deps} :: needs(graph, noRec, k, p) && unplaced(r, p, len(r))))
  ensures some_stuck: err != nil ==> (exists k: string {k in graph} :: k in graph && unplaced(r, k, len(r)))
  loopinv (r: [][]string) nonempty: forall i: int {r[i]} :: 0 <= i && i < len(r) ==> len(r[i]) > 0
  loopinv (r: [][]string) once: forall i: int, j: int, p: string {r[i], p in r[j]} :: 0 <= i && i < j && j < len(r) && p in r[i] ==> !(p in r[j])
  loopinv (r: [][]string) once_layer: forall i: int, a: int, b: int {r[i][a], r[i][b]} :: 0 <= i && i < len(r) && 0 <= a && a < b && b < len(r[i]) ==> r[i][a] != r[i][b]
  loopinv (r: [][]string) order: forall i: int, k: string, p: string {k in r[i], p in graph[k].Deps} :: 0 <= i && i < len(r) && k in r[i] && needs(graph, noRec, k, p) ==> placed(r, p, i)
  loopinv (r: [][]string, anynm: map[string]mapset.Set) rest: forall p: string {p in graph} :: p in graph && !(p in anynm) ==> placed(r, p, len(r))
  loopinv (r: [][]string, anynm: map[string]mapset.Set) done: forall i: int, p: string {p in r[i]} :: 0 <= i && i < len(r) && p in r[i] ==> p in graph && !(p in anynm)
  loopinv (anynm: map[string]mapset.Set) keys: forall k: string {k in anynm} :: k in anynm ==> k in graph && anynm[k] in mslive
  loopinv (anynm: map[string]mapset.Set) waits: forall k: string, p: string {k in anynm, p in graph[k].Deps} {k in anynm, box(p) in msets[anynm[k]]} :: k in anynm ==>
      (box(p) in msets[anynm[k]] <==> needs(graph, noRec, k, p) && (p in anynm || !(p in graph)))
  loopinv (anynm: map[string]mapset.Set) strs: forall k: string, v: any {v in msets[anynm[k]]} :: k in anynm && v in msets[anynm[k]] ==> is(@string, v) && box(unbox(@string, v)) == v
  // filling
  loopinv (anynm: map[string]mapset.Set) fkeys: forall k: string {k in anynm} :: (k in anynm <==> k in visited) && (k in anynm ==> anynm[k] in mslive)
  loopinv (anynm: map[string]mapset.Set) fwaits: forall k: string, p: string {k in anynm, p in graph[k].Deps} {k in anynm, box(p) in msets[anynm[k]]} :: k in anynm ==>
      (box(p) in msets[anynm[k]] <==> needs(graph, noRec, k, p))
  loopinv (anys: mapset.Set, anynode: *gpsr.Node) fset: forall p: string {box(p) in msets[anys]} :: box(p) in msets[anys] <==> !excluded(p, noRec) && (exists j: int {anynode.Deps[j]} :: 0 <= j && j < IDX && anynode.Deps[j] == p)
  loopinv (anys: mapset.Set) fstr: forall v: any {v in msets[anys]} :: v in msets[anys] ==> is(@string, v)
  loopinv (anys: mapset.Set) fothers: forall q: mapset.Set {msets[q]} :: q != anys && pre(q in mslive) ==> msets[q] == pre(msets[q])
  // the ready layer
  loopinv (anys: mapset.Set, anynm: map[string]mapset.Set) ready: forall k: string {box(k) in msets[anys]} {k in visited} :: box(k) in msets[anys] <==> k in visited && card(msets[anynm[k]]) == 0
  loopinv (anynm: map[string]mapset.Set) subset: forall k: string {k in visited} :: k in visited ==> k in anynm
  // moving the layer out
  loopinv (anynm: map[string]mapset.Set, anyc: rchan[any]) left: forall k: string {k in anynm} :: (k in anynm <==> pre(k in anynm) && (!(box(k) in pre(chrem[ref(anyc)])) || box(k) in chrem[ref(anyc)])) && anynm[k] == pre(anynm[k])
  loopinv (dl: []string, anyc: rchan[any]) moved: forall k: string {k in dl} {box(k) in pre(chrem[ref(anyc)])} :: k in dl <==> box(k) in pre(chrem[ref(anyc)]) && !(box(k) in chrem[ref(anyc)])
  loopinv (dl: []string, anyc: rchan[any]) movedv: forall v: any {v in pre(chrem[ref(anyc)])} :: v in pre(chrem[ref(anyc)]) && !(v in chrem[ref(anyc)]) && is(@string, v) ==> unbox(@string, v) in dl
  loopinv (anyc: rchan[any]) rem: forall v: any {v in chrem[ref(anyc)]} :: v in chrem[ref(anyc)] ==> v in pre(chrem[ref(anyc)])
  loopinv (dl: []string) distinct: forall a: int, b: int {dl[a], dl[b]} :: 0 <= a && a < b && b < len(dl) ==> dl[a] != dl[b]
  // removing the layer from the remaining requirements
  loopinv (anynm: map[string]mapset.Set) rkeys: forall k: string {k in anynm} :: (k in anynm <==> pre(k in anynm)) && (k in anynm ==> anynm[k] in mslive)
  loopinv (anynm: map[string]mapset.Set, anys: mapset.Set) removed: forall k: string, v: any {v in msets[anynm[k]]} :: k in anynm ==>
      (v in msets[anynm[k]] <==> pre(v in msets[anynm[k]]) && (!(k in visited) || !(v in pre(msets[anys]))))
  loopinv () rold: forall q: mapset.Set {msets[q]} :: pre(q in mslive) ==> q in mslive && msets[q] == pre(msets[q])
  loopinv (anys: mapset.Set) live: anys in mslive
end

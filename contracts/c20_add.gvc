// C20: adding packages to the configuration
spec repeats(s: string, n: int): string
spec anyof(s: string, chars: string): bool
trusted strings.Repeat(s, n) (r)
  requires countable: n >= 0
  ensures r == repeats(s, n)
end
trusted strings.ContainsAny(s, chars) (r)
  ensures r <==> anyof(s, chars)
end
// trimming leaves a part of the line
axiom trim_part: forall s: string {trimsp(s)} :: contains(s, trimsp(s)) && (s == "" ==> trimsp(s) == "")
lemma item_at mode theory props C20: forall s: string, t: string :: contains(s, t) && prefixof("-", t) ==> indexof(s, "-") >= 0
axiom item_found: forall s: string {trimsp(s)} :: prefixof("-", trimsp(s)) ==> indexof(s, "-") >= 0
spec keyline(l: string): bool = prefixof("Packages:", l)
spec itemline(l: string): bool = prefixof("-", trimsp(l))
// a line that starts another section of the file
spec sectionline(l: string): bool = trimsp(l) != "" && !anyof(substr(l, 0, 1), " \t#-")
// the last of the first n lines that has the key (-1: none)
spec lastkey(ls: []string, n: int): int
axiom lastkey_def: forall ls: []string, n: int {lastkey(ls, n)} ::
     (n <= 0 ==> lastkey(ls, n) == 0 - 1)
  && (n > 0 ==> lastkey(ls, n) == (keyline(ls[n - 1]) ? n - 1 : lastkey(ls, n - 1)))
// the indentation of the first list item from line i on that belongs to the section
spec indent(ls: []string, i: int): int
axiom indent_def: forall ls: []string, i: int {indent(ls, i)} ::
     (i >= len(ls) ==> indent(ls, i) == 0)
  && (0 <= i && i < len(ls) ==> indent(ls, i) == (itemline(ls[i]) ? indexof(ls[i], "-") : (sectionline(ls[i]) ? 0 : indent(ls, i + 1))))
contract configlib.startsSection(line) (r)
  props C20 C21
  lemmas trim_part
  ensures means: r <==> sectionline(line)
end
contract configlib.insertPackages(lines, pkgs) (r)
  props C20
  lemmas lastkey_def, indent_def, item_found
  ensures nothing: len(pkgs) == 0 ==> r == lines
  ensures number: lastkey(lines, len(lines)) >= 0 ==> len(r) == len(lines) + len(pkgs)
  ensures above: lastkey(lines, len(lines)) >= 0 ==> (forall i: int {r[i]} :: 0 <= i && i <= lastkey(lines, len(lines)) ==> r[i] == lines[i])
  ensures items: lastkey(lines, len(lines)) >= 0 ==> (forall j: int {pkgs[j]} :: 0 <= j && j < len(pkgs) ==> r[lastkey(lines, len(lines)) + 1 + j] == repeats(" ", indent(lines, lastkey(lines, len(lines)) + 1)) + "- " + pkgs[j])
  ensures below: lastkey(lines, len(lines)) >= 0 ==> (forall i: int {lines[i]} :: lastkey(lines, len(lines)) < i && i < len(lines) ==> r[i + len(pkgs)] == lines[i])
  ensures newsection: len(pkgs) > 0 && lastkey(lines, len(lines)) < 0 ==> len(r) == len(lines) + 2 + len(pkgs) && r[len(lines)] == "" && r[len(lines) + 1] == "Packages:"
  ensures newkept: len(pkgs) > 0 && lastkey(lines, len(lines)) < 0 ==> (forall i: int {lines[i]} :: 0 <= i && i < len(lines) ==> r[i] == lines[i])
  ensures newitems: len(pkgs) > 0 && lastkey(lines, len(lines)) < 0 ==> (forall j: int {pkgs[j]} :: 0 <= j && j < len(pkgs) ==> r[len(lines) + 2 + j] == "- " + pkgs[j])
  loopinv (k: int, b: bool) key: b ? k == lastkey(lines, IDX) : lastkey(lines, IDX) < 0
  loopinv (k: int, b: bool) range: b ==> 0 <= k && k < IDX
  loopinv (k: int, b: bool) zero: !b ==> k == 0
  loopinv (anyk: int) pad: indent(lines, anyk + 1) == indent(lines, anyk + 1 + IDX)
  loopinv (o: []string) len: len(o) == pre(len(o)) + IDX
  loopinv (o: []string) kept: forall i: int {o[i]} :: 0 <= i && i < pre(len(o)) ==> o[i] == pre(o[i])
  loopinv (o: []string, anyp: string) items: forall j: int {pkgs[j]} :: 0 <= j && j < IDX ==> o[pre(len(o)) + j] == anyp + "- " + pkgs[j]
  loopinv (o: []string) newitems: forall j: int {pkgs[j]} :: 0 <= j && j < IDX ==> o[pre(len(o)) + j] == "- " + pkgs[j]
end
contract configlib.AddPackages(names) (err)
  props C20
  modifies disk, stray
  before "configlib.insertPackages" unlisted: forall i: int {pkgs[i]} :: 0 <= i && i < len(pkgs) ==> !(pkgs[i] in pc.Packages)
  before "configlib.insertPackages" once: forall i: int, j: int {pkgs[i], pkgs[j]} :: 0 <= i && i < j && j < len(pkgs) ==> pkgs[i] != pkgs[j]
  before "configlib.insertPackages" asked: forall p: string {p in pkgs} :: p in pkgs ==> p in names
  before "configlib.insertPackages" all: forall i: int {names[i]} :: 0 <= i && i < len(names) ==> names[i] in pc.Packages || names[i] in pkgs
  loopinv (q: []string) asked: forall p: string {p in q} :: p in q ==> p in names
  loopinv (q: []string) once: forall i: int, j: int {q[i], q[j]} :: 0 <= i && i < j && j < len(q) ==> q[i] != q[j]
  loopinv (q: []string, anyc: *configlib.PkgrConfig) all: forall i: int {names[i]} :: 0 <= i && i < IDX ==> names[i] in anyc.Packages || names[i] in q
  loopinv (q: []string, anyc: *configlib.PkgrConfig) unlisted: forall i: int {q[i]} :: 0 <= i && i < len(q) ==> !(q[i] in anyc.Packages)
end

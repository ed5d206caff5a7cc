// C21: removing a package from the configuration
ghost files: fmap[string][]byte
worldghosts files
spec textlines(b: []byte): [][]byte
trusted afero.ReadFile(fs, path) (b, err)
  ensures err == nil ==> b == files[path]
end
trusted afero.WriteFile(fs, path, data, perm) (err)
  modifies disk, stray, files
end
trusted bytes.Split(s, sep) (r)
  ensures str(sep) == "\n" ==> r == textlines(s)
end
trusted bytes.HasPrefix(s, p) (r)
  ensures r <==> prefixof(str(p), str(s))
end
// a line listing exactly this package: bare or quoted, perhaps with a comment
spec entry(l: string): string = trimsp(before(substr(trimsp(l), 1, len(trimsp(l))), " #"))
spec lists(l: string, n: string): bool = prefixof("- ", trimsp(l)) && (entry(l) == n || entry(l) == "\"" + n + "\"" || entry(l) == "'" + n + "'")
contract configlib.listsPackage(line, name) (r)
  props C21
  ensures means: r <==> lists(line, name)
end
// whether the last of the first n lines that starts a section starts the Packages section
spec insec(ls: [][]byte, n: int): bool
axiom insec_def: forall ls: [][]byte, n: int {insec(ls, n)} ::
     (n <= 0 ==> !insec(ls, n))
  && (n > 0 ==> (insec(ls, n) <==> (sectionline(str(ls[n - 1])) ? keyline(str(ls[n - 1])) : insec(ls, n - 1))))
spec drops(ls: [][]byte, name: string, i: int): bool = insec(ls, i + 1) && lists(str(ls[i]), name)
// where line n starts in the file without the dropped lines
spec off(ls: [][]byte, name: string, n: int): int
axiom off_def: forall ls: [][]byte, name: string, n: int {off(ls, name, n)} ::
     (n <= 0 ==> off(ls, name, n) == 0)
  && (n > 0 ==> off(ls, name, n) == off(ls, name, n - 1) + (drops(ls, name, n - 1) ? 0 : len(ls[n - 1]) + (n < len(ls) ? 1 : 0)))
contract configlib.remove(yml, name) (err)
  props C21
  lemmas insec_def, off_def
  modifies disk, stray, files
  before "afero.WriteFile" samefile: path == yml
  before "afero.WriteFile" length: len(data) == off(textlines(old(files)[yml]), name, len(textlines(old(files)[yml])))
  before "afero.WriteFile" kept: forall i: int, j: int {textlines(old(files)[yml])[i][j]} :: 0 <= i && i < len(textlines(old(files)[yml])) && 0 <= j && j < len(textlines(old(files)[yml])[i]) && !drops(textlines(old(files)[yml]), name, i) ==> data[off(textlines(old(files)[yml]), name, i) + j] == textlines(old(files)[yml])[i][j]
  before "afero.WriteFile" ends: forall i: int {textlines(old(files)[yml])[i]} :: 0 <= i && i < len(textlines(old(files)[yml])) - 1 && !drops(textlines(old(files)[yml]), name, i) ==> data[off(textlines(old(files)[yml]), name, i) + len(textlines(old(files)[yml])[i])] == 10
  loopinv (k: int) count: k == IDX
  loopinv (b: bool) section: b <==> insec(textlines(old(files)[yml]), IDX)
  loopinv (o: []byte) length: len(o) == off(textlines(old(files)[yml]), name, IDX)
  loopinv (o: []byte) before: forall i: int {off(textlines(old(files)[yml]), name, i)} :: 0 <= i && i < IDX ==> 0 <= off(textlines(old(files)[yml]), name, i) && off(textlines(old(files)[yml]), name, i) <= len(o) && (!drops(textlines(old(files)[yml]), name, i) ==> off(textlines(old(files)[yml]), name, i) + len(textlines(old(files)[yml])[i]) + (i < len(textlines(old(files)[yml])) - 1 ? 1 : 0) <= len(o))
  loopinv (o: []byte) kept: forall i: int, j: int {textlines(old(files)[yml])[i][j]} :: 0 <= i && i < IDX && 0 <= j && j < len(textlines(old(files)[yml])[i]) && !drops(textlines(old(files)[yml]), name, i) ==> o[off(textlines(old(files)[yml]), name, i) + j] == textlines(old(files)[yml])[i][j]
  loopinv (o: []byte) ends: forall i: int {textlines(old(files)[yml])[i]} :: 0 <= i && i < IDX && i < len(textlines(old(files)[yml])) - 1 && !drops(textlines(old(files)[yml]), name, i) ==> o[off(textlines(old(files)[yml]), name, i) + len(textlines(old(files)[yml])[i])] == 10
end
contract configlib.RemovePackage(name) (err)
  props C21
  modifies disk, stray, files
end

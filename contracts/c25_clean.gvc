// C25: cleaning the cache. A file that was opened delivers the text at its path (the tarballs named in the
// configuration do not change while the cache is cleaned).
spec textat(p: string): string
spec absp(p: string): string
spec ucachedir(): string
spec tmpdir(): string
trusted os.UserCacheDir() (d, err)
  ensures err == nil ==> d == ucachedir()
end
trusted filepath.Abs(p) (r, err)
  ensures r == (err == nil ? absp(p) : "")
end
trusted hex.EncodeToString(b) (r)
  ensures r == fmt("%x", b)
end
// the name of the folder a tarball with text t is unpacked into
spec hidden tarnamed(t: string, n: string): bool = exists b: []byte {fmt("%x", b)} :: len(b) == 8 && (forall i: int {b[i]} :: 0 <= i && i < 8 ==> b[i] == md5of(t)[i]) && n == fmt("%x", b)
// the cache in force
spec cachein(c: string, d: string): bool = c != "" ? d == c : d == joinp(ucachedir(), "pkgr") || d == joinp(tmpdir(), "pkgr")
contract cmd.userCache(pc) (r)
  props C25
  ensures place: cachein(pc, r)
end
contract cmd.getHashedTarballName(tgzFile) (n, err)
  props C25
  reveal tarnamed
  modifies hashin, complete
  ensures name: err == nil ==> tarnamed(textof(tgzFile), n)
end

// the folders found in a directory: plain names, not hidden
trusted goutils.ListDirNames(fd) (r)
  ensures forall i: int {r[i]} :: 0 <= i && i < len(r) ==> plain(r[i])
end
// whether a folder was seen to be empty
ghost seenempty: set[string]
trusted afero.IsEmpty(fs, p) (ok, err)
  modifies seenempty
  ensures seenempty == (ok ? upd(old(seenempty), p, true) : old(seenempty))
end
spec chosen(repos: []string, f: string): bool = plain(f) && (len(repos) == 0 || f in repos)

contract cmd.deleteCacheSubfolders(fs, repos, subfolder, cacheDirectory) (err)
  props C25
  modifies disk, stray, files, ioerr, seenempty
  before "(afero.Fs).RemoveAll" selected: exists f: string {joinp(cacheDirectory, f)} :: chosen(repos, f) && p == joinp(joinp(cacheDirectory, f), subfolder)
  before "(afero.Fs).Remove" empty: p == "" || (p in seenempty && (exists f: string {joinp(cacheDirectory, f)} :: chosen(repos, f) && (p == joinp(cacheDirectory, f) || p == absp(joinp(cacheDirectory, f)))))
  // names collected from repos, or folders chosen beforehand
  loopinv (anym: map[string]bool) keys: forall k: string {k in anym} :: k in anym ==> k in repos
  loopinv (anyl: []string) picked: forall i: int {anyl[i]} :: 0 <= i && i < len(anyl) ==> chosen(repos, anyl[i])
end
contract cmd.cleanCacheFolders() (err)
  props C25
  modifies anything
  before "cmd.deleteCacheSubfolders" place: cachein(cmd.cfg.Cache, cacheDirectory)
  before "cmd.deleteCacheSubfolders" kind: (subfolder == "src" && !cmd.binariesOnly) || (subfolder == "binary" && !cmd.srcOnly)
  before "cmd.deleteCacheSubfolders" named: cmd.reposToClear == "ALL" ? len(repos) == 0 : len(repos) > 0 && repos == splitall(cmd.reposToClear, ",")
  before "(afero.Fs).RemoveAll" tarball: exists t: string, d: string, n: string {textat(t), joinp(d, n)} :: t in cmd.cfg.Tarballs && cachein(cmd.cfg.Cache, d) && tarnamed(textat(t), n) && p == joinp(d, n)
  before "(afero.Fs).Remove" none: false
end

// C22: the stamp in the DESCRIPTION of an installed package
spec stampline(l: string): bool = prefixof("PkgrVersion:", l) || prefixof("PkgrInstallType:", l) || prefixof("PkgrRepositoryURL:", l)
spec repoval(l: string): string = trimsp(substr(l, len("Repository:"), len(l)))
spec otherrepo(l: string, repo: string): bool = prefixof("Repository:", l) && repoval(l) != trimsp(repo)
lemma origin_no_stamp mode theory props C22: forall s: string {"OriginalRepository: " + s} :: !stampline("OriginalRepository: " + s)
lemma repo_no_stamp mode theory props C22: forall s: string {"Repository: " + s} :: !stampline("Repository: " + s)
// where the first n lines end in the stamped file
spec stamped(ls: []string, repo: string, n: int): int
axiom stamped_def: forall ls: []string, repo: string, n: int {stamped(ls, repo, n)} ::
     (n <= 0 ==> stamped(ls, repo, n) == 0)
  && (n > 0 ==> stamped(ls, repo, n) == stamped(ls, repo, n - 1) + (stampline(ls[n - 1]) ? 0 : (otherrepo(ls[n - 1], repo) ? 2 : 1)))
contract rcmd.updateDescriptionInfoByLines(lines, version, kind, url, repo) (r)
  props C22
  lemmas stamped_def, origin_no_stamp, repo_no_stamp
  ensures number: len(r) == stamped(lines, repo, len(lines)) + 3
  ensures version: r[len(r) - 3] == "PkgrVersion: " + version
  ensures kind: r[len(r) - 2] == "PkgrInstallType: " + kind
  ensures address: r[len(r) - 1] == "PkgrRepositoryURL: " + url
  ensures once: forall i: int {r[i]} :: 0 <= i && i < len(r) - 3 ==> !stampline(r[i])
  ensures kept: forall i: int {lines[i]} :: 0 <= i && i < len(lines) && !stampline(lines[i]) && !otherrepo(lines[i], repo) ==> r[stamped(lines, repo, i)] == lines[i]
  ensures origin: forall i: int {lines[i]} :: 0 <= i && i < len(lines) && !stampline(lines[i]) && otherrepo(lines[i], repo) ==>
       r[stamped(lines, repo, i)] == "OriginalRepository: " + repoval(lines[i]) && r[stamped(lines, repo, i) + 1] == "Repository: " + repo
  loopinv (o: []string) number: len(o) == stamped(lines, repo, IDX)
  loopinv (o: []string) once: forall i: int {o[i]} :: 0 <= i && i < len(o) ==> !stampline(o[i])
  loopinv (o: []string) range: forall i: int {stamped(lines, repo, i)} :: 0 <= i && i < IDX ==> 0 <= stamped(lines, repo, i) && stamped(lines, repo, i) + (stampline(lines[i]) ? 0 : (otherrepo(lines[i], repo) ? 2 : 1)) <= len(o)
  loopinv (o: []string) kept: forall i: int {lines[i]} :: 0 <= i && i < IDX && !stampline(lines[i]) && !otherrepo(lines[i], repo) ==> o[stamped(lines, repo, i)] == lines[i]
  loopinv (o: []string) origin: forall i: int {lines[i]} :: 0 <= i && i < IDX && !stampline(lines[i]) && otherrepo(lines[i], repo) ==>
       o[stamped(lines, repo, i)] == "OriginalRepository: " + repoval(lines[i]) && o[stamped(lines, repo, i) + 1] == "Repository: " + repo
end
trusted goutils.WriteLinesFS(fs, lines, path) (err)
  modifies disk, stray, files
end
contract rcmd.writeUpdatedDescriptionFile(fs, filename, update) (err)
  props C22
  modifies disk, stray, files
  before "goutils.WriteLinesFS" same: lines == update && path == filename
end
contract rcmd.updateDescriptionInfo(fs, file, vers, kd, address, rep) (r, err)
  props C22
  modifies disk, stray, files
  before "rcmd.updateDescriptionInfoByLines" same: version == vers && kind == kd && url == address && repo == rep
  before "rcmd.writeUpdatedDescriptionFile" file: filename == file
end
contract rcmd.writeDescriptionInfo(fs, ir, ia) ()
  props C22
  modifies disk, stray, files
  before "rcmd.updateDescriptionInfo" file: file == joinp(joinp(ia.Library, ir.Package), "DESCRIPTION")
  before "rcmd.updateDescriptionInfo" stamp: vers == ir.ExecSettings.PkgrVersion && address == ir.Metadata.Metadata.Config.Repo.URL && rep == ir.Metadata.Metadata.Config.Repo.Name
  before "rcmd.updateDescriptionInfo" kind: kd == (ir.Metadata.Metadata.Config.Type == cran.Binary ? "binary" : "source")
end

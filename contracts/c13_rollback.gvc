// C13, C14: moving packages aside and rolling back. The disk maps every path to what is there (0: nothing); a
// package folder and everything in it move as one.
ghost disk: fmap[string]int
// some file operation failed for a reason other than what was (not) there
ghost ioerr: bool
spec joinp(a: string, b: string): string
spec plain(s: string): bool
spec under(p: string, d: string): bool
// package names are plain folder names, and no package is called __OLD__something
axiom folder_inj: forall l: string, a: string, b: string {joinp(l, a), joinp(l, b)} :: plain(a) && plain(b) && a != b ==> joinp(l, a) != joinp(l, b)
axiom backup_inj: forall l: string, a: string, b: string {joinp(l, "__OLD__" + a), joinp(l, "__OLD__" + b)} :: plain(a) && plain(b) && a != b ==> joinp(l, "__OLD__" + a) != joinp(l, "__OLD__" + b)
axiom backup_folder: forall l: string, a: string, b: string {joinp(l, "__OLD__" + a), joinp(l, b)} :: plain(a) && plain(b) ==> joinp(l, "__OLD__" + a) != joinp(l, b)
trusted "filepath.Join"(es) (r)
  ensures len(es) == 2 ==> r == joinp(es[0], es[1])
  ensures len(es) == 3 ==> r == joinp(joinp(es[0], es[1]), es[2])
  ensures len(es) == 5 ==> r == joinp(joinp(joinp(joinp(es[0], es[1]), es[2]), es[3]), es[4])
end
trusted "(afero.Fs).Rename"(fs, a, b) (err)
  modifies disk, ioerr
  ensures err == nil ==> old(disk[a]) != 0 && disk == upd(upd(old(disk), b, old(disk[a])), a, 0) && ioerr == old(ioerr)
  ensures err != nil ==> disk == old(disk) && (ioerr <==> old(ioerr) || (old(disk[a]) != 0 && old(disk[b]) == 0))
end
// what is inside a removed folder is part of what is at its path; a library has its packages removed with it
trusted "(afero.Fs).RemoveAll"(fs, p) (err)
  modifies disk, ioerr
  ensures err == nil ==> disk[p] == 0 && ioerr == old(ioerr)
  ensures err == nil ==> forall q: string {disk[q]} :: q != p && under(q, p) ==> disk[q] == 0
  ensures err != nil ==> ioerr
  ensures forall q: string {disk[q]} :: q != p && !under(q, p) ==> disk[q] == old(disk[q])
end
trusted "(afero.Fs).Stat"(fs, p) (fi, err)
  modifies ioerr
  ensures err == nil ==> disk[p] != 0 && ioerr == old(ioerr)
  ensures err != nil ==> (ioerr <==> old(ioerr) || disk[p] != 0)
end
trusted "afero.Exists"(fs, p) (ok, err)
  modifies ioerr
  ensures err == nil ==> (ok <==> disk[p] != 0) && ioerr == old(ioerr)
  ensures err != nil ==> !ok && ioerr
end
spec describes(ua: rollback.UpdateAttempt, lib: string): bool =
  ua.ActivePackageDirectory == joinp(lib, ua.Package) && ua.BackupPackageDirectory == joinp(lib, "__OLD__" + ua.Package)

contract rollback.tagOldInstallation(fs, lib, op) (ua)
  props C13 C14
  modifies disk, ioerr
  ensures describes: ua.Package == op.Package && describes(ua, lib) && ua.OldVersion == op.OldVersion && ua.NewVersion == op.NewVersion
  ensures moved: disk == upd(upd(old(disk), joinp(lib, "__OLD__" + op.Package), old(disk[joinp(lib, op.Package)])), joinp(lib, op.Package), 0) || (disk == old(disk) && (ioerr || old(disk[joinp(lib, op.Package)]) == 0 || old(disk[joinp(lib, "__OLD__" + op.Package)]) != 0))
  ensures errs: old(ioerr) ==> ioerr
end

// every path but the folders and backups of the first m packages is as it was
spec othersKept(d: fmap[string]int, e: fmap[string]int, lib: string, l: []cran.OutdatedPackage, m: int): bool =
  forall q: string {d[q]} {e[q]} :: (forall i: int {l[i]} :: 0 <= i && i < m ==> q != joinp(lib, l[i].Package) && q != joinp(lib, "__OLD__" + l[i].Package)) ==> d[q] == e[q]
spec stageable(d: fmap[string]int, lib: string, l: []cran.OutdatedPackage): bool =
  (forall i: int {l[i]} :: 0 <= i && i < len(l) ==> plain(l[i].Package) && d[joinp(lib, l[i].Package)] != 0 && d[joinp(lib, "__OLD__" + l[i].Package)] == 0)
  && (forall i: int, j: int {l[i], l[j]} :: 0 <= i && i < j && j < len(l) ==> l[i].Package != l[j].Package)

contract rollback.createUpdateBackupFolders(fs, lib, ops) (uas)
  props C13 C14
  lemmas folder_inj, backup_inj, backup_folder
  modifies disk, ioerr
  requires stageable(disk, lib, ops)
  ensures number: len(uas) == len(ops)
  ensures each: forall i: int {uas[i]} {ops[i]} :: 0 <= i && i < len(ops) ==> uas[i].Package == ops[i].Package && describes(uas[i], lib)
  ensures moved: !ioerr ==> (forall i: int {ops[i]} :: 0 <= i && i < len(ops) ==> disk[joinp(lib, "__OLD__" + ops[i].Package)] == old(disk[joinp(lib, ops[i].Package)]) && disk[joinp(lib, ops[i].Package)] == 0)
  ensures others: othersKept(disk, old(disk), lib, ops, len(ops))
  ensures errs: old(ioerr) ==> ioerr
  loopinv (u: []rollback.UpdateAttempt) num: len(u) == IDX
  loopinv (u: []rollback.UpdateAttempt) each: forall i: int {u[i]} {ops[i]} :: 0 <= i && i < IDX ==> u[i].Package == ops[i].Package && describes(u[i], lib)
  loopinv () moved: !ioerr ==> (forall i: int {ops[i]} :: 0 <= i && i < IDX ==> disk[joinp(lib, "__OLD__" + ops[i].Package)] == old(disk[joinp(lib, ops[i].Package)]) && disk[joinp(lib, ops[i].Package)] == 0)
  loopinv () rest: forall i: int {ops[i]} :: IDX <= i && i < len(ops) ==> disk[joinp(lib, ops[i].Package)] == old(disk[joinp(lib, ops[i].Package)]) && disk[joinp(lib, "__OLD__" + ops[i].Package)] == old(disk[joinp(lib, "__OLD__" + ops[i].Package)])
  loopinv () others: othersKept(disk, old(disk), lib, ops, IDX)
  loopinv () errs: old(ioerr) ==> ioerr
end

contract "(*rollback.RollbackPlan).PreparePackagesForUpdate"(rp, fs, lib) ()
  props C13 C14
  lemmas folder_inj, backup_inj, backup_folder
  modifies *rp, disk, ioerr
  ensures kept: rp.AllPackages == old(rp.AllPackages) && rp.NewPackages == old(rp.NewPackages) && rp.AdditionalPkgRollbacks == old(rp.AdditionalPkgRollbacks) && rp.PreinstalledPackages == old(rp.PreinstalledPackages) && rp.InstallPlan == old(rp.InstallPlan) && rp.Library == old(rp.Library)
  requires rp != nil && stageable(disk, lib, rp.InstallPlan.OutdatedPackages)
  // exactly the outdated packages of the plan are moved aside
  ensures listed: forall i: int {rp.UpdateRollbacks[i]} :: 0 <= i && i < len(rp.UpdateRollbacks) ==>
      describes(rp.UpdateRollbacks[i], lib) && rp.UpdateRollbacks[i].Package in rp.AllPackages
  ensures outdated: forall i: int {rp.UpdateRollbacks[i]} :: 0 <= i && i < len(rp.UpdateRollbacks) ==>
      (exists j: int {rp.InstallPlan.OutdatedPackages[j]} :: 0 <= j && j < len(rp.InstallPlan.OutdatedPackages) && rp.InstallPlan.OutdatedPackages[j].Package == rp.UpdateRollbacks[i].Package)
  ensures moved: !ioerr ==> (forall i: int {rp.UpdateRollbacks[i]} :: 0 <= i && i < len(rp.UpdateRollbacks) ==>
      disk[rp.UpdateRollbacks[i].BackupPackageDirectory] == old(disk)[joinp(lib, rp.UpdateRollbacks[i].Package)] && disk[rp.UpdateRollbacks[i].ActivePackageDirectory] == 0)
  ensures all: forall j: int {rp.InstallPlan.OutdatedPackages[j]} :: 0 <= j && j < len(rp.InstallPlan.OutdatedPackages) && rp.InstallPlan.OutdatedPackages[j].Package in rp.AllPackages ==>
      (exists i: int {rp.UpdateRollbacks[i]} :: 0 <= i && i < len(rp.UpdateRollbacks) && rp.UpdateRollbacks[i].Package == rp.InstallPlan.OutdatedPackages[j].Package)
  ensures distinct: forall i: int, j: int {rp.UpdateRollbacks[i], rp.UpdateRollbacks[j]} :: 0 <= i && i < j && j < len(rp.UpdateRollbacks) ==> rp.UpdateRollbacks[i].Package != rp.UpdateRollbacks[j].Package
  ensures others: forall q: string {disk[q]} :: (forall i: int {rp.UpdateRollbacks[i]} :: 0 <= i && i < len(rp.UpdateRollbacks) ==> q != rp.UpdateRollbacks[i].ActivePackageDirectory && q != rp.UpdateRollbacks[i].BackupPackageDirectory) ==> disk[q] == old(disk[q])
  loopinv (f: []cran.OutdatedPackage) stg: stageable(disk, lib, f)
  loopinv (f: []cran.OutdatedPackage) mem: forall i: int {f[i]} :: 0 <= i && i < len(f) ==> f[i].Package in rp.AllPackages
  loopinv (f: []cran.OutdatedPackage) memo: forall i: int {f[i]} :: 0 <= i && i < len(f) ==> (exists j: int {rp.InstallPlan.OutdatedPackages[j]} :: 0 <= j && j < len(rp.InstallPlan.OutdatedPackages) && rp.InstallPlan.OutdatedPackages[j].Package == f[i].Package)
  loopinv (f: []cran.OutdatedPackage) memb: forall i: int {f[i]} :: 0 <= i && i < len(f) ==> (exists j: int {rp.InstallPlan.OutdatedPackages[j]} :: 0 <= j && j < IDX && rp.InstallPlan.OutdatedPackages[j].Package == f[i].Package)
  loopinv (f: []cran.OutdatedPackage) all: forall j: int {rp.InstallPlan.OutdatedPackages[j]} :: 0 <= j && j < IDX && rp.InstallPlan.OutdatedPackages[j].Package in rp.AllPackages ==> (exists i: int {f[i]} :: 0 <= i && i < len(f) && f[i].Package == rp.InstallPlan.OutdatedPackages[j].Package)
end

spec stagedFor(l: []rollback.UpdateAttempt, p: string): bool = exists i: int {l[i]} :: 0 <= i && i < len(l) && l[i].Package == p
contract "(*rollback.RollbackPlan).PrepareAdditionalPackagesForOverwrite"(rp, fs, lib) ()
  props C13 C14
  lemmas folder_inj, backup_inj, backup_folder
  modifies *rp, disk, ioerr
  requires rp != nil && (forall p: string {p in rp.PreinstalledPackages} :: p in rp.PreinstalledPackages && p in rp.InstallPlan.AdditionalPackageSources && !stagedFor(rp.UpdateRollbacks, p) ==>
      disk[joinp(lib, p)] != 0 && disk[joinp(lib, "__OLD__" + p)] == 0)
  requires (forall p: string {p in rp.InstallPlan.AdditionalPackageSources} :: p in rp.InstallPlan.AdditionalPackageSources ==> plain(p))
  ensures kept: rp.AllPackages == old(rp.AllPackages) && rp.NewPackages == old(rp.NewPackages) && rp.UpdateRollbacks == old(rp.UpdateRollbacks) && rp.PreinstalledPackages == old(rp.PreinstalledPackages) && rp.InstallPlan == old(rp.InstallPlan) && rp.Library == old(rp.Library)
  // exactly the installed packages with a tarball that are not set aside yet are moved aside
  ensures listed: forall i: int {rp.AdditionalPkgRollbacks[i]} :: 0 <= i && i < len(rp.AdditionalPkgRollbacks) ==>
      describes(rp.AdditionalPkgRollbacks[i], lib) && rp.AdditionalPkgRollbacks[i].Package in rp.PreinstalledPackages && rp.AdditionalPkgRollbacks[i].Package in rp.InstallPlan.AdditionalPackageSources
      && !stagedFor(rp.UpdateRollbacks, rp.AdditionalPkgRollbacks[i].Package)
  ensures all: forall p: string {p in rp.PreinstalledPackages} :: p in rp.PreinstalledPackages && p in rp.InstallPlan.AdditionalPackageSources && !stagedFor(rp.UpdateRollbacks, p) ==> stagedFor(rp.AdditionalPkgRollbacks, p)
  ensures moved: !ioerr ==> (forall i: int {rp.AdditionalPkgRollbacks[i]} :: 0 <= i && i < len(rp.AdditionalPkgRollbacks) ==>
      disk[rp.AdditionalPkgRollbacks[i].BackupPackageDirectory] == old(disk)[joinp(lib, rp.AdditionalPkgRollbacks[i].Package)] && disk[rp.AdditionalPkgRollbacks[i].ActivePackageDirectory] == 0)
  ensures distinct: forall i: int, j: int {rp.AdditionalPkgRollbacks[i], rp.AdditionalPkgRollbacks[j]} :: 0 <= i && i < j && j < len(rp.AdditionalPkgRollbacks) ==> rp.AdditionalPkgRollbacks[i].Package != rp.AdditionalPkgRollbacks[j].Package
  ensures others: forall q: string {disk[q]} :: (forall i: int {rp.AdditionalPkgRollbacks[i]} :: 0 <= i && i < len(rp.AdditionalPkgRollbacks) ==> q != rp.AdditionalPkgRollbacks[i].ActivePackageDirectory && q != rp.AdditionalPkgRollbacks[i].BackupPackageDirectory) ==> disk[q] == old(disk[q])
  loopinv (m: map[string]bool) stg1: forall p: string {p in m} :: p in m ==> m[p] && stagedFor(rp.UpdateRollbacks, p)
  loopinv (m: map[string]bool) stg2: forall i: int {rp.UpdateRollbacks[i]} :: 0 <= i && i < IDX ==> rp.UpdateRollbacks[i].Package in m
  loopinv (l: []rollback.UpdateAttempt) listed: forall i: int {l[i]} :: 0 <= i && i < len(l) ==> describes(l[i], lib) && l[i].Package in visited && l[i].Package in rp.PreinstalledPackages && l[i].Package in rp.InstallPlan.AdditionalPackageSources && !stagedFor(rp.UpdateRollbacks, l[i].Package)
  loopinv (l: []rollback.UpdateAttempt) all: forall p: string {p in visited} :: p in visited && p in rp.PreinstalledPackages && !stagedFor(rp.UpdateRollbacks, p) ==> stagedFor(l, p)
  loopinv (l: []rollback.UpdateAttempt) moved: !ioerr ==> (forall i: int {l[i]} :: 0 <= i && i < len(l) ==> disk[l[i].BackupPackageDirectory] == old(disk)[joinp(lib, l[i].Package)] && disk[l[i].ActivePackageDirectory] == 0)
  loopinv (l: []rollback.UpdateAttempt) distinct: forall i: int, j: int {l[i], l[j]} :: 0 <= i && i < j && j < len(l) ==> l[i].Package != l[j].Package
  loopinv (l: []rollback.UpdateAttempt) others: forall q: string {disk[q]} :: (forall i: int {l[i]} :: 0 <= i && i < len(l) ==> q != l[i].ActivePackageDirectory && q != l[i].BackupPackageDirectory) ==> disk[q] == old(disk[q])
end

// the entries name different folders
spec apart(l: []rollback.UpdateAttempt): bool =
  (forall i: int, j: int {l[i], l[j]} :: 0 <= i && i < j && j < len(l) ==> l[i].ActivePackageDirectory != l[j].ActivePackageDirectory && l[i].BackupPackageDirectory != l[j].BackupPackageDirectory)
  && (forall i: int, j: int {l[i], l[j]} :: 0 <= i && i < len(l) && 0 <= j && j < len(l) ==> l[i].ActivePackageDirectory != l[j].BackupPackageDirectory)
// no folder of the list contains another one
spec beside(l: []rollback.UpdateAttempt, m: []rollback.UpdateAttempt): bool =
  forall i: int, j: int {l[i], m[j]} :: 0 <= i && i < len(l) && 0 <= j && j < len(m) ==>
     !under(m[j].ActivePackageDirectory, l[i].ActivePackageDirectory) && !under(m[j].BackupPackageDirectory, l[i].ActivePackageDirectory)
  && !under(m[j].ActivePackageDirectory, l[i].BackupPackageDirectory) && !under(m[j].BackupPackageDirectory, l[i].BackupPackageDirectory)
spec outside(q: string, l: []rollback.UpdateAttempt, m: int): bool =
  forall i: int {l[i]} :: 0 <= i && i < m ==> q != l[i].ActivePackageDirectory && q != l[i].BackupPackageDirectory && !under(q, l[i].ActivePackageDirectory) && !under(q, l[i].BackupPackageDirectory)

contract rollback.rollbackChangedPackages(fs, l) (err)
  props C13
  modifies disk, ioerr
  requires apart(l) && beside(l, l)
  ensures restored: err == nil ==> (forall i: int {l[i]} :: 0 <= i && i < len(l) ==> disk[l[i].ActivePackageDirectory] == old(disk[l[i].BackupPackageDirectory]) && disk[l[i].BackupPackageDirectory] == 0)
  ensures had: err == nil ==> (forall i: int {l[i]} :: 0 <= i && i < len(l) ==> old(disk[l[i].BackupPackageDirectory]) != 0)
  ensures others: forall q: string {disk[q]} :: outside(q, l, len(l)) ==> disk[q] == old(disk[q])
  // without trouble on the disk, and with every backup in place, the packages do come back
  ensures works: err != nil ==> ioerr || (exists i: int {l[i]} :: 0 <= i && i < len(l) && old(disk[l[i].BackupPackageDirectory]) == 0)
  ensures errs: old(ioerr) ==> ioerr
  loopinv () restored: forall i: int {l[i]} :: 0 <= i && i < IDX ==> disk[l[i].ActivePackageDirectory] == old(disk[l[i].BackupPackageDirectory]) && disk[l[i].BackupPackageDirectory] == 0
  loopinv () had: forall i: int {l[i]} :: 0 <= i && i < IDX ==> old(disk[l[i].BackupPackageDirectory]) != 0
  loopinv () rest: forall i: int {l[i]} :: IDX <= i && i < len(l) ==> disk[l[i].ActivePackageDirectory] == old(disk[l[i].ActivePackageDirectory]) && disk[l[i].BackupPackageDirectory] == old(disk[l[i].BackupPackageDirectory])
  loopinv () others: forall q: string {disk[q]} :: outside(q, l, IDX) ==> disk[q] == old(disk[q])
  loopinv () errs: old(ioerr) ==> ioerr
end

contract rollback.DeleteBackupPackageFolders(fs, l) (err)
  props C13 C14
  modifies disk, ioerr
  ensures gone: err == nil && !ioerr ==> (forall i: int {l[i]} :: 0 <= i && i < len(l) ==> disk[l[i].BackupPackageDirectory] == 0)
  ensures others: forall q: string {disk[q]} :: (forall i: int {l[i]} :: 0 <= i && i < len(l) ==> q != l[i].BackupPackageDirectory && !under(q, l[i].BackupPackageDirectory)) ==> disk[q] == old(disk[q])
  ensures works: err != nil ==> ioerr
  ensures errs: old(ioerr) ==> ioerr
  loopinv () gone: !ioerr ==> (forall i: int {l[i]} :: 0 <= i && i < IDX ==> disk[l[i].BackupPackageDirectory] == 0)
  loopinv () others: forall q: string {disk[q]} :: (forall i: int {l[i]} :: 0 <= i && i < IDX ==> q != l[i].BackupPackageDirectory && !under(q, l[i].BackupPackageDirectory)) ==> disk[q] == old(disk[q])
  loopinv () errs: old(ioerr) ==> ioerr
end

contract "(*rollback.RollbackPlan).DeleteBackupPackageFolders"(rp, fs) (errs)
  props C13 C14
  modifies disk, ioerr
  requires rp != nil && beside(rp.UpdateRollbacks, rp.UpdateRollbacks) && beside(rp.AdditionalPkgRollbacks, rp.UpdateRollbacks)
  ensures gone1: len(errs) == 0 && !ioerr ==> (forall i: int {rp.UpdateRollbacks[i]} :: 0 <= i && i < len(rp.UpdateRollbacks) ==> disk[rp.UpdateRollbacks[i].BackupPackageDirectory] == 0)
  ensures gone2: len(errs) == 0 && !ioerr ==> (forall i: int {rp.AdditionalPkgRollbacks[i]} :: 0 <= i && i < len(rp.AdditionalPkgRollbacks) ==> disk[rp.AdditionalPkgRollbacks[i].BackupPackageDirectory] == 0)
  ensures others: forall q: string {disk[q]} :: (forall i: int {rp.UpdateRollbacks[i]} :: 0 <= i && i < len(rp.UpdateRollbacks) ==> q != rp.UpdateRollbacks[i].BackupPackageDirectory && !under(q, rp.UpdateRollbacks[i].BackupPackageDirectory))
     && (forall i: int {rp.AdditionalPkgRollbacks[i]} :: 0 <= i && i < len(rp.AdditionalPkgRollbacks) ==> q != rp.AdditionalPkgRollbacks[i].BackupPackageDirectory && !under(q, rp.AdditionalPkgRollbacks[i].BackupPackageDirectory)) ==> disk[q] == old(disk[q])
end

contract rollback.discernNewPackages(names, pre) (r)
  props C13 C14
  ensures exact: forall p: string {p in r} :: p in r <==> p in names && !(p in pre)
  loopinv (r: []string) exact: forall p: string {p in r} :: p in r <==> (exists j: int {names[j]} :: 0 <= j && j < IDX && names[j] == p) && !(p in pre)
end

contract rollback.CreateRollbackPlan(lib, ip, pre) (rp)
  props C13 C14
  ensures all: forall p: string {p in rp.AllPackages} :: p in rp.AllPackages <==> (p in ip.StartingPackages || p in ip.DepDb || p in ip.AdditionalPackageSources)
  ensures new: forall p: string {p in rp.NewPackages} :: p in rp.NewPackages <==> p in rp.AllPackages && !(p in pre)
  ensures fields: rp.PreinstalledPackages == pre && rp.InstallPlan == ip && rp.Library == lib && len(rp.UpdateRollbacks) == 0 && len(rp.AdditionalPkgRollbacks) == 0
end

contract rollback.RollbackPackageEnvironment(fs, rp) (err)
  props C13
  lemmas folder_inj, backup_inj, backup_folder
  modifies disk, ioerr
  requires apart(rp.UpdateRollbacks) && apart(rp.AdditionalPkgRollbacks) && beside(rp.UpdateRollbacks, rp.UpdateRollbacks) && beside(rp.AdditionalPkgRollbacks, rp.AdditionalPkgRollbacks)
  requires beside(rp.UpdateRollbacks, rp.AdditionalPkgRollbacks) && beside(rp.AdditionalPkgRollbacks, rp.UpdateRollbacks)
  requires forall i: int, j: int {rp.UpdateRollbacks[i], rp.AdditionalPkgRollbacks[j]} :: 0 <= i && i < len(rp.UpdateRollbacks) && 0 <= j && j < len(rp.AdditionalPkgRollbacks) ==>
     rp.UpdateRollbacks[i].ActivePackageDirectory != rp.AdditionalPkgRollbacks[j].ActivePackageDirectory && rp.UpdateRollbacks[i].BackupPackageDirectory != rp.AdditionalPkgRollbacks[j].BackupPackageDirectory
     && rp.UpdateRollbacks[i].ActivePackageDirectory != rp.AdditionalPkgRollbacks[j].BackupPackageDirectory && rp.UpdateRollbacks[i].BackupPackageDirectory != rp.AdditionalPkgRollbacks[j].ActivePackageDirectory
  // new packages are none of those moved aside
  requires forall k: int, i: int {rp.NewPackages[k], rp.UpdateRollbacks[i]} :: 0 <= k && k < len(rp.NewPackages) && 0 <= i && i < len(rp.UpdateRollbacks) ==> awayFrom(joinp(rp.Library, rp.NewPackages[k]), rp.UpdateRollbacks[i])
  requires forall k: int, i: int {rp.NewPackages[k], rp.AdditionalPkgRollbacks[i]} :: 0 <= k && k < len(rp.NewPackages) && 0 <= i && i < len(rp.AdditionalPkgRollbacks) ==> awayFrom(joinp(rp.Library, rp.NewPackages[k]), rp.AdditionalPkgRollbacks[i])
  ensures library: err == nil && rp.InstallPlan.CreateLibrary ==> disk[rp.Library] == 0 && (forall q: string {disk[q]} :: under(q, rp.Library) ==> disk[q] == 0)
  ensures new: err == nil && !rp.InstallPlan.CreateLibrary ==> (forall k: int {rp.NewPackages[k]} :: 0 <= k && k < len(rp.NewPackages) ==> disk[joinp(rp.Library, rp.NewPackages[k])] == 0)
  ensures updated: err == nil && !rp.InstallPlan.CreateLibrary ==> (forall i: int {rp.UpdateRollbacks[i]} :: 0 <= i && i < len(rp.UpdateRollbacks) ==>
      disk[rp.UpdateRollbacks[i].ActivePackageDirectory] == old(disk[rp.UpdateRollbacks[i].BackupPackageDirectory]) && disk[rp.UpdateRollbacks[i].BackupPackageDirectory] == 0)
  ensures tarballs: err == nil && !rp.InstallPlan.CreateLibrary ==> (forall i: int {rp.AdditionalPkgRollbacks[i]} :: 0 <= i && i < len(rp.AdditionalPkgRollbacks) ==>
      disk[rp.AdditionalPkgRollbacks[i].ActivePackageDirectory] == old(disk[rp.AdditionalPkgRollbacks[i].BackupPackageDirectory]) && disk[rp.AdditionalPkgRollbacks[i].BackupPackageDirectory] == 0)
  ensures others: !rp.InstallPlan.CreateLibrary ==> (forall q: string {disk[q]} :: outside(q, rp.UpdateRollbacks, len(rp.UpdateRollbacks)) && outside(q, rp.AdditionalPkgRollbacks, len(rp.AdditionalPkgRollbacks))
      && (forall k: int {rp.NewPackages[k]} :: 0 <= k && k < len(rp.NewPackages) ==> q != joinp(rp.Library, rp.NewPackages[k]) && !under(q, joinp(rp.Library, rp.NewPackages[k]))) ==> disk[q] == old(disk[q]))
  ensures works: err != nil ==> ioerr || (exists i: int {rp.UpdateRollbacks[i]} :: 0 <= i && i < len(rp.UpdateRollbacks) && old(disk[rp.UpdateRollbacks[i].BackupPackageDirectory]) == 0)
      || (exists i: int {rp.AdditionalPkgRollbacks[i]} :: 0 <= i && i < len(rp.AdditionalPkgRollbacks) && old(disk[rp.AdditionalPkgRollbacks[i].BackupPackageDirectory]) == 0)
  loopinv () new: forall k: int {rp.NewPackages[k]} :: 0 <= k && k < IDX ==> disk[joinp(rp.Library, rp.NewPackages[k])] == 0
  loopinv () others: forall q: string {disk[q]} :: (forall k: int {rp.NewPackages[k]} :: 0 <= k && k < IDX ==> q != joinp(rp.Library, rp.NewPackages[k]) && !under(q, joinp(rp.Library, rp.NewPackages[k]))) ==> disk[q] == old(disk[q])
end
spec awayFrom(f: string, ua: rollback.UpdateAttempt): bool =
  f != ua.ActivePackageDirectory && f != ua.BackupPackageDirectory && !under(f, ua.ActivePackageDirectory) && !under(f, ua.BackupPackageDirectory) && !under(ua.ActivePackageDirectory, f) && !under(ua.BackupPackageDirectory, f)

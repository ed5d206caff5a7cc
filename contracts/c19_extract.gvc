// C19: unpacking. rootdir: the folder that is unpacked into; stray: something may have been made or removed that is
// neither this folder nor beneath it, or something that is neither a regular file nor a folder.
ghost rootdir: string
ghost stray: bool
// refused: an entry of the archive was refused
ghost refused: bool
worldghosts disk, stray
spec local(p: string): bool
// making (or removing) folder p touches nothing outside folder r, which exists and holds only regular files and folders
spec within(p: string, r: string): bool
axiom within_self: forall r: string {within(r, r)} :: within(r, r)
axiom within_local: forall r: string, n: string {joinp(r, n)} :: local(n) ==> within(joinp(r, n), r) && within(dirp(joinp(r, n)), r)
spec rootname(r: *os.Root): string
transparent "archives.FileInfo"
spec modeof(f: fs.FileInfo): fs.FileMode
spec isdirm(m: fs.FileMode): bool
spec isregm(m: fs.FileMode): bool
trusted "(fs.FileInfo).Mode"(f) (m)
  ensures m == modeof(f)
end
trusted filepath.IsLocal(p) (ok)
  ensures ok <==> local(p)
end
trusted "(*os.Root).Name"(r) (n)
  ensures n == rootname(r)
end
trusted os.MkdirAll(p, m) (err)
  modifies disk, stray
  ensures stray <==> old(stray) || !within(p, rootdir)
end
trusted os.RemoveAll(p) (err)
  modifies disk, stray
  ensures stray <==> old(stray) || !within(p, rootdir)
end
// the os package confines what is done through a root, even in the presence of links
trusted os.OpenRoot(p) (r, err)
  ensures err == nil ==> r != nil && rootname(r) == p
end
trusted "(*os.Root).OpenFile"(r, n, flag, perm) (f, err)
  modifies disk, stray
  ensures stray <==> old(stray) || rootname(r) != rootdir
  ensures err == nil ==> f != nil
end
trusted "(*os.Root).Create"(r, n) (f, err)
  modifies disk, stray
  ensures stray <==> old(stray) || rootname(r) != rootdir
  ensures err == nil ==> f != nil
end
trusted "(*os.Root).Mkdir"(r, n, m) (err)
  modifies disk, stray
  ensures stray <==> old(stray) || rootname(r) != rootdir
end
trusted "(*os.Root).Remove"(r, n) (err)
  modifies disk, stray
  ensures stray <==> old(stray) || rootname(r) != rootdir
end
trusted "(fs.FileMode).IsDir"(m) (r)
  ensures r <==> isdirm(m)
end
trusted "(fs.FileMode).IsRegular"(m) (r)
  ensures r <==> isregm(m)
end
// opens the content of the entry within the archive
trusted "dyncall:archive.extractFile"() (f, err)
end
contract archive.extractFile(ctx, fi, root) (err)
  props C19
  lemmas within_self, within_local
  requires root != nil && rootname(root) == rootdir
  modifies disk, stray, complete, hashin
  ensures confined: stray <==> old(stray)
  ensures localonly: !local(fi.NameInArchive) ==> err != nil
  ensures kinds: err == nil ==> isdirm(modeof(fi.FileInfo)) || isregm(modeof(fi.FileInfo)) && fi.LinkTarget == ""
end
contract "archive.Extract$func(context.Context, archives.FileInfo) error"(ctx, fi) (err)
  props C19
  lemmas within_self, within_local
  requires *root != nil && rootname(*root) == rootdir
  modifies disk, stray, complete, hashin
  ensures confined: stray <==> old(stray)
  ensures localonly: !local(fi.NameInArchive) ==> err != nil
  ensures kinds: err == nil ==> isdirm(modeof(fi.FileInfo)) || isregm(modeof(fi.FileInfo)) && fi.LinkTarget == ""
end
// hands every entry to f and stops with the first error f reports
trusted "(archives.Extractor).Extract"(x, ctx, r, f) (err)
  opt keeps = 1
  modifies disk, complete, hashin, refused
  ensures err == nil ==> !refused
end
contract archive.Extract(filename, dir) (err)
  props C19
  lemmas within_self, within_local
  requires rootdir == dir
  modifies disk, stray, complete, hashin, refused
  ensures confined: stray <==> old(stray)
  ensures reported: err == nil ==> !refused
end

// C18: what skips the verification of certificates, and what counts as delivered.
spec skips(c: *http.Client): bool = is(@*http.Transport, c.Transport) && unbox(@*http.Transport, c.Transport) != nil && unbox(@*http.Transport, c.Transport).TLSClientConfig != nil && unbox(@*http.Transport, c.Transport).TLSClientConfig.InsecureSkipVerify
spec verifies(c: *http.Client): bool = c.Transport == nil
// what the configuration says (a constant: nothing sets it)
ghost tlsoff: bool
// the answer of the server to the last request; the body read or copied to its end without error
ghost status: int
ghost answered: bool
ghost complete: bool
ghost nasked18: int
trusted "(*http.Client).Get"(c, url) (res, err)
  modifies status, answered, nasked18
  allocs http.Response
  ensures err == nil ==> res != nil && res.StatusCode == status && res.Body != nil
  ensures answered == (err == nil)
  ensures nasked18 == old(nasked18) + 1
end
spec textof(f: any): string
trusted io.Copy(w, r) (n, err)
  modifies complete, hashin
  set complete = err == nil
  ensures err == nil ==> hashin == old(hashin) + textof(r)
end
trusted ioutil.ReadAll(r) (b, err)
  modifies complete
  set complete = err == nil
end
trusted goutils.Exists(fs, p) (ok, err)
  modifies ioerr
  ensures err == nil ==> (ok <==> disk[p] != 0) && ioerr == old(ioerr)
end
trusted "(afero.Fs).Open"(fs, p) (f, err)
  ensures err == nil ==> f != nil && textof(f) == textat(p)
end
trusted "(afero.Fs).Create"(fs, p) (f, err)
  modifies disk, ioerr
  ensures err == nil ==> f != nil
  ensures forall q: string {disk[q]} :: q != p ==> disk[q] == old(disk[q])
end

contract cran.DownloadPackage(fs, d, dest, rv, noSecure) (dl, err)
  props C17 C18
  modifies disk, ioerr, status, answered, nasked18, complete, hashin, cran.osRelease
  before "(*http.Client).Get" tls: noSecure ? skips(c) : verifies(c)
  ensures delivered: err == nil && dl.New ==> complete && (nasked18 > old(nasked18) ==> answered && status == 200)
  ensures present: err == nil ==> disk[dl.Path] != 0
  ensures path: err == nil ==> dl.Path == dest || (!isabs(dest) && (exists w: string {joinp(w, dest)} :: dl.Path == cleanp(joinp(w, dest))))
  ensures meta: err == nil ==> dl.Metadata == d
  ensures failed: nasked18 > old(nasked18) && !(answered && status == 200) ==> err != nil
end

// package lists: nfetch counts the lists received by the collecting thread, nfailed those that report an error;
// kinds are the source types asked for
ghost nfetch: int
ghost nfailed: int
ghost kinds: set[cran.SourceType]
spec none(s: set[cran.SourceType]): bool = forall k: cran.SourceType {k in s} :: !(k in s)
trusted "recv:cran.downloadDatabase"(c) (v, ok)
  modifies nfetch, nfailed
  ensures ok && v.St in kinds
  set nfetch = old(nfetch) + 1
  set nfailed = old(nfailed) + (v.Err != nil ? 1 : 0)
end
trusted "send:cran.downloadDatabase"(c, v)
end
ghost nparsebad: int
trusted desc.ParseDesc(r) (d, err)
  modifies nparsebad
  set nparsebad = old(nparsebad) + (err != nil ? 1 : 0)
end
contract "(*cran.RepoDb).FetchPackages$func(cran.SourceType)"(st) ()
  props C18 C28
  requires tls: *client != nil && (tlsoff ? skips(*client) : verifies(*client))
  requires validR(*rVersion)
  modifies nparsebad, complete, status, answered, nasked18, cran.osRelease
  onspawn kinds = upd(kinds, st, true)
  before "(*http.Client).Get" tls: tlsoff ? skips(c) : verifies(c)
  before "send:cran.downloadDatabase" kind: v.St == st
  before "send:cran.downloadDatabase" delivered: v.Err == nil ==> complete
  before "send:cran.downloadDatabase" status: v.Err == nil && nasked18 > old(nasked18) ==> answered && status == 200
  before "send:cran.downloadDatabase" parsed: v.Err == nil ==> nparsebad == old(nparsebad)
  loopinv () parsed: nparsebad == old(nparsebad)
end
contract "(*cran.RepoDb).FetchPackages"(repoDb, rVersion, noSecure) (err)
  props C18 C28
  requires repoDb != nil && validR(rVersion)
  requires tlsoff <==> noSecure
  requires none(kinds)
  modifies *repoDb, repoDb.DescriptionsBySourceType, kinds, nfetch, nfailed, cran.osRelease, ioerr, hashin, disk, files, stray
  before "(*cran.RepoDb).Encode" some: nfailed - old(nfailed) < nfetch - old(nfetch)
  ensures repo: repoDb.Repo == old(repoDb.Repo)
  ensures reported: nfetch > old(nfetch) && nfailed - old(nfailed) == nfetch - old(nfetch) ==> err != nil
  loopinv () a1: nfetch == old(nfetch)
  loopinv () a2: nfailed == old(nfailed)
  loopinv () a4: repoDb.DescriptionsBySourceType == old(repoDb.DescriptionsBySourceType)
  loopinv () a5: dom(repoDb.DescriptionsBySourceType) == old(dom(repoDb.DescriptionsBySourceType))
  loopinv () asked: (forall k: cran.SourceType {k in kinds} :: k in kinds ==> k in repoDb.DescriptionsBySourceType)
  loopinv (i: int) u1: nfetch == old(nfetch) + i
  loopinv (errorCount: int) u2: nfailed == old(nfailed) + errorCount
  loopinv (errorCount: int) u3: errorCount >= 0
  loopinv (errorCount: int, lasterr: error) u4: errorCount > 0 ==> lasterr != nil
  loopinv (i: int) u7: i <= card(dom(repoDb.DescriptionsBySourceType))
  loopinv () u6: card(dom(repoDb.DescriptionsBySourceType)) == pre(card(dom(repoDb.DescriptionsBySourceType)))
end

// C28: a database is built from the repositories in their configured order, or an error is reported
contract cran.NewRepoDb(url, dst, rc, rv, noSecure) (db, err)
  props C18 C28
  requires validR(rv)
  requires tlsoff <==> noSecure
  requires none(kinds)
  modifies kinds, nfetch, nfailed, cran.osRelease, ioerr, hashin, disk, files, stray
  ensures named: db != nil && db.Repo == url
end
ghost gotidx: set[int]
ghost askedidx: set[int]
ghost urlat: fmap[int]cran.RepoURL
ghost rfailed: int
trusted "recv:cran.rd"(c) (v, ok)
  modifies gotidx, rfailed
  allocs cran.RepoDb
  ensures v.repoIndex in askedidx && !(v.repoIndex in old(gotidx))
  ensures v.Url == urlat[v.repoIndex] && v.Rdb != nil && fresh(v.Rdb) && v.Rdb.Repo == v.Url
  set gotidx = upd(old(gotidx), v.repoIndex, true)
  set rfailed = old(rfailed) + (v.Err != nil ? 1 : 0)
end
ghost nrd: int
trusted "send:cran.rd"(c, v)
  modifies nrd
  set nrd = old(nrd) + 1
end
contract "cran.NewPkgDb$func(cran.RepoURL, cran.SourceType, int)"(url, dst, ri) ()
  props C18 C28
  requires validR(*rv)
  requires tlsoff <==> *noSecure
  requires none(kinds)
  modifies kinds, nfetch, nfailed, cran.osRelease, nrd, ioerr, hashin, disk, files, stray
  onspawn askedidx = upd(askedidx, ri, true)
  onspawn urlat = upd(urlat, ri, url)
  before "send:cran.rd" same: v.repoIndex == ri && v.Url == url && v.Rdb != nil && v.Rdb.Repo == url
  ensures once: nrd == old(nrd) + 1
end
contract cran.NewPkgDb(urls, dst, cfgdb, rv, noSecure) (db, err)
  props C18 C28
  requires validR(rv)
  requires tlsoff <==> noSecure
  requires none(kinds)
  requires gotidx == emptyset(@int)
  requires forall i: int {i in askedidx} :: !(i in askedidx)
  modifies anything
  ensures reported: rfailed > old(rfailed) ==> err != nil
  ensures size: len(urls) > 0 ==> len(db.Db) == len(urls)
  ensures all: len(urls) > 0 ==> card(gotidx) == len(urls)
  ensures range: forall i: int {i in gotidx} :: i in gotidx ==> 0 <= i && i < len(urls)
  loopinv () init: rfailed == old(rfailed) && gotidx == old(gotidx)
  loopinv (ri: int) r1: ri == IDX
  loopinv (ri: int) asked: forall j: int {j in askedidx} :: j in askedidx ==> 0 <= j && j < ri && urlat[j] == urls[j]
  loopinv () asked2: forall j: int {j in askedidx} :: j in askedidx ==> 0 <= j && j < len(urls) && urlat[j] == urls[j]
  loopinv (anyp: *cran.PkgNexus) size1: len(anyp.Db) == IDX
  loopinv () range: forall j: int {j in gotidx} :: j in gotidx ==> j in askedidx
  loopinv (anyp: *cran.PkgNexus) size2: len(anyp.Db) == len(urls)
  loopinv () finite: finite(gotidx)
  loopinv (i: int) got: card(gotidx) == i && i <= len(urls)
  loopinv (err: error) failed: rfailed >= old(rfailed) && (rfailed > old(rfailed) ==> err != nil)
  loopinv (anyp: *cran.PkgNexus, err: error) placed: err == nil ==> forall j: int {j in gotidx} :: j in gotidx ==> anyp.Db[j] != nil && allocated(anyp.Db[j]) && anyp.Db[j].Repo == urls[j]
  ensures placed: err == nil ==> forall i: int {i in gotidx} :: i in gotidx ==> db.Db[i] != nil && db.Db[i].Repo == urls[i]
end


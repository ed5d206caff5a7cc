// C26: the report of `pkgr load`
ghost failset: set[string]
ghost loadasked: set[string]
ghost lastload: fmap[string]cmd.LoadResult
// the report's count is the number of reported packages that did not load; s is the set of these packages
spec repOK(f: int, m: fmap[string]cmd.LoadResult, d: set[string], s: set[string]): bool = finite(s) && card(s) == f
  && (forall p: string {p in s} {p in d} {m[p]} :: p in s <==> p in d && !m[p].Success)
contract cmd.InitLoadReport(md) (r)
  props C26
  modifies failset
  set failset = emptyset(@string)
  ensures empty: r.LoadResults != nil && fresh(r.LoadResults) && (forall p: string {p in r.LoadResults} :: !(p in r.LoadResults))
  ensures none: r.Failures == 0
  ensures counted: repOK(r.Failures, vals(r.LoadResults), dom(r.LoadResults), failset)
end
contract "(*cmd.LoadReport).AddResult"(report, pkg, result) ()
  props C26
  modifies *report, contents(report.LoadResults), failset
  set failset = upd(old(failset), pkg, !result.Success)
  requires report.LoadResults != nil
  requires repOK(report.Failures, vals(report.LoadResults), dom(report.LoadResults), failset)
  ensures same: report.LoadResults == old(report.LoadResults) && report.RMetadata == old(report.RMetadata)
  ensures reported: dom(report.LoadResults) == upd(old(dom(report.LoadResults)), pkg, true) && report.LoadResults[pkg] == result
  ensures others: forall q: string {report.LoadResults[q]} :: q != pkg ==> report.LoadResults[q] == old(report.LoadResults[q])
  ensures counted: repOK(report.Failures, vals(report.LoadResults), dom(report.LoadResults), failset)
end
spec errtext(e: error): string
trusted "(error).Error"(e) (s)
  ensures s == errtext(e)
end
contract cmd.MakeLoadResult(pkg, version, path, outStr, errStr, success, exitErr) (r)
  props C26
  ensures own: r.Package == pkg && r.Version == version && r.Path == path && r.Stdout == outStr && r.Stderr == errStr && r.Success == success
  ensures error: r.Exiterr == (exitErr == nil ? "" : errtext(exitErr))
end
// one run of R
spec argsof(c: *exec.Cmd): []string
spec runresult(c: *exec.Cmd): error
spec scanned(b: []byte, only: bool): []string
spec bufbytes(b: *bytes.Buffer): []byte
spec outputof(c: *exec.Cmd): []byte
spec erroutof(c: *exec.Cmd): []byte
trusted rp.ScanROutput(b, only) (r)
  ensures r == scanned(b, only)
end
trusted rp.ScanLines(b) (r)
  ensures r == scanned(b, false)
end
trusted "(*bytes.Buffer).Bytes"(b) (r)
  ensures r == bufbytes(b)
end
contract cmd.runRCmd(rExpression, rs, rDir, reducedOutput) (outl, errl, err)
  props C26
  modifies nruns, ranok, okruns, disk
  ensures ran: exists c: *exec.Cmd {argsof(c)} :: argsof(c)[3] == rExpression && err == runresult(c) && outl == scanned(outputof(c), reducedOutput) && errl == scanned(erroutof(c), false)
end
contract cmd.attemptLoad(rs, rDir, pkg) (r)
  props C26
  modifies nruns, ranok, okruns, disk
  ensures package: r.Package == pkg
  ensures result: exists c: *exec.Cmd {argsof(c)} :: argsof(c)[3] == "library('" + pkg + "')" && (r.Success <==> runresult(c) == nil) && r.Exiterr == (runresult(c) == nil ? "" : errtext(runresult(c)))
     && r.Stdout == joinall(scanned(outputof(c), false), "\n") && r.Stderr == joinall(scanned(erroutof(c), false), "\n")
end
ghost nloadsent: int
trusted "send:cmd.LoadResult"(c, v)
  modifies nloadsent
  set nloadsent = old(nloadsent) + 1
end
trusted "send:int"(c, v)
end
trusted "recv:int"(c) (v, ok)
end
contract cmd.attemptLoadConcurrent(request, sem, out) ()
  props C26
  modifies nruns, ranok, okruns, disk, nloadsent
  onspawn loadasked = upd(loadasked, request.Pkg, true)
  before "send:cmd.LoadResult" own: v.Package == request.Pkg
  ensures once: nloadsent == old(nloadsent) + 1
end
trusted "recv:cmd.LoadResult"(c) (v, ok)
  modifies lastload
  set lastload = upd(old(lastload), v.Package, v)
  ensures v.Package in loadasked
end
trusted cmd.planInstall(rv, exitOnMissing) (nexus, plan, rb)
  modifies anything
end
contract cmd.load(userPackages, rs, rDir, threads, all, toJson) ()
  props C26
  modifies anything
  before "cmd.printJsonLoadReport" counted: repOK(rpt.Failures, vals(rpt.LoadResults), dom(rpt.LoadResults), failset)
  before "cmd.printJsonLoadReport" own: forall p: string {p in rpt.LoadResults} :: p in rpt.LoadResults ==> rpt.LoadResults[p] == lastload[p] && p in loadasked
  loopinv (anyr: cmd.LoadReport) counted: repOK(anyr.Failures, vals(anyr.LoadResults), dom(anyr.LoadResults), failset) && anyr.LoadResults != nil
  loopinv (anyr: cmd.LoadReport) own: forall p: string {p in anyr.LoadResults} :: p in anyr.LoadResults ==> anyr.LoadResults[p] == lastload[p] && p in loadasked
end

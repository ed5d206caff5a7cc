// C15: the install run. The counters are those of the function's own thread: pend counts its wg.Add minus wg.Done,
// nsent the requests it sent, got those it received, pushed the packages it put into the work queue.
ghost pend: int
ghost nsent: int
ghost sent: set[string]
ghost got: int
ghost npushed: int
ghost pushed: set[string]
trusted "(*sync.WaitGroup).Add"(wg, n)
  modifies pend
  set pend = old(pend) + n
end
trusted "(*sync.WaitGroup).Done"(wg)
  modifies pend
  set pend = old(pend) - 1
end
// every wg.Add is matched by one wg.Done of a finished or skipped request (the counted postconditions below), so that
// nothing of the run is left when Wait returns
ghost joined: bool
trusted "(*sync.WaitGroup).Wait"(wg)
  modifies joined
  set joined = true
end
trusted "send:string"(c, v)
  modifies sent, nsent
  set sent = upd(old(sent), v, true)
  set nsent = old(nsent) + 1
end
trusted "recv:string"(c) (v, ok)
  modifies got
  set got = old(got) + (ok ? 1 : 0)
end
trusted "send:rcmd.InstallRequest"(c, v)
  modifies pushed, npushed
  set pushed = upd(old(pushed), v.Package, true)
  set npushed = old(npushed) + 1
end
trusted "send:rcmd.InstallUpdate"(c, v)
  modifies nsent
  set nsent = old(nsent) + 1
end
contract "(*rcmd.InstallQueue).Push"(q, r) ()
  props C15
  modifies pushed, npushed
  requires q != nil
  ensures one: pushed == upd(old(pushed), r.Package, true) && npushed == old(npushed) + 1
end
trusted os.Mkdir(p, m) (err)
  modifies disk
end
// a is copied to b
trusted goutils.Copy(a, b) (n, err)
  modifies disk
  ensures forall q: string {disk[q]} :: q != b ==> disk[q] == old(disk[q])
end
trusted "(afero.Fs).Remove"(fs, p) (err)
  modifies disk
end

// all that q needs is installed
spec depsIn(ip: gpsr.InstallPlan, done: map[string]bool, q: string): bool = forall d: string {d in ip.DepDb[q]} :: q in ip.DepDb && d in ip.DepDb[q] ==> d in done

// one finished installation
contract "rcmd.InstallPackagePlan$func(rcmd.InstallUpdate)"(iu) ()
  props C15 C17
  requires *installedPkgs != nil && *dl != nil
  before goutils.Copy place: a == iu.BinaryPath && (iu.Package in (*dl).Map ==> b == joinp(joinp(joinp(dirp(dirp((*dl).Map[iu.Package].Path)), "binary"), rvstr((*rs).Version)), basep(iu.BinaryPath)))
  requires forall q: string {q in (*iDeps)[iu.Package]} :: iu.Package in *iDeps && q in (*iDeps)[iu.Package] ==> q in plan.DepDb
  modifies pend, nsent, sent, disk, *anyFailed, *failedPkgs, *packagesNeeded, contents(*installedPkgs)
  before "send:string" after_deps: depsIn(*plan, *installedPkgs, v)
  before "send:string" not_failed: !*anyFailed
  loopinv (all: bool, anyl: []string) all: all <==> (forall i: int {anyl[i]} :: 0 <= i && i < IDX ==> anyl[i] in *installedPkgs)
  loopinv () bal: pend - old(pend) == nsent - old(nsent)
  loopinv (anyl: []string) passed: forall i: int {anyl[i]} :: 0 <= i && i < IDX && !*anyFailed && depsIn(*plan, *installedPkgs, anyl[i]) ==> anyl[i] in sent
  ensures counted: pend == old(pend) - 1 + (nsent - old(nsent))
  ensures failure: iu.Err != nil ==> *anyFailed && nsent == old(nsent) && iu.Package in *failedPkgs
  ensures success: iu.Err == nil ==> (*anyFailed <==> old(*anyFailed))
  ensures recorded: forall p: string {p in *installedPkgs} :: p in *installedPkgs <==> (old(p in *installedPkgs) || (iu.Err == nil && p == iu.Package))
  ensures passed_on: iu.Err == nil && !old(*anyFailed) ==> forall q: string {q in (*iDeps)[iu.Package]} :: iu.Package in *iDeps && q in (*iDeps)[iu.Package] && depsIn(*plan, *installedPkgs, q) ==> q in sent
end

// the request consumer: every request received is either put into the work queue, at most once per package, or counted
// as done; nothing is put into the queue once a failure is recorded
contract "rcmd.InstallPackagePlan$func(chan string)"(c) ()
  props C15
  requires none_yet: forall p: string {p in pushed} :: !(p in pushed)
  requires *installQueue != nil && *dl != nil
  modifies pend, got, pushed, npushed
  before "(*rcmd.InstallQueue).Push" once: !(r.Package in pushed)
  before "(*rcmd.InstallQueue).Push" not_failed: !*anyFailed
  ensures counted: (got - old(got)) == (npushed - old(npushed)) + (old(pend) - pend)
  loopinv () bal: (got - old(got)) == (npushed - old(npushed)) + (old(pend) - pend)
  loopinv (anym: map[string]bool) req: forall p: string {p in pushed} :: p in pushed <==> p in anym
end

contract rcmd.InstallPackagePlan(fs, plan, dl, pc, args, rs, es, ncpu) (err)
  props C15
  requires !joined && dl != nil
  requires forall p: string {p in pushed} :: !(p in pushed)
  modifies anything
  before "send:string" starting: v in plan.StartingPackages
  ensures one_update_thread: nupdaters == old(nupdaters) + 1
  before "return" reported: err != nil <==> *anyFailed
  ensures counted: pend - old(pend) == nsent - old(nsent)
  ensures all_started: forall p: string {p in plan.StartingPackages} :: p in plan.StartingPackages ==> p in sent
  loopinv () bal: pend - old(pend) == nsent - old(nsent)
  loopinv (anyl: []string) all: forall i: int {anyl[i]} :: 0 <= i && i < IDX ==> anyl[i] in sent
end

// C16: what is reported about one installation. ranok: the last run of R made by this thread ended with a nil error
// from os/exec, that is, the program was started and exited with status 0 (documented behaviour of (*exec.Cmd).Run);
// nruns counts the runs.
ghost nruns: int
ghost ranok: bool
ghost okruns: int
// the library of the last run's arguments, as handed to R with --library
ghost clilib: string
trusted "(*exec.Cmd).Run"(c) (err)
  modifies nruns, ranok, okruns, disk
  set nruns = old(nruns) + 1
  set okruns = old(okruns) + (err == nil ? 1 : 0)
  set ranok = err == nil
  // a command runs at most once, and its buffers hold what it wrote
  ensures err == runresult(c)
  ensures is(@*bytes.Buffer, c.Stdout) ==> bufbytes(unbox(@*bytes.Buffer, c.Stdout)) == outputof(c)
  ensures is(@*bytes.Buffer, c.Stderr) && c.Stderr != c.Stdout ==> bufbytes(unbox(@*bytes.Buffer, c.Stderr)) == erroutof(c)
end
trusted exec.Command(name, arg) (c)
  ensures c != nil && fresh(c) && argsof(c) == arg
end
trusted "(syscall.WaitStatus).ExitStatus"(w) (n)
  ensures ranok ==> n == 0
end
spec isabs(p: string): bool
spec cleanp(p: string): string
trusted filepath.IsAbs(p) (r)
  ensures r <==> isabs(p)
end
trusted filepath.Clean(p) (r)
  ensures r == cleanp(p)
end
trusted goutils.DirExists(fs, p) (ok, err)
  ensures ok ==> disk[p] != 0
end
trusted os.Getwd() (r, err)
end
trusted os.TempDir() (r)
  ensures r == tmpdir()
end

trusted "(rcmd.InstallArgs).CliArgs"(i) (r)
  modifies clilib
  set clilib = i.Library
end
contract rcmd.Install(fs, pkgname, pkgPath, args, rset, es, ir) (res, err)
  props C16 C23
  modifies anything
  before "(*exec.Cmd).Run" env[C23]: c.Env == renv
  before "rcmd.configureEnv" package[C23]: pkg == pkgname && rs == rset
  ensures once: nruns <= old(nruns) + 1
  ensures reported: err == nil ==> nruns == old(nruns) + 1 && ranok
  ensures counted: okruns == old(okruns) + (err == nil ? 1 : 0)
  ensures code: err == nil ==> res.ExitCode == 0
  ensures lib: err == nil ==> clilib == args.Library
end

// reported as installed: already there, or R put it into the library asked for
contract rcmd.InstallThroughBinary(fs, ir, pc) (res, bpath, err)
  props C16
  modifies anything
  ensures present: err == nil && res.ExitCode == -999 ==> old(disk[joinp(ir.InstallArgs.Library, ir.Package)]) != 0
  ensures ran: err == nil && res.ExitCode != -999 ==> res.ExitCode == 0 && ranok && nruns > old(nruns)
  ensures lib: err == nil && res.ExitCode != -999 ==> clilib == ir.InstallArgs.Library || (!isabs(ir.InstallArgs.Library) && (exists d: string {joinp(d, ir.InstallArgs.Library)} :: clilib == cleanp(joinp(d, ir.InstallArgs.Library))))
end

// tarballs: no error exactly when R installed every one of them
contract cmd.installAdditionalPackages(installPlan, rSettings, library, cache) (err)
  props C16
  modifies anything
  ensures all: err == nil ==> okruns == old(okruns) + card(dom(installPlan.AdditionalPackageSources))
  ensures some: okruns < old(okruns) + card(dom(installPlan.AdditionalPackageSources)) ==> err != nil
  loopinv (ea: []error) upto: okruns <= pre(okruns) + card(visited) && (len(ea) == 0 ==> okruns == pre(okruns) + card(visited))
end

ghost nworkers: int
ghost nupdaters: int
// a worker reports the outcome of the installation it was asked for, once
ghost job: string
ghost nasked: int
ghost nreported: int
ghost outcome: error
ghost outres: rcmd.CmdResult
trusted "recv:rcmd.InstallRequest"(c) (v, ok)
  modifies job, nasked
  set job = v.Package
  set nasked = old(nasked) + 1
end
trusted "recv:bool"(c) (v, ok)
end
trusted "dyncall:(*rcmd.Worker).Start$func()"(fs, ir, pc) (res, bpath, err)
  modifies outcome, outres
  set outcome = err
  set outres = res
end
contract "(*rcmd.Worker).Start$func()"() ()
  props C15 C16
  requires w != nil
  modifies job, nasked, nsent, outcome, outres
  onspawn nworkers = nworkers + 1
  before "dyncall:(*rcmd.Worker).Start$func()" asked: ir.Package == job
  before "send:rcmd.InstallUpdate" outcome: v.Package == job && v.Err == outcome && v.Result == outres && v.ShouldUpdate && nsent - old(nsent) < nasked - old(nasked)
  loopinv () bal: nsent - old(nsent) == nasked - old(nasked)
end
contract "(*rcmd.Worker).Start"(w) ()
  props C15 C16
  requires w != nil
  modifies anything
  ensures started: nworkers == old(nworkers) + 1 && nupdaters == old(nupdaters) && nsent == old(nsent)
end
contract "(*rcmd.InstallQueue).RegisterNewWorker"(i, id, fn) ()
  props C15 C16
  requires i != nil
  modifies anything
  before "(*rcmd.Worker).Start" same: w.WorkQueue == old(i.WorkQueue) && w.UpdateQueue == old(i.UpdateQueue) && w.InstallFunc == fn
  ensures same: i.WorkQueue == old(i.WorkQueue) && i.UpdateQueue == old(i.UpdateQueue)
  ensures started: nworkers == old(nworkers) + 1 && nupdaters == old(nupdaters) && nsent == old(nsent)
end
// every update received from the workers reaches the update function, once
ghost update: rcmd.InstallUpdate
ghost nupd: int
ghost nhandled: int
trusted "recv:rcmd.InstallUpdate"(c) (v, ok)
  modifies update, nupd
  set update = v
  set nupd = old(nupd) + (v.ShouldUpdate ? 1 : 0)
end
trusted "dyncall:(*rcmd.InstallQueue).HandleUpdates"(iu) ()
  modifies nhandled
  set nhandled = old(nhandled) + 1
end
contract "(*rcmd.InstallQueue).HandleUpdates"(i, fn) ()
  props C15 C16
  requires i != nil
  modifies anything
  onspawn nupdaters = nupdaters + 1
  before "dyncall:(*rcmd.InstallQueue).HandleUpdates" received: iu == update && nhandled - old(nhandled) < nupd - old(nupd)
  loopinv () bal: nhandled - old(nhandled) == nupd - old(nupd)
end
contract rcmd.NewInstallQueue(n, installFunc, updateFunc) (q)
  props C15 C16
  opt keeps = 1
  requires true
  modifies anything
  ensures q != nil
  ensures started: nworkers == old(nworkers) + (n > 0 ? n : 0) && nupdaters == old(nupdaters) + 1 && nsent == old(nsent)
  loopinv (i: int) upto: nworkers == pre(nworkers) + i && nupdaters == pre(nupdaters) && nsent == pre(nsent) && 0 <= i && (i <= n || i == 0)
end

// C23: the environment R runs in. What holds of one arbitrary name (anyname) and one arbitrary key of the package's own
// settings (anykey), about which nothing is assumed, holds of all.
spec trimb(s: string): string
spec upper(s: string): string
spec joinall(l: []string, sep: string): string
ghost anyname: string
ghost anykey: string
// strings.Trim(s, " "): idempotent, and the identity on these names
axiom trimb_again: forall s: string {trimb(s)} :: trimb(trimb(s)) == trimb(s)
axiom trimb_names: trimb("R_LIBS_USER") == "R_LIBS_USER" && trimb("R_LIBS_SITE") == "R_LIBS_SITE" && trimb("**HIDDEN**") == "**HIDDEN**"
trusted strings.Trim(s, cut) (r)
  ensures cut == " " ==> r == trimb(s)
end
trusted strings.SplitN(s, sep, n) (r)
  ensures len(r) >= 1
end
trusted strings.ToUpper(s) (r)
  ensures r == upper(s)
end
trusted strings.Join(l, sep) (r)
  ensures r == joinall(l, sep)
end
trusted os.Environ() (r)
end
// the new empty folder
ghost newdir: string
ghost newdirok: bool
trusted os.MkdirTemp(dir, pattern) (d, err)
  modifies newdir, newdirok, disk
  set newdir = d
  set newdirok = err == nil
end
trusted rcmd.randomString(n) (r)
end
lemma site_value mode theory props C23: forall s: string {"R_LIBS_SITE=" + s} :: prefixof("R_LIBS_SITE=", "R_LIBS_SITE=" + s) && substr("R_LIBS_SITE=" + s, len("R_LIBS_SITE="), len("R_LIBS_SITE=" + s)) == s

spec distinct(ps: []rcmd.Nvp): bool = forall i: int, j: int {ps[i], ps[j]} :: 0 <= i && i < j && j < len(ps) ==> ps[i].Name != ps[j].Name
spec named(ps: []rcmd.Nvp, n: string): bool = exists i: int {ps[i]} :: 0 <= i && i < len(ps) && ps[i].Name == n

contract "(*rcmd.NvpList).Get"(l, name) (v, ok)
  props C23
  requires l != nil
  ensures found: ok ==> (exists i: int {l.Pairs[i]} :: 0 <= i && i < len(l.Pairs) && l.Pairs[i].Name == name && l.Pairs[i].Value == v)
  ensures missing: !ok ==> (forall i: int {l.Pairs[i]} :: 0 <= i && i < len(l.Pairs) ==> l.Pairs[i].Name != name)
  loopinv (i: int) up: 0 <= i && (forall j: int {l.Pairs[j]} :: 0 <= j && j < i && j < len(l.Pairs) ==> l.Pairs[j].Name != name)
  loopinv (i: int) down: i < len(l.Pairs) && (forall j: int {l.Pairs[j]} :: i < j && j < len(l.Pairs) ==> l.Pairs[j].Name != name)
  loopinv () none: forall i: int {l.Pairs[i]} :: 0 <= i && i < IDX ==> l.Pairs[i].Name != name
end
contract "(*rcmd.NvpList).Append"(l, name, value) ()
  props C23
  requires l != nil
  modifies *l
  ensures longer: len(l.Pairs) == len(old(l.Pairs)) + 1
  ensures kept: forall i: int {l.Pairs[i]} {old(l.Pairs[i])} :: 0 <= i && i < len(old(l.Pairs)) ==> l.Pairs[i] == old(l.Pairs[i])
  ensures added: l.Pairs[len(old(l.Pairs))].Name == trimb(name) && l.Pairs[len(old(l.Pairs))].Value == trimb(value)
end
contract "(*rcmd.NvpList).Update"(l, name, value) (p, ok)
  props C23
  requires l != nil
  modifies *l
  ensures number: len(l.Pairs) == len(old(l.Pairs))
  ensures names: forall i: int {l.Pairs[i]} {old(l.Pairs[i])} :: 0 <= i && i < len(l.Pairs) ==> l.Pairs[i].Name == old(l.Pairs[i]).Name
  ensures others: forall i: int {l.Pairs[i]} {old(l.Pairs[i])} :: 0 <= i && i < len(l.Pairs) && l.Pairs[i].Name != name ==> l.Pairs[i] == old(l.Pairs[i])
  ensures found: ok ==> (exists i: int {l.Pairs[i]} :: 0 <= i && i < len(l.Pairs) && l.Pairs[i].Name == name && l.Pairs[i].Value == value)
  ensures all: ok && distinct(old(l.Pairs)) ==> (forall i: int {l.Pairs[i]} :: 0 <= i && i < len(l.Pairs) && l.Pairs[i].Name == name ==> l.Pairs[i].Value == value)
  ensures missing: !ok ==> (forall i: int {l.Pairs[i]} :: 0 <= i && i < len(l.Pairs) ==> l.Pairs[i].Name != name)
  loopinv (n: int) at: n == 0 - 1 || (0 <= n && n < IDX && l.Pairs[n].Name == name)
  loopinv (i: int) up: 0 <= i && (forall j: int {l.Pairs[j]} :: 0 <= j && j < i && j < len(l.Pairs) ==> l.Pairs[j].Name != name)
  loopinv (i: int) down: i < len(l.Pairs) && (forall j: int {l.Pairs[j]} :: i < j && j < len(l.Pairs) ==> l.Pairs[j].Name != name)
  loopinv (n: int) none: n == 0 - 1 ==> (forall i: int {l.Pairs[i]} :: 0 <= i && i < IDX ==> l.Pairs[i].Name != name)
end
contract "(*rcmd.NvpList).set"(l, name, value) ()
  props C23
  requires l != nil && distinct(l.Pairs)
  modifies *l
  ensures distinct: distinct(l.Pairs)
  ensures longer: len(l.Pairs) >= len(old(l.Pairs))
  ensures names: forall i: int {l.Pairs[i]} {old(l.Pairs[i])} :: 0 <= i && i < len(old(l.Pairs)) ==> l.Pairs[i].Name == old(l.Pairs[i]).Name
  ensures fresh: forall i: int {l.Pairs[i]} :: len(old(l.Pairs)) <= i && i < len(l.Pairs) ==> l.Pairs[i].Name == trimb(name)
  ensures others: forall i: int {l.Pairs[i]} {old(l.Pairs[i])} :: 0 <= i && i < len(old(l.Pairs)) && l.Pairs[i].Name != trimb(name) ==> l.Pairs[i] == old(l.Pairs[i])
  ensures there: named(l.Pairs, trimb(name))
  ensures value: forall i: int {l.Pairs[i]} :: 0 <= i && i < len(l.Pairs) && l.Pairs[i].Name == trimb(name) ==> l.Pairs[i].Value == value
end
contract "(*rcmd.Nvp).GetString"(p, n) (r)
  props C23
  requires p != nil
  ensures text: r == p.Name + "=" + p.Value
end

contract "(rcmd.RSettings).LibPathsEnv"(rs) (ok, s)
  props C23
  ensures set: ok <==> haslib(rs.LibPaths)
  ensures value: ok ==> s == "R_LIBS_SITE=" + joinall(rs.LibPaths, ":")
end
spec haslib(l: []string): bool = len(l) > 0 && !(len(l) == 1 && l[0] == "")

spec secret(n: string): bool = n == "GITHUB_TOKEN" || n == "GITHUB_PAT" || n == "GHE_TOKEN" || n == "GHE_PAT" || n == "AWS_ACCESS_KEY_ID" || n == "AWS_SECRET_KEY"
contract rcmd.censoredEnvVars(add) (m)
  props C23
  ensures known: forall n: string {n in m} :: secret(n) ==> n in m
  loopinv (anym: map[string]string) known: forall n: string {n in anym} :: secret(n) ==> n in anym
end

// the variables set for this package, and those set for all
spec ownenv(rs: rcmd.RSettings, pkg: string): map[string]string = rs.PkgEnvVars[pkg]
spec setbyall(rs: rcmd.RSettings, n: string): bool = exists i: int {rs.GlobalEnvVars.Pairs[i]} :: 0 <= i && i < len(rs.GlobalEnvVars.Pairs) && trimb(rs.GlobalEnvVars.Pairs[i].Name) == n
spec setbypkg(rs: rcmd.RSettings, pkg: string, n: string): bool = pkg in rs.PkgEnvVars && (exists k: string {k in rs.PkgEnvVars[pkg]} :: k in rs.PkgEnvVars[pkg] && trimb(k) == n)
// anykey is set for the package, under a name no other of its settings has
spec own(rs: rcmd.RSettings, pkg: string): bool = pkg in rs.PkgEnvVars && anykey in rs.PkgEnvVars[pkg] && (forall k: string {k in rs.PkgEnvVars[pkg]} :: k in rs.PkgEnvVars[pkg] && trimb(k) == trimb(anykey) ==> k == anykey)
spec ownvalue(ps: []rcmd.Nvp, n: string, v: string): bool = named(ps, n) && (forall i: int {ps[i]} :: 0 <= i && i < len(ps) && ps[i].Name == n ==> ps[i].Value == v)
// the renv of this thread: the last environment made for R
ghost renv: []string
contract rcmd.configureEnv(sys, rs, pkg) (r)
  props C23
  lemmas trimb_again, trimb_names, site_value
  modifies newdir, newdirok, disk, renv, stray, files
  set renv = r
  before "return" distinct: distinct(envList.Pairs)
  before "return" lines: len(r) == len(envList.Pairs) && (forall i: int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == envList.Pairs[i].Name + "=" + envList.Pairs[i].Value)
  before "return" user: named(envList.Pairs, "R_LIBS_USER")
  before "return" userdir: newdirok ==> (forall i: int {envList.Pairs[i]} :: 0 <= i && i < len(envList.Pairs) && envList.Pairs[i].Name == "R_LIBS_USER" ==> envList.Pairs[i].Value == newdir)
  before "return" site: haslib(rs.LibPaths) ==> named(envList.Pairs, "R_LIBS_SITE") && (forall i: int {envList.Pairs[i]} :: 0 <= i && i < len(envList.Pairs) && envList.Pairs[i].Name == "R_LIBS_SITE" ==> envList.Pairs[i].Value == joinall(rs.LibPaths, ":"))
  before "return" nosite: !haslib(rs.LibPaths) && !setbyall(rs, "R_LIBS_SITE") && !setbypkg(rs, pkg, "R_LIBS_SITE") ==> !named(envList.Pairs, "R_LIBS_SITE")
  before "return" secret: secret(upper(anyname)) && !setbyall(rs, anyname) && !setbypkg(rs, pkg, anyname) && anyname != "R_LIBS_USER" && anyname != "R_LIBS_SITE" ==>
       (forall i: int {envList.Pairs[i]} :: 0 <= i && i < len(envList.Pairs) && envList.Pairs[i].Name == anyname ==> envList.Pairs[i].Value == "**HIDDEN**")
  before "return" own: own(rs, pkg) && trimb(anykey) != "R_LIBS_USER" && !(haslib(rs.LibPaths) && trimb(anykey) == "R_LIBS_SITE") ==> ownvalue(envList.Pairs, trimb(anykey), trimb(rs.PkgEnvVars[pkg][anykey]))
  loopinv (anye: rcmd.NvpList) own2: own(rs, pkg) && anykey in visited ==> ownvalue(anye.Pairs, trimb(anykey), trimb(rs.PkgEnvVars[pkg][anykey]))
  loopinv (anye: rcmd.NvpList) own3: own(rs, pkg) ==> ownvalue(anye.Pairs, trimb(anykey), trimb(rs.PkgEnvVars[pkg][anykey]))
  loopinv (anye: rcmd.NvpList) distinct: distinct(anye.Pairs)
  loopinv (anye: rcmd.NvpList) secret: secret(upper(anyname)) && !setbyall(rs, anyname) && !setbypkg(rs, pkg, anyname) ==>
       (forall i: int {anye.Pairs[i]} :: 0 <= i && i < len(anye.Pairs) && anye.Pairs[i].Name == anyname ==> anye.Pairs[i].Value == "**HIDDEN**")
  loopinv (anye: rcmd.NvpList) nosite: !setbyall(rs, "R_LIBS_SITE") && !setbypkg(rs, pkg, "R_LIBS_SITE") ==> (forall i: int {anye.Pairs[i]} :: 0 <= i && i < len(anye.Pairs) ==> anye.Pairs[i].Name != "R_LIBS_SITE")
  loopinv (anye: rcmd.NvpList, e: []string) lines: len(e) == IDX && (forall i: int {e[i]} :: 0 <= i && i < len(e) ==> e[i] == anye.Pairs[i].Name + "=" + anye.Pairs[i].Value)
end
// R is started with that environment
trusted "(*exec.Cmd).Output"(c) (out, err)
  modifies disk, stray, files
end
trusted "(*exec.Cmd).CombinedOutput"(c) (out, err)
  modifies disk, stray, files
end
contract rcmd.StartR(fs, pkg, rs, dir) (err)
  props C23
  modifies anything
  before "(*exec.Cmd).Run" env: c.Env == renv
end
contract rcmd.RunRscriptWithArgs(fs, pkg, rs, args, dir) (out, err)
  props C23
  modifies anything
  before "(*exec.Cmd).Output" env: c.Env == renv
end
contract rcmd.RunRBatch(fs, rs, args) (out, err)
  props C23
  modifies anything
  before "(*exec.Cmd).CombinedOutput" env: c.Env == renv
end

// dir: rcmd
package rcmd

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/spf13/afero"
)

var ceSecrets = map[string]bool{"GITHUB_TOKEN": true, "GITHUB_PAT": true, "GHE_TOKEN": true, "GHE_PAT": true, "AWS_ACCESS_KEY_ID": true, "AWS_SECRET_KEY": true}

// ceCheck: what is wrong with the environment made from these settings, if anything.
func ceCheck(env, sys []string, rs RSettings, pkg string, seen map[string]bool) string {
	own := map[string]string{}
	for k, val := range rs.PkgEnvVars[pkg] {
		own[strings.Trim(k, " ")] = val
	}
	glob := map[string]bool{}
	for _, p := range rs.GlobalEnvVars.Pairs {
		glob[strings.Trim(p.Name, " ")] = true
	}
	inherited := map[string][]string{}
	for _, s := range sys {
		if p := strings.SplitN(s, "=", 2); len(p) == 2 {
			n := strings.Trim(p[0], " ")
			inherited[n] = append(inherited[n], p[1])
		}
	}
	got := map[string]string{}
	for _, e := range env {
		p := strings.SplitN(e, "=", 2)
		if len(p) != 2 {
			return fmt.Sprintf("%q is not of the form name=value", e)
		}
		if old, twice := got[p[0]]; twice {
			return fmt.Sprintf("%s has two values, %q and %q", p[0], old, p[1])
		}
		got[p[0]] = p[1]
	}
	user, ok := got["R_LIBS_USER"]
	if !ok || user == "" || seen[user] {
		return fmt.Sprintf("R_LIBS_USER is %q, not a fresh folder", user)
	}
	seen[user] = true
	for _, u := range inherited["R_LIBS_USER"] {
		if u == user {
			return fmt.Sprintf("R_LIBS_USER is the inherited %q", user)
		}
	}
	if es, err := os.ReadDir(user); err != nil || len(es) > 0 {
		return fmt.Sprintf("R_LIBS_USER is %q: not an empty folder (%v)", user, err)
	}
	if lps := rs.LibPaths; len(lps) > 1 || len(lps) == 1 && lps[0] != "" {
		if s, ok := got["R_LIBS_SITE"]; !ok || s != strings.Join(lps, ":") {
			return fmt.Sprintf("R_LIBS_SITE is %q, not %q", s, strings.Join(lps, ":"))
		}
	} else if s, ok := got["R_LIBS_SITE"]; ok && !glob["R_LIBS_SITE"] {
		if o, ok := own["R_LIBS_SITE"]; !ok || strings.Trim(o, " ") != s {
			return fmt.Sprintf("R_LIBS_SITE is %q without a library path", s)
		}
	}
	for n, val := range own {
		if n == "R_LIBS_USER" || n == "R_LIBS_SITE" {
			continue
		}
		if g, ok := got[n]; !ok || strings.Trim(g, " ") != strings.Trim(val, " ") {
			return fmt.Sprintf("%s is %q (there: %v), not the package's own %q", n, g, ok, val)
		}
	}
	for n, vals := range inherited {
		if _, o := own[n]; o || glob[n] || !ceSecrets[strings.ToUpper(n)] {
			continue
		}
		for _, val := range vals {
			if val != "" && strings.Contains(got[n], val) {
				return fmt.Sprintf("the inherited %s is handed on as %q", n, got[n])
			}
		}
	}
	// other variables are handed on
	for n, vals := range inherited {
		if _, o := own[n]; o || glob[n] || ceSecrets[strings.ToUpper(n)] || n == "R_LIBS_USER" || n == "R_LIBS_SITE" || n == "PATH" || n == "" || len(vals) > 1 || strings.TrimSpace(vals[0]) == "" {
			continue
		}
		if g := got[n]; strings.TrimSpace(g) != strings.TrimSpace(vals[0]) {
			return fmt.Sprintf("the inherited %s=%q is handed on as %q", n, vals[0], g)
		}
	}
	return ""
}

func ceWorld(v *verifRun) (sys []string, rs RSettings, pkg string) {
	names := []string{"A", "a", "HOME_", "R_LIBS_USER", "R_LIBS_SITE", "R_LIBS", "GITHUB_PAT", "github_pat", "Github_Token", "GITHUB_TOKEN", "GHE_TOKEN", "ghe_pat", "AWS_ACCESS_KEY_ID", "aws_secret_key", "MY_GITHUB_PAT", "R_LIBS_USER2", "B_C", "LD_LIBRARY_PATH"}
	vals := []string{"1", "x=y", "=", "a b", "s3cr3t-1", "s3cr3t=2=", "/usr/lib/R:/opt", " lead", "trail ", "R_LIBS_SITE=x", "'q'", "\"", "é"}
	name := func() string { return names[v.R.Intn(len(names))] }
	val := func() string { return vals[v.R.Intn(len(vals))] }
	for k := v.R.Intn(14); k > 0; k-- {
		x := val()
		if v.R.Intn(6) == 0 {
			x = ""
		}
		sys = append(sys, name()+v.Pick("", "", "", "", " ")+"="+x)
	}
	for k := v.R.Intn(5); k > 0 && v.R.Intn(2) == 0; k-- {
		rs.GlobalEnvVars.Append(name()+v.Pick("", "", " "), val())
	}
	rs.PkgEnvVars = map[string]map[string]string{}
	for _, p := range []string{"R6", "dplyr", ""} {
		if v.R.Intn(3) > 0 {
			m := map[string]string{}
			for k := v.R.Intn(7); k > 0; k-- {
				n := name()
				if _, has := m[n+" "]; !has && v.R.Intn(8) > 0 {
					m[n] = val()
				} else if _, has := m[n]; !has {
					m[n+" "] = val()
				}
			}
			rs.PkgEnvVars[p] = m
		}
	}
	libs := []string{"", "lib", "/a/b=c", "/with space/x", "/c:d", "R_LIBS_SITE=", "/trail ", "rel/../x/", "="}
	for k := v.R.Intn(4); k > 0; k-- {
		rs.LibPaths = append(rs.LibPaths, libs[v.R.Intn(len(libs))])
	}
	if v.R.Intn(2) == 0 {
		rs.Rpath = v.Pick("/opt/R/bin/R", "R", "/usr/bin/R", "./R", "R/")
	}
	if v.R.Intn(2) == 0 {
		sys = append(sys, "PATH="+v.Pick("/usr/bin:/bin", "/opt/R/bin:/bin", "/x"))
	}
	return sys, rs, v.Pick("R6", "dplyr", "", "other")
}

// The environment made from arbitrary inherited environments, package settings and library paths.
func TestVerifC23Env(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	n := v.N(4000)
	dir := v.Scratch()
	defer v.Drop(dir)
	t.Setenv("TMPDIR", dir)
	seen := map[string]bool{}
	for i := 0; i < n && v.More(); i++ {
		sys, rs, pkg := ceWorld(v)
		input := fmt.Sprintf("inherited %q, settings %+v, package %q", sys, rs, pkg)
		v.Case(input, func() {
			env := configureEnv(append([]string{}, sys...), rs, pkg)
			if d := ceCheck(env, sys, rs, pkg, seen); d != "" {
				v.Fail(input, "%s; the environment is %q", d, env)
			}
		})
	}
}

// What programs started with these settings find in their environment.
func TestVerifC23Runs(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	n := v.N(120)
	dir := v.Scratch()
	defer v.Drop(dir)
	tmp := filepath.Join(dir, "tmp")
	os.Mkdir(tmp, 0755)
	script := "#!/bin/sh\nexec /usr/bin/env -0 > '" + dir + "/out'\n"
	for _, f := range []string{"R", "Rscript"} {
		os.WriteFile(filepath.Join(dir, f), []byte(script), 0755)
	}
	os.MkdirAll(filepath.Join(dir, "lib"), 0755)
	tb := filepath.Join(dir, "R6_1.0.tar.gz")
	os.WriteFile(tb, []byte("x"), 0644)
	fs := afero.NewOsFs()
	before := os.Environ()
	defer func() {
		os.Clearenv()
		for _, s := range before {
			p := strings.SplitN(s, "=", 2)
			os.Setenv(p[0], p[1])
		}
	}()
	seen := map[string]bool{}
	for i := 0; i < n && v.More(); i++ {
		sys, rs, pkg := ceWorld(v)
		rs.Rpath = filepath.Join(dir, "R")
		os.Clearenv()
		os.Setenv("TMPDIR", tmp)
		for _, s := range sys {
			p := strings.SplitN(s, "=", 2)
			os.Setenv(p[0], p[1])
		}
		sys = os.Environ()
		how := []string{"RunRBatch", "RunR", "StartR", "Install"}[v.R.Intn(4)]
		if how == "RunRBatch" {
			pkg = ""
		}
		sort.Strings(sys)
		input := fmt.Sprintf("%s: inherited %q, settings %+v, package %q", how, sys, rs, pkg)
		v.Case(input, func() {
			os.Remove(filepath.Join(dir, "out"))
			switch how {
			case "RunRBatch":
				RunRBatch(fs, rs, []string{"x"})
			case "RunR":
				RunR(fs, pkg, rs, "1", dir)
			case "StartR":
				StartR(fs, pkg, rs, dir)
			case "Install":
				Install(fs, pkg, tb, InstallArgs{Library: filepath.Join(dir, "lib")}, rs, ExecSettings{WorkDir: dir}, InstallRequest{Package: pkg})
			}
			b, err := os.ReadFile(filepath.Join(dir, "out"))
			if err != nil {
				v.Fail(input, "R was not run: %v", err)
				return
			}
			env := strings.Split(strings.TrimSuffix(string(b), "\x00"), "\x00")
			var kept []string
			for _, e := range env { // set by the shell
				if !strings.HasPrefix(e, "PWD=") && !strings.HasPrefix(e, "_=") && !strings.HasPrefix(e, "SHLVL=") && !strings.HasPrefix(e, "OLDPWD=") {
					kept = append(kept, e)
				}
			}
			if d := ceCheck(kept, sys, rs, pkg, seen); d != "" {
				v.Fail(input, "%s; the environment of R is %q", d, kept)
			}
		})
	}
}

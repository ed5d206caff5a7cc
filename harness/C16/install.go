// dir: rcmd
package rcmd

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/spf13/afero"
)

type c16Case struct {
	Kind    string // what goes wrong
	Through bool   // InstallThroughBinary or Install
	Binary  bool   // there is a cached binary
	Present bool   // already in the library
	R       string // what is in place of R
	Dir     string // working directory
}

// Every way an installation can go wrong: success is reported exactly if R ran to its end or the package was there.
func TestVerifC16Reported(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	kinds := []string{"", "exit", "kill", "partial", "exitfinal", "killfinal", "exitbuild", "killbuild", "nobinary", "late", "nofile"}
	var cases []c16Case
	for _, k := range kinds {
		for _, th := range []bool{true, false} {
			for _, b := range []bool{true, false} {
				for _, p := range []bool{true, false} {
					for _, r := range []string{"", "missing", "notexec", "folder"} {
						for _, d := range []string{"", "there", "missing"} {
							cases = append(cases, c16Case{k, th, b, p, r, d})
						}
					}
				}
			}
		}
	}
	v.R.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
	for i, c := range cases {
		if i >= v.N(450) || !v.More() {
			break
		}
		dir := v.Scratch()
		v.Case(c, func() { c16Run(v, c, dir) })
		v.Drop(dir)
	}
}

func c16Run(v *verifRun, c c16Case, dir string) {
	old := os.Getenv("TMPDIR")
	defer os.Setenv("TMPDIR", old)
	w := rwWorld{Starting: []string{"aa"}, Fail: map[string]string{}}
	if c.Kind != "" {
		w.Fail["aa"] = c.Kind
	}
	if c.Binary {
		w.Binary = []string{"aa"}
	}
	if c.Present {
		w.Installed = []string{"aa"}
	}
	dl, pc, args, rs := w.setup(dir)
	switch c.R {
	case "missing":
		rs.Rpath = filepath.Join(dir, "fake", "nothing")
	case "notexec":
		rs.Rpath = filepath.Join(dir, "fake", "plain")
		rwWrite(rs.Rpath, "no program")
	case "folder":
		rs.Rpath = filepath.Join(dir, "fake")
	}
	es := ExecSettings{PkgrVersion: "dev"}
	switch c.Dir {
	case "there":
		es.WorkDir = filepath.Join(dir, "tmp")
	case "missing":
		es.WorkDir = filepath.Join(dir, "nothing")
	}
	m, _ := dl.Get("aa")
	ir := InstallRequest{Package: "aa", Metadata: m, Cache: pc, InstallArgs: args, ExecSettings: es, RSettings: rs}
	var res CmdResult
	var err error
	bin := ""
	if c.Through {
		res, bin, err = InstallThroughBinary(afero.NewOsFs(), ir, pc)
	} else {
		args.Build = false
		res, err = Install(afero.NewOsFs(), "aa", m.Path, args, rs, es, ir)
	}
	// what should have happened
	bad := c.R != ""
	switch c.Kind {
	case "exit", "kill", "partial", "exitfinal", "killfinal", "late":
		bad = true
	case "nofile":
		bad = bad || !c.Through || !c.Binary
	case "exitbuild", "killbuild", "nobinary":
		bad = bad || (c.Through && !c.Binary)
	}
	if c.Dir == "missing" && (!c.Through || c.Binary) {
		bad = true // the build uses a folder of its own
	}
	if c.Through && c.Present {
		if err != nil || res.ExitCode != -999 || bin != "" {
			v.Fail(c, "already installed, but reported %v, exit code %d", err, res.ExitCode)
		}
		if b, _ := afero.ReadFile(afero.NewOsFs(), filepath.Join(dir, "fake", "log")); len(b) > 0 {
			v.Fail(c, "already installed, but R was run: %s", b)
		}
		return
	}
	if bad != (err != nil) {
		v.Fail(c, "failed: %v, reported: %v", bad, err)
	}
	if bad == (res.ExitCode == 0) {
		v.Fail(c, "failed: %v, exit code: %d", bad, res.ExitCode)
	}
	if res.ExitCode == -999 {
		v.Fail(c, "reported as already installed")
	}
	if _, e := os.Stat(filepath.Join(dir, "lib", "aa", "DESCRIPTION")); err == nil && e != nil {
		v.Fail(c, "reported as installed, but it is not there")
	}
}

// The run as a whole reports a failure of any package.
func TestVerifC16Run(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for i := 0; i < v.N(60) && v.More(); i++ {
		w := v.rwWorld0()
		w.Starting = append(w.Starting, "zz")
		w.Fail = map[string]string{"zz": v.Pick("exit", "kill", "partial", "nobinary", "late", "nofile", "exitfinal", "exitbuild")}
		dir := v.Scratch()
		v.Case(w, func() {
			if r := v.rwInstall(w, dir); r.Ended && r.Err == nil {
				v.Fail(w, "zz failed, but the run reports success (R was run as %v)", r.Log)
			}
		})
		v.Drop(dir)
	}
}

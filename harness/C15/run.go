// dir: rcmd
package rcmd

import (
	"strings"
	"testing"
)

func TestVerifC15Run(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for i := 0; i < v.N(250) && v.More(); i++ {
		w := v.rwWorld0()
		dir := v.Scratch()
		v.Case(w, func() {
			r := v.rwInstall(w, dir)
			if !r.Ended {
				v.Fail(w, "the run did not end; R was run as %v", r.Log)
				return
			}
			started, failed := map[string]bool{}, false
			for _, l := range r.Log {
				switch f := strings.Fields(l); f[0] {
				case "early":
					v.Fail(w, "%s was started before %s was installed", f[1], f[2])
				case "start":
					if started[l] {
						v.Fail(w, "done twice: %s", l)
					}
					started[l] = true
				case "fail":
					failed = true
				case "outside", "nofile":
					v.Fail(w, "R was started for something else: %s", l)
				}
			}
			for p, k := range w.Fail {
				if k != "nofile" || rwHas(w.Installed, p) {
					continue
				}
				// no trace in the log: it failed if it was its turn
				turn := true
				for _, d := range w.DepDb[p] {
					turn = turn && rwHas(r.Lib, d) && !w.fails(d)
				}
				failed = failed || (turn && len(w.Fail) == 1)
			}
			if len(w.Fail) > 1 && hasNofile(w) {
				return
			}
			if failed != (r.Err != nil) {
				v.Fail(w, "error %v, but a package failed: %v (R was run as %v)", r.Err, failed, r.Log)
			}
			if r.Err == nil {
				for _, p := range w.all() {
					if !rwHas(r.Lib, p) {
						v.Fail(w, "no error, but %s is not installed (R was run as %v)", p, r.Log)
					}
				}
			}
		})
		v.Drop(dir)
	}
}

func hasNofile(w rwWorld) bool {
	for _, k := range w.Fail {
		if k == "nofile" {
			return true
		}
	}
	return false
}

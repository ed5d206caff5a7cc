// dir: cmd
package cmd

import "testing"

// Whole installs that fail in different ways; the library has to be as before.
func TestVerifC13Install(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	v.installs(v.N(130), func(w *iwWorld) {
		if len(w.Fail) == 0 && len(w.W.resolved()) > 0 {
			w.Fail[v.Pick(pwKeys(w.W.resolved())...)] = v.Pick("exit", "nobinary", "partial", "empty")
		}
	}, iwRolledBack)
}

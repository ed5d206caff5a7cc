// dir: cmd
package cmd

import "testing"

// Whole installs; without a failure exactly the packages of the plan are replaced or added.
func TestVerifC14Install(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	v.installs(v.N(130), func(w *iwWorld) {
		if v.R.Intn(4) > 0 {
			w.Fail = map[string]string{}
		}
		w.NoRollback = v.R.Intn(2) == 0
	}, iwUpdated)
}

// dir: cmd
package cmd

import "testing"

// Whole planning runs over random repositories, libraries and configurations.
func TestVerifC07Plan(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	v.plans(v.N(250), nil, func(w pwWorld, p pwPlan) string {
		for _, f := range []func(pwWorld, pwPlan) string{pwCover, pwStarting, pwDeps, pwDownloads} {
			if s := f(w, p); s != "" {
				return s
			}
		}
		return ""
	})
}

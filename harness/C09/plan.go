// dir: cmd
package cmd

import "testing"

// Whole planning runs over random repositories, libraries and configurations.
func TestVerifC09Plan(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	v.plans(v.N(250), nil, func(w pwWorld, p pwPlan) string {
		for _, f := range []func(pwWorld, pwPlan) string{pwCover, pwStarting, pwDeps} {
			if s := f(w, p); s != "" {
				return s
			}
		}
		return ""
	})
}

// The same with few dependencies, so that suggestions of suggested packages are not needed for another reason.
func TestVerifC09Chain(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	thin := func(l []pwEntry) {
		for i := range l {
			if v.R.Intn(6) > 0 {
				l[i].Depends, l[i].Imports, l[i].LinkingTo = nil, nil, nil
			}
			if k := v.R.Intn(3); len(l[i].Suggests) > k {
				l[i].Suggests = l[i].Suggests[:k]
			}
		}
	}
	mod := func(w *pwWorld) bool {
		for i := range w.Repos {
			thin(w.Repos[i].Src)
			thin(w.Repos[i].Bin)
		}
		w.Suggests = v.R.Intn(4) > 0
		w.Tarball, w.Description = nil, nil
		if len(w.Packages) > 2 {
			w.Packages = w.Packages[:1+v.R.Intn(2)]
		}
		return len(w.requested()) > 0
	}
	v.plans(v.N(250), mod, func(w pwWorld, p pwPlan) string {
		for _, f := range []func(pwWorld, pwPlan) string{pwCover, pwStarting, pwDeps} {
			if s := f(w, p); s != "" {
				return s
			}
		}
		return ""
	})
}

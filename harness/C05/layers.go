// dir: gpsr
package gpsr

import (
	"fmt"
	"testing"
	"time"
)

// Random graphs: a permutation decides which edges are allowed; some graphs get a cycle, a self dependency, or
// a dependency that is not there. The reference is the definition itself.
func TestVerifC05Layers(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	base := []string{"methods", "stats", "utils", "base"}
	rec := []string{"Matrix", "MASS", "survival"}
	for i := 0; i < v.N(1500) && v.More(); i++ {
		n := v.R.Intn(9)
		if v.R.Intn(10) == 0 {
			n = 20 + v.R.Intn(20)
		}
		names := []string{}
		for j := 0; j < n; j++ {
			names = append(names, fmt.Sprintf("p%d", j))
		}
		v.R.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		deps := map[string][]string{}
		for j, nm := range names {
			ds := []string{}
			for k := 0; k < j; k++ {
				if v.R.Intn(3) == 0 {
					ds = append(ds, names[k])
				}
			}
			if v.R.Intn(4) == 0 {
				ds = append(ds, v.Pick(base...))
			}
			if v.R.Intn(5) == 0 {
				ds = append(ds, v.Pick(rec...))
			}
			if len(ds) > 0 && v.R.Intn(6) == 0 {
				ds = append(ds, ds[0])
			}
			v.R.Shuffle(len(ds), func(a, b int) { ds[a], ds[b] = ds[b], ds[a] })
			deps[nm] = ds
		}
		if n > 0 && v.R.Intn(3) == 0 {
			a, b := v.R.Intn(n), v.R.Intn(n)
			deps[names[a]] = append(deps[names[a]], names[b])
		}
		if n > 0 && v.R.Intn(8) == 0 {
			a := v.R.Intn(n)
			deps[names[a]] = append(deps[names[a]], "absent")
		}
		if v.R.Intn(6) == 0 { // a recommended package as a node of its own
			deps[rec[0]] = []string{"stats"}
			names = append(names, rec[0])
		}
		noRec := v.R.Intn(2) == 0
		in := map[string]interface{}{"graph": deps, "noRecommended": noRec}
		v.Case(in, func() {
			g := NewGraph()
			for nm, ds := range deps {
				g[nm] = NewNode(nm, append([]string{}, ds...))
			}
			var layers [][]string
			var err error
			if !v.Within(20*time.Second, func() { layers, err = ResolveLayers(g, noRec) }) {
				v.Fail(in, "layering did not end")
				return
			}
			excluded := func(d string) bool {
				for _, b := range base {
					if b == d {
						return true
					}
				}
				for _, r := range rec {
					if r == d {
						return noRec
					}
				}
				return false
			}
			// reference: repeatedly place what waits for nothing
			left := map[string]bool{}
			for nm := range deps {
				left[nm] = true
			}
			for again := true; again; {
				again = false
				for nm := range left {
					ok := true
					for _, d := range deps[nm] {
						_, there := deps[d]
						if !excluded(d) && (left[d] || !there) {
							ok = false
						}
					}
					if ok {
						delete(left, nm)
						again = true
					}
				}
			}
			if (len(left) > 0) != (err != nil) {
				v.Fail(in, "error %v, but %d packages cannot be placed", err, len(left))
				return
			}
			if err != nil {
				return
			}
			at := map[string]int{}
			for l, ps := range layers {
				if len(ps) == 0 {
					v.Fail(in, "layer %d is empty", l)
				}
				for _, p := range ps {
					if _, dup := at[p]; dup {
						v.Fail(in, "%s is placed twice", p)
					}
					if _, known := deps[p]; !known {
						v.Fail(in, "%s is not in the graph", p)
					}
					at[p] = l
				}
			}
			for nm, ds := range deps {
				l, ok := at[nm]
				if !ok {
					v.Fail(in, "%s is in no layer", nm)
				}
				for _, d := range ds {
					if excluded(d) {
						continue
					}
					if at[d] >= l {
						v.Fail(in, "%s (layer %d) depends on %s (layer %d)", nm, l, d, at[d])
					}
				}
			}
			for nm, ds := range deps {
				if len(g[nm].Deps) != len(ds) {
					v.Fail(in, "the graph was changed at %s", nm)
				}
			}
		})
	}
}

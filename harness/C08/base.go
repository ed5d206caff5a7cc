// dir: cmd
package cmd

import (
	"reflect"
	"testing"
)

var verifC08Base = map[string]bool{"base": true, "compiler": true, "datasets": true, "graphics": true, "grDevices": true, "grid": true, "methods": true, "parallel": true, "splines": true, "stats": true, "stats4": true, "tcltk": true, "tools": true, "utils": true}

func TestVerifC08List(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	names := []string{"R6", "dplyr", "MASS", "mgcv", "survival", "Base", "stats5", "methods2", "", "translations"}
	for n := range verifC08Base {
		names = append(names, n)
	}
	for i := 0; i < v.N(3000) && v.More(); i++ {
		in := []string{}
		for k := v.R.Intn(8); k > 0; k-- {
			if v.R.Intn(2) == 0 {
				in = append(in, names[v.R.Intn(10)])
			} else {
				in = append(in, names[v.R.Intn(len(names))])
			}
		}
		v.Case(in, func() {
			arg := append([]string{}, in...)
			got := append([]string{}, removeBasePackages(arg)...)
			want := []string{}
			for _, p := range in {
				if !verifC08Base[p] {
					want = append(want, p)
				}
			}
			if !reflect.DeepEqual(got, want) {
				v.Fail(in, "left %q, want %q", got, want)
			}
		})
	}
}

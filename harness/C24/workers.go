// dir: cmd
package cmd

import "testing"

func TestVerifC24Workers(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for th := -3; th <= 40; th++ {
		for n := 1; n <= 40; n++ {
			in := map[string]int{"threads": th, "cpus": n}
			v.Case(in, func() {
				want := th
				if th < 1 {
					want = n
					if n > 8 {
						want = 8
					}
				}
				if got := getWorkerCount(th, n); got != want {
					v.Fail(in, "getWorkerCount = %d, want %d", got, want)
				}
			})
		}
	}
}

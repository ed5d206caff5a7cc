// dir: desc
package desc

import (
	"sort"
	"strings"
	"testing"
)

func verifC01Parts(s string) [5]int {
	var r [5]int
	k := 0
	for _, p := range strings.FieldsFunc(strings.ReplaceAll(s, "-", "."), func(c rune) bool { return c == '.' }) {
		n := 0
		for _, d := range p {
			n = n*10 + int(d-'0')
		}
		if k < 5 {
			r[k] = n
		}
		k++
	}
	return r
}

func verifC01Cmp(a, b string) int {
	x, y := verifC01Parts(a), verifC01Parts(b)
	for i := range x {
		if x[i] < y[i] {
			return -1
		}
		if x[i] > y[i] {
			return 1
		}
	}
	return 0
}

func verifSign(n int) int {
	if n < 0 {
		return -1
	}
	if n > 0 {
		return 1
	}
	return 0
}

func verifC01Gen(v *verifRun) string {
	n := 1 + v.R.Intn(5)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += v.Pick(".", "-")
		}
		s += v.Pick("0", "1", "2", "3", "9", "10", "12", "100", "9000", "20190101", "01")
	}
	return s
}

func TestVerifC01Compare(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for i := 0; i < v.N(4000) && v.More(); i++ {
		a, b := verifC01Gen(v), verifC01Gen(v)
		if v.R.Intn(3) == 0 { // share a prefix
			b = a
			if k := strings.LastIndexAny(a, ".-"); k > 0 && v.R.Intn(2) == 0 {
				b = a[:k]
			} else if v.R.Intn(2) == 0 && strings.Count(a, ".")+strings.Count(a, "-") < 4 {
				b = a + v.Pick(".0", "-1", ".2")
			}
		}
		v.Case([]string{a, b}, func() {
			want := verifC01Cmp(a, b)
			if got := CompareVersionStrings(a, b); verifSign(got) != want {
				v.Fail([]string{a, b}, "CompareVersionStrings = %d, want sign %d", got, want)
			}
			if got := CompareVersionStrings(b, a); verifSign(got) != -want {
				v.Fail([]string{b, a}, "CompareVersionStrings = %d, want sign %d", got, -want)
			}
			if got := CompareVersions(ParseVersion(a), ParseVersion(b)); verifSign(got) != want {
				v.Fail([]string{a, b}, "CompareVersions = %d, want sign %d", got, want)
			}
		})
	}
}

func TestVerifC01Sort(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for i := 0; i < v.N(600) && v.More(); i++ {
		n := v.R.Intn(12)
		var in []string
		for j := 0; j < n; j++ {
			in = append(in, verifC01Gen(v))
		}
		v.Case(in, func() {
			var vs Versions
			for _, s := range in {
				vs = append(vs, ParseVersion(s))
			}
			sort.Sort(vs)
			var got []string
			for j := range vs {
				got = append(got, vs[j].String)
				if j > 0 && verifC01Cmp(vs[j-1].String, vs[j].String) > 0 {
					v.Fail(in, "sorted list has %s before %s", vs[j-1].String, vs[j].String)
				}
			}
			a, b := append([]string{}, in...), append([]string{}, got...)
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, " ") != strings.Join(b, " ") {
				v.Fail(in, "sorting changed the elements: %v", got)
			}
		})
	}
}

func TestVerifC01NoCrash(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for i := 0; i < v.N(1500) && v.More(); i++ {
		n := v.R.Intn(9)
		s := ""
		for j := 0; j < n; j++ {
			s += v.Pick(".", "-", "0", "1", "a", " ", "", "99999999999999999999", "é", "R", "*")
		}
		v.Case(s, func() {
			ParseVersion(s)
			CompareVersionStrings(s, "1.0")
			CompareVersionStrings("1.0.0.0.0", s)
		})
	}
}

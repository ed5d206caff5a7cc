// dir: configlib
package configlib

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/spf13/viper"
	"gopkg.in/yaml.v3"
)

func ywLines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// Adding packages to a file: every line of before is there, in order; the other lines are one item for each package that
// was not listed, in the Packages section, indented like its items; and the file then lists the old packages and the new.
func TestVerifC20Add(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	defer viper.Reset()
	n := v.N(1500)
	dir := v.Scratch()
	defer v.Drop(dir)
	file := filepath.Join(dir, "pkgr.yml")
	for i := 0; i < n && v.More(); i++ {
		f := v.ywFile()
		var args []string
		for j := v.R.Intn(5); j >= 0; j-- {
			args = append(args, ywNames[v.R.Intn(len(ywNames))])
		}
		input := fmt.Sprintf("add %v to %s", args, ywShow(f.Text))
		v.Case(input, func() {
			var was, now PkgrConfig
			if err := yaml.Unmarshal([]byte(f.Text), &was); err != nil {
				return // not a configuration
			}
			os.WriteFile(file, []byte(f.Text), 0644)
			viper.SetConfigFile(file)
			if err := AddPackages(args); err != nil {
				v.Fail(input, "error %v", err)
				return
			}
			b, _ := os.ReadFile(file)
			fail := func(form string, a ...interface{}) {
				v.Fail(input, "%s; the file is now %s", fmt.Sprintf(form, a...), ywShow(string(b)))
			}
			var want []string
			for _, a := range args {
				if !ywHas(f.Listed, a) && !ywHas(want, a) {
					want = append(want, a)
				}
			}
			old, cur := ywLines(f.Text), ywLines(string(b))
			// the lines that were put in: in one place
			k := 0
			for k < len(old) && k < len(cur) && old[k] == cur[k] {
				k++
			}
			m := len(cur) - len(old)
			if m < 0 {
				fail("%d lines are gone", -m)
				return
			}
			at := -1
			for ; k >= 0; k-- {
				same := true
				for j := k; j < len(old); j++ {
					if old[j] != cur[j+m] {
						same = false
						break
					}
				}
				if !same {
					break
				}
				at = k
				if okItems(f, cur[:k], cur[k:k+m], want) {
					break
				}
			}
			if at < 0 {
				fail("a line has changed")
				return
			}
			if len(want) == 0 && m > 0 {
				fail("there was nothing to add, but %d lines were", m)
				return
			}
			if len(want) > 0 && (k < 0 || !okItems(f, cur[:k], cur[k:k+m], want)) {
				fail("the lines added at line %d are not one item per package %v: %q", at+1, want, cur[at:at+m])
				return
			}
			if err := yaml.Unmarshal(b, &now); err != nil {
				fail("no longer a configuration: %v", err)
				return
			}
			count := map[string]int{}
			for _, p := range now.Packages {
				count[p]++
			}
			for _, p := range append(append([]string{}, f.Listed...), want...) {
				if count[p] != 1 {
					fail("%s is listed %d times", p, count[p])
					return
				}
			}
			if len(now.Packages) != len(f.Listed)+len(want) {
				fail("it lists %v", now.Packages)
				return
			}
			was.Packages, now.Packages = nil, nil
			if a, c := fmt.Sprintf("%+v", was), fmt.Sprintf("%+v", now); a != c {
				fail("other settings have changed from %s to %s", a, c)
			}
		})
	}
}

func ywHas(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func okItems(f ywFile, above, added, want []string) bool {
	if len(want) == 0 {
		return len(added) == 0
	}
	if !f.Has {
		// a new section
		for len(added) > 0 && strings.TrimSpace(added[0]) == "" {
			added = added[1:]
		}
		if len(added) == 0 || !strings.HasPrefix(added[0], "Packages:") {
			return false
		}
		added = added[1:]
	}
	if len(added) != len(want) {
		return false
	}
	ind, known := "", false
	if f.Has {
		in := false
		for _, l := range strings.Split(f.Text, "\n") {
			if strings.HasPrefix(l, "Packages:") {
				in = true
				continue
			}
			if l = strings.TrimRight(l, "\r"); in && strings.TrimSpace(l) != "" && l[0] != ' ' && l[0] != '#' && l[0] != '-' {
				break
			}
			if in && strings.HasPrefix(strings.TrimSpace(l), "-") {
				ind, known = l[:strings.Index(l, "-")], true
				break
			}
		}
	}
	left := map[string]bool{}
	for _, w := range want {
		left[w] = true
	}
	for i, a := range added {
		a = strings.TrimRight(a, " \r")
		t := strings.TrimLeft(a, " ")
		if i == 0 && !known {
			ind, known = a[:len(a)-len(t)], true
		}
		p := strings.TrimPrefix(t, "- ")
		if a != ind+"- "+p || !left[p] {
			return false
		}
		left[p] = false
	}
	return true
}

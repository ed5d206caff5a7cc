// dir: configlib
package configlib

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/spf13/viper"
)

// Removing a package: the lines of the Packages section that list exactly it are gone, all others are there, in order
// and unchanged.
func TestVerifC21Remove(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	defer viper.Reset()
	n := v.N(1500)
	dir := v.Scratch()
	defer v.Drop(dir)
	file := filepath.Join(dir, "pkgr.yml")
	for i := 0; i < n && v.More(); i++ {
		f := v.ywFile()
		p := ywNames[v.R.Intn(len(ywNames))]
		if len(f.Listed) > 0 && v.R.Intn(2) == 0 {
			p = f.Listed[v.R.Intn(len(f.Listed))]
		}
		input := fmt.Sprintf("remove %s from %s", p, ywShow(f.Text))
		v.Case(input, func() {
			mode := []os.FileMode{0644, 0600, 0664}[v.R.Intn(3)]
			os.Remove(file)
			os.WriteFile(file, []byte(f.Text), mode)
			os.Chmod(file, mode)
			viper.SetConfigFile(file)
			if err := RemovePackage(p); err != nil {
				v.Fail(input, "error %v", err)
				return
			}
			b, _ := os.ReadFile(file)
			var want []string
			sec := ""
			for _, l := range strings.SplitAfter(f.Text, "\n") {
				t := strings.TrimRight(l, "\r\n")
				if t != "" && t[0] != ' ' && t[0] != '-' && t[0] != '#' {
					sec = t[:strings.Index(t, ":")]
				}
				w := strings.Fields(t)
				if sec == "Packages" && len(w) > 1 && w[0] == "-" && strings.Trim(w[1], `"'`) == p && (len(w) == 2 || w[2] == "#") {
					continue
				}
				want = append(want, l)
			}
			if strings.TrimSuffix(string(b), "\n") != strings.TrimSuffix(strings.Join(want, ""), "\n") {
				v.Fail(input, "the file is now %s, not %s", ywShow(string(b)), ywShow(strings.Join(want, "")))
				return
			}
			if st, err := os.Stat(file); err != nil || st.Mode().Perm() != mode {
				v.Fail(input, "permissions have changed from %v to %v", mode, st.Mode())
			}
		})
	}
	// a file that is not there
	gone := filepath.Join(dir, "none", "pkgr.yml")
	viper.SetConfigFile(gone)
	if err := RemovePackage("R6"); err == nil {
		v.Fail("no configuration file", "no error")
	}
}

// dir: cmd
package cmd

import (
	"crypto/md5"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/spf13/afero"
)

// ccFs removes only what lies in root; a removal elsewhere is recorded and not carried out.
type ccFs struct {
	afero.Fs
	root    string
	outside []string
}

func (f *ccFs) in(p string) bool {
	a, err := filepath.Abs(p)
	if err == nil && strings.HasPrefix(a, f.root+"/") {
		return true
	}
	f.outside = append(f.outside, p)
	return false
}
func (f *ccFs) Remove(p string) error {
	if !f.in(p) {
		return os.ErrNotExist
	}
	return f.Fs.Remove(p)
}
func (f *ccFs) RemoveAll(p string) error {
	if !f.in(p) {
		return nil
	}
	return f.Fs.RemoveAll(p)
}

func ccTree(root string) map[string]bool {
	r := map[string]bool{}
	filepath.Walk(root, func(p string, _ os.FileInfo, err error) error {
		if err == nil && p != root {
			r[strings.TrimPrefix(p, root+"/")] = true
		}
		return nil
	})
	return r
}

func ccDiff(before, after map[string]bool) []string {
	var d []string
	for p := range before {
		if !after[p] {
			d = append(d, p)
		}
	}
	sort.Strings(d)
	return d
}

// TestVerifCleanCache compares what a clean removes from random caches with what was asked for.
func TestVerifCleanCache(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	cwd, _ := os.Getwd()
	oldCfg, oldFs, oldRepos, oldS, oldB := cfg, fs, reposToClear, srcOnly, binariesOnly
	home, hadHome := os.LookupEnv("XDG_CACHE_HOME")
	tmp, hadTmp := os.LookupEnv("TMPDIR")
	defer func() {
		os.Chdir(cwd)
		cfg, fs, reposToClear, srcOnly, binariesOnly = oldCfg, oldFs, oldRepos, oldS, oldB
		for k, x := range map[string]struct {
			v  string
			ok bool
		}{"XDG_CACHE_HOME": {home, hadHome}, "TMPDIR": {tmp, hadTmp}} {
			if x.ok {
				os.Setenv(k, x.v)
			} else {
				os.Unsetenv(k)
			}
		}
	}()
	names := []string{"CRAN-889df4238bae", "cran-889df4238bae", "CRAN-889df4238ba", "CRAN", "MPN-0123456789ab", "MPN", "src", "binary", "r_validated", "a b", "MPN-0123456789ab-old"}
	kinds := []string{"src", "binary", "src2", "binary2", "SRC"}
	for i := 0; i < v.N(400) && v.More(); i++ {
		scratch := v.Scratch()
		top, err := filepath.EvalSymlinks(scratch)
		if err != nil {
			t.Fatal(err)
		}
		guard := &ccFs{Fs: afero.NewOsFs(), root: top}
		fs = guard
		work := filepath.Join(top, "work")
		os.MkdirAll(work, 0755)
		os.Setenv("XDG_CACHE_HOME", filepath.Join(top, "home", "cache"))
		os.Setenv("TMPDIR", filepath.Join(top, "tmp"))
		os.Chdir(work)
		set := v.R.Intn(3)
		cache, setting := filepath.Join(top, "home", "cache", "pkgr"), ""
		if set == 1 {
			cache = filepath.Join(top, "my cache")
			setting = cache
		} else if set == 2 {
			cache = filepath.Join(work, "rel", "cache")
			setting = "rel/cache"
		}
		var desc []string
		exists := v.R.Intn(12) > 0
		var have []string
		var sums, tars []string
		for j := 0; j < v.R.Intn(3); j++ {
			p := filepath.Join(work, fmt.Sprintf("pkg%d_1.0.tar.gz", j))
			text := fmt.Sprintf("tarball %d of %d", j, v.R.Intn(1000))
			if v.R.Intn(8) == 0 {
				text = ""
			}
			sum := fmt.Sprintf("%x", md5.Sum([]byte(text)))[:16]
			if v.R.Intn(6) > 0 {
				os.WriteFile(p, []byte(text), 0644)
				sums = append(sums, sum)
			}
			tars = append(tars, p)
			for _, d := range []string{cache, work, filepath.Join(top, "home", "cache")} {
				if exists || d != cache {
					os.MkdirAll(filepath.Join(d, sum, "pkg"), 0755)
					os.WriteFile(filepath.Join(d, sum, "pkg", "DESCRIPTION"), []byte("Package: p\n"), 0644)
				}
			}
		}
		if exists {
			os.MkdirAll(cache, 0755)
			os.MkdirAll(filepath.Join(cache, ".hidden", "src"), 0755)
			os.WriteFile(filepath.Join(cache, "file"), nil, 0644)
			os.MkdirAll(filepath.Join(cache, "1111222233334444", "pkg"), 0755)
			for _, n := range names {
				if v.R.Intn(2) == 0 {
					continue
				}
				have = append(have, n)
				os.MkdirAll(filepath.Join(cache, n), 0755)
				for _, k := range kinds {
					if v.R.Intn(3) == 0 {
						os.MkdirAll(filepath.Join(cache, n, k), 0755)
						if v.R.Intn(3) > 0 {
							os.WriteFile(filepath.Join(cache, n, k, "p_1.0.tar.gz"), nil, 0644)
						}
					}
				}
				if v.R.Intn(4) == 0 {
					os.WriteFile(filepath.Join(cache, n, "notes"), nil, 0644)
				}
			}
		}
		// folders of the same names outside the cache
		for _, d := range []string{work, filepath.Join(top, "home", "cache"), top} {
			for _, n := range names[:5] {
				os.MkdirAll(filepath.Join(d, n, "src"), 0755)
				os.MkdirAll(filepath.Join(d, n, "binary"), 0755)
			}
			os.MkdirAll(filepath.Join(d, "src"), 0755)
			os.MkdirAll(filepath.Join(d, "binary"), 0755)
		}
		var asked []string
		reposToClear = "ALL"
		if v.R.Intn(3) > 0 {
			for j := 0; j <= v.R.Intn(3); j++ {
				switch v.R.Intn(8) {
				case 0:
					asked = append(asked, v.Pick("", "..", ".", "../home", "*", "CRAN*", "file", ".hidden", "1111222233334444/pkg"))
				default:
					asked = append(asked, v.Pick(names...))
				}
			}
			reposToClear = strings.Join(asked, ",")
		}
		srcOnly, binariesOnly = v.R.Intn(3) == 0, v.R.Intn(3) == 0
		cfg = configlib.PkgrConfig{Cache: setting, Tarballs: tars}
		desc = append(desc, fmt.Sprintf("cache %q (in force: %s, there: %v), repositories %q, source only %v, binaries only %v, tarballs %q, in the cache %q",
			setting, strings.TrimPrefix(cache, top+"/"), exists, reposToClear, srcOnly, binariesOnly, tars, have))
		input := strings.Join(desc, "\n")
		before := ccTree(top)
		v.Case(input, func() { cleanCacheFolders() })
		gone := ccDiff(before, ccTree(top))
		rel := strings.TrimPrefix(cache, top+"/")
		for _, g := range gone {
			if !strings.HasPrefix(g, rel+"/") {
				v.Fail(input, "removed %s, which is outside the cache %s", g, rel)
				continue
			}
			p := strings.Split(strings.TrimPrefix(g, rel+"/"), "/")
			tarball := false
			for _, s := range sums {
				tarball = tarball || p[0] == s
			}
			if tarball && !(srcOnly && binariesOnly) {
				continue
			}
			named := reposToClear == "ALL"
			for _, a := range asked {
				named = named || a == p[0]
			}
			if named && p[0] == "1111222233334444" && len(p) > 1 {
				named = false
			}
			if !named {
				v.Fail(input, "removed %s, which belongs to nothing that was named", g)
				continue
			}
			if len(p) == 1 {
				// the folder of a repository: nothing else may have been in it
				for b := range before {
					q := strings.TrimPrefix(b, g+"/")
					if q != b && !ccKind(strings.Split(q, "/")[0]) {
						v.Fail(input, "removed %s, which held %s", g, q)
					}
				}
				continue
			}
			if !ccKind(p[1]) {
				v.Fail(input, "removed %s, which was not selected", g)
			}
		}
		for _, o := range guard.outside {
			v.Fail(input, "asked to remove %s", o)
		}
		os.Chdir(cwd)
		v.Drop(scratch)
	}
}

// ccKind: whether folders of this kind are removed under the flags
func ccKind(k string) bool {
	if srcOnly && binariesOnly {
		return false
	}
	return k == "src" && !binariesOnly || k == "binary" && !srcOnly
}

// dir: rcmd
package rcmd

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/spf13/afero"
)

// The DESCRIPTION of an installed package after it is stamped (perhaps several times, by installs from different
// repositories): the stamps of the last install stand at its end and nowhere else, every other line is there in order.
func TestVerifC22Stamp(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	n := v.N(1500)
	dir := v.Scratch()
	defer v.Drop(dir)
	fs := afero.NewOsFs()
	for i := 0; i < n && v.More(); i++ {
		pkg := v.Pick("R6", "data.table", "x")
		file := filepath.Join(dir, pkg, "DESCRIPTION")
		os.MkdirAll(filepath.Dir(file), 0755)
		pool := []string{"Package: " + pkg, "Version: 2.4.0", "Title: Sets PkgrVersion: and Repository: in files", "Description: The fields PkgrVersion:,", "    PkgrInstallType: and PkgrRepositoryURL are", "  Repository: not a field",
			"URL: https://x.org/PkgrRepositoryURL", "MyPkgrVersion: 3", "RepositoryX: y", "OriginalRepository: OLD", "Repository/R-Forge/Project: p", "Imports: a (>= 1.0), b", "PkgrVersions: 2", "Built: R 4.0.2; ; 2020", "Config/PkgrInstallType: z", "Author: A: B: C", "    .", "  spaces at its end  ", "\tPkgrVersion: 9", "", "Enc\u00f6ding: UTF-8", "Empty:", "#comment", "    "}
		var lines []string
		for _, k := range v.R.Perm(len(pool))[:1+v.R.Intn(len(pool)-1)] {
			lines = append(lines, pool[k])
		}
		put := func(l string) {
			k := v.R.Intn(len(lines) + 1)
			lines = append(lines[:k:k], append([]string{l}, lines[k:]...)...)
		}
		repos := []string{"CRAN", "MPN", "https://cran.org:8080/x", "my repo", "CRAN2"}
		if v.R.Intn(4) > 0 {
			put("Repository:" + v.Pick(" ", "", "  ") + repos[v.R.Intn(len(repos))] + v.Pick("", "", " "))
		}
		for _, s := range []string{"PkgrVersion: old", "PkgrInstallType: binary", "PkgrRepositoryURL: http://old", "PkgrRepositoryURL: http://older"} {
			if v.R.Intn(3) == 0 {
				put(s)
			}
		}
		if v.R.Intn(60) == 0 {
			put("Collate: " + strings.Repeat("'a.R' ", 12000))
		}
		eol := "\n"
		if v.R.Intn(12) == 0 {
			eol = "\r\n"
		}
		text := strings.Join(lines, eol)
		if v.R.Intn(5) > 0 {
			text += eol
		}
		input := fmt.Sprintf("%q", text)
		if len(input) > 5000 {
			input = input[:2000] + " ... (one line has 72000 characters) ... " + input[len(input)-500:]
		}
		os.WriteFile(file, []byte(text), 0644)
		times := 1 + v.R.Intn(3)
		type st struct {
			ver, url, repo string
			typ            cran.SourceType
		}
		var sts []st
		for j := 0; j < times; j++ {
			sts = append(sts, st{v.Pick("3.1.0", "dev", "1: x"), v.Pick("https://a.org/x", "http://b", "file:///c", "https://a.org/x/", "HTTPS://A.org/%7Ex?y=z#w", "../rel/", ""), repos[v.R.Intn(len(repos))], []cran.SourceType{cran.Source, cran.Binary}[v.R.Intn(2)]})
		}
		input += fmt.Sprintf(" stamped with %+v", sts)
		v.Case(input, func() {
			want := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
			for _, s := range sts {
				ir := InstallRequest{Package: pkg, ExecSettings: ExecSettings{PkgrVersion: s.ver}, Metadata: cran.Download{Metadata: cran.PkgDl{Config: cran.PkgConfig{Type: s.typ, Repo: cran.RepoURL{Name: s.repo, URL: s.url}}}}}
				writeDescriptionInfo(fs, ir, InstallArgs{Library: dir})
				var next []string
				for _, l := range want {
					field := ""
					if k := strings.Index(l, ":"); k > 0 {
						field = l[:k]
					}
					switch field {
					case "PkgrVersion", "PkgrInstallType", "PkgrRepositoryURL":
						continue
					case "Repository":
						was := strings.TrimSpace(l[len("Repository:"):])
						if was != s.repo {
							next = append(next, "OriginalRepository: "+was, "Repository: "+s.repo)
							continue
						}
					}
					next = append(next, l)
				}
				typ := "source"
				if s.typ == cran.Binary {
					typ = "binary"
				}
				want = append(next, "PkgrVersion: "+s.ver, "PkgrInstallType: "+typ, "PkgrRepositoryURL: "+s.url)
			}
			b, _ := os.ReadFile(file)
			got := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
			// the two repository lines may come in either order, the stamps too
			if d := stDiff(got, want); d != "" {
				v.Fail(input, "%s; the file is now %.1500q", d, string(b))
			}
		})
	}
}

// stDiff: the lines but for the order of neighbouring Repository and OriginalRepository lines, and of the last three.
func stDiff(got, want []string) string {
	norm := func(l []string) []string {
		l = append([]string{}, l...)
		for i := range l {
			l[i] = strings.TrimRight(l[i], "\r")
		}
		for i := 0; i+1 < len(l); i++ {
			if strings.HasPrefix(l[i], "Repository:") && strings.HasPrefix(l[i+1], "OriginalRepository:") {
				l[i], l[i+1] = l[i+1], l[i]
			}
		}
		if n := len(l); n >= 3 {
			for i := n - 3; i < n; i++ {
				for j := i + 1; j < n; j++ {
					if l[j] < l[i] {
						l[i], l[j] = l[j], l[i]
					}
				}
			}
		}
		return l
	}
	g, w := norm(got), norm(want)
	for i := range w {
		if i >= len(g) {
			return fmt.Sprintf("line %.200q is missing", w[i])
		}
		if g[i] != w[i] {
			return fmt.Sprintf("line %d is %.200q, not %.200q", i+1, g[i], w[i])
		}
	}
	if len(g) > len(w) {
		return fmt.Sprintf("there is another line %.200q", g[len(w)])
	}
	return ""
}

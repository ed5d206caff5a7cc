// dir: configlib
package configlib

import (
	"fmt"
	"strings"
)

// Configuration files: sections in any order, a Packages list in one of its layouts, other sections with items that look
// like packages, comments, blank lines, either line ending, with or without a final newline.

var ywNames = []string{"R6", "R6P", "R6.x", "r6", "dplyr", "dplyr2", "d", "data.table", "pillar", "CRAN", "devtools", "R"}

type ywFile struct {
	Text   string
	Listed []string
	Has    bool
}

func (v *verifRun) ywFile() ywFile {
	var f ywFile
	ind := strings.Repeat(" ", v.R.Intn(5))
	perm := v.R.Perm(len(ywNames))
	comment := func() string {
		return v.Pick("# a comment", "# - R6", "  # - dplyr, as needed", "#Packages:", "", "   ")
	}
	var secs [][]string
	if v.R.Intn(6) > 0 {
		f.Has = true
		l := []string{v.Pick("Packages:", "Packages:", "Packages:  ", "Packages: # top level: - R6")}
		n := v.R.Intn(6)
		if v.R.Intn(5) == 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			for v.R.Intn(4) == 0 {
				l = append(l, comment())
			}
			p := ywNames[perm[i]]
			f.Listed = append(f.Listed, p)
			it := ind + "- " + p
			switch v.R.Intn(8) {
			case 0:
				it = ind + `- "` + p + `"`
			case 1:
				it = ind + "- '" + p + "'"
			case 2:
				it = ind + "-   " + p + " # not " + ywNames[perm[(i+1)%len(perm)]]
			case 3:
				it += "  "
			}
			l = append(l, it)
		}
		for v.R.Intn(4) == 0 {
			l = append(l, comment())
		}
		secs = append(secs, l)
	}
	other := [][]string{
		{"Repos:", "  - CRAN: \"https://cran.example.org/a-b\"", "  - MPN: 'https://mpn.example.org/-'"},
		{"Library: \"test-library\""},
		{"Descriptions:", "- R6", "- dplyr/DESCRIPTION"},
		{"Tarballs:", "    - R6", "    - dplyr"},
		{"IgnorePackages:", " - R6", " - pillar", " - d"},
		{"Customizations:", "  Packages:", "    - R6:", "        Suggests: true", "    - dplyr:", "        Env:", "          X: \"- R6\""},
		{"Logging:", "  all: log-all.txt"},
		{"Suggests: true"},
		{"Rpath: R-4"},
	}
	for _, i := range v.R.Perm(len(other))[:v.R.Intn(5)] {
		secs = append(secs, other[i])
	}
	v.R.Shuffle(len(secs), func(i, j int) { secs[i], secs[j] = secs[j], secs[i] })
	secs = append([][]string{{"Version: 1"}}, secs...)
	if v.R.Intn(3) == 0 && len(secs) > 1 {
		secs = secs[1:]
	}
	var lines []string
	for _, s := range secs {
		for v.R.Intn(3) == 0 {
			lines = append(lines, comment())
		}
		lines = append(lines, s...)
	}
	if v.R.Intn(40) == 0 {
		lines = append([]string{"# " + strings.Repeat("long ", 14000)}, lines...)
	}
	eol := "\n"
	if v.R.Intn(8) == 0 {
		eol = "\r\n"
	}
	f.Text = strings.Join(lines, eol)
	if v.R.Intn(4) > 0 && f.Text != "" {
		f.Text += eol
	}
	return f
}

func ywShow(s string) string {
	if len(s) > 3000 {
		return fmt.Sprintf("%q... (%d bytes)", s[:200]+" ... "+s[len(s)-1500:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// dir: configlib
package configlib

import (
	"testing"

	"github.com/metrumresearchgroup/pkgr/rcmd"
)

// Which settings are there for which package: exactly those under exactly that name.
func TestVerifC30Settings(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	names := []string{"glm", "glmnet", "gl", "GLM", "R6", "r6", "data.table", "dataxtable", "Suggests", "Type"}
	keys := []string{"Suggests", "Type", "Repo", "Env", "suggests"}
	for i := 0; i < v.N(3000) && v.More(); i++ {
		var raw []interface{}
		var c Customizations
		type ent struct {
			Name string
			Keys []string
		}
		var in []ent
		for k := v.R.Intn(5); k > 0; k-- {
			m := map[interface{}]interface{}{}
			cm := map[string]PkgConfig{}
			rm := map[string]RepoConfig{}
			for j := 1 + v.R.Intn(2); j > 0; j-- {
				n := v.Pick(names...)
				s := map[interface{}]interface{}{}
				e := ent{Name: n}
				pc := PkgConfig{Type: v.Pick("", "source", "binary"), Repo: v.Pick("", "CRAN")}
				for _, key := range keys {
					if v.R.Intn(3) == 0 {
						s[key] = []interface{}{true, false, "", "x", 0, nil}[v.R.Intn(6)]
						e.Keys = append(e.Keys, key)
						if key == "Env" {
							pc.Env = map[string]string{"A": v.Pick("1", "2", "")}
						}
					}
				}
				if _, has := m[n]; has {
					continue
				}
				m[n] = s
				cm[n] = pc
				rm[n] = RepoConfig{Type: pc.Type, RepoSuffix: v.Pick("", "s1", "s2")}
				in = append(in, e)
			}
			raw = append(raw, m)
			c.Packages = append(c.Packages, cm)
			c.Repos = append(c.Repos, rm)
		}
		v.Case(in, func() {
			rs := rcmd.RSettings{PkgEnvVars: map[string]map[string]string{"other": {"X": "1"}}}
			rs = SetCustomizations(rs, PkgrConfig{Customizations: c})
			if len(rs.PkgEnvVars["other"]) != 1 {
				v.Fail(in, "the environment of another package changed")
			}
			for _, n := range names {
				for _, key := range keys {
					want := false
					for _, e := range in {
						for _, k := range e.Keys {
							want = want || (e.Name == n && k == key)
						}
					}
					if got := IsCustomizationSet(key, raw, n); got != want {
						v.Fail(in, "IsCustomizationSet(%s, %s) = %v", key, n, got)
					}
				}
				var pc PkgConfig
				var rc RepoConfig
				var env map[string]string
				found := false
				for k := range c.Packages {
					if x, ok := c.Packages[k][n]; ok {
						if !found {
							found, pc, rc = true, x, c.Repos[k][n]
						}
						if x.Env != nil {
							env = x.Env
						}
					}
				}
				if g, ok := GetPackageCustomizationByName(n, c); ok != found || g.Type != pc.Type || g.Repo != pc.Repo || g.Suggests != pc.Suggests {
					v.Fail(in, "customization of %s: %v %v, want %v %v", n, g, ok, pc, found)
				}
				if g, ok := GetRepoCustomizationByName(n, c); ok != found || g != rc {
					v.Fail(in, "repository customization of %s: %v %v, want %v %v", n, g, ok, rc, found)
				}
				if g := rs.PkgEnvVars[n]; len(g) != len(env) || g["A"] != env["A"] {
					v.Fail(in, "environment of %s: %v, want %v", n, g, env)
				}
			}
		})
	}
}

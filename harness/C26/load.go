// dir: cmd
package cmd

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/metrumresearchgroup/pkgr/rcmd"
)

func lrText(v *verifRun) string {
	return v.Pick("", "Error in library(x) : there is no package called <x> & \"y\"", "line one\nline two", "a\\b\t<é>", "warning: 100%")
}

// TestVerifLoadReport adds random results and compares the report with them.
func TestVerifLoadReport(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	type added struct {
		Pkg    string
		Result LoadResult
	}
	for i := 0; i < v.N(1500) && v.More(); i++ {
		md := RSessionMetadata{LibPaths: []string{lrText(v)}, RPath: "R", RVersion: "4.0.0"}
		n := v.R.Intn(7)
		var seq []added
		for j := 0; j < n; j++ {
			pkg := v.Pick("R6", "r6", "digest", "data.table", "R6.1", "R")
			r := LoadResult{Package: pkg, Version: v.Pick("1.0", ""), Path: "/lib/" + pkg, Exiterr: v.Pick("", "exit status 1"), Stdout: lrText(v), Stderr: lrText(v), Success: v.R.Intn(2) == 0}
			seq = append(seq, added{pkg, r})
		}
		var text string
		var rep LoadReport
		v.Case(seq, func() {
			rep = InitLoadReport(md)
			for _, a := range seq {
				rep.AddResult(a.Pkg, a.Result)
			}
			text = lrPrinted(v, rep)
		})
		want := map[string]LoadResult{}
		for _, a := range seq {
			want[a.Pkg] = a.Result
		}
		failed := 0
		for _, r := range want {
			if !r.Success {
				failed++
			}
		}
		if !reflect.DeepEqual(want, rep.LoadResults) {
			v.Fail(seq, "the report holds %+v", rep.LoadResults)
		}
		if rep.Failures != failed {
			v.Fail(seq, "the report counts %d failures, %d packages did not load", rep.Failures, failed)
		}
		var back LoadReport
		if err := json.Unmarshal([]byte(text), &back); err != nil {
			v.Fail(seq, "the printed report is not JSON (%v): %s", err, text)
		} else if back.Failures != failed || len(back.LoadResults) != len(want) || len(want) > 0 && !reflect.DeepEqual(back.LoadResults, want) || !reflect.DeepEqual(back.RMetadata, md) {
			v.Fail(seq, "the printed report says %+v", back)
		}
	}
}

func lrPrinted(v *verifRun, rep LoadReport) string {
	d := v.Scratch()
	defer v.Drop(d)
	f, err := os.Create(filepath.Join(d, "out"))
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = f
	func() {
		defer func() { os.Stdout = old }()
		printJsonLoadReport(rep)
	}()
	f.Close()
	b, _ := ioutil.ReadFile(f.Name())
	return string(b)
}

// TestVerifLoadAttempt loads packages with an R that succeeds or fails as told.
func TestVerifLoadAttempt(t *testing.T) {
	v := verifStart(t)
	defer v.Done()
	for i := 0; i < v.N(150) && v.More(); i++ {
		d := v.Scratch()
		pkgs := []string{"R6", "data.table", "x"}[:1+v.R.Intn(3)]
		type told struct {
			Code          int
			Out, Err      string
			InfoCode      int
			Info, InfoErr string
		}
		plan := map[string]told{}
		script := "#!/bin/sh\ncase \"$4\" in\n"
		for j, p := range pkgs {
			w := told{Code: []int{0, 0, 1, 2, 255}[v.R.Intn(5)], Out: v.Pick("", "hello", "one\ntwo"), Err: v.Pick("", "Error: no package", "warning\nmore"),
				InfoCode: v.R.Intn(2), Info: v.Pick("[1] \"/lib/x\"\n[1] \"1.2.3\"", "", "one"), InfoErr: v.Pick("", "info failed")}
			plan[p] = w
			for k, s := range []string{w.Out, w.Err, w.Info, w.InfoErr} {
				ioutil.WriteFile(filepath.Join(d, fmt.Sprintf("t%d%d", j, k)), []byte(s), 0644)
			}
			script += fmt.Sprintf("\"library('%s')\") cat %s/t%d0; cat %s/t%d1 >&2; exit %d;;\n", p, d, j, d, j, w.Code)
			script += fmt.Sprintf("\"find.package('%s')\"*) cat %s/t%d2; cat %s/t%d3 >&2; exit %d;;\n", p, d, j, d, j, w.InfoCode)
		}
		script += "*) exit 77;;\nesac\n"
		bin := filepath.Join(d, "R")
		ioutil.WriteFile(bin, []byte(script), 0755)
		rs := rcmd.RSettings{Rpath: bin}
		sem, out := make(chan int, 2), make(chan LoadResult, len(pkgs))
		rep := InitLoadReport(RSessionMetadata{})
		v.Case(plan, func() {
			if v.R.Intn(2) == 0 {
				for _, p := range pkgs {
					go attemptLoadConcurrent(LoadRequest{rs, d, p}, sem, out)
				}
				for range pkgs {
					r := <-out
					rep.AddResult(r.Package, r)
				}
			} else {
				for _, p := range pkgs {
					r := attemptLoad(rs, d, p)
					rep.AddResult(r.Package, r)
				}
			}
		})
		failed := 0
		for _, p := range pkgs {
			w := plan[p]
			r, ok := rep.LoadResults[p]
			ex := ""
			if w.Code != 0 {
				failed++
				ex = fmt.Sprintf("exit status %d", w.Code)
			}
			if !ok || r.Success != (w.Code == 0) {
				v.Fail(plan, "%s: R exited with %d, the report says loaded: %v (reported: %v)", p, w.Code, r.Success, ok)
			} else if r.Package != p || r.Exiterr != ex || r.Stdout != strings.TrimSpace(w.Out) || r.Stderr != strings.TrimSpace(w.Err) {
				v.Fail(plan, "%s: the result is %+v", p, r)
			}
		}
		if rep.Failures != failed {
			v.Fail(plan, "the report counts %d failures, %d packages did not load", rep.Failures, failed)
		}
		v.Drop(d)
	}
}

package main

// gvc check: decides one property and writes its evidence.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type replayRec struct {
	Property string      `json:"property"`
	Test     string      `json:"test"`
	Key      string      `json:"key,omitempty"`
	Input    interface{} `json:"input"`
	Detail   string      `json:"detail"`
}

type harnessRes struct {
	Ran      bool
	Note     string
	Fails    []replayRec
	Known    []replayRec
	Cases    int
	Distinct int
	Samples  []interface{}
	Tests    []string
	Output   string
	WallS    float64
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	root := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	noH := fs.Bool("noharness", false, "")
	fs.Parse(args)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	t0 := time.Now()
	os.MkdirAll(filepath.Join(*root, "evidence"), 0755)
	replay := filepath.Join(*root, "evidence", "replay-"+*prop+".txt")
	os.Remove(replay)
	evFile := filepath.Join(*root, "evidence", *prop+".json")
	os.Remove(evFile)

	hc := make(chan *harnessRes, 1)
	sol := newSolver()
	defer sol.close()
	sol.stop = t0.Add(640 * time.Second)
	if tier == "thorough" {
		sol.stop = t0.Add(3 * time.Hour)
	}
	go func() {
		if *noH {
			hc <- &harnessRes{Note: "switched off"}
			return
		}
		h := runHarness(*repo, *root, *prop, tier, seed)
		known := readKnown(filepath.Join(*root, "known-findings.txt"), *prop)
		for _, f := range h.Fails {
			if _, ok := known[f.Key]; !ok || f.Key == "" {
				atomic.StoreInt32(&sol.fast, 1)
			}
		}
		hc <- h
	}()

	sp := loadSpecs(filepath.Join(*root, "contracts"))
	e, lerr := loadEngine(*repo, sp, patterns)
	if lerr != nil {
		fmt.Println("cannot load /repo:", lerr)
		os.Exit(2)
	}
	e.sol = sol
	if tier == "thorough" {
		e.sol.oblMS, e.sol.batchMS = 60000, 6000
	}

	known := readKnown(filepath.Join(*root, "known-findings.txt"), *prop)
	var results []*FuncResult
	done := map[string]bool{}
	var queue []string
	for _, n := range sp.LemmaOrd {
		if sp.Lemmas[n].Proof && hasProp(sp.Lemmas[n].Props, *prop) {
			queue = append(queue, "lemma "+n)
		}
	}
	direct := map[string]bool{}
	for _, n := range sp.Order {
		if hasProp(sp.Contracts[n].Props, *prop) && !sp.Contracts[n].Trusted {
			queue = append(queue, n)
			direct[n] = true
		}
	}
	trusted := map[string]bool{}
	assumed := map[string]bool{}
	inlined := map[string]bool{}
	warn := map[string]bool{}
	solverCount := map[string]int{}
	var solverMS int64
	type failure struct{ Func, Kind, Name, Pos, Detail, Status string; O *Obl; R *FuncResult }
	var fails []failure
	total, discharged, invs := 0, 0, 0
	var perFn []map[string]interface{}
	verifyOne := func(n string) (*FuncResult, []failure) {
		var r *FuncResult
		if strings.HasPrefix(n, "lemma ") {
			r = e.verifyLemma(strings.TrimPrefix(n, "lemma "))
		} else {
			r = e.verify(sp.Contracts[n])
		}
		e.sol.decideAll(r.Obls)
		var fl []failure
		if r.Err != "" {
			fl = append(fl, failure{Func: n, Kind: "reach", Name: "within_reach", Detail: r.Err, R: r})
		}
		for _, o := range r.Obls {
			if o.Smoke {
				if o.Status == "proved" {
					fl = append(fl, failure{Func: n, Kind: "smoke", Name: "some_return_reachable", Detail: "the contract's preconditions, or the contracts it uses, contradict the code: no return is reachable", O: o, R: r})
				}
				continue
			}
			if o.Status != "proved" {
				fl = append(fl, failure{Func: n, Kind: o.Kind, Name: o.Name, Pos: o.Pos, Detail: o.Detail, Status: o.Status, O: o, R: r})
			}
		}
		return r, fl
	}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if done[n] {
			continue
		}
		done[n] = true
		r, fl := verifyOne(n)
		if len(fl) > 0 && r.Err == "" && atomic.LoadInt32(&sol.fast) == 0 && time.Since(t0) < 400*time.Second { // once more with more time, so that a slow machine is no failed proof
			om, bm := e.sol.oblMS, e.sol.batchMS
			e.sol.oblMS, e.sol.batchMS = om*2, bm*3
			e.sol.forget()
			r, fl = verifyOne(n)
			e.sol.oblMS, e.sol.batchMS = om, bm
		}
		for _, f := range fl {
			if _, ok := known[f.Func+"/"+f.Name]; !ok {
				atomic.StoreInt32(&sol.fast, 1)
			}
		}
		results = append(results, r)
		fails = append(fails, fl...)
		ok, tot := 0, 0
		var ms int64
		for _, o := range r.Obls {
			if o.Smoke {
				continue
			}
			tot++
			ms += o.TimeMS
			if o.Status == "proved" {
				ok++
				b := o.Solver
				if b == "" {
					b = "simplifier"
				}
				solverCount[b]++
			}
		}
		if r.Err != "" {
			tot++
		}
		total += tot
		discharged += ok
		invs += r.InvCount
		solverMS += ms
		m := map[string]interface{}{"function": n, "obligations": tot, "discharged": ok, "loop_invariants_proved_inductive": r.InvCount, "solver_ms": ms}
		if r.Err != "" {
			m["not_within_reach"] = r.Err
		}
		perFn = append(perFn, m)
		for _, x := range r.Trusted {
			trusted[x] = true
		}
		for _, x := range r.Assumed {
			assumed[x] = true
		}
		for _, x := range r.Inlined {
			inlined[x] = true
		}
		for _, x := range r.Warn {
			warn[x] = true
		}
		for _, x := range r.Contracts {
			if strings.HasPrefix(x, "lemma ") {
				queue = append(queue, x)
			} else if c := sp.Contracts[x]; c != nil && !c.Trusted {
				queue = append(queue, x)
			}
		}
	}
	h := <-hc
	var newFails []failure
	for _, f := range fails {
		k := f.Func + "/" + f.Name
		if t, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, t)
			continue
		}
		newFails = append(newFails, f)
	}
	for _, k := range h.Known {
		_ = k
	}
	var hf []replayRec
	seenK := map[string]bool{}
	for _, f := range h.Fails {
		if t, ok := known[f.Key]; ok && f.Key != "" {
			if !seenK[f.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, t)
			}
			seenK[f.Key] = true
			continue
		}
		hf = append(hf, f)
	}
	exit := 0
	viol := 0
	if len(newFails) > 0 || len(hf) > 0 {
		exit = 1
		viol = len(newFails) + len(hf)
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: violation found by %s\n\n", *prop, checkerCmd(*prop))
		for i, f := range newFails {
			fmt.Fprintf(&b, "FAILED OBLIGATION %s / %s (%s) at %s: %s\n  %s\n", f.Func, f.Name, f.Kind, f.Pos, f.Status, strings.TrimSpace(f.Detail))
			fmt.Printf("failed obligation: %s / %s (%s) at %s: %s\n", f.Func, f.Name, f.Kind, f.Pos, f.Status)
			if f.Kind == "reach" {
				fmt.Println("   ", f.Detail)
			}
			if i < 4 && f.O != nil && !f.O.Smoke && f.O.ctx != nil {
				fmt.Fprintf(&b, "  goal: %s\n", clip(f.O.goal, 3000))
				fmt.Fprintf(&b, "  solver model of the inputs (may be partial): %s\n", clip(e.sol.model(f.O, f.R.ParamTerms), 2000))
			}
		}
		for _, f := range hf {
			j, _ := json.MarshalIndent(f, "", "  ")
			fmt.Fprintf(&b, "\nFAILING INPUT, replayed against the real code:\n%s\n", j)
			fmt.Printf("failing input (%s): %s\n", f.Test, clip(f.Detail, 600))
		}
		if h.Note != "" {
			fmt.Fprintf(&b, "\nreplay harness: %s\n", h.Note)
		}
		fmt.Fprintf(&b, "\nreplay: cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s\nharness output:\n%s\n", seed, tier, *prop, clip(h.Output, 6000))
		ioutil.WriteFile(replay, []byte(b.String()), 0644)
		suffix := ""
		if len(hf) == 0 {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, replay, suffix)
	}
	if h.Note != "" {
		fmt.Println("replay harness:", h.Note)
	}

	ev := map[string]interface{}{
		"property": *prop, "tier": tier, "seed": seed, "level": "proof",
		"wall_s":     float64(int(time.Since(t0).Seconds()*10)) / 10,
		"violations": viol,
	}
	var tb []string
	for _, x := range sortedKeys(trusted) {
		tb = append(tb, "assumed contract: "+x)
	}
	tb = append(tb, "gvc (/verif/gvc): go/ssa to SMT-LIB verification-condition generator", "golang.org/x/tools/go/ssa", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2")
	var as []string
	as = append(as, "Go int is a mathematical integer (no overflow)", "no data race, no panic outside the listed safety obligations, no memory exhaustion", "library calls without a contract return an arbitrary value and write only what their arguments point to", "logging and printing have no effect on the verified state")
	as = append(as, sortedKeys(assumed)...)
	for _, w := range sortedKeys(warn) {
		as = append(as, "note: "+w)
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": discharged,
		"checker_cmd":              checkerCmd(*prop),
		"trusted_base":             tb,
		"functions_under_contract": perFn,
		"functions_inlined":        sortedKeys(inlined),
		"loop_invariants":          invs,
		"backends":                 solverCount,
		"solver_ms":                solverMS,
		"solver_queries":           e.sol.queries,
		"houdini_ms":               e.sol.houdMS,
		"replay_harness": map[string]interface{}{"note": "seeded runs of the real code against an independent oracle; they replay a failed obligation as a concrete input and test the assumed contracts; bounded, never counted as proved",
			"tests": h.Tests, "cases": h.Cases, "distinct_cases": h.Distinct, "samples": h.Samples, "remark": h.Note, "wall_s": h.WallS},
	}
	ev["coverage"] = cov
	ev["assumptions"] = as
	j, _ := json.MarshalIndent(ev, "", " ")
	ioutil.WriteFile(evFile, append(j, '\n'), 0644)
	fmt.Printf("%s: %d/%d obligations discharged over %d functions and lemmas, %d loop invariants; harness %d cases; %.1fs\n", *prop, discharged, total, len(results), invs, h.Cases, time.Since(t0).Seconds())
	if total == 0 {
		fmt.Println("no contract is registered for", *prop)
		e.sol.close()
		os.Exit(2)
	}
	e.sol.close()
	os.Exit(exit)
}

func checkerCmd(p string) string { return "/verif/check.sh " + p }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

// readKnown: lines "known: property=<id> key=<key> <text>".
func readKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" key=")
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			continue
		}
		m[rest[:i]] = rest[i+1:]
	}
	return m
}

var pkgLine = regexp.MustCompile(`(?m)^// dir: (\S+)`)

// runHarness overlays /verif/harness/<prop>/*.go as in-package tests of /repo and runs them.
func runHarness(repo, root, prop, tier string, seed int) *harnessRes {
	t0 := time.Now()
	h := &harnessRes{}
	defer func() { h.WallS = float64(int(time.Since(t0).Seconds()*10)) / 10 }()
	files, _ := filepath.Glob(filepath.Join(root, "harness", prop, "*.go"))
	if len(files) == 0 {
		h.Note = "none for this property"
		return h
	}
	sort.Strings(files)
	work, err := ioutil.TempDir("", "verif-h-")
	if err != nil {
		h.Note = err.Error()
		return h
	}
	defer func() {
		exec.Command("chmod", "-R", "u+w", work).Run()
		os.RemoveAll(work)
	}()
	os.Chmod(work, 0755)
	common, err := ioutil.ReadFile(filepath.Join(root, "harness", "common.go.txt"))
	if err != nil {
		h.Note = err.Error()
		return h
	}
	rep := map[string]string{}
	dirs := []string{}
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := ioutil.ReadFile(f)
		m := pkgLine.FindSubmatch(b)
		if m == nil {
			continue
		}
		d := string(m[1])
		rep[filepath.Join(repo, d, "verif_"+strings.ToLower(prop)+"_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")] = f
		if !seen[d] {
			seen[d] = true
			dirs = append(dirs, d)
			pk := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b)
			c := bytes.Replace(common, []byte("package PKG"), []byte("package "+string(pk[1])), 1)
			cf := filepath.Join(work, "common_"+strings.ReplaceAll(d, "/", "_")+".go")
			ioutil.WriteFile(cf, c, 0644)
			rep[filepath.Join(repo, d, "verif_common_test.go")] = cf
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(work, "overlay.json")
	ioutil.WriteFile(ovf, ov, 0644)
	lim := 240
	if tier == "thorough" {
		lim = 600
	}
	for _, d := range dirs {
		bin := filepath.Join(work, "t_"+strings.ReplaceAll(d, "/", "_"))
		c := exec.Command("go", "test", "-overlay", ovf, "-vet=off", "-c", "-o", bin, "./"+d)
		c.Dir = repo
		if out, err := c.CombinedOutput(); err != nil {
			h.Note += "the harness for " + d + " does not compile against the current tree, so nothing was replayed there; "
			h.Output += string(out)
			continue
		}
		scratch := filepath.Join(work, "s_"+strings.ReplaceAll(d, "/", "_"))
		os.MkdirAll(scratch, 0777)
		outf := filepath.Join(work, "out_"+strings.ReplaceAll(d, "/", "_")+".jsonl")
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(lim+20)*time.Second)
		r := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif", "-test.timeout", fmt.Sprintf("%ds", lim), "-test.v")
		r.Dir = scratch
		r.Env = append(os.Environ(), "VERIF_OUT="+outf, "VERIF_PROP="+prop, "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_SCRATCH="+scratch,
			"TMPDIR="+scratch, "HOME="+scratch, "XDG_CACHE_HOME="+scratch, "REPO="+repo)
		out, err := r.CombinedOutput()
		cancel()
		h.Ran = true
		h.Output += tail(string(out), 6000)
		recs, last := readOut(outf)
		for _, x := range recs {
			switch x["kind"] {
			case "fail":
				f := replayRec{Property: prop, Test: str(x["test"]), Key: str(x["key"]), Input: x["input"], Detail: str(x["detail"])}
				h.Fails = append(h.Fails, f)
			case "stat":
				h.Cases += int(num(x["cases"]))
				h.Distinct += int(num(x["distinct"]))
				h.Tests = append(h.Tests, str(x["test"]))
				if s, ok := x["samples"].([]interface{}); ok && len(h.Samples) < 6 {
					h.Samples = append(h.Samples, s...)
				}
			case "note":
				h.Note += str(x["detail"]) + "; "
			}
		}
		if err != nil {
			got := false
			for _, x := range recs {
				got = got || x["kind"] == "fail"
			}
			if !got {
				o := string(out)
				switch {
				case strings.Contains(o, "test timed out"):
					h.Note += "the harness for " + d + " ran out of time; "
				case strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:"):
					// the process died while the code under test ran on the case recorded last
					h.Fails = append(h.Fails, replayRec{Property: prop, Test: str(last["test"]), Input: last["input"], Detail: "the code crashed on this input: " + crashLine(o)})
				default:
					h.Note += "the harness for " + d + " ended abnormally (" + err.Error() + "); "
				}
			}
		}
	}
	return h
}

func crashLine(o string) string {
	for _, l := range strings.Split(o, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return clip(l, 300)
		}
	}
	return ""
}

func str(x interface{}) string { s, _ := x.(string); return s }
func num(x interface{}) float64 { f, _ := x.(float64); return f }
func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func readOut(f string) ([]map[string]interface{}, map[string]interface{}) {
	b, _ := ioutil.ReadFile(f)
	var rs []map[string]interface{}
	for _, l := range strings.Split(string(b), "\n") {
		m := map[string]interface{}{}
		if json.Unmarshal([]byte(l), &m) == nil && len(m) > 0 {
			rs = append(rs, m)
		}
	}
	last := map[string]interface{}{}
	if c, err := ioutil.ReadFile(f + ".case"); err == nil {
		json.Unmarshal(c, &last)
	}
	return rs, last
}

package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	dir     string
	sem     chan struct{}
	mu      sync.Mutex
	cache   map[string]bool
	batchMS int
	oblMS   int
	queries int64
	wallMS  int64
	houdMS  int64
	n       int64
	// once the answer is known to be a violation, the remaining obligations get little time; after stop, none
	fast int32
	stop time.Time
}

func (s *Solver) past() bool { return !s.stop.IsZero() && time.Now().After(s.stop) }

func newSolver() *Solver {
	d, err := os.MkdirTemp("", "gvc")
	if err != nil {
		panic(err)
	}
	return &Solver{dir: d, sem: make(chan struct{}, 8), cache: map[string]bool{}, batchMS: 2500, oblMS: 20000}
}

// forget drops negative answers, which may have come from a time limit.
func (s *Solver) forget() {
	for k, v := range s.cache {
		if !v {
			delete(s.cache, k)
		}
	}
}

func (s *Solver) close() { os.RemoveAll(s.dir) }

func script(c *Ctx, body []string, guard string) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, d := range c.decls {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	for _, d := range body {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	if guard != "true" {
		b.WriteString("(assert " + guard + ")\n")
	}
	return b.String()
}

func (s *Solver) file(txt string) string {
	n := atomic.AddInt64(&s.n, 1)
	f := filepath.Join(s.dir, fmt.Sprintf("q%d.smt2", n))
	if err := os.WriteFile(f, []byte(txt), 0644); err != nil {
		panic(err)
	}
	return f
}

func (s *Solver) dump(path string, c *Ctx, guard, goal string) {
	os.WriteFile(path, []byte(script(c, c.body, guard)+"(assert (not "+goal+"))\n(check-sat)\n"), 0644)
}

func run(ctx context.Context, tool string, args ...string) string {
	cmd := exec.CommandContext(ctx, tool, args...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	return out.String()
}

// batch decides which of the goals follow from the context (used to select loop invariants).
func (s *Solver) batch(c *Ctx, guard string, goals []string) []bool {
	t0 := time.Now()
	defer func() { s.houdMS += time.Since(t0).Milliseconds() }()
	res := make([]bool, len(goals))
	base := script(c, c.body, guard)
	h := sha256.Sum256([]byte(base))
	var todo []int
	keys := make([]string, len(goals))
	for i, g := range goals {
		if g == "true" {
			res[i] = true
			continue
		}
		if g == "false" && guard != "false" {
			continue
		}
		keys[i] = fmt.Sprintf("%x|%s", h, g)
		if r, ok := s.cache[keys[i]]; ok {
			res[i] = r
			continue
		}
		todo = append(todo, i)
	}
	if len(todo) == 0 {
		return res
	}
	if s.past() {
		return res
	}
	pass := func(todo []int, extra ...string) {
		nproc := 8
		if len(todo) < nproc {
			nproc = len(todo)
		}
		var wg sync.WaitGroup
		for p := 0; p < nproc; p++ {
			var mine []int
			for k := p; k < len(todo); k += nproc {
				mine = append(mine, todo[k])
			}
			wg.Add(1)
			go func(mine []int) {
				defer wg.Done()
				s.sem <- struct{}{}
				defer func() { <-s.sem }()
				var b strings.Builder
				b.WriteString(base)
				for _, i := range mine {
					b.WriteString("(push)\n(assert (not " + goals[i] + "))\n(check-sat)\n(pop)\n")
				}
				f := s.file(b.String())
				defer os.Remove(f)
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.batchMS*len(mine)+5000)*time.Millisecond)
				defer cancel()
				args := []string{fmt.Sprintf("-t:%d", s.batchMS)}
				if !c.theoryStr {
					args = append(args, "auto_config=false", "smt.mbqi=false")
				}
				args = append(args, extra...)
				out := run(ctx, "z3-new", append(args, f)...)
				atomic.AddInt64(&s.queries, int64(len(mine)))
				k := 0
				for _, l := range strings.Split(out, "\n") {
					l = strings.TrimSpace(l)
					if strings.HasPrefix(l, "(error") {
						fmt.Fprintln(os.Stderr, "solver:", l)
						os.WriteFile("/tmp/gvc_error.smt2", []byte(b.String()), 0644)
					}
					if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
						if k < len(mine) {
							res[mine[k]] = l == "unsat"
						}
						k++
					}
				}
			}(mine)
		}
		wg.Wait()
	}
	pass(todo)
	if !c.theoryStr {
		var again []int // quantified goals once more, with every subformula relevant for instantiation
		for _, i := range todo {
			if !res[i] && strings.Contains(goals[i], "(forall") {
				again = append(again, i)
			}
		}
		if len(again) > 0 {
			pass(again, "smt.relevancy=0")
		}
	}
	for _, i := range todo {
		s.cache[keys[i]] = res[i]
	}
	return res
}

type backend struct {
	name string
	args []string
}

// decide runs the portfolio on one obligation.
func (s *Solver) decide(o *Obl) {
	if o.Status == "proved" {
		return
	}
	txt := script(o.ctx, o.body, o.guard) + "(assert (not " + o.goal + "))\n(check-sat)\n"
	key := fmt.Sprintf("%x", sha256.Sum256([]byte(txt)))
	o.Hash = key[:12]
	t0 := time.Now()
	f := s.file(txt)
	defer os.Remove(f)
	if s.past() {
		o.Status, o.Detail = "unproved", "the time for this check was used up"
		return
	}
	lim := s.oblMS
	if o.Timeout > 0 {
		lim = o.Timeout * 1000
	}
	if atomic.LoadInt32(&s.fast) == 1 && lim > 4000 {
		lim = 4000
	}
	if o.Smoke {
		lim = 1000
	}
	one := func(ctx context.Context, b backend, ms int) string {
		args := append([]string{}, b.args...)
		tool := b.name
		switch {
		case strings.HasPrefix(tool, "cvc5"):
			if t2 := noConstArrays(txt); t2 != txt {
				f := s.file(t2)
				defer os.Remove(f)
				out := run(ctx, "cvc5", append(append(args, fmt.Sprintf("--tlimit=%d", ms)), f)...)
				for _, l := range strings.Split(out, "\n") {
					switch l = strings.TrimSpace(l); l {
					case "unsat", "unknown": // the axiom replaces a definition: a model is not to be trusted
						return l
					}
				}
				return "timeout"
			}
			args = append(args, fmt.Sprintf("--tlimit=%d", ms))
			tool = "cvc5"
		default:
			args = append(args, fmt.Sprintf("-t:%d", ms), fmt.Sprintf("-T:%d", ms/1000+2))
			tool = strings.SplitN(tool, "/", 2)[0]
		}
		out := run(ctx, tool, append(args, f)...)
		for _, l := range strings.Split(out, "\n") {
			l = strings.TrimSpace(l)
			switch l {
			case "unsat", "sat", "unknown":
				return l
			}
			if strings.HasPrefix(l, "(error") && !strings.Contains(l, "canceled") && !strings.Contains(l, "interrupted") && !strings.Contains(l, "timeout") {
				o.Detail += b.name + ": " + l + "\n"
				os.WriteFile("/tmp/gvc_error.smt2", []byte(txt), 0644)
			}
		}
		return "timeout"
	}
	atomic.AddInt64(&s.queries, 1)
	first := backend{"z3-new/nombqi", []string{"auto_config=false", "smt.mbqi=false"}}
	if o.ctx.theoryStr {
		first = backend{"z3-new", nil}
	}
	ctx0, c0 := context.WithTimeout(context.Background(), time.Duration(lim+3000)*time.Millisecond)
	fl := lim
	if fl > 8000 {
		fl = 8000
	}
	if o.ctx.theoryStr && fl > 500 {
		fl = 500
	}
	r := one(ctx0, first, fl)
	c0()
	if r == "unsat" {
		o.Status, o.Solver = "proved", first.name
		o.TimeMS = time.Since(t0).Milliseconds()
		return
	}
	if r == "sat" && o.ctx.theoryStr {
		o.Status = "refuted"
	}
	if o.Smoke {
		o.Status = "unproved"
		ctx1, c1 := context.WithTimeout(context.Background(), 12*time.Second)
		if one(ctx1, backend{"z3/nombqi", []string{"auto_config=false", "smt.mbqi=false"}}, 1000) == "unsat" ||
			one(ctx1, backend{"z3-new", nil}, 3000) == "unsat" {
			o.Status = "proved"
		}
		c1()
		o.TimeMS = time.Since(t0).Milliseconds()
		return
	}
	others := []backend{
		{"cvc5", []string{"--full-saturate-quant"}},
		{"z3/nombqi", []string{"auto_config=false", "smt.mbqi=false"}},
		{"z3-new/seed", []string{"auto_config=false", "smt.mbqi=false", "smt.random_seed=7", "smt.arith.solver=2", "smt.relevancy=0"}},
	}
	if o.ctx.theoryStr {
		others = []backend{{"cvc5", []string{"--strings-exp"}}, {"z3", nil}, {"cvc5/fmf", []string{"--strings-exp", "--full-saturate-quant"}}}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(lim+3000)*time.Millisecond)
	defer cancel()
	type rr struct {
		b backend
		r string
	}
	ch := make(chan rr, len(others))
	for _, b := range others {
		b := b
		go func() { ch <- rr{b, one(ctx, b, lim)} }()
	}
	det := first.name + ": " + r
	for range others {
		x := <-ch
		det += "; " + x.b.name + ": " + x.r
		if x.r == "unsat" {
			o.Status, o.Solver = "proved", x.b.name
			cancel()
			break
		}
		if x.r == "sat" {
			o.Status = "refuted"
		}
	}
	if o.Status == "" {
		o.Status = "unproved"
	}
	o.Detail += det
	o.TimeMS = time.Since(t0).Milliseconds()
}

func (s *Solver) decideAll(os []*Obl) {
	var wg sync.WaitGroup
	for _, o := range os {
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			s.sem <- struct{}{}
			defer func() { <-s.sem }()
			s.decide(o)
		}(o)
	}
	wg.Wait()
}

// model asks for a counterexample of the input parameters (best effort).
func (s *Solver) model(o *Obl, terms []string) string {
	txt := script(o.ctx, o.body, o.guard) + "(assert (not " + o.goal + "))\n(check-sat)\n"
	if len(terms) > 0 {
		txt += "(get-value (" + strings.Join(terms, " ") + "))\n"
	}
	f := s.file(txt)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	out := run(ctx, "z3-new", "-t:5000", f)
	if len(out) > 4000 {
		out = out[:4000] + "\n..."
	}
	return out
}

var constArrRe = regexp.MustCompile(`\(\(as const \(Array Int (\w+)\)\) ([\w!]+)\)`)

// noConstArrays replaces constant arrays over uninterpreted values, which cvc5 does not accept, by an axiomatised constant.
func noConstArrays(txt string) string {
	done := map[string]bool{}
	var out []string
	for _, l := range strings.Split(txt, "\n") {
		l2 := constArrRe.ReplaceAllStringFunc(l, func(m string) string {
			x := constArrRe.FindStringSubmatch(m)
			if strings.Trim(x[2], "0123456789") == "" || x[2] == "true" || x[2] == "false" {
				return m
			}
			n := "carr_" + x[1] + "_" + strings.ReplaceAll(x[2], "!", "_")
			if !done[n] {
				done[n] = true
				out = append(out, "(declare-const "+n+" (Array Int "+x[1]+"))", "(assert (forall ((k Int)) (! (= (select "+n+" k) "+x[2]+") :pattern ((select "+n+" k)))))")
			}
			return n
		})
		out = append(out, l2)
	}
	return strings.Join(out, "\n")
}

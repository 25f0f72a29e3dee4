// Command gover verifies contracts of /repo's Go code.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var specDir = "/verif/specs"

// Report is the result of verifying one contract.
type Report struct {
	C       *Contract
	Obls    []*Obl
	Err     string
	X       *Exec
	Elapsed time.Duration
	Failed  []*Obl
	Vacuous []string
}

func newReport(c *Contract) *Report { return &Report{C: c} }

// verify runs symbolic execution for the contract and discharges.
func verify(p *Prog, sol *Solver, c *Contract, budget time.Duration) (r *Report) {
	r = newReport(c)
	t0 := time.Now()
	x := newExec(p, sol)
	x.contract = c
	x.feas = newFeas()
	defer x.feas.close()
	x.deadline = func() bool { return time.Since(t0) > budget || sol.late() }
	for _, o := range p.contracts {
		if o.Use != "" && o != c && o.Opts["use"] != "never" {
			if t := p.targets[o]; t != nil {
				x.contractsUse[t] = o
			}
		}
	}
	r.X = x
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsupported); ok {
					r.Err = u.msg
				} else {
					r.Err = fmt.Sprintf("internal: %v", e)
					if os.Getenv("GOVER_DEBUG") != "" {
						debug.PrintStack()
					}
				}
			}
		}()
		s := x.newState()
		x.entryHeap = map[string]*SymMap{}
		var args []Val
		for i, pr := range c.Fn.Params {
			v := x.ufVal(s, pr.Type(), fmt.Sprintf("arg%d.%s", i, pr.Name()), nil)
			args = append(args, v)
		}
		x.runFunc(nil, nil, s, c.Fn, args, nil)
	}()
	r.Obls = x.obls
	discharge(x, sol, r)
	r.Elapsed = time.Since(t0)
	return r
}

func discharge(x *Exec, sol *Solver, r *Report) {
	var wg sync.WaitGroup
	covers := map[string][]*Obl{}
	type job struct {
		o    *Obl
		text string
	}
	var jobs []job
	for _, o := range r.Obls {
		if o.cover {
			covers[o.Label] = append(covers[o.Label], o)
			continue
		}
		if o.unsup {
			o.res = Result{Status: "unknown", Raw: o.Label}
			continue
		}
		if o.triv {
			o.res = Result{Status: "unsat", Solver: "simplifier"}
			continue
		}
		jobs = append(jobs, job{o, x.tb.queryText(o.pc, o.goal, nil)})
	}
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			j.o.res = sol.Check(j.text, false)
			if j.o.res.Status != "unsat" {
				j.o.query = j.text
			}
		}()
	}
	var cmu sync.Mutex
	for _, label := range sortedKeys(covers) {
		label := label
		var texts []string
		for _, o := range covers[label] {
			texts = append(texts, x.tb.queryText(o.pc, x.tb.Fals, nil))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, t := range texts {
				if sol.Check(t, true).Status != "unsat" {
					return
				}
			}
			cmu.Lock()
			r.Vacuous = append(r.Vacuous, label)
			cmu.Unlock()
		}()
	}
	wg.Wait()
	sort.Strings(r.Vacuous)
	for _, o := range r.Obls {
		if !o.cover && o.res.Status != "unsat" {
			r.Failed = append(r.Failed, o)
		}
	}
	if len(covers) == 0 && r.Err == "" {
		r.Vacuous = append(r.Vacuous, "(no postcondition was reached)")
	}
}

func printReport(r *Report, verbose bool) {
	type agg struct{ n, ok int }
	m := map[string]*agg{}
	var order []string
	for _, o := range r.Obls {
		if o.cover {
			continue
		}
		k := o.Kind + " | " + o.Label
		if m[k] == nil {
			m[k] = &agg{}
			order = append(order, k)
		}
		m[k].n++
		if o.res.Status == "unsat" {
			m[k].ok++
		}
	}
	status := "OK"
	if r.Err != "" || len(r.Failed) > 0 || len(r.Vacuous) > 0 {
		status = "FAILED"
	}
	fmt.Printf("== %s [%s] %s %.1fs paths=%d feas=%d(%.1fs)\n", r.C.Name, r.C.Prop, status, r.Elapsed.Seconds(), r.X.paths, r.X.feas.n, r.X.feas.time.Seconds())
	if r.Err != "" {
		fmt.Println("   error:", r.Err)
	}
	for _, v := range r.Vacuous {
		fmt.Println("   vacuous:", v)
	}
	for _, k := range order {
		a := m[k]
		if verbose || a.ok != a.n {
			fmt.Printf("   %-70s %d/%d\n", k, a.ok, a.n)
		}
	}
	n := 0
	for _, o := range r.Failed {
		n++
		if n > 4 {
			break
		}
		fmt.Printf("   FAIL %s %q at %s: %s\n      trail: %s\n", o.Kind, o.Label, o.Pos, o.res.Status, strings.Join(o.Trail, " > "))
		if os.Getenv("GOVER_QUERY") != "" {
			f := fmt.Sprintf("/tmp/q%d.smt2", n)
			os.WriteFile(f, []byte(o.query), 0644)
			fmt.Println("      query in", f, "goal:", clip(o.goal.String(), 2000))
		}
	}
	for k := range r.X.droppedInv {
		fmt.Println("   dropped invariant:", k)
	}
	if verbose {
		fmt.Println("   assumptions:", strings.Join(sortedKeys(r.X.assumed), "\n      "))
		fmt.Println("   inlined:", strings.Join(sortedKeys(r.X.inlined), " "))
		fmt.Println("   models:", strings.Join(sortedKeys(r.X.modelled), " "))
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover verify REGEXP | check ID TIER | ssa FUNC")
		os.Exit(2)
	}
	if e, err := os.Executable(); err == nil {
		// the checkout that the binary was built in
		if d := filepath.Dir(filepath.Dir(e)); isDir(filepath.Join(d, "specs", "zzv")) {
			verifDir = d
			specDir = filepath.Join(d, "specs")
		}
	}
	if d := os.Getenv("GOVER_SPECS"); d != "" {
		specDir = d
	}
	switch os.Args[1] {
	case "verify":
		t0 := time.Now()
		var only map[string]bool
		if f := os.Getenv("GOVER_ONLY"); f != "" {
			only = map[string]bool{}
			for _, w := range strings.Split(f, ",") {
				only[w] = true
			}
		}
		p, err := loadProg(specDir, only)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Printf("loaded in %.1fs; dropped %v\n", time.Since(t0).Seconds(), p.dropped)
		re := regexp.MustCompile(os.Args[2])
		sol := newSolver(8)
		for _, c := range p.contracts {
			if !re.MatchString(c.Name) && !re.MatchString(c.Prop) {
				continue
			}
			r := verify(p, sol, c, 600*time.Second)
			printReport(r, len(os.Args) > 3)
		}
		fmt.Printf("solver: %v queries=%d time=%.1fs wall=%.1fs\n", sol.Stats, sol.Queries, sol.Total.Seconds(), time.Since(t0).Seconds())
	case "ssa":
		p, err := loadProg(specDir, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		re := regexp.MustCompile(os.Args[2])
		for _, fn := range p.allFuncs() {
			if re.MatchString(qualName(fn)) {
				fmt.Println("//", qualName(fn))
				fn.WriteTo(os.Stdout)
			}
		}
	case "replay":
		ok, out := replay(os.Args[2], "", 240*time.Second)
		fmt.Println(out)
		if ok {
			os.Exit(1)
		}
	case "check":
		os.Exit(check(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

func (p *Prog) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range p.all {
		if len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return qualName(out[i]) < qualName(out[j]) })
	return out
}

func isDir(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && fi.IsDir()
}

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

var verifDir = "/verif"

// finding is a line of known-findings.txt:
//
//	finding: property=C22 contract=NAME obligation="LABEL" TEXT
//	fixed: property=C05 COMMIT TEXT
type finding struct {
	prop, contract, label, text string
	hit                         bool
}

var findingRe = regexp.MustCompile(`^finding: property=(\S+) contract=(\S+) obligation="([^"]*)" (.*)$`)

func knownFindings(id string) []*finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []*finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := findingRe.FindStringSubmatch(l); m != nil && m[1] == id {
			out = append(out, &finding{prop: m[1], contract: m[2], label: m[3], text: m[4]})
		}
	}
	return out
}

func hasWord(s, w string) bool {
	for _, f := range strings.Fields(s) {
		if f == w {
			return true
		}
	}
	return false
}

func check(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "check ID [quick|thorough]")
		return 1
	}
	id, tier := args[0], "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	t0 := time.Now()
	ev := map[string]any{}
	var problems []string // reasons why the property is not shown
	var detail bytes.Buffer
	var reports []*Report
	sol := newSolver(8)
	limit := 420 * time.Second // of verification; a check always ends in time
	if tier == "thorough" {
		sol.Slow *= 3
		limit = 560 * time.Second
		sol.Cross = true
	}
	sol.Prop = id
	sol.Deadline = t0.Add(limit)
	models := ""

	p, err := loadProg(specDir, map[string]bool{id: true})
	if err != nil {
		problems = append(problems, "the program could not be loaded")
		fmt.Fprintf(&detail, "load: %v\n", err)
	} else {
		for f, e := range p.dropped {
			problems = append(problems, "the contract file "+f+" no longer applies to the code: "+e)
			fmt.Fprintf(&detail, "contract file %s does not type-check against /repo: %s\n", f, e)
		}
		var cs []*Contract
		for _, c := range p.contracts {
			if hasWord(c.Prop, id) {
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 {
			problems = append(problems, "no contract could be checked")
		}
		budget := 200 * time.Second
		if tier == "thorough" {
			budget = 600 * time.Second
		}
		reports = verifyAll(p, sol, cs, budget)
		// contracts relied on by the ones above
		done := map[string]bool{}
		for _, c := range cs {
			done[c.Name] = true
		}
		for work := reports; len(work) > 0; {
			var more []*Contract
			for _, r := range work {
				if r.X == nil {
					continue
				}
				for n := range r.X.usedContr {
					if !done[n] {
						done[n] = true
						for _, c := range p.contracts {
							if c.Name == n {
								more = append(more, c)
							}
						}
					}
				}
			}
			work = verifyAll(p, sol, more, budget)
			reports = append(reports, work...)
		}
	}
	known := knownFindings(id)
	obl, ok, recorded := 0, 0, 0
	backends := map[string]int{}
	assumed, inlined, trusted := map[string]bool{}, map[string]bool{}, map[string]bool{}
	guarantee := map[string]bool{} // functions and interfaces of /repo that were replaced by a specification
	var contracts []map[string]any
	for _, r := range reports {
		n, m := 0, 0
		for _, o := range r.Obls {
			if o.cover {
				continue
			}
			n++
			if o.res.Status == "unsat" {
				m++
				backends[o.res.Solver]++
			}
		}
		n += r.X.loopObl
		m += r.X.loopObl
		backends["z3-new (loop invariants)"] += r.X.loopObl
		obl += n
		ok += m
		for k := range r.X.assumed {
			assumed[k] = true
		}
		for k := range r.X.stubbed {
			if isRepoName(k) {
				guarantee["in "+r.C.Name+": "+k] = true
			} else {
				trusted["behaviour that "+r.C.Name+" assumes of "+k] = true
			}
		}
		for k := range r.X.inlined {
			inlined[k] = true
		}
		for k := range r.X.modelled {
			trusted["model of "+k] = true
		}
		contracts = append(contracts, map[string]any{"contract": r.C.Name, "file": r.C.File, "about": r.C.Title, "obligations": n, "discharged": m, "paths": r.X.paths, "seconds": r.Elapsed.Seconds()})
		if r.Err != "" {
			problems = append(problems, r.C.Name+": "+r.Err)
			fmt.Fprintf(&detail, "contract %s (%s): not decided: %s\n", r.C.Name, r.C.Title, r.Err)
		}
		for _, v := range r.Vacuous {
			problems = append(problems, r.C.Name+": never reached: "+v)
			fmt.Fprintf(&detail, "contract %s (%s): postcondition %q is never reached\n", r.C.Name, r.C.Title, v)
		}
		seen := map[string]bool{}
		for _, o := range r.Failed {
			listed := false
			for _, f := range known {
				if f.contract == r.C.Name && f.label == o.Label {
					f.hit = true
					listed = true
				}
			}
			if listed {
				obl--
				recorded++
				continue
			}
			k := o.Kind + " " + o.Label
			if !seen[k] {
				problems = append(problems, fmt.Sprintf("%s: %s %q fails", r.C.Name, o.Kind, o.Label))
			}
			seen[k] = true
			fmt.Fprintf(&detail, "contract %s (%s): failed obligation: %s %q %s\n  solver answer: %s (%s)\n  path: %s\n  goal: %s\n",
				r.C.Name, r.C.Title, o.Kind, o.Label, o.Pos, o.res.Status, o.res.Solver, strings.Join(o.Trail, " > "), clip(o.goal.String(), 3000))
			if len(models) < 200000 && o.query != "" && len(seen) < 4 && time.Since(t0) < limit+40*time.Second {
				m := modelOf(o.query)
				models += m
				fmt.Fprintf(&detail, "  counterexample of the verifier:\n%s\n", clip(m, 6000))
			}
		}
	}
	for _, f := range known {
		if f.hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
		}
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	violations := 0
	if len(problems) > 0 {
		violations = 1
	}
	base := []string{
		"gover's VC generation and memory model (/verif/gover), go/ssa and go/types of x/tools v0.52.0",
		"z3 and cvc5 for each unsat answer",
	}
	base = append(base, sortedKeys(trusted)...)
	as := append(sortedKeys(assumed),
		"lengths, capacities and loop counts stay below 2^48",
		"library functions behave as their models in /verif/specs/zzm say",
		"memory safety of dependencies; no unsafe or assembly in /repo")
	ev["property"] = id
	ev["tier"] = tier
	ev["seed"] = seed
	ev["level"] = "proof"
	ev["coverage"] = map[string]any{
		"obligations": obl, "discharged": ok,
		"checker_cmd":                            "/verif/check.sh " + id + " " + tier,
		"trusted_base":                           base,
		"contracts":                              contracts,
		"functions_under_contract":               sortedKeys(inlined),
		"replaced_by_specification":              sortedKeys(guarantee),
		"obligations_that_are_recorded_findings": recorded,
		"back_ends":                              backends,
		"solver_queries":                         sol.Queries,
		"solver_seconds":                         sol.Total.Seconds(),
	}
	if tier == "thorough" && len(problems) == 0 {
		ok, open, unseen, refuted := sol.Confirm(t0.Add(620 * time.Second))
		ev["coverage"].(map[string]any)["confirmed_by_a_second_solver"] = map[string]any{
			"queries": len(sol.proved), "confirmed": ok, "no_answer": open, "not_reached": unseen, "refuted": len(refuted),
		}
		problems = append(problems, refuted...)
		if len(refuted) > 0 {
			violations = 1
		}
	}
	ev["assumptions"] = as
	ev["violations"] = violations
	evdir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evdir, 0755)
	write := func() {
		ev["wall_s"] = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(ev, "", "  ")
		os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0644)
	}
	write()
	if len(problems) == 0 {
		fmt.Printf("%s: %d obligations of %d contracts discharged in %.1fs\n", id, obl, len(reports), time.Since(t0).Seconds())
		return 0
	}
	for i, s := range problems {
		if i < 12 {
			fmt.Println("  " + clip(s, 400))
		}
	}
	// replay on the real code
	rp := filepath.Join(evdir, "replay-"+id+".txt")
	reproduced, out := replay(id, models, 240*time.Second)
	var b bytes.Buffer
	fmt.Fprintf(&b, "property %s\n\n", id)
	for _, s := range problems {
		fmt.Fprintf(&b, "- %s\n", s)
	}
	if reproduced {
		fmt.Fprintf(&b, "\nReproduced on the real code by: /verif/check.sh --replay %s\n\n%s\n", id, clip(out, 20000))
	} else {
		fmt.Fprintf(&b, "\nNo failing input was found. Output of the replay harness (/verif/check.sh --replay %s):\n%s\n", id, clip(out, 20000))
	}
	fmt.Fprintf(&b, "\nVerifier output:\n%s\n", clip(detail.String(), 100000))
	os.WriteFile(rp, b.Bytes(), 0644)
	write()
	if reproduced {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
	}
	return 1
}

func verifyAll(p *Prog, sol *Solver, cs []*Contract, budget time.Duration) []*Report {
	rs := make([]*Report, len(cs))
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for i := range cs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			rs[i] = verify(p, sol, cs[i], budget)
		}()
	}
	wg.Wait()
	return rs
}

// modelOf asks for a model of a failed query.
func modelOf(q string) string {
	ctx, cancel := context.WithTimeout(context.Background(), 6*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-t:4000")
	cmd.Stdin = strings.NewReader(q + "(get-model)\n")
	b, _ := cmd.Output()
	return string(b)
}

var (
	seedStr = regexp.MustCompile(`"(?:[^"]|"")*"`)
	seedInt = regexp.MustCompile(`\b[0-9]{1,19}\b`)
)

// replay runs the property's harness on the real code.
func replay(id, models string, total time.Duration) (bool, string) {
	end := time.Now().Add(total)
	files, _ := filepath.Glob(filepath.Join(verifDir, "replay", "*", id+"_test.go"))
	more, _ := filepath.Glob(filepath.Join(verifDir, "replay", "*", "*", id+"_test.go"))
	files = append(files, more...)
	if len(files) == 0 {
		return false, "no harness"
	}
	tmp, err := os.MkdirTemp("", "gover-replay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(tmp)
	// seeds from the verifier's counterexamples
	set := map[string]bool{}
	for _, m := range seedStr.FindAllString(models, -1) {
		set["s"+unSMT(strings.ReplaceAll(m[1:len(m)-1], `""`, `"`))] = true
	}
	for _, m := range seedInt.FindAllString(models, -1) {
		set["i"+m] = true
	}
	sb, _ := json.Marshal(sortedKeys(set))
	seeds := filepath.Join(tmp, "seeds.json")
	os.WriteFile(seeds, sb, 0644)
	var all string
	for _, f := range files {
		rel, _ := filepath.Rel(filepath.Join(verifDir, "replay"), filepath.Dir(f))
		dir := filepath.Join(repoDir, rel)
		if rel == "ant" {
			dir = repoDir
		}
		rep := map[string]string{}
		add := func(src string) { rep[filepath.Join(dir, "zz_verif_"+filepath.Base(src))] = src }
		add(f)
		commons, _ := filepath.Glob(filepath.Join(filepath.Dir(f), "common*_test.go"))
		for _, c := range commons {
			add(c)
		}
		src, _ := os.ReadFile(f)
		if strings.Contains(string(src), "//verif:faults") {
			if err := faultOS(tmp, rep); err != nil {
				all += err.Error() + "\n"
				continue
			}
			extra, _ := filepath.Glob(filepath.Join(filepath.Dir(f), "faults*_test.go"))
			for _, c := range extra {
				add(c)
			}
		}
		ob, _ := json.Marshal(map[string]any{"Replace": rep})
		ov := filepath.Join(tmp, "overlay.json")
		os.WriteFile(ov, ob, 0644)
		flags := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "200s", "-run", "^TestVerif" + id}
		if strings.Contains(string(src), "//verif:race") {
			flags = append(flags, "-race")
		}
		ctx, cancel := context.WithDeadline(context.Background(), end)
		cmd := exec.CommandContext(ctx, "go", append(flags, "./"+mustRel(dir))...)
		cmd.Dir = repoDir
		cmd.WaitDelay = 5 * time.Second
		cmd.Env = append(os.Environ(), "VERIF_SEEDS="+seeds, "TMPDIR="+tmp)
		b, err := cmd.CombinedOutput()
		cancel()
		all += fmt.Sprintf("$ go %s ./%s\n%s\n", strings.Join(flags, " "), mustRel(dir), b)
		if err != nil && !bytes.Contains(b, []byte("[build failed]")) && !bytes.Contains(b, []byte("[setup failed]")) &&
			(bytes.Contains(b, []byte("--- FAIL")) || bytes.Contains(b, []byte("panic:")) || bytes.Contains(b, []byte("DATA RACE")) || bytes.Contains(b, []byte("fatal error:"))) {
			return true, all
		}
	}
	return false, all
}

// faultOS overlays package os with one whose file operations call
// os.VerifHook first, which can make them fail.
func faultOS(tmp string, rep map[string]string) error {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	src := filepath.Join(strings.TrimSpace(string(b)), "src", "os")
	type edit struct{ file, head, body string }
	for _, e := range []edit{
		{"file.go", "func (f *File) Write(b []byte) (n int, err error) {",
			`if f != nil && VerifHook != nil { if err := VerifHook("write", f.name, ""); err != nil { h := VerifHook; VerifHook = nil; n, _ := f.Write(b[:len(b)/2]); VerifHook = h; return n, err } }`},
		{"file.go", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {",
			`if VerifHook != nil { op := "open"; if flag&(O_WRONLY|O_RDWR|O_CREATE) != 0 { op = "create" }; if err := VerifHook(op, name, ""); err != nil { return nil, err } }`},
		{"file.go", "func Rename(oldpath, newpath string) error {",
			`if VerifHook != nil { if err := VerifHook("rename", oldpath, newpath); err != nil { return err } }`},
		{"file_posix.go", "func (f *File) Close() error {",
			`if f != nil && VerifHook != nil { if err := VerifHook("close", f.name, ""); err != nil { h := VerifHook; VerifHook = nil; f.Close(); VerifHook = h; return err } }`},
		{"file_posix.go", "func (f *File) Sync() error {",
			`if f != nil && VerifHook != nil { if err := VerifHook("sync", f.name, ""); err != nil { return err } }`},
		{"file_unix.go", "func Remove(name string) error {",
			`if VerifHook != nil { if err := VerifHook("remove", name, ""); err != nil { return err } }`},
		{"stat.go", "func Stat(name string) (FileInfo, error) {",
			`if VerifHook != nil { if err := VerifHook("stat", name, ""); err != nil { return nil, err } }`},
		{"stat_unix.go", "func (f *File) Stat() (FileInfo, error) {",
			`if f != nil && VerifHook != nil { if err := VerifHook("fstat", f.name, ""); err != nil { return nil, err } }`},
		{"dir.go", "func (f *File) Readdirnames(n int) (names []string, err error) {",
			`if f != nil && VerifHook != nil { if err := VerifHook("readdir", f.name, ""); err != nil { return nil, err } }`},
	} {
		p := filepath.Join(src, e.file)
		q := rep[p]
		if q == "" {
			q = filepath.Join(tmp, "os_"+e.file)
			rep[p] = q
			c, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if e.file == "dir.go" {
				c = append(c, "\n// VerifHook is called before file operations.\nvar VerifHook func(op, name, other string) error\n"...)
			}
			os.WriteFile(q, c, 0o644)
		}
		c, _ := os.ReadFile(q)
		if !bytes.Contains(c, []byte(e.head)) {
			return fmt.Errorf("package os has no %s", e.head)
		}
		c = bytes.Replace(c, []byte(e.head), []byte(e.head+" "+e.body), 1)
		os.WriteFile(q, c, 0o644)
	}
	return nil
}

func mustRel(dir string) string {
	r, _ := filepath.Rel(repoDir, dir)
	if r == "." {
		return ""
	}
	return r
}

var smtEsc = regexp.MustCompile(`\\u\{([0-9a-fA-F]+)\}`)

func unSMT(s string) string {
	return smtEsc.ReplaceAllStringFunc(s, func(m string) string {
		var n int
		fmt.Sscanf(m[3:len(m)-1], "%x", &n)
		if n < 256 {
			return string([]byte{byte(n)})
		}
		return string(rune(n))
	})
}

// isRepoName tells whether a function or method is of /repo.
func isRepoName(n string) bool {
	n = strings.TrimLeft(strings.TrimPrefix(n, "func:"), "(*")
	return strings.HasPrefix(n, "ant.") || strings.HasPrefix(n, "ant/")
}

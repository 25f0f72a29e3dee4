package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// Result of a solver query.
type Result struct {
	Status string // unsat, sat, unknown
	Solver string
	Model  string
	Time   time.Duration
	Raw    string
}

// Solver is a solver portfolio.
type Solver struct {
	sem      chan struct{}
	mu       sync.Mutex
	cache    map[[32]byte]Result
	Stats    map[string]int
	Total    time.Duration
	Queries  int
	Prop     string        // the property decided, if one
	Deadline time.Time     // no query starts after it
	Quick    time.Duration // first attempt
	Slow     time.Duration // portfolio attempt
	Cross    bool          // thorough: keep the queries to confirm them with a second solver
	proved   []provedQuery
}

func newSolver(par int) *Solver {
	return &Solver{
		sem:   make(chan struct{}, par),
		cache: map[[32]byte]Result{},
		Stats: map[string]int{},
		Quick: 2 * time.Second,
		Slow:  12 * time.Second,
	}
}

// closure collects the terms reachable including facts.
// factClosureBut is factClosure without the given facts.
func factClosureBut(roots, have []*Term) []*Term {
	h := map[*Term]bool{}
	for _, t := range have {
		h[t] = true
	}
	var out []*Term
	for _, f := range factClosure(roots) {
		if !h[f] {
			out = append(out, f)
		}
	}
	return out
}

func factClosure(roots []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	inc := map[*Term]bool{}
	var walk func(t *Term)
	var queue []*Term
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, f := range t.facts {
			if !inc[f] {
				inc[f] = true
				out = append(out, f)
				queue = append(queue, f)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	for len(queue) > 0 {
		q := queue[0]
		queue = queue[1:]
		walk(q)
	}
	return out
}

// seqLinks connects sequence views of array segments with element reads of
// the same array.
func (tb *TB) seqLinks(roots []*Term) []*Term {
	seqs := map[string][]*Term{}
	reads := map[string][]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OUF && !t.hasBV {
			if strings.HasPrefix(t.name, "seq:") && len(t.args) == 3 {
				seqs[t.name[4:]] = append(seqs[t.name[4:]], t)
			} else if strings.HasPrefix(t.name, "row:") && len(t.args) == 3 {
				seqs[t.name] = append(seqs[t.name], t)
			} else if strings.HasPrefix(t.name, "E:") && len(t.args) == 2 {
				reads[t.name] = append(reads[t.name], t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	var out []*Term
	for _, k := range sortedKeys(seqs) {
		for _, q := range seqs[k] {
			for _, r := range reads[k] {
				rel := tb.Sub(r.args[1], q.args[1])
				c := tb.And(tb.Eq(q.args[0], r.args[0]), tb.Le(tb.Zero, rel), tb.Lt(rel, q.args[2]))
				if c.isFalse() {
					continue
				}
				if q.sort == SStr {
					out = append(out, tb.Imp(c, tb.Eq(tb.StrByte(q, rel), r)))
				} else if r.sort == elSort(q.sort) {
					out = append(out, tb.Imp(c, tb.Eq(tb.SeqNth(q, rel), r)))
				}
			}
		}
		// segments of one array with a common start
		for i, q := range seqs[k] {
			for _, r := range seqs[k][:i] {
				if q.args[0] != r.args[0] {
					continue
				}
				a, b := q, r
				if a.args[1] != b.args[1] {
					d := tb.Sub(b.args[1], a.args[1])
					v, ok := d.intVal()
					if ok && v < 0 {
						a, b, d = b, a, tb.Neg(d)
					}
					if ok {
						in := tb.And(tb.Le(tb.Zero, b.args[2]), tb.Le(tb.Add(d, b.args[2]), a.args[2]))
						if q.sort == SStr {
							out = append(out, tb.Imp(in, tb.Eq(b, tb.Substr(a, d, tb.Add(d, b.args[2])))))
						} else {
							out = append(out, tb.Imp(in, tb.Eq(b, tb.SeqExtract(a, d, b.args[2]))))
						}
					}
					continue
				}
				op := "seq.prefixof"
				if q.sort == SStr {
					op = "str.prefixof"
				}
				out = append(out, tb.Imp(tb.And(tb.Le(tb.Zero, a.args[2]), tb.Le(a.args[2], b.args[2])), tb.App(op, SBool, a, b)))
				out = append(out, tb.Imp(tb.And(tb.Le(tb.Zero, b.args[2]), tb.Le(b.args[2], a.args[2])), tb.App(op, SBool, b, a)))
			}
		}
	}
	return out
}

// queryText renders an SMT-LIB query whose satisfiability refutes the goal.
func (tb *TB) queryText(pc []*Term, goal *Term, wantModel []*Term) string {
	roots := append([]*Term{}, pc...)
	if goal != nil {
		roots = append(roots, tb.Not(goal))
	}
	hasQ := len(quants(roots)) > 0
	if hasQ {
		done := map[string]bool{}
		for i := 0; i < 3 && len(roots) < 400; i++ {
			l := tb.instances(roots, done, i == 0)
			if len(l) == 0 {
				break
			}
			roots = append(roots, l...)
		}
	}
	roots = append(roots, factClosure(append(append([]*Term{}, roots...), wantModel...))...)
	if l := tb.seqLinks(roots); len(l) > 0 {
		n := len(roots)
		roots = append(roots, l...)
		roots = append(roots, factClosureBut(roots[n:], roots[:n])...)
	}
	abs := roots
	full := tb.render(roots, wantModel)
	if qs := quants(roots); len(qs) > 0 {
		m := map[*Term]*Term{}
		for _, q := range qs {
			m[q] = tb.UF(fmt.Sprintf("q!%d", q.id), SBool)
		}
		abs = nil
		for _, r := range roots {
			abs = append(abs, tb.Subst(r, m))
		}
		full = tb.render(abs, nil) + fullMark + full
	}
	if hasStr(abs) {
		full = tb.render(tb.opaqueStrings(abs), nil) + opaqueMark + full
	}
	return full
}

func (tb *TB) render(roots, wantModel []*Term) string {
	// count uses
	uses := map[*Term]int{}
	ufs := map[string]bool{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		uses[t]++
		if uses[t] > 1 {
			return
		}
		if t.op == OUF {
			ufs[t.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, r := range roots {
		walk(r)
	}
	for _, r := range wantModel {
		walk(r)
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	var names []string
	for n := range ufs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sig := tb.ufs[n]
		b.WriteString("(declare-fun " + smtName(n) + " (")
		for i, a := range sig.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.smt())
		}
		b.WriteString(") " + sig.res.smt() + ")\n")
	}
	defs := map[*Term]string{}
	for _, t := range order {
		if uses[t] > 1 && len(t.args) > 0 && !t.hasBV {
			n := fmt.Sprintf("t!%d", t.id)
			b.WriteString("(define-fun " + n + " () " + t.sort.smt() + " ")
			t.write(&b, defs, 0)
			b.WriteString(")\n")
			defs[t] = n
		}
	}
	for _, r := range roots {
		b.WriteString("(assert ")
		r.write(&b, defs, 0)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	if len(wantModel) > 0 {
		b.WriteString("(get-value (")
		for _, w := range wantModel {
			b.WriteByte(' ')
			w.write(&b, defs, 0)
		}
		b.WriteString("))\n")
	}
	return b.String()
}

type backend struct {
	name string
	cmd  func(ms int) []string
}

var backends = []backend{
	{"z3-new", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)} }},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), "--produce-models", "-q"}
	}},
	{"z3", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms)} }},
}

func (s *Solver) run1(ctx context.Context, be backend, text string, d time.Duration) Result {
	select {
	case s.sem <- struct{}{}:
	case <-ctx.Done():
		return Result{Status: "unknown", Solver: be.name}
	}
	defer func() { <-s.sem }()
	t0 := time.Now()
	cctx, cancel := context.WithTimeout(ctx, d+2*time.Second)
	defer cancel()
	args := be.cmd(int(d / time.Millisecond))
	cmd := exec.CommandContext(cctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	el := time.Since(t0)
	r := Result{Status: "unknown", Solver: be.name, Time: el, Raw: out.String()}
	line := r.Raw
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line = line[:i]
	}
	switch strings.TrimSpace(line) {
	case "unsat":
		r.Status = "unsat"
	case "sat":
		r.Status = "sat"
		if i := strings.IndexByte(r.Raw, '\n'); i >= 0 {
			r.Model = r.Raw[i+1:]
		}
	default:
		if strings.Contains(r.Raw, "error") && os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "solver %s: %s\n", be.name, firstLines(r.Raw, 3))
		}
	}
	s.mu.Lock()
	s.Total += el
	s.Queries++
	s.mu.Unlock()
	return r
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// duo races the two main back ends for a short time.
func (s *Solver) duo(text string) Result {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan Result, 2)
	go func() { ch <- s.run1(ctx, backends[0], text, s.Quick) }()
	go func() {
		select {
		case <-time.After(60 * time.Millisecond):
		case <-ctx.Done():
		}
		if ctx.Err() != nil {
			ch <- Result{Status: "unknown"}
			return
		}
		ch <- s.run1(ctx, backends[1], text, s.Quick)
	}()
	r := <-ch
	if r.Status == "unknown" {
		r = <-ch
	}
	return r
}

// Check decides the query, racing back ends when the first one gives up.
func (s *Solver) Check(text string, quickOnly bool) Result {
	h := sha256.Sum256([]byte(text))
	s.mu.Lock()
	if r, ok := s.cache[h]; ok && !(r.Status == "unknown" && !quickOnly) {
		s.mu.Unlock()
		return r
	}
	s.mu.Unlock()
	if s.late() {
		return Result{Status: "unknown", Raw: "no time left"}
	}
	ctx := context.Background()
	abs := ""
	if i := strings.Index(text, opaqueMark); i >= 0 {
		head := text[:i]
		r := s.duo(head)
		text = text[i+len(opaqueMark):]
		if r.Status == "unsat" {
			s.mu.Lock()
			s.cache[h] = r
			s.Stats[r.Solver+":"+r.Status]++
			s.mu.Unlock()
			s.keep(head, r.Solver)
			return r
		}
	}
	if i := strings.Index(text, fullMark); i >= 0 {
		abs, text = text[:i], text[i+len(fullMark):]
	}
	var r Result
	if abs != "" {
		r = s.duo(abs)
	}
	if r.Status == "unsat" {
		text = abs
	} else {
		r = s.duo(text)
	}
	if r.Status == "unknown" && !quickOnly {
		cctx, cancel := context.WithCancel(ctx)
		ch := make(chan Result, len(backends))
		for _, be := range backends {
			go func(be backend) { ch <- s.run1(cctx, be, text, s.Slow) }(be)
		}
		n := len(backends)
		if abs != "" {
			n += 2
			for _, be := range backends[:2] {
				go func(be backend) {
					r := s.run1(cctx, be, abs, s.Slow)
					if r.Status == "sat" {
						r.Status = "unknown"
					}
					ch <- r
				}(be)
			}
		}
		var raws []string
		for i := 0; i < n; i++ {
			x := <-ch
			if x.Status != "unknown" {
				r = x
				break
			}
			raws = append(raws, x.Solver+": "+firstLines(x.Raw, 2))
		}
		cancel()
		if r.Status == "unknown" {
			r.Raw = strings.Join(raws, "; ")
		}
	}
	s.mu.Lock()
	s.cache[h] = r
	s.Stats[r.Solver+":"+r.Status]++
	s.mu.Unlock()
	if r.Status == "unsat" {
		s.keep(text, r.Solver)
	}
	return r
}

// late tells whether the deadline has passed.
func (s *Solver) late() bool { return !s.Deadline.IsZero() && time.Now().After(s.Deadline) }

// provedQuery is a query that the solver answered with unsat.
type provedQuery struct{ text, solver string }

func (s *Solver) keep(text, solver string) {
	if !s.Cross {
		return
	}
	s.mu.Lock()
	s.proved = append(s.proved, provedQuery{text, solver})
	s.mu.Unlock()
}

// Confirm has other solvers look at the proved queries until the deadline. It
// returns how many they confirmed, left open and did not get to look at, and
// what they refuted.
func (s *Solver) Confirm(end time.Time) (ok, open, unseen int, refuted []string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	work := make(chan provedQuery)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := range work {
				st, by := "unknown", ""
				// a solver of another family first
				for _, be := range []string{"cvc5", "z3", "z3-new"} {
					for _, b := range backends {
						if st == "unknown" && b.name == be && b.name != q.solver && time.Now().Before(end) {
							r := s.run1(context.Background(), b, q.text, 8*time.Second)
							st, by = r.Status, b.name
						}
					}
				}
				mu.Lock()
				switch {
				case st == "unsat":
					ok++
				case st == "sat":
					refuted = append(refuted, by+" refutes what "+q.solver+" proved")
				case by == "":
					unseen++
				default:
					open++
				}
				mu.Unlock()
			}
		}()
	}
	for _, q := range s.proved {
		work <- q
	}
	close(work)
	wg.Wait()
	return
}

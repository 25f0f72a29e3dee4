package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// feasSolver is a persistent solver for quick feasibility questions. An
// unknown answer counts as feasible.
type feasSolver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	cache map[string]string
	n     int
	slow  int
	time  time.Duration
}

func newFeas() *feasSolver {
	f := &feasSolver{cache: map[string]string{}}
	return f
}

func (f *feasSolver) start() {
	f.cmd = exec.Command("z3-new", "-in")
	f.in, _ = f.cmd.StdinPipe()
	o, _ := f.cmd.StdoutPipe()
	f.cmd.Stderr = nil
	f.out = bufio.NewReader(o)
	if err := f.cmd.Start(); err != nil {
		f.cmd = nil
	}
}

func (f *feasSolver) close() {
	if f.cmd != nil {
		f.in.Close()
		f.cmd.Process.Kill()
		f.cmd.Wait()
		f.cmd = nil
	}
}

// ask decides the query text (which ends with check-sat).
func (f *feasSolver) ask(text string, ms string) string {
	if r, ok := f.cache[text]; ok {
		return r
	}
	t0 := time.Now()
	defer func() { f.time += time.Since(t0) }()
	if f.cmd == nil {
		f.start()
		if f.cmd == nil {
			return "unknown"
		}
	}
	if i := strings.Index(text, opaqueMark); i >= 0 {
		r := f.ask(text[:i], ms)
		if r != "unsat" {
			r = f.ask(text[i+len(opaqueMark):], ms)
		}
		f.cache[text] = r
		return r
	}
	if i := strings.Index(text, fullMark); i >= 0 {
		// only with opaque quantifiers: the others take too long to be refuted
		r := f.ask(text[:i], ms)
		if r == "sat" {
			r = "unknown"
		}
		f.cache[text] = r
		return r
	}
	f.n++
	z := ms
	if len(z) > 3 || z[0] > '3' {
		z = "250" // the other solver gets the rest
	}
	if _, err := io.WriteString(f.in, "(reset)\n(set-option :timeout "+z+")\n"+text+"(echo \"@@\")\n"); err != nil {
		f.close()
		return "unknown"
	}
	ans := "unknown"
	type line struct {
		s   string
		err error
	}
	done := make(chan string, 1)
	out := f.out
	go func() {
		a := "unknown"
		for {
			l, err := out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l == "sat" || l == "unsat" {
				a = l
			}
			if err != nil || l == "@@" {
				break
			}
		}
		done <- a
	}()
	select {
	case ans = <-done:
	case <-time.After(3 * time.Second):
		f.close()
		<-done
	}
	if ans == "unknown" && len(ms) > 3 || ans == "unknown" && ms[0] >= '3' {
		ans = cvc5Once(text, ms)
	}
	f.cache[text] = ans
	if d := os.Getenv("GOVER_SLOW"); d != "" {
		f.slow++
		os.WriteFile(fmt.Sprintf("%s/f%03d-%d-%s.smt2", d, f.slow, time.Since(t0).Milliseconds(), ans), []byte(text), 0644)
	}
	return ans
}

// feasible tells whether the state may satisfy c.
func (x *Exec) feasible(s *State, c *Term) bool {
	if x.pure > 0 || c.hasBV {
		return true
	}
	if x.feas == nil {
		return true
	}
	text := x.tb.queryText(s.pcList(), x.tb.Not(c), nil)
	return x.feas.ask(text, "150") != "unsat"
}

// cvc5Once asks the second solver.
func cvc5Once(text, ms string) string {
	cmd := exec.Command("cvc5", "--lang=smt2", "--strings-exp", "--tlimit="+ms, "-q")
	cmd.Stdin = strings.NewReader(text)
	out, _ := cmd.Output()
	switch s := strings.TrimSpace(string(out)); s {
	case "sat", "unsat":
		return s
	}
	return "unknown"
}

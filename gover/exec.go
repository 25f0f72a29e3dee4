package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is a proof obligation.
type Obl struct {
	Kind  string
	Label string
	Pos   string
	Trail []string
	pc    []*Term
	goal  *Term
	triv  bool
	cover bool
	unsup bool // raised by an unsupported construct
	res   Result
	query string
}

// Exec verifies one contract.
type Exec struct {
	tb       *TB
	ly       *Layouts
	prog     *Prog
	sol      *Solver
	contract *Contract
	mapID    int
	initHeap map[string]*SymMap
	compLeaf map[string]leaf
	bases    []*Term
	pinned   map[*SymMap]bool
	tags     map[string]int64
	tagTypes map[string]types.Type

	rec          int // obligations are recorded when 0
	pure         int // inside pure evaluation
	bvd          int // below a quantifier
	obls         []*Obl
	feas         *feasSolver
	snaps        []map[string]*SymMap
	assumed      map[string]bool // assumptions used
	stubbed      map[string]bool // functions replaced by the contract's own assumption
	inlined      map[string]bool
	modelled     map[string]bool
	usedContr    map[string]bool
	loopObl      int
	loops        map[string]*loopMemo
	loopSpecs    []*loopSpec
	stubs        map[string]*Term
	recStubs     map[string]*Term // for calls of a function already running
	invLoop      *loop
	invPath      *path
	onGo         *[4]*Term
	mayPanic     bool
	unchecked    bool
	entryHeap    map[string]*SymMap
	entryAll     *Term
	recDepth     int
	paths        int
	maxPaths     int
	curFrame     *frame
	droppedInv   map[string]bool
	keptInv      map[string]bool
	loopCount    int
	deadline     func() bool
	recMemo      map[string]bool
	covers       map[string]bool
	unsupMsgs    map[string]bool
	contractsUse map[*ssa.Function]*Contract
	coverSeen    map[string]int
	invs         *invCollect
}

type frame struct {
	goroot bool // a goroutine starts here
	fn     *ssa.Function
	caller *frame
	spec   bool
	depth  int
	hook   bool
	use    *useCtx
	call   ssa.CallInstruction
}

type deferred struct {
	fn   *Term
	sfn  *ssa.Function
	bi   *ssa.Builtin
	args []Val
	call *ssa.CallCommon
	inv  bool
}

type path struct {
	st     *State
	env    map[ssa.Value]Val
	defers []deferred
}

func (p *path) clone() *path {
	n := &path{st: p.st.clone(), env: make(map[ssa.Value]Val, len(p.env)+4), defers: append([]deferred{}, p.defers...)}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

type outcome struct {
	st    *State
	res   Val
	panic bool
}

type unsupported struct{ msg string }

func fail(format string, args ...any) {
	panic(unsupported{fmt.Sprintf(format, args...)})
}

func newExec(p *Prog, sol *Solver) *Exec {
	x := &Exec{
		tb: newTB(), prog: p, sol: sol,
		initHeap: map[string]*SymMap{}, compLeaf: map[string]leaf{}, pinned: map[*SymMap]bool{},
		tags: map[string]int64{}, tagTypes: map[string]types.Type{},
		assumed: map[string]bool{}, inlined: map[string]bool{}, modelled: map[string]bool{}, usedContr: map[string]bool{},
		loops: map[string]*loopMemo{}, stubs: map[string]*Term{}, stubbed: map[string]bool{}, recStubs: map[string]*Term{}, maxPaths: 20000,
		droppedInv: map[string]bool{}, keptInv: map[string]bool{}, recMemo: map[string]bool{}, covers: map[string]bool{}, unsupMsgs: map[string]bool{},
		contractsUse: map[*ssa.Function]*Contract{}, coverSeen: map[string]int{},
	}
	x.ly = newLayouts()
	x.ly.opaque = map[string]types.Type{}
	for k, v := range p.opaque {
		x.ly.opaque[k] = v
	}
	n0 := x.tb.UF("N!0", SInt)
	n0.facts = append(n0.facts, x.tb.Lt(x.tb.Zero, n0))
	x.bases = []*Term{n0}
	x.tb.bases[n0] = 0
	return x
}

func (x *Exec) newState() *State {
	return &State{heap: map[string]*SymMap{}, known: map[*Term]bool{}, alloc: x.bases[0]}
}

func (x *Exec) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := in.Pos()
	if !p.IsValid() {
		// look for a position in the block
		for _, o := range in.Block().Instrs {
			if o.Pos().IsValid() {
				p = o.Pos()
				break
			}
		}
	}
	ps := x.prog.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, repoDir+"/"), ps.Line)
}

// oblige records an obligation, and assumes it.
func (x *Exec) oblige(s *State, kind, label string, goal *Term) {
	x.obligeAt(s, kind, label, "", goal)
}

func (x *Exec) obligeAt(s *State, kind, label, pos string, goal *Term) {
	if s.dead || x.otherProp(label) {
		return
	}
	g := x.simp(s, goal)
	if x.rec == 0 && x.pure == 0 {
		o := &Obl{Kind: kind, Label: label, Pos: pos, goal: g, Trail: append([]string{}, s.trail...)}
		if g.isTrue() {
			o.triv = true
		} else {
			o.pc = s.pcList()
		}
		x.obls = append(x.obls, o)
	}
	if x.pure == 0 || kind != "safety" {
		x.assumeT(s, g, false)
	}
}

// otherProp tells whether the label ("C01 C02: text") belongs to other
// properties than the one being decided.
func (x *Exec) otherProp(label string) bool {
	m := propLabel.FindString(label)
	return m != "" && x.sol.Prop != "" && !strings.Contains(m, x.sol.Prop)
}

var propLabel = regexp.MustCompile(`^C\d\d( C\d\d)*:`)

// ---- intervals

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func (x *Exec) mergeInterval(t, a, b *Term) {
	if t.sort != SInt || t.op != OIte || t.lo != nil {
		return
	}
	al, ah := x.interval(a)
	bl, bh := x.interval(b)
	if al != nil && bl != nil {
		t.lo = minB(al, bl)
	}
	if ah != nil && bh != nil {
		t.hi = maxB(ah, bh)
	}
}

func (x *Exec) interval(t *Term) (lo, hi *big.Int) {
	if t.op == OConst {
		return t.ival, t.ival
	}
	if t.lo != nil || t.hi != nil {
		return t.lo, t.hi
	}
	switch t.op {
	case OLin:
		lo, hi = new(big.Int).Set(t.ival), new(big.Int).Set(t.ival)
		for i, a := range t.args {
			l, h := x.interval(a)
			c := t.coefs[i]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				lo = nil
			}
			if h == nil {
				hi = nil
			}
			if lo != nil {
				lo.Add(lo, new(big.Int).Mul(l, c))
			}
			if hi != nil {
				hi.Add(hi, new(big.Int).Mul(h, c))
			}
		}
		return
	case OApp:
		switch t.name {
		case "str.len", "seq.len":
			return new(big.Int), maxLen
		case "str.indexof":
			return big.NewInt(-1), maxLen
		case "mod":
			if t.args[1].op == OConst && t.args[1].ival.Sign() > 0 {
				return new(big.Int), new(big.Int).Sub(t.args[1].ival, big.NewInt(1))
			}
		case "div":
			if l, h := x.interval(t.args[0]); l != nil && h != nil && t.args[1].op == OConst && t.args[1].ival.Sign() > 0 {
				q := func(a *big.Int) *big.Int {
					d, m := new(big.Int), new(big.Int)
					d.DivMod(a, t.args[1].ival, m)
					return d
				}
				return q(l), q(h)
			}
		case "str.to_code":
			return big.NewInt(-1), big.NewInt(255)
		}
	case OIte:
		al, ah := x.interval(t.args[1])
		bl, bh := x.interval(t.args[2])
		if al != nil && bl != nil {
			lo = minB(al, bl)
		}
		if ah != nil && bh != nil {
			hi = maxB(ah, bh)
		}
		return
	}
	return nil, nil
}

// intervalIn refines the interval by the path condition.
func (x *Exec) intervalIn(s *State, t *Term) (lo, hi *big.Int) {
	lo, hi = x.interval(t)
	l := x.tb.toLin(t)
	// facts: sum c_i a_i + k >= 0 where the fact's linear part is +-t's part
	for n := s.pc; n != nil; n = n.parent {
		f := n.t
		if f.op != OLe {
			continue
		}
		fl := x.tb.toLin(f.args[0])
		if len(fl.terms) == 0 {
			continue
		}
		// f = a*t + rest; try coefficient +-1 matching of all t's atoms
		for _, sgn := range []int64{1, -1} {
			ok := true
			for a, c := range l.terms {
				fc, has := fl.terms[a]
				if !has || fc.Cmp(new(big.Int).Mul(c, big.NewInt(sgn))) != 0 {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			rl, rh := new(big.Int).Set(fl.c), new(big.Int).Set(fl.c)
			for a, c := range fl.terms {
				if _, has := l.terms[a]; has {
					continue
				}
				al, ah := x.interval(a)
				if c.Sign() < 0 {
					al, ah = ah, al
				}
				_ = al
				if ah == nil {
					rh = nil
					break
				}
				rh.Add(rh, new(big.Int).Mul(ah, c))
			}
			_ = rl
			if rh == nil {
				continue
			}
			// sgn*(t - l.c) + rest >= 0 with rest <= rh
			if sgn > 0 {
				// t >= l.c - rh
				b := new(big.Int).Sub(l.c, rh)
				if lo == nil || b.Cmp(lo) > 0 {
					lo = b
				}
			} else {
				b := new(big.Int).Add(l.c, rh)
				if hi == nil || b.Cmp(hi) < 0 {
					hi = b
				}
			}
		}
	}
	return
}

// wrap reduces a mathematical result to the machine type.
func (x *Exec) wrap(s *State, r *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return r
	}
	l, h := x.interval(r)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return r
	}
	l, h = x.intervalIn(s, r)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return r
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	w := x.tb.Add(x.tb.Mod(x.tb.Sub(r, x.tb.BigInt(lo)), x.tb.BigInt(m)), x.tb.BigInt(lo))
	in := x.tb.And(x.tb.Le(x.tb.BigInt(lo), r), x.tb.Le(r, x.tb.BigInt(hi)))
	in = x.simp(s, in)
	if in.isTrue() {
		return r
	}
	v := x.tb.Ite(in, r, w)
	if v.op != OConst {
		v.lo, v.hi = lo, hi
	}
	return v
}

// ---- constants and operands

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Val{x.tb.Bool(constant.BoolVal(c.Value))}
	case constant.String:
		return Val{x.tb.Str(constant.StringVal(c.Value))}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{x.floatConst(c.Value)}
		}
		if types.IsInterface(t) {
			fail("const interface")
		}
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return Val{x.tb.BigInt(n)}
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return Val{x.tb.BigInt(n)}
		}
		return Val{x.floatConst(c.Value)}
	}
	fail("constant %v", c)
	return nil
}

func (x *Exec) floatConst(v constant.Value) *Term {
	f, _ := constant.Float64Val(v)
	t := x.tb.UF(fmt.Sprintf("float!%v", f), SInt)
	return t
}

func (x *Exec) val(p *path, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return Val{x.globalAddr(v)}
	case *ssa.Function:
		return Val{x.funcTerm(v, nil)}
	case *ssa.Builtin:
		return Val{x.tb.Zero}
	}
	r, ok := p.env[v]
	if !ok {
		fail("undefined value %s = %s in %s", v.Name(), v, v.Parent())
	}
	return r
}

func (x *Exec) funcTerm(fn *ssa.Function, binds []Val) *Term {
	var args []*Term
	for _, b := range binds {
		args = append(args, b...)
	}
	t := x.tb.UF("clo!"+qualName(fn)+x.cloSuffix(fn), SInt, args...)
	if t.fn == nil {
		t.fn = &closure{fn: fn, binds: binds}
		t.nonnil = true
	}
	return t
}

func (x *Exec) cloSuffix(fn *ssa.Function) string {
	if len(fn.TypeArgs()) > 0 {
		var ks []string
		for _, t := range fn.TypeArgs() {
			ks = append(ks, x.ly.key(t))
		}
		return "[" + strings.Join(ks, ",") + "]"
	}
	if fn.Parent() != nil && len(fn.Parent().TypeArgs()) > 0 {
		return x.cloSuffix(fn.Parent())
	}
	return ""
}

// ---- running functions

// runFunc executes a function from its entry.
func (x *Exec) runFunc(caller *frame, call ssa.CallInstruction, s *State, fn *ssa.Function, args []Val, binds []Val) []outcome {
	if len(fn.Blocks) == 0 {
		fail("no body for %s", fn)
	}
	fr := &frame{fn: fn, caller: caller, spec: x.prog.isSpec(fn), call: call}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > 60 {
		fail("call depth in %s", fn)
	}
	for f := caller; f != nil; f = f.caller {
		if f.fn == fn && !fr.spec {
			n := 0
			for g := caller; g != nil; g = g.caller {
				if g.fn == fn {
					n++
				}
			}
			if n > 3 {
				fail("recursion in %s", fn)
			}
		}
	}
	p := &path{st: s, env: map[ssa.Value]Val{}}
	for i, pr := range fn.Params {
		if i >= len(args) {
			fail("args of %s", fn)
		}
		p.env[pr] = args[i]
	}
	for i, fv := range fn.FreeVars {
		p.env[fv] = binds[i]
	}
	save := x.curFrame
	x.curFrame = fr
	defer func() { x.curFrame = save }()
	forest := x.prog.loopsOf(fn)
	_, _, outs := x.runBlocks(fr, forest, map[*ssa.BasicBlock][]*path{fn.Blocks[0]: {p}}, nil)
	return x.mergeOutcomes(outs)
}

// runBlocks executes the blocks of a loop body or a function, given pending
// paths. Paths that reach lp's header again are returned as back; paths that
// leave lp are returned as exits.
func (x *Exec) runBlocks(fr *frame, forest *loopForest, pend map[*ssa.BasicBlock][]*path, lp *loop) (exits map[*ssa.BasicBlock][]*path, back []*path, outs []outcome) {
	exits = map[*ssa.BasicBlock][]*path{}
	first := lp != nil
	for _, b := range forest.rpo {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		ps := pend[b]
		if len(ps) == 0 {
			continue
		}
		delete(pend, b)
		ps = x.mergePaths(ps)
		deliver := func(to *ssa.BasicBlock, p *path) {
			if p.st.dead {
				return
			}
			if lp != nil && to == lp.header {
				back = append(back, p)
				return
			}
			if lp != nil && !lp.blocks[to] {
				exits[to] = append(exits[to], p)
				return
			}
			pend[to] = append(pend[to], p)
		}
		if in := forest.headers[b]; in != nil && in != lp {
			for _, p := range ps {
				ex, os := x.runLoop(fr, forest, in, p)
				outs = append(outs, os...)
				for _, to := range forest.rpo {
					for _, q := range ex[to] {
						deliver(to, q)
					}
				}
			}
			continue
		}
		_ = first
		for _, p := range ps {
			x.step(fr, p, b, 0, deliver, &outs)
		}
	}
	return
}

// edge moves the path along an edge, evaluating phis.
func (x *Exec) edge(fr *frame, p *path, from, to *ssa.BasicBlock, deliver func(*ssa.BasicBlock, *path)) {
	idx := -1
	for i, pr := range to.Preds {
		if pr == from {
			idx = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, x.val(p, phi.Edges[idx]))
	}
	for i, phi := range phis {
		p.env[phi] = vals[i]
	}
	deliver(to, p)
}

var trace = os.Getenv("GOVER_TRACE") != ""

// step executes the block from instruction i.
func (x *Exec) step(fr *frame, p *path, b *ssa.BasicBlock, i int, deliver func(*ssa.BasicBlock, *path), outs *[]outcome) {
	save := x.curFrame
	x.curFrame = fr
	defer func() { x.curFrame = save }()
	for ; i < len(b.Instrs); i++ {
		if p.st.dead {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.simp(p.st, x.val(p, in.Cond)[0])
			if !c.isConst() {
				// several equal successors never occur in practice
				ft := x.feasible(p.st, c)
				ff := ft && x.feasible(p.st, x.tb.Not(c))
				if !ft {
					x.assumeT(p.st, x.tb.Not(c), true)
					c = x.tb.Fals
				} else if !ff {
					x.assumeT(p.st, c, true)
					c = x.tb.True
				}
			}
			if c.isTrue() {
				x.edge(fr, p, b, b.Succs[0], deliver)
				return
			}
			if c.isFalse() {
				x.edge(fr, p, b, b.Succs[1], deliver)
				return
			}
			x.paths++
			if x.paths > x.maxPaths {
				fail("too many paths")
			}
			q := p.clone()
			if !fr.spec && x.pure == 0 {
				ps := x.pos(in)
				p.st.trail = append(p.st.trail, ps+" true")
				q.st.trail = append(q.st.trail, ps+" false")
			}
			x.assumeT(p.st, c, true)
			x.assumeT(q.st, x.tb.Not(c), true)
			x.edge(fr, p, b, b.Succs[0], deliver)
			x.edge(fr, q, b, b.Succs[1], deliver)
			return
		case *ssa.Jump:
			x.edge(fr, p, b, b.Succs[0], deliver)
			return
		case *ssa.Return:
			var r Val
			for _, v := range in.Results {
				r = append(r, x.val(p, v)...)
			}
			*outs = append(*outs, outcome{st: p.st, res: r})
			return
		case *ssa.Panic:
			x.panicAt(fr, p, x.pos(in), "explicit panic")
			return
		case *ssa.RunDefers:
			ps := []*path{p}
			for {
				var next []*path
				done := true
				for _, q := range ps {
					if len(q.defers) == 0 {
						next = append(next, q)
						continue
					}
					done = false
					d := q.defers[len(q.defers)-1]
					q.defers = q.defers[:len(q.defers)-1]
					for _, o := range x.runDeferred(fr, q, d, in) {
						n := q
						n = &path{st: o.st, env: q.env, defers: append([]deferred{}, q.defers...)}
						next = append(next, n)
					}
				}
				ps = next
				if done {
					break
				}
			}
			for k, q := range ps {
				if k < len(ps)-1 {
					e := make(map[ssa.Value]Val, len(q.env))
					for kk, vv := range q.env {
						e[kk] = vv
					}
					q.env = e
				}
				x.step(fr, q, b, i+1, deliver, outs)
			}
			return
		case *ssa.Defer:
			p.defers = append(p.defers, x.mkDeferred(p, &in.Call))
			continue
		case *ssa.Go:
			x.goStmt(fr, p, in)
			continue
		case *ssa.Call:
			res := x.callInstr(fr, p, in)
			if !x.continueWith(fr, p, b, i, in, res, deliver, outs) {
				return
			}
			continue
		case *ssa.Select:
			res := x.selectStmt(fr, p, in)
			if !x.continueWith(fr, p, b, i, in, res, deliver, outs) {
				return
			}
			continue
		case *ssa.Send:
			x.sendStmt(fr, p, in)
			continue
		case *ssa.TypeAssert:
			x.typeAssert(fr, p, in)
			continue
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				res := x.recvStmt(fr, p, in)
				if !x.continueWith(fr, p, b, i, in, res, deliver, outs) {
					return
				}
				continue
			}
			x.instr(fr, p, in)
		default:
			x.instr(fr, p, in)
		}
	}
}

// continueWith binds the results; false if the path was forked and finished.
func (x *Exec) continueWith(fr *frame, p *path, b *ssa.BasicBlock, i int, in ssa.Value, res []outcome, deliver func(*ssa.BasicBlock, *path), outs *[]outcome) bool {
	var live []outcome
	for _, o := range res {
		if !o.st.dead && !o.panic {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		p.st.dead = true
		return false
	}
	if len(live) == 1 {
		p.st = live[0].st
		p.env[in] = live[0].res
		return true
	}
	x.paths += len(live) - 1
	if x.paths > x.maxPaths {
		fail("too many paths")
	}
	for k, o := range live {
		q := &path{st: o.st, env: p.env, defers: p.defers}
		if k < len(live)-1 {
			q.env = make(map[ssa.Value]Val, len(p.env)+4)
			for kk, vv := range p.env {
				q.env[kk] = vv
			}
			q.defers = append([]deferred{}, p.defers...)
		}
		q.env[in] = o.res
		x.step(fr, q, b, i+1, deliver, outs)
	}
	return false
}

func (x *Exec) panicAt(fr *frame, p *path, pos, why string) {
	if fr.spec || x.pure > 0 {
		p.st.dead = true
		return
	}
	if !x.mayPanic {
		x.obligeAt(p.st, "safety", "no panic: "+why+" in "+qualName(fr.fn), pos, x.tb.Fals)
	}
	p.st.dead = true
}

// safe obliges a safety condition in implementation code.
func (x *Exec) safe(fr *frame, p *path, in ssa.Instruction, why string, c *Term) {
	c = x.simp(p.st, c)
	if c.isTrue() {
		return
	}
	if x.bvd > 0 {
		return // below a quantifier the value may be meaningless
	}
	if fr.spec || x.pure > 0 || x.unchecked || x.mayPanic {
		x.assumeT(p.st, c, false)
		return
	}
	x.obligeAt(p.st, "safety", why+" in "+qualName(fr.fn), x.pos(in), c)
}

func (x *Exec) nonNil(fr *frame, p *path, in ssa.Instruction, t *Term) {
	x.safe(fr, p, in, "nil dereference", x.notNil(t))
}

func (x *Exec) notNil(t *Term) *Term {
	if t.nonnil {
		return x.tb.True
	}
	if t.op == OIte {
		return x.tb.Ite(t.args[0], x.notNil(t.args[1]), x.notNil(t.args[2]))
	}
	return x.tb.Not(x.tb.Eq(t, x.tb.Zero))
}

// instr executes a straight-line instruction.
func (x *Exec) instr(fr *frame, p *path, in ssa.Instruction) {
	tb := x.tb
	s := p.st
	switch in := in.(type) {
	case *ssa.Alloc:
		p.env[in] = Val{x.allocObj(s, in.Type().(*types.Pointer).Elem())}
	case *ssa.BinOp:
		p.env[in] = x.binop(fr, p, in)
	case *ssa.UnOp:
		v := x.val(p, in.X)
		switch in.Op {
		case token.MUL:
			x.nonNil(fr, p, in, v[0])
			p.env[in] = x.load(s, v[0], in.Type())
		case token.NOT:
			p.env[in] = Val{tb.Not(v[0])}
		case token.SUB:
			if isFloat(in.Type()) {
				p.env[in] = Val{tb.UF("fneg", SInt, v[0])}
			} else if fr.spec {
				p.env[in] = Val{tb.Neg(v[0])}
			} else {
				p.env[in] = Val{x.wrap(s, tb.Neg(v[0]), in.Type())}
			}
		case token.XOR:
			// ^x = -x-1 for signed integers
			r := tb.Sub(tb.Neg(v[0]), tb.One)
			p.env[in] = Val{x.wrap(s, r, in.Type())}
		default:
			fail("unop %v", in.Op)
		}
	case *ssa.ChangeType:
		p.env[in] = x.val(p, in.X)
	case *ssa.ChangeInterface:
		p.env[in] = x.val(p, in.X)
	case *ssa.MakeInterface:
		p.env[in] = x.box(in.X.Type(), x.val(p, in.X))
	case *ssa.Convert:
		p.env[in] = x.convert(fr, p, in)
	case *ssa.MultiConvert:
		fail("multiconvert")
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(p, b))
		}
		p.env[in] = Val{x.funcTerm(in.Fn.(*ssa.Function), bs)}
	case *ssa.MakeMap:
		p.env[in] = Val{x.newMapObj(s, in.Type())}
	case *ssa.MakeChan:
		r := x.newRef(s)
		x.put(s, "chan#cap", leaf{"", SInt, nil, lkPlain}, []*Term{r}, x.val(p, in.Size)[0])
		p.env[in] = Val{r}
	case *ssa.MakeSlice:
		l, c := x.val(p, in.Len)[0], x.val(p, in.Cap)[0]
		x.safe(fr, p, in, "makeslice", tb.And(tb.Le(tb.Zero, l), tb.Le(l, c)))
		if !fr.spec {
			// memory bounds: an allocation of 2^48 elements fails
			x.assumeT(s, tb.Lt(c, tb.BigInt(maxLen)), false)
		}
		r := x.newRef(s)
		x.zeroRow(s, in.Type().Underlying().(*types.Slice).Elem(), r)
		p.env[in] = Val{r, tb.Zero, l, c}
	case *ssa.Slice:
		p.env[in] = x.sliceOp(fr, p, in)
	case *ssa.FieldAddr:
		v := x.val(p, in.X)[0]
		x.nonNil(fr, p, in, v)
		p.env[in] = Val{x.fieldAddr(s, v, in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field)}
	case *ssa.Field:
		v := x.val(p, in.X)
		st := in.X.Type().Underlying().(*types.Struct)
		n := 0
		for i := 0; i < in.Field; i++ {
			n += len(x.ly.leaves(st.Field(i).Type()))
		}
		p.env[in] = v[n : n+len(x.ly.leaves(in.Type()))]
	case *ssa.IndexAddr:
		v := x.val(p, in.X)
		i := x.val(p, in.Index)[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.safe(fr, p, in, "index out of range", tb.And(tb.Le(tb.Zero, i), tb.Lt(i, v[2])))
			p.env[in] = x.distribute(s, v[0], func(arr *Term) Val {
				return Val{x.elemAddr(u.Elem(), arr, tb.Add(v[1], i))}
			})
		case *types.Pointer:
			ar := u.Elem().Underlying().(*types.Array)
			x.nonNil(fr, p, in, v[0])
			x.safe(fr, p, in, "index out of range", tb.And(tb.Le(tb.Zero, i), tb.Lt(i, tb.Int(ar.Len()))))
			p.env[in] = Val{x.elemAddr(ar.Elem(), v[0], i)}
		}
	case *ssa.Index:
		v := x.val(p, in.X)
		i := x.val(p, in.Index)[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Basic: // string
			x.safe(fr, p, in, "index out of range", tb.And(tb.Le(tb.Zero, i), tb.Lt(i, tb.StrLen(v[0]))))
			p.env[in] = Val{x.byteAt(v[0], i)}
		case *types.Array:
			k := len(x.ly.leaves(u.Elem()))
			if n, ok := i.intVal(); ok {
				p.env[in] = v[int(n)*k : int(n+1)*k]
				return
			}
			x.safe(fr, p, in, "index out of range", tb.And(tb.Le(tb.Zero, i), tb.Lt(i, tb.Int(u.Len()))))
			r := v[0:k]
			for n := int64(1); n < u.Len(); n++ {
				r = x.iteVal(tb.Eq(i, tb.Int(n)), v[int(n)*k:int(n+1)*k], r)
			}
			p.env[in] = r
		default:
			fail("index of %v", in.X.Type())
		}
	case *ssa.Lookup:
		v := x.val(p, in.X)
		k := x.val(p, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			x.safe(fr, p, in, "index out of range", tb.And(tb.Le(tb.Zero, k[0]), tb.Lt(k[0], tb.StrLen(v[0]))))
			p.env[in] = Val{x.byteAt(v[0], k[0])}
			return
		}
		x.checkMapGuard(s, in.X.Type(), v[0], false)
		r, dom := x.mapGet(s, in.X.Type(), v[0], k)
		if in.CommaOk {
			r = append(append(Val{}, r...), dom)
		}
		p.env[in] = r
	case *ssa.MapUpdate:
		m := x.val(p, in.Map)
		x.safe(fr, p, in, "assignment to nil map", x.notNil(m[0]))
		x.checkMapGuard(s, in.Map.Type(), m[0], true)
		x.mapSet(s, in.Map.Type(), m[0], x.val(p, in.Key), x.val(p, in.Value))
	case *ssa.Store:
		a := x.val(p, in.Addr)[0]
		x.nonNil(fr, p, in, a)
		x.store(s, a, in.Addr.Type().Underlying().(*types.Pointer).Elem(), x.val(p, in.Val))
	case *ssa.Extract:
		v := x.val(p, in.Tuple)
		tt := in.Tuple.Type().(*types.Tuple)
		n := 0
		for i := 0; i < in.Index; i++ {
			n += len(x.ly.leaves(tt.At(i).Type()))
		}
		p.env[in] = v[n : n+len(x.ly.leaves(in.Type()))]
	case *ssa.Range:
		r := x.newRef(s)
		x.rangeInit(p, in, r)
		p.env[in] = Val{r}
	case *ssa.Next:
		x.next(fr, p, in)
	default:
		fail("instruction %T %s", in, in)
	}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) byteAt(str, i *Term) *Term {
	b := x.tb.StrByte(str, i)
	if b.op == OApp && b.facts == nil && !b.hasBV {
		in := x.tb.And(x.tb.Le(x.tb.Zero, i), x.tb.Lt(i, x.tb.StrLen(str)))
		b.facts = append(b.facts, x.tb.Imp(in, x.tb.And(x.tb.Le(x.tb.Zero, b), x.tb.Le(b, x.tb.Int(255)))))
	}
	return b
}

func (x *Exec) binop(fr *frame, p *path, in *ssa.BinOp) Val {
	tb := x.tb
	a, b := x.val(p, in.X), x.val(p, in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if isFloat(t) {
			r = tb.Eq(a[0], b[0])
		} else {
			r = x.eqVals(t, in.Y.Type(), a, b)
		}
		if in.Op == token.NEQ {
			r = tb.Not(r)
		}
		return Val{r}
	}
	if isString(t) {
		switch in.Op {
		case token.ADD:
			return Val{tb.Concat(a[0], b[0])}
		case token.LSS:
			return Val{tb.StrPred("str.<", a[0], b[0])}
		case token.GTR:
			return Val{tb.StrPred("str.<", b[0], a[0])}
		case token.LEQ:
			return Val{tb.StrPred("str.<=", a[0], b[0])}
		case token.GEQ:
			return Val{tb.StrPred("str.<=", b[0], a[0])}
		}
		fail("string op %v", in.Op)
	}
	if isFloat(t) {
		switch in.Op {
		case token.LSS:
			return Val{tb.UF("flt", SBool, a[0], b[0])}
		case token.GTR:
			return Val{tb.UF("flt", SBool, b[0], a[0])}
		case token.LEQ:
			return Val{tb.UF("fle", SBool, a[0], b[0])}
		case token.GEQ:
			return Val{tb.UF("fle", SBool, b[0], a[0])}
		}
		return Val{tb.UF("f"+in.Op.String(), SInt, a[0], b[0])}
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		fail("bool op %v", in.Op)
	}
	return Val{x.intOp(fr, p, in, in.Op, a[0], b[0], in.Type())}
}

func (x *Exec) intOp(fr *frame, p *path, in ssa.Instruction, op token.Token, a, b *Term, t types.Type) *Term {
	tb := x.tb
	s := p.st
	w := func(r *Term) *Term {
		if fr.spec {
			return r
		}
		return x.wrap(s, r, t)
	}
	switch op {
	case token.ADD:
		return w(tb.Add(a, b))
	case token.SUB:
		return w(tb.Sub(a, b))
	case token.MUL:
		return w(tb.Mul(a, b))
	case token.QUO, token.REM:
		x.safe(fr, p, in, "division by zero", tb.Not(tb.Eq(b, tb.Zero)))
		al, _ := x.intervalIn(s, a)
		bl, _ := x.intervalIn(s, b)
		na := al != nil && al.Sign() >= 0
		nb := bl != nil && bl.Sign() >= 0
		abs := func(v *Term, nn bool) *Term {
			if nn {
				return v
			}
			return tb.Ite(tb.Le(tb.Zero, v), v, tb.Neg(v))
		}
		if op == token.QUO {
			q := tb.Div(abs(a, na), abs(b, nb))
			if na && nb {
				return q
			}
			neg := tb.Not(tb.Eq(tb.Lt(a, tb.Zero), tb.Lt(b, tb.Zero)))
			return w(tb.Ite(neg, tb.Neg(q), q))
		}
		m := tb.Mod(abs(a, na), abs(b, nb))
		if na {
			return m
		}
		return tb.Ite(tb.Lt(a, tb.Zero), tb.Neg(m), m)
	case token.LSS:
		return tb.Lt(a, b)
	case token.LEQ:
		return tb.Le(a, b)
	case token.GTR:
		return tb.Lt(b, a)
	case token.GEQ:
		return tb.Le(b, a)
	case token.SHL:
		if n, ok := b.intVal(); ok && n >= 0 && n < 512 {
			return w(tb.Mul(a, tb.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))))
		}
		x.safe(fr, p, in, "negative shift", tb.Le(tb.Zero, b))
		pow := x.pow2(b)
		big64 := tb.Le(tb.Int(64), b)
		return tb.Ite(big64, tb.Zero, w(tb.Mul(a, pow)))
	case token.SHR:
		if n, ok := b.intVal(); ok && n >= 0 && n < 512 {
			return tb.Div(a, tb.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(n))))
		}
		x.safe(fr, p, in, "negative shift", tb.Le(tb.Zero, b))
		return tb.Ite(tb.Le(tb.Int(64), b), tb.Ite(tb.Lt(a, tb.Zero), tb.Int(-1), tb.Zero), tb.App("div", SInt, a, x.pow2(b)))
	case token.AND:
		if b.op == OConst || a.op == OConst {
			c, o := b, a
			if a.op == OConst {
				c, o = a, b
			}
			// mask 2^k-1
			m := new(big.Int).Add(c.ival, big.NewInt(1))
			if c.ival.Sign() >= 0 && m.BitLen() > 0 && new(big.Int).And(m, c.ival).Sign() == 0 {
				return tb.Mod(o, tb.BigInt(m))
			}
			// single bit 2^k
			if c.ival.Sign() > 0 && new(big.Int).And(c.ival, new(big.Int).Sub(c.ival, big.NewInt(1))).Sign() == 0 {
				return tb.Mul(c, tb.Mod(tb.Div(o, c), tb.Int(2)))
			}
		}
	case token.OR:
		if a.isZero() {
			return b
		}
		if b.isZero() {
			return a
		}
		if a.op == OConst && b.op == OConst {
			return tb.BigInt(new(big.Int).Or(a.ival, b.ival))
		}
	}
	r := tb.UF("bit"+op.String(), SInt, a, b)
	if r.facts == nil && !r.hasBV {
		if lo, hi, ok := intRange(t); ok {
			r.facts = append(r.facts, tb.Le(tb.BigInt(lo), r), tb.Le(r, tb.BigInt(hi)))
			r.lo, r.hi = lo, hi
		}
	}
	return r
}

// pow2 is 2^b for 0 <= b < 64.
func (x *Exec) pow2(b *Term) *Term {
	r := x.tb.BigInt(new(big.Int).Lsh(big.NewInt(1), 63))
	for i := 62; i >= 0; i-- {
		r = x.tb.Ite(x.tb.Eq(b, x.tb.Int(int64(i))), x.tb.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(i))), r)
	}
	return r
}

// eqVals compares two values.
func (x *Exec) eqVals(t, u types.Type, a, b Val) *Term {
	tb := x.tb
	if types.IsInterface(t) && !types.IsInterface(u) {
		b = x.box(u, b)
	} else if !types.IsInterface(t) && types.IsInterface(u) {
		a = x.box(t, a)
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		// only comparison with nil
		return tb.Eq(a[0], b[0])
	}
	if len(a) != len(b) {
		fail("eq layout %v %v", t, u)
	}
	var cs []*Term
	for i := range a {
		cs = append(cs, tb.Eq(a[i], b[i]))
	}
	return tb.And(cs...)
}

func (x *Exec) convert(fr *frame, p *path, in *ssa.Convert) Val {
	tb := x.tb
	s := p.st
	v := x.val(p, in.X)
	from, to := in.X.Type(), in.Type()
	fb, fok := from.Underlying().(*types.Basic)
	tbt, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tbt.Info()&types.IsInteger != 0:
			if fr.spec {
				return v
			}
			return Val{x.wrap(s, v[0], to)}
		case fb.Info()&types.IsString != 0 && tbt.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tbt.Info()&types.IsString != 0:
			if n, ok := v[0].intVal(); ok {
				return Val{tb.Str(string(rune(n)))}
			}
			return Val{tb.UF("runestr", SStr, v[0])}
		case fb.Info()&types.IsFloat != 0 && tbt.Info()&types.IsFloat != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tbt.Info()&types.IsFloat != 0:
			return Val{tb.UF("int2float", SInt, v[0])}
		case fb.Info()&types.IsFloat != 0 && tbt.Info()&types.IsInteger != 0:
			r := tb.UF("float2int", SInt, v[0])
			if r.facts == nil && !r.hasBV {
				if lo, hi, ok := intRange(to); ok {
					r.facts = append(r.facts, tb.Le(tb.BigInt(lo), r), tb.Le(r, tb.BigInt(hi)))
					r.lo, r.hi = lo, hi
				}
			}
			return Val{r}
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if isByte(sl.Elem()) {
				return x.bytesOf(s, sl.Elem(), v[0])
			}
			r := x.newRef(s)
			n := tb.UF("runecount", SInt, v[0])
			if n.facts == nil && !n.hasBV {
				n.facts = append(n.facts, tb.Le(tb.Zero, n), tb.Le(n, tb.StrLen(v[0])))
			}
			x.eachElemLeaf(sl.Elem(), func(name string, l leaf) {
				m := x.comp(s, name, l)
				nm := x.newMap(smHavoc, name, l)
				nm.prev = m
				nm.base = x.newBase(s, name, l, fmt.Sprintf("runes%d", x.mapID))
				nm.keep = func(k []*Term) *Term { return tb.Not(tb.Eq(k[0], r)) }
				nm.inner = &mod{refs: map[string]*Term{"": r}}
				s.heap[name] = nm
			})
			return Val{r, tb.Zero, n, n}
		}
	}
	if sl, ok := from.Underlying().(*types.Slice); ok && tok && tbt.Info()&types.IsString != 0 {
		if isByte(sl.Elem()) {
			return Val{x.strOf(s, sl.Elem(), v)}
		}
		return Val{tb.Fresh("runesstr", SStr)}
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return v
	}
	fail("convert %v to %v", from, to)
	return nil
}

func (x *Exec) bytesOf(s *State, elem types.Type, str *Term) Val {
	r := x.newRef(s)
	x.eachElemLeaf(elem, func(name string, l leaf) {
		x.putRow(s, name, l, r, str, true)
	})
	n := x.tb.StrLen(str)
	return Val{r, x.tb.Zero, n, n}
}

// strOf is the content of a byte slice.
func (x *Exec) strOf(s *State, elem types.Type, v Val) *Term {
	l := x.ly.leaves(elem)[0]
	m := x.comp(s, "E:"+x.ly.key(elem), l)
	return x.distribute(s, v[0], func(arr *Term) Val {
		return Val{x.seqOf(s, m, arr, v[1], v[2])}
	})[0]
}

func (x *Exec) sliceOp(fr *frame, p *path, in *ssa.Slice) Val {
	tb := x.tb
	v := x.val(p, in.X)
	opt := func(y ssa.Value, d *Term) *Term {
		if y == nil {
			return d
		}
		return x.val(p, y)[0]
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		n := tb.StrLen(v[0])
		lo, hi := opt(in.Low, tb.Zero), opt(in.High, n)
		x.safe(fr, p, in, "slice bounds", tb.And(tb.Le(tb.Zero, lo), tb.Le(lo, hi), tb.Le(hi, n)))
		return Val{tb.Substr(v[0], lo, hi)}
	case *types.Slice:
		lo, hi := opt(in.Low, tb.Zero), opt(in.High, v[2])
		mx := opt(in.Max, v[3])
		x.safe(fr, p, in, "slice bounds", tb.And(tb.Le(tb.Zero, lo), tb.Le(lo, hi), tb.Le(hi, mx), tb.Le(mx, v[3])))
		return Val{v[0], tb.Add(v[1], lo), tb.Sub(hi, lo), tb.Sub(mx, lo)}
	case *types.Pointer:
		n := tb.Int(u.Elem().Underlying().(*types.Array).Len())
		lo, hi := opt(in.Low, tb.Zero), opt(in.High, n)
		mx := opt(in.Max, n)
		x.nonNil(fr, p, in, v[0])
		x.safe(fr, p, in, "slice bounds", tb.And(tb.Le(tb.Zero, lo), tb.Le(lo, hi), tb.Le(hi, mx), tb.Le(mx, n)))
		return Val{v[0], lo, tb.Sub(hi, lo), tb.Sub(mx, lo)}
	}
	fail("slice of %v", in.X.Type())
	return nil
}

// ---- ranges over maps and strings

func (x *Exec) rangeInit(p *path, in *ssa.Range, r *Term) {
	s := p.st
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		x.putRow(s, "IV:"+x.mapKeyType(in.X.Type()), leaf{"", SBool, nil, lkPlain}, r, x.tb.Fals, false)
		_ = mt
		// the key set at the start
		m := x.val(p, in.X)
		dn, dl := x.mapDom(s, in.X.Type())
		cur := x.comp(s, dn, dl)
		nm := x.newMap(smSnap, "IS:"+x.mapKeyType(in.X.Type()), dl)
		nm.prev = x.comp(s, "IS:"+x.mapKeyType(in.X.Type()), dl)
		nm.keys = []*Term{r}
		nm.src = cur
		nm.sArr = m[0]
		s.heap["IS:"+x.mapKeyType(in.X.Type())] = nm
		return
	}
	x.put(s, "IP", leaf{"", SInt, nil, lkPlain}, []*Term{r}, x.tb.Zero)
}

func (x *Exec) next(fr *frame, p *path, in *ssa.Next) {
	s := p.st
	tb := x.tb
	rng, ok := in.Iter.(*ssa.Range)
	if !ok {
		fail("range iterator")
	}
	it := x.val(p, in.Iter)[0]
	if in.IsString {
		str := x.val(p, rng.X)[0]
		pos := x.sel(s, x.comp(s, "IP", leaf{"", SInt, nil, lkPlain}), []*Term{it})
		okT := tb.And(tb.Le(tb.Zero, pos), tb.Lt(pos, tb.StrLen(str)))
		b := x.byteAt(str, pos)
		r := tb.UF("rune", SInt, str, pos)
		w := tb.UF("runewidth", SInt, str, pos)
		if r.facts == nil && !r.hasBV {
			ascii := tb.Lt(b, tb.Int(128))
			r.facts = append(r.facts, tb.Imp(okT, tb.And(
				tb.Imp(ascii, tb.Eq(r, b)), tb.Imp(tb.Not(ascii), tb.And(tb.Le(tb.Int(128), r), tb.Le(r, tb.Int(0x10ffff)))))))
			w.facts = append(w.facts, tb.Imp(okT, tb.And(tb.Imp(ascii, tb.Eq(w, tb.One)),
				tb.Le(tb.One, w), tb.Le(w, tb.Int(4)), tb.Le(tb.Add(pos, w), tb.StrLen(str)))))
		}
		x.put(s, "IP", leaf{"", SInt, nil, lkPlain}, []*Term{it}, tb.Ite(okT, tb.Add(pos, w), pos))
		p.env[in] = Val{okT, pos, r}
		return
	}
	mt := rng.X.Type().Underlying().(*types.Map)
	m := x.val(p, rng.X)[0]
	okT := tb.Fresh("more", SBool)
	k := x.fresh(s, mt.Key(), "key")
	x.checkMapGuard(s, rng.X.Type(), m, false)
	v, dom := x.mapGet(s, rng.X.Type(), m, k)
	iv := "IV:" + x.mapKeyType(rng.X.Type())
	is := "IS:" + x.mapKeyType(rng.X.Type())
	bl := leaf{"", SBool, nil, lkPlain}
	keys := append([]*Term{it}, k...)
	vis := x.sel(s, x.comp(s, iv, bl), keys)
	// produced keys are present and not yet produced
	x.assumeT(s, tb.Imp(okT, tb.And(dom, tb.Not(vis))), false)
	// at the end every key that was there from the start was produced
	var bvs []*Term
	for _, l := range x.ly.leaves(mt.Key()) {
		bvs = append(bvs, tb.BV(l.sort))
	}
	bkeys := append([]*Term{it}, bvs...)
	mkeys := append([]*Term{m}, bvs...)
	dn, dl := x.mapDom(s, rng.X.Type())
	bd := tb.And(x.notNil(m), x.sel(s, x.comp(s, dn, dl), mkeys), x.sel(s, x.comp(s, is, bl), bkeys))
	bvis := x.sel(s, x.comp(s, iv, bl), bkeys)
	x.assumeT(s, tb.Imp(tb.Not(okT), tb.Quant("forall", bvs, tb.Imp(bd, bvis))), false)
	old := x.sel(s, x.comp(s, iv, bl), keys)
	x.put(s, iv, bl, keys, tb.Ite(okT, tb.True, old))
	r := Val{okT}
	r = append(r, k...)
	r = append(r, v...)
	// unused key or value
	tt := in.Type().(*types.Tuple)
	if len(x.ly.leaves(tt)) != len(r) {
		r = Val{okT}
		if isInvalid(tt.At(1).Type()) {
			r = append(r, x.zero(tt.At(1).Type())...)
		} else {
			r = append(r, k...)
		}
		if isInvalid(tt.At(2).Type()) {
			r = append(r, x.zero(tt.At(2).Type())...)
		} else {
			r = append(r, v...)
		}
	}
	p.env[in] = r
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

// typeAssert handles both forms.
func (x *Exec) typeAssert(fr *frame, p *path, in *ssa.TypeAssert) {
	tb := x.tb
	v := x.val(p, in.X)
	var ok *Term
	var r Val
	if types.IsInterface(in.AssertedType) {
		if types.IsInterface(in.X.Type()) && types.Implements(in.X.Type(), in.AssertedType.Underlying().(*types.Interface)) {
			ok = tb.Not(tb.Eq(v[0], tb.Zero))
		} else {
			ok = x.implements(v[0], in.AssertedType)
		}
		r = v
	} else {
		ok = tb.Eq(v[0], x.tagOf(in.AssertedType))
		r = x.unbox(p.st, in.AssertedType, v[1])
	}
	ok = x.simp(p.st, ok)
	if !in.CommaOk {
		x.safe(fr, p, in, "type assertion", ok)
		p.env[in] = r
		return
	}
	if !ok.isTrue() {
		r = x.iteVal(ok, r, x.zero(in.AssertedType))
	}
	p.env[in] = append(append(Val{}, r...), ok)
}

// ---- merging

// mergePaths merges paths whose heaps are identical.
func (x *Exec) mergePaths(ps []*path) []*path {
	if len(ps) < 2 {
		return ps
	}
	var out []*path
	for _, p := range ps {
		merged := false
		for i, q := range out {
			if x.sameHeap(p.st, q.st) && sameDefers(p.defers, q.defers) {
				out[i] = x.merge2(q, p)
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, p)
		}
	}
	return out
}

func sameDefers(a, b []deferred) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].call != b[i].call || a[i].fn != b[i].fn || len(a[i].args) != len(b[i].args) {
			return false
		}
		for j := range a[i].args {
			for k := range a[i].args[j] {
				if a[i].args[j][k] != b[i].args[j][k] {
					return false
				}
			}
		}
	}
	return true
}

func (x *Exec) sameHeap(a, b *State) bool {
	if a.alloc != b.alloc || len(a.guards) != len(b.guards) || len(a.mons) != len(b.mons) {
		return false
	}
	for i := range a.mons {
		if a.mons[i] != b.mons[i] {
			return false
		}
	}
	for k, m := range a.heap {
		if n, ok := b.heap[k]; ok {
			if n != m {
				return false
			}
		} else if x.initHeap[k] != m {
			return false
		}
	}
	for k, n := range b.heap {
		if _, ok := a.heap[k]; !ok && x.initHeap[k] != n {
			return false
		}
	}
	return true
}

// splitPC finds the common prefix of the path conditions and the suffixes.
func splitPC(a, b *pcNode) (common *pcNode, sa, sb []*pcNode) {
	na, nb := a, b
	depth := func(n *pcNode) int {
		if n == nil {
			return 0
		}
		return n.n
	}
	for na != nb {
		if depth(na) >= depth(nb) {
			sa = append(sa, na)
			na = na.parent
		} else {
			sb = append(sb, nb)
			nb = nb.parent
		}
	}
	rev := func(s []*pcNode) {
		for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
			s[i], s[j] = s[j], s[i]
		}
	}
	rev(sa)
	rev(sb)
	return na, sa, sb
}

func (x *Exec) branchCond(ns []*pcNode) *Term {
	var cs []*Term
	for _, n := range ns {
		if n.branch {
			cs = append(cs, n.t)
		}
	}
	return x.tb.And(cs...)
}

// mergeStates merges the path conditions, and returns the condition that
// selects the first.
func (x *Exec) mergeStates(a, b *State) (*State, *Term) {
	common, sa, sb := splitPC(a.pc, b.pc)
	ca, cb := x.branchCond(sa), x.branchCond(sb)
	n := *a
	n.heap = map[string]*SymMap{}
	for k, v := range a.heap {
		n.heap[k] = v
	}
	for k, v := range b.heap {
		if _, ok := n.heap[k]; !ok {
			n.heap[k] = v
		}
	}
	n.pc = common
	n.known = map[*Term]bool{}
	for c := common; c != nil; c = c.parent {
		n.known[c.t] = true
	}
	x.assumeT(&n, x.tb.Or(ca, cb), true)
	inB := map[*Term]bool{}
	for _, f := range sb {
		inB[f.t] = true
	}
	for _, f := range sa {
		if f.branch {
			continue
		}
		if inB[f.t] {
			x.assumeT(&n, f.t, false)
		} else {
			x.assumeT(&n, x.tb.Imp(ca, f.t), false)
		}
	}
	inA := map[*Term]bool{}
	for _, f := range sa {
		inA[f.t] = true
	}
	for _, f := range sb {
		if f.branch || inA[f.t] {
			continue
		}
		x.assumeT(&n, x.tb.Imp(cb, f.t), false)
	}
	n.trail = commonTrail(a.trail, b.trail)
	return &n, ca
}

func commonTrail(a, b []string) []string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return append([]string{}, a[:i]...)
}

func (x *Exec) merge2(a, b *path) *path {
	st, c := x.mergeStates(a.st, b.st)
	n := &path{st: st, env: map[ssa.Value]Val{}, defers: a.defers}
	for k, va := range a.env {
		vb, ok := b.env[k]
		if !ok {
			continue
		}
		n.env[k] = x.iteVal(c, va, vb)
	}
	return n
}

func (x *Exec) mergeOutcomes(os []outcome) []outcome {
	var out []outcome
	for _, o := range os {
		if o.st.dead {
			continue
		}
		merged := false
		for i, q := range out {
			if o.panic == q.panic && len(o.res) == len(q.res) && x.sameHeap(o.st, q.st) {
				st, c := x.mergeStates(q.st, o.st)
				out[i] = outcome{st: st, res: x.iteVal(c, q.res, o.res), panic: o.panic}
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, o)
		}
	}
	return out
}

// ---- pure evaluation

// evalPure evaluates a specification closure; heap changes are dropped.
func (x *Exec) evalPure(s *State, clo *Term, args []Val) Val {
	c, ok := clo.fn.(*closure)
	if !ok {
		fail("specification closure is not known")
	}
	return x.evalPureFn(s, c.fn, args, c.binds)
}

func (x *Exec) evalPureFn(s *State, fn *ssa.Function, args, binds []Val) Val {
	st := s.clone()
	st.guards = nil
	base := s.pc
	x.pure++
	outs := x.runFunc(x.curFrame, nil, st, fn, args, binds)
	x.pure--
	if len(outs) == 0 {
		fail("specification %s has no outcome", fn)
	}
	// merge by the branch conditions relative to base
	var res Val
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		var ns []*pcNode
		for n := o.st.pc; n != base && n != nil; n = n.parent {
			ns = append(ns, n)
		}
		c := x.branchCond(ns)
		if len(outs) == 1 {
			c = x.tb.True
		}
		for _, n := range ns {
			if n.branch {
				continue
			}
			f := x.tb.Imp(c, n.t)
			if len(outs) > 1 {
				f = x.tb.Imp(x.branchCond(ns), n.t)
			}
			if !f.hasBV {
				x.assumeT(s, f, false)
			} else {
				x.pendFacts(f)
			}
		}
		if res == nil {
			res = o.res
		} else {
			res = x.iteVal(c, o.res, res)
		}
	}
	return res
}

// pendFacts handles facts about bound variables: they are dropped (which
// only weakens what is known).
func (x *Exec) pendFacts(f *Term) {}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

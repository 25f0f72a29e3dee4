package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopForest struct {
	rpo     []*ssa.BasicBlock
	headers map[*ssa.BasicBlock]*loop
	list    []*loop
}

var loopMu sync.Mutex

func (p *Prog) loopsOf(fn *ssa.Function) *loopForest {
	loopMu.Lock()
	defer loopMu.Unlock()
	if f, ok := p.loopCache[fn]; ok {
		return f
	}
	f := &loopForest{headers: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.headers[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.headers[s] = l
					f.list = append(f.list, l)
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	p.loopCache[fn] = f
	return f
}

type namedTerm struct {
	label string
	t     *Term
}

type invCollect struct {
	base *pcNode
	list []namedTerm
}

type loopSpec struct {
	fn  string
	clo *Term
}

// mod is the modified set of a component.
type mod struct {
	lf    leaf
	cells map[string][]*Term // specific keys
	refs  map[string]*Term   // specific first keys (rows)
	fresh bool               // objects allocated inside the loop
	all   bool
}

// cand is an invariant candidate, evaluated in a state.
type cand struct {
	label string
	user  bool
	f     func(q *path, k *Term) *Term
}

type loopMemo struct {
	mods  map[string]*mod
	dead  map[string]bool // dropped candidates
	nphis map[string]bool
}

func (x *Exec) loopKey(fr *frame, l *loop) string {
	var b strings.Builder
	for f := fr; f != nil; f = f.caller {
		fmt.Fprintf(&b, "%s@", qualName(f.fn))
		if f.call != nil {
			fmt.Fprintf(&b, "%d", f.call.Pos())
		}
		b.WriteByte('<')
	}
	fmt.Fprintf(&b, "#%d", l.header.Index)
	return b.String()
}

var debugLoop = os.Getenv("GOVER_LOOP") != ""

// runLoop executes a loop from its header with the path's phi values set.
func (x *Exec) runLoop(fr *frame, forest *loopForest, l *loop, p *path) (map[*ssa.BasicBlock][]*path, []outcome) {
	tb := x.tb
	key := x.loopKey(fr, l)
	mods := map[string]*mod{}
	entrySeq := tb.fresh
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
	}
	init := map[*ssa.Phi]Val{}
	for _, phi := range phis {
		init[phi] = p.env[phi]
	}
	if n := x.constTrips(l, p, phis); n >= 0 {
		// a loop whose number of iterations is a known constant is executed
		exits := map[*ssa.BasicBlock][]*path{}
		var outs []outcome
		cur := []*path{p}
		for i := 0; len(cur) > 0; i++ {
			if i > n+1 {
				fail("unrolled loop in %s does not end", fr.fn)
			}
			var next []*path
			for _, q := range cur {
				ex, back, os := x.runLoopBody(fr, forest, l, q)
				for b, ps := range ex {
					exits[b] = append(exits[b], ps...)
				}
				outs = append(outs, os...)
				next = append(next, back...)
			}
			cur = x.mergePaths(next)
		}
		return exits, outs
	}
	entryAlloc := p.st.alloc
	steps := map[*ssa.Phi]*Term{} // phi = init + step*k
	// candidate steps: phi + const on every back edge
	for _, phi := range phis {
		if st := constStep(phi, l); st != nil {
			steps[phi] = tb.BigInt(st)
		}
	}
	dead := map[string]bool{}
	var cands []*cand
	havoc := func() (*path, *Term) {
		q := p.clone()
		x.newLevel(q.st)
		k := tb.Fresh("iter", SInt)
		k.lo, k.hi = new(big.Int), maxLen
		k.facts = append(k.facts, tb.Le(tb.Zero, k))
		for _, phi := range phis {
			if st, ok := steps[phi]; ok {
				v := tb.Add(init[phi][0], tb.Mul(st, k))
				q.env[phi] = Val{v}
				continue
			}
			v := x.fresh(q.st, phi.Type(), "phi."+phi.Comment)
			q.env[phi] = v
		}
		x.tb.fresh++
		tag := fmt.Sprintf("lp%d", x.tb.fresh)
		for _, name := range sortedKeys(mods) {
			m := mods[name]
			cur := x.comp(q.st, name, m.lf)
			if m.all || m.fresh || len(m.refs) > 0 {
				h := x.newMap(smHavoc, name, m.lf)
				h.prev = cur
				h.base = x.newBase(q.st, name, m.lf, tag)
				mm := m
				var refs []*Term
				for _, rk := range sortedKeys(mm.refs) {
					refs = append(refs, mm.refs[rk])
				}
				var cells [][]*Term
				for _, ck := range sortedKeys(mm.cells) {
					cells = append(cells, mm.cells[ck])
				}
				all, fresh := m.all, m.fresh
				inner := *mm
				inner.cells, inner.refs = map[string][]*Term{}, map[string]*Term{}
				for a, b := range mm.cells {
					inner.cells[a] = b
				}
				for a, b := range mm.refs {
					inner.refs[a] = b
				}
				h.inner = &inner
				h.keep = func(keys []*Term) *Term {
					if all || len(keys) == 0 {
						return tb.Fals
					}
					var cs []*Term
					if fresh {
						cs = append(cs, x.below(keys[0], entryAlloc))
					}
					for _, r := range refs {
						cs = append(cs, tb.Not(tb.Eq(keys[0], r)))
					}
					for _, c := range cells {
						cs = append(cs, tb.Not(x.eqKeys(c, keys)))
					}
					return tb.And(cs...)
				}
				q.st.heap[name] = h
				continue
			}
			// specific cells: fresh stores
			base := x.newBase(q.st, name, m.lf, tag)
			for _, ck := range sortedKeys(m.cells) {
				keys := m.cells[ck]
				x.put(q.st, name, m.lf, keys, x.sel(q.st, base, keys))
			}
		}
		return q, k
	}
	runBody := func(q *path) (map[*ssa.BasicBlock][]*path, []*path, []outcome) {
		return x.runLoopBody(fr, forest, l, q)
	}
	assumeCands := func(q *path, k *Term) {
		for _, c := range cands {
			if !dead[c.label] {
				g := c.f(q, k)
				if os.Getenv("GOVER_LOOP") == "2" && c.user {
					fmt.Fprintf(os.Stderr, "loop %s: assume %s: %s\n", key, c.label, clip(g.String(), 1500))
				}
				x.assumeT(q.st, g, false)
			}
		}
	}
	x.loopCount++
	_ = key
	rounds := 0
	for {
		rounds++
		if rounds > 40 {
			fail("loop in %s does not settle", fr.fn)
		}
		// discovery of the modified set under the present candidates
		x.rec++
		cands = x.candidates(fr, l, p, phis, init, steps, mods, entryAlloc)
		q, k := havoc()
		// initiation: with the entry state in place of the havocked one
		changedC := false
		p0 := p
		for _, c := range cands {
			if dead[c.label] {
				continue
			}
			g := c.f(p0, tb.Zero)
			if !x.provable(p0.st, g, c.user) {
				if debugLoop {
					fmt.Fprintf(os.Stderr, "loop %s: drop (init) %s: %s\n", key, c.label, clip(g.String(), 1000))
				}
				dead[c.label] = true
				changedC = true
			}
		}
		assumeCands(q, k)
		hs := q.st.clone()
		for _, m := range hs.heap {
			x.pinned[m] = true
		}
		_, back, _ := runBody(q)
		x.rec--
		changed := false
		for _, b := range back {
			if b.st.dead || !x.feasible(b.st, tb.True) {
				continue
			}
			for _, phi := range phis {
				if st, ok := steps[phi]; ok {
					want := tb.Add(init[phi][0], tb.Mul(st, tb.Add(k, tb.One)))
					if b.env[phi][0] != want && !x.provable(b.st, tb.Eq(b.env[phi][0], want), false) {
						delete(steps, phi)
						changed = true
					}
				}
			}
			if x.collectMods(hs, b.st, mods, entryAlloc, entrySeq, init, phis) {
				changed = true
			}
		}
		if changed {
			continue
		}
		// preservation
		for _, b := range back {
			if b.st.dead {
				continue
			}
			var goals []*Term
			var cs []*cand
			for _, c := range cands {
				if dead[c.label] {
					continue
				}
				g := x.simp(b.st, c.f(b, tb.Add(k, tb.One)))
				if g.isTrue() {
					continue
				}
				goals = append(goals, g)
				cs = append(cs, c)
			}
			if len(goals) == 0 {
				continue
			}
			if len(goals) > 1 && x.provableQuick(b.st, tb.And(goals...)) {
				continue
			}
			for i, c := range cs {
				if !x.provable(b.st, goals[i], c.user) {
					if debugLoop {
						fmt.Fprintf(os.Stderr, "loop %s: drop (step) %s\n", key, c.label)
						if c.user {
							fmt.Fprintf(os.Stderr, "   trail %v\n   goal %s\n", b.st.trail, clip(goals[i].String(), 1500))
							os.WriteFile("/tmp/loopq.smt2", []byte(x.tb.queryText(b.st.pcList(), x.simp(b.st, goals[i]), nil)), 0644)
						}
					}
					dead[c.label] = true
					changedC = true
				}
			}
		}
		if !changedC {
			break
		}
	}
	for _, c := range cands {
		if x.rec == 0 && !dead[c.label] {
			x.loopObl += 2 // initiation and preservation
		}
		if c.user {
			if dead[c.label] {
				x.droppedInv[c.label] = true
			} else {
				x.keptInv[c.label] = true
			}
		}
	}
	if debugLoop {
		for _, n := range sortedKeys(mods) {
			m := mods[n]
			fmt.Fprintf(os.Stderr, "loop %s: mods %s all=%v fresh=%v refs=%v cells=%v\n", key, n, m.all, m.fresh, sortedKeys(m.refs), sortedKeys(m.cells))
		}
	}
	// final pass
	q, k := havoc()
	assumeCands(q, k)
	exits, _, outs := runBody(q)
	return exits, outs
}

// constTrips is the constant number of iterations of a counted loop, or -1.
func (x *Exec) constTrips(l *loop, p *path, phis []*ssa.Phi) int {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return -1
	}
	off := int64(0)
	cx := c.X
	if a, ok := cx.(*ssa.BinOp); ok && a.Op == token.ADD && a.Block() == l.header {
		if k, ok := a.Y.(*ssa.Const); ok && k.Value != nil {
			off = k.Int64()
			cx = a.X
		}
	}
	phi, ok := cx.(*ssa.Phi)
	if !ok || phi.Block() != l.header {
		return -1
	}
	st := constStep(phi, l)
	if st == nil || st.Sign() <= 0 {
		return -1
	}
	i0, ok := p.env[phi][0].intVal()
	if !ok {
		return -1
	}
	if in, ok := c.Y.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return -1
	}
	y := x.val(p, c.Y)
	n, ok := y[0].intVal()
	if !ok {
		return -1
	}
	t := n - i0 - off
	if t < 0 {
		t = 0
	}
	if t > 24 {
		return -1
	}
	return int(t)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (x *Exec) below(r, alloc *Term) *Term {
	if st, ok := x.tb.allocOf(alloc); ok {
		if r.bound != nil && r.bound.le(st) {
			return x.tb.True
		}
		if sr, ok := x.tb.allocOf(r); ok {
			if sr.level == st.level {
				return x.tb.Bool(sr.off < st.off)
			}
			return x.tb.Bool(sr.level < st.level)
		}
	}
	if r.nonnil && r.op == OUF {
		// structured addresses of array objects
		if a, ok := r.fn.(*addr); ok && len(a.keys) > 0 {
			return x.below(a.keys[0], alloc)
		}
		return x.tb.True
	}
	return x.tb.Lt(r, alloc)
}

// runLoopBody runs one iteration.
func (x *Exec) runLoopBody(fr *frame, forest *loopForest, l *loop, q *path) (map[*ssa.BasicBlock][]*path, []*path, []outcome) {
	return x.runBlocks(fr, forest, map[*ssa.BasicBlock][]*path{l.header: {q}}, l)
}

// constStep finds phi' = phi + c on all back edges, syntactically.
func constStep(phi *ssa.Phi, l *loop) *big.Int {
	b, ok := phi.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	var step *big.Int
	for i, pr := range phi.Block().Preds {
		if !l.blocks[pr] {
			continue
		}
		bo, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != phi {
			return nil
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return nil
		}
		n, ok2 := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok2 {
			return nil
		}
		if bo.Op == token.SUB {
			n.Neg(n)
		}
		if step != nil && step.Cmp(n) != 0 {
			return nil
		}
		step = n
	}
	return step
}

// provable asks the solver.
func (x *Exec) provable(s *State, g *Term, hard bool) bool {
	g = x.simp(s, g)
	if g.isTrue() {
		return true
	}
	if g.isFalse() && len(s.pcList()) == 0 {
		return false
	}
	text := x.tb.queryText(s.pcList(), g, nil)
	if x.feas != nil && !hard {
		return x.feas.ask(text, "700") == "unsat"
	}
	if x.feas != nil {
		switch x.feas.ask(text, "1500") {
		case "unsat":
			return true
		case "sat":
			if d := os.Getenv("GOVER_LOOPQ"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/q%d-sat-%d.smt2", d, x.loopCount, time.Now().UnixNano()), []byte(text), 0o644)
			}
			return false
		}
	}
	r := x.sol.Check(text, false).Status
	if d := os.Getenv("GOVER_LOOPQ"); d != "" && r != "unsat" {
		os.WriteFile(fmt.Sprintf("%s/q%d-%s-%d.smt2", d, x.loopCount, r, time.Now().UnixNano()), []byte(text), 0o644)
	}
	return r == "unsat"
}

func (x *Exec) provableQuick(s *State, g *Term) bool {
	if x.feas == nil {
		return false
	}
	return x.feas.ask(x.tb.queryText(s.pcList(), g, nil), "1500") == "unsat"
}

// collectMods extends mods by what changed between the header state and the
// state at a back edge.
func (x *Exec) collectMods(h, b *State, mods map[string]*mod, entryAlloc *Term, entrySeq int, init map[*ssa.Phi]Val, phis []*ssa.Phi) bool {
	changed := false
	for _, name := range sortedKeys(b.heap) {
		bm := b.heap[name]
		hm := h.heap[name]
		if hm == nil {
			hm = x.initHeap[name]
		}
		if bm == hm {
			continue
		}
		m := mods[name]
		if m != nil && m.all {
			continue
		}
		get := func() *mod {
			if m == nil {
				m = &mod{lf: bm.lf, cells: map[string][]*Term{}, refs: map[string]*Term{}}
				mods[name] = m
			}
			return m
		}
		var walk func(n *SymMap)
		seen := map[*SymMap]bool{}
		walk = func(n *SymMap) {
			if n == hm || n == nil || seen[n] {
				return
			}
			seen[n] = true
			switch n.kind {
			case smStore:
				if x.addMod(b, get(), n.keys, true, entryAlloc, entrySeq, init, phis) {
					changed = true
				}
				walk(n.prev)
			case smRow, smCopy, smSnap:
				if x.addMod(b, get(), n.keys[:1], false, entryAlloc, entrySeq, init, phis) {
					changed = true
				}
				walk(n.prev)
			case smHavoc:
				// an inner havoc: rows kept by keep are unchanged; treat
				// it through its description
				if n.inner != nil {
					for _, c := range n.inner.cells {
						if x.addMod(b, get(), c, true, entryAlloc, entrySeq, init, phis) {
							changed = true
						}
					}
					for _, r := range n.inner.refs {
						if x.addMod(b, get(), []*Term{r}, false, entryAlloc, entrySeq, init, phis) {
							changed = true
						}
					}
					if n.inner.fresh && !get().fresh {
						get().fresh = true
						changed = true
					}
					if n.inner.all && !get().all {
						get().all = true
						changed = true
					}
				} else if !get().all {
					get().all = true
					changed = true
				}
				walk(n.prev)
			case smIte:
				walk(n.prev)
				walk(n.alt)
			default: // a base or constant replaced the component
				if !get().all {
					get().all = true
					changed = true
				}
			}
		}
		walk(bm)
	}
	return changed
}

// addMod adds a written location. cell: the full key is known.
func (x *Exec) addMod(s *State, m *mod, keys []*Term, cell bool, entryAlloc *Term, entrySeq int, init map[*ssa.Phi]Val, phis []*ssa.Phi) bool {
	tb := x.tb
	if m.all {
		return false
	}
	st, _ := tb.allocOf(entryAlloc)
	if len(keys) == 0 {
		ks := ""
		if _, ok := m.cells[ks]; ok {
			return false
		}
		m.cells[ks] = keys
		return true
	}
	r := keys[0]
	if r.sort != SInt {
		// ghost maps keyed by strings and the like
		if cell && x.allInvariant(keys, entrySeq) {
			ks := keyStr(keys)
			if _, ok := m.cells[ks]; ok {
				return false
			}
			m.cells[ks] = keys
			return true
		}
		m.all = true
		return true
	}
	// allocated in the loop
	if x.freshRef(r, st) {
		if m.fresh {
			return false
		}
		m.fresh = true
		return true
	}
	if x.invariantTerm(r, entrySeq) {
		if cell && x.allInvariant(keys, entrySeq) {
			ks := keyStr(keys)
			if _, ok := m.cells[ks]; ok {
				return false
			}
			if _, ok := m.refs[keyStr(keys[:1])]; ok {
				return false
			}
			m.cells[ks] = append([]*Term{}, keys...)
			return true
		}
		rk := keyStr(keys[:1])
		if _, ok := m.refs[rk]; ok {
			return false
		}
		m.refs[rk] = r
		return true
	}
	// a varying reference: is it fresh or one of the initial values?
	var opts []*Term
	opts = append(opts, tb.Le(entryAlloc, r))
	var ref []*Term
	add := func(t *Term) {
		if t.sort == SInt && t.op != OConst && x.invariantTerm(t, entrySeq) {
			opts = append(opts, tb.Eq(r, t))
			ref = append(ref, t)
		}
	}
	for _, rk := range sortedKeys(m.refs) {
		add(m.refs[rk])
	}
	for _, phi := range phis {
		for i, l := range x.ly.leaves(phi.Type()) {
			if l.kind == lkArr || l.kind == lkRef {
				add(init[phi][i])
			}
		}
	}
	if x.provable(s, tb.Or(opts...), false) {
		ch := false
		if !m.fresh {
			m.fresh = true
			ch = true
		}
		for _, t := range ref {
			// only the needed ones
			if x.provable(s, tb.Not(tb.Eq(r, t)), false) {
				continue
			}
			rk := keyStr([]*Term{t})
			if _, ok := m.refs[rk]; !ok {
				m.refs[rk] = t
				ch = true
			}
		}
		return ch
	}
	m.all = true
	return true
}

// freshRef: syntactically allocated at or after the stamp.
func (x *Exec) freshRef(r *Term, st stamp) bool {
	if s, ok := x.tb.allocOf(r); ok {
		return st.le(s)
	}
	if a, ok := r.fn.(*addr); ok && len(a.keys) > 0 && a.keys[0].sort == SInt {
		return x.freshRef(a.keys[0], st)
	}
	return false
}

// invariantTerm: the term mentions nothing created inside the loop.
func (x *Exec) invariantTerm(t *Term, seq int) bool { return t.seq <= seq }

func (x *Exec) allInvariant(ts []*Term, seq int) bool {
	for _, t := range ts {
		if !x.invariantTerm(t, seq) {
			return false
		}
	}
	return true
}

// candidates lists the invariant candidates of a loop.
func (x *Exec) candidates(fr *frame, l *loop, p *path, phis []*ssa.Phi, init map[*ssa.Phi]Val, steps map[*ssa.Phi]*Term, mods map[string]*mod, entryAlloc *Term) []*cand {
	tb := x.tb
	var out []*cand
	add := func(label string, f func(q *path, k *Term) *Term) {
		out = append(out, &cand{label: label, f: f})
	}
	refCand := func(t, i *Term) *Term { return tb.Or(tb.Eq(t, i), tb.Le(entryAlloc, t)) }
	for _, phi := range phis {
		if _, ok := steps[phi]; ok {
			continue
		}
		phi := phi
		for i, lf := range x.ly.leaves(phi.Type()) {
			i := i
			n := fmt.Sprintf("phi %s/%s#%d", phi.Comment, lf.suffix, i)
			iv := init[phi][i]
			add(n+" unchanged", func(q *path, k *Term) *Term { return tb.Eq(q.env[phi][i], iv) })
			switch lf.kind {
			case lkRef, lkArr:
				add(n+" fresh", func(q *path, k *Term) *Term { return refCand(q.env[phi][i], iv) })
				add(n+" nil or fresh", func(q *path, k *Term) *Term {
					return tb.Or(tb.Eq(q.env[phi][i], tb.Zero), tb.Le(entryAlloc, q.env[phi][i]))
				})
			case lkLen, lkCap:
				add(n+" grows", func(q *path, k *Term) *Term { return tb.Le(iv, q.env[phi][i]) })
			case lkPlain:
				if lf.sort == SInt && lf.typ != nil {
					add(n+" >=", func(q *path, k *Term) *Term { return tb.Le(iv, q.env[phi][i]) })
					add(n+" <=", func(q *path, k *Term) *Term { return tb.Le(q.env[phi][i], iv) })
				}
			}
		}
	}
	for _, name := range sortedKeys(mods) {
		m := mods[name]
		if m.all || m.fresh || len(m.refs) > 0 {
			continue
		}
		for _, ck := range sortedKeys(m.cells) {
			keys := m.cells[ck]
			name, lf := name, m.lf
			iv := x.sel(p.st, x.comp(p.st, name, lf), keys)
			n := "cell " + name + "(" + ck + ")"
			rd := func(q *path) *Term { return x.sel(q.st, x.comp(q.st, name, lf), keys) }
			switch lf.kind {
			case lkRef, lkArr:
				add(n+" fresh", func(q *path, k *Term) *Term { return refCand(rd(q), iv) })
			case lkLen, lkCap, lkCap0:
				add(n+" grows", func(q *path, k *Term) *Term { return tb.Le(iv, rd(q)) })
			case lkPlain:
				if lf.sort == SInt {
					add(n+" >=", func(q *path, k *Term) *Term { return tb.Le(iv, rd(q)) })
					add(n+" <=", func(q *path, k *Term) *Term { return tb.Le(rd(q), iv) })
					if b, ok := lf.typ.(*types.Basic); ok && b.Kind() == types.Int {
						add(n+" counts iterations", func(q *path, k *Term) *Term { return tb.Eq(rd(q), tb.Add(iv, k)) })
					}
				}
				if lf.sort == SBool {
					add(n+" unchanged", func(q *path, k *Term) *Term { return tb.Eq(rd(q), iv) })
				}
			}
		}
	}
	// comparisons
	outside := func(v ssa.Value) bool {
		if in, ok := v.(ssa.Instruction); ok {
			return !l.blocks[in.Block()]
		}
		return true
	}
	// what is evaluated anew in each iteration from values fixed before
	var again func(v ssa.Value) func(q *path) Val
	again = func(v ssa.Value) func(q *path) Val {
		if outside(v) {
			return func(q *path) Val { return x.val(q, v) }
		}
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return nil
			}
			if a := again(v.X); a != nil {
				t := v.Type()
				return func(q *path) Val { return x.load(q.st, a(q)[0], t) }
			}
		case *ssa.FieldAddr:
			if a := again(v.X); a != nil {
				t := v.X.Type().Underlying().(*types.Pointer).Elem()
				return func(q *path) Val { return Val{x.fieldAddr(q.st, a(q)[0], t, v.Field)} }
			}
		}
		return nil
	}
	bound := func(v ssa.Value) func(q *path) *Term {
		if c, ok := v.(*ssa.Call); ok && !outside(v) {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := c.Call.Args[0]
				g := again(a)
				if g == nil {
					return nil
				}
				if _, ok := a.Type().Underlying().(*types.Slice); ok {
					return func(q *path) *Term { return g(q)[2] }
				}
				if isString(a.Type()) {
					return func(q *path) *Term { return tb.StrLen(g(q)[0]) }
				}
			}
			return nil
		}
		if g := again(v); g != nil {
			return func(q *path) *Term { return g(q)[0] }
		}
		return nil
	}
	// the phi a value is an offset of
	phiOf := func(v ssa.Value) *ssa.Phi {
		if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
			if _, ok := bo.Y.(*ssa.Const); ok {
				v = bo.X
			}
		}
		ph, ok := v.(*ssa.Phi)
		if !ok || ph.Block() != l.header {
			return nil
		}
		return ph
	}
	for _, b := range fr.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			bt, ok := bo.X.Type().Underlying().(*types.Basic)
			if !ok || bt.Info()&types.IsInteger == 0 {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for side := 0; side < 2; side++ {
				xv, yv := bo.X, bo.Y
				if side == 1 {
					xv, yv = yv, xv
				}
				ph := phiOf(xv)
				y := bound(yv)
				if ph == nil || y == nil {
					continue
				}
				n := fmt.Sprintf("cmp %s %s", bo.Name(), ph.Name())
				for d := int64(-1); d <= 1; d++ {
					d := d
					add(fmt.Sprintf("%s <= y%+d", n, d), func(q *path, k *Term) *Term {
						return tb.Le(q.env[ph][0], tb.Add(y(q), tb.Int(d)))
					})
					add(fmt.Sprintf("%s >= y%+d", n, d), func(q *path, k *Term) *Term {
						return tb.Le(tb.Add(y(q), tb.Int(d)), q.env[ph][0])
					})
				}
			}
		}
	}
	// user invariants
	for si, sp := range x.loopSpecs {
		if !x.loopSpecApplies(fr, sp) {
			continue
		}
		clo := sp.clo.fn.(*closure)
		bind := x.bindLoop(fr, l, clo.fn, phis, p)
		if bind == nil {
			continue
		}
		type ck struct {
			q *path
			k *Term
		}
		cache := map[ck][]namedTerm{}
		eval := func(q *path, k *Term) []namedTerm {
			key := ck{q, k}
			if r, ok := cache[key]; ok {
				return r
			}
			args := bind(q, k)
			oldL, oldP := x.invLoop, x.invPath
			x.invLoop, x.invPath = l, q
			defer func() { x.invLoop, x.invPath = oldL, oldP }()
			old := x.invs
			x.invs = &invCollect{base: q.st.pc}
			st := q.st.clone()
			st.guards = nil
			x.pure++
			outs := x.runFunc(fr, nil, st, clo.fn, args, clo.binds)
			x.pure--
			r := x.invs.list
			x.invs = old
			// facts found while evaluating
			for _, o := range outs {
				var ns []*pcNode
				for n := o.st.pc; n != q.st.pc && n != nil; n = n.parent {
					ns = append(ns, n)
				}
				c := x.branchCond(ns)
				for _, n := range ns {
					if !n.branch && !n.t.hasBV {
						x.assumeT(q.st, tb.Imp(c, n.t), false)
					}
				}
			}
			cache[key] = r
			return r
		}
		seen := map[string]bool{}
		for _, nt := range eval(p, tb.Zero) {
			// the paths through the specification all have their say
			label := nt.label
			if seen[label] {
				continue
			}
			seen[label] = true
			out = append(out, &cand{label: fmt.Sprintf("%s [%d]", label, si), user: true, f: func(q *path, k *Term) *Term {
				var cs []*Term
				for _, n := range eval(q, k) {
					if n.label == label {
						cs = append(cs, n.t)
					}
				}
				return tb.And(cs...)
			}})
		}
	}
	return out
}

func (x *Exec) loopSpecApplies(fr *frame, sp *loopSpec) bool {
	if sp.fn == "" {
		return !fr.spec
	}
	for f := fr; f != nil; f = f.caller {
		n := qualName(f.fn)
		if n == sp.fn || strings.HasSuffix(n, sp.fn) {
			return true
		}
		if f.spec {
			return false
		}
	}
	return false
}

// bindLoop binds the parameters of a loop specification by type and name.
func (x *Exec) bindLoop(fr *frame, l *loop, fn *ssa.Function, phis []*ssa.Phi, p *path) func(q *path, k *Term) []Val {
	var getters []func(q *path, k *Term) Val
	for _, pr := range fn.Params {
		pr := pr
		if _, ok := isSpecType(pr.Type(), "Iter"); ok {
			getters = append(getters, func(q *path, k *Term) Val { return Val{k} })
			continue
		}
		g := x.bindVar(fr, l, pr.Name(), pr.Type(), phis, p)
		if g == nil {
			if debugLoop {
				fmt.Fprintf(os.Stderr, "loop in %s: cannot bind %s %s\n", fr.fn, pr.Name(), pr.Type())
			}
			return nil
		}
		getters = append(getters, func(q *path, k *Term) Val { return g(q) })
	}
	return func(q *path, k *Term) []Val {
		var out []Val
		for _, g := range getters {
			out = append(out, g(q, k))
		}
		return out
	}
}

func (x *Exec) bindVar(fr *frame, l *loop, name string, t types.Type, phis []*ssa.Phi, p *path) func(q *path) Val {
	same := func(u types.Type) bool { return types.Identical(u, t) }
	var byType []func(q *path) Val
	for _, phi := range phis {
		phi := phi
		if !same(phi.Type()) {
			continue
		}
		g := func(q *path) Val { return q.env[phi] }
		if phi.Comment == name {
			return g
		}
		if phi.Comment != "rangeindex" {
			byType = append(byType, g)
		}
	}
	cell := func(v ssa.Value) func(q *path) Val {
		return func(q *path) Val { return x.load(q.st, x.val(q, v)[0], t) }
	}
	var cells []func(q *path) Val
	for v := range p.env {
		switch v := v.(type) {
		case *ssa.Alloc:
			if v.Parent() == fr.fn && same(v.Type().(*types.Pointer).Elem()) {
				if v.Comment == name {
					return cell(v)
				}
				cells = append(cells, cell(v))
			}
		case *ssa.FreeVar:
			if pt, ok := v.Type().(*types.Pointer); ok && v.Parent() == fr.fn && same(pt.Elem()) {
				if v.Name() == name {
					return cell(v)
				}
				cells = append(cells, cell(v))
			}
		}
	}
	// values fixed before the loop
	for _, pr := range fr.fn.Params {
		if pr.Name() == name && same(pr.Type()) {
			pr := pr
			return func(q *path) Val { return q.env[pr] }
		}
	}
	for _, fv := range fr.fn.FreeVars {
		if fv.Name() == name && same(fv.Type()) {
			fv := fv
			return func(q *path) Val { return q.env[fv] }
		}
	}
	var best ssa.Value
	for _, b := range fr.fn.Blocks {
		if l.blocks[b] || !b.Dominates(l.header) {
			continue
		}
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.DebugRef)
			if !ok || d.Object() == nil || d.Object().Name() != name || d.IsAddr || !same(d.X.Type()) {
				continue
			}
			if _, ok := d.X.(*ssa.Const); ok {
				best = d.X
			} else if _, ok := p.env[d.X]; ok {
				best = d.X
			}
		}
	}
	if best != nil {
		return func(q *path) Val { return x.val(q, best) }
	}
	if len(byType) == 1 {
		return byType[0]
	}
	if len(byType) == 0 && len(cells) == 1 {
		return cells[0]
	}
	if len(byType) == 0 && len(cells) == 0 {
		var only *ssa.Parameter
		for i, pr := range fr.fn.Params {
			if same(pr.Type()) && !(i == 0 && fr.fn.Signature.Recv() != nil) {
				if only != nil {
					return nil
				}
				only = pr
			}
		}
		if only != nil {
			return func(q *path) Val { return q.env[only] }
		}
	}
	return nil
}

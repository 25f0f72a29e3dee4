package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(s *State, v Val) []outcome { return []outcome{{st: s, res: v}} }

func (x *Exec) callInstr(fr *frame, p *path, in *ssa.Call) []outcome {
	c := &in.Call
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(p, a))
	}
	var fv Val
	if !c.IsInvoke() {
		if _, ok := c.Value.(*ssa.Builtin); !ok {
			fv = x.val(p, c.Value)
		}
	} else {
		fv = x.val(p, c.Value)
	}
	return x.doCall(fr, p, in, c, fv, args)
}

func (x *Exec) mkDeferred(p *path, c *ssa.CallCommon) deferred {
	d := deferred{call: c}
	for _, a := range c.Args {
		d.args = append(d.args, x.val(p, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		d.bi = b
		return d
	}
	v := x.val(p, c.Value)
	if c.IsInvoke() {
		d.inv = true
		d.args = append([]Val{v}, d.args...)
		return d
	}
	d.fn = v[0]
	return d
}

func (x *Exec) runDeferred(fr *frame, p *path, d deferred, in ssa.Instruction) []outcome {
	if d.inv {
		return x.doCall(fr, p, in, d.call, d.args[0], d.args[1:])
	}
	var fv Val
	if d.fn != nil {
		fv = Val{d.fn}
	}
	return x.doCall(fr, p, in, d.call, fv, d.args)
}

func (x *Exec) doCall(fr *frame, p *path, in ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val) []outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, p, in, b.Name(), c, args)
	}
	if c.IsInvoke() {
		return x.invoke(fr, p, p.st, in, c, fv, args)
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if cl, ok := fv[0].fn.(*closure); ok {
			binds = cl.binds
		}
		return x.static(fr, p.st, in, fn, args, binds)
	}
	return x.dynamic(fr, p, p.st, in, c.Value.Type(), c.Signature(), fv[0], args)
}

// dynamic calls a function value.
func (x *Exec) dynamic(fr *frame, p *path, s *State, in ssa.Instruction, ft types.Type, sig *types.Signature, f *Term, args []Val) []outcome {
	if cl, ok := f.fn.(*closure); ok {
		if cl.fn != nil {
			return x.static(fr, s, in, cl.fn, args, cl.binds)
		}
	}
	if f.op == OIte {
		return x.forkIte(s, f, func(s *State, f *Term) []outcome { return x.dynamic(fr, p, s, in, ft, sig, f, args) })
	}
	x.safe(fr, &path{st: s}, in, "call of nil function", x.notNil(f))
	if s.dead {
		return nil
	}
	name := "func:" + strings.ReplaceAll(x.ly.key(ft), modPath, "ant")
	all := append([]Val{{f}}, args...)
	if st, ok := x.stub(fr, name); ok {
		return x.runStub(fr, s, in, st, all)
	}
	if m := x.prog.models[name]; m != nil {
		x.modelled[name] = true
		return x.runFunc(fr, asCall(in), s, m, all, nil)
	}
	return x.unknownCall(fr, s, name, sig)
}

func (x *Exec) forkIte(s *State, t *Term, f func(s *State, t *Term) []outcome) []outcome {
	c := x.simp(s, t.args[0])
	if c.isTrue() {
		return f(s, t.args[1])
	}
	if c.isFalse() {
		return f(s, t.args[2])
	}
	q := s.clone()
	x.assumeT(s, c, true)
	x.assumeT(q, x.tb.Not(c), true)
	var out []outcome
	if !s.dead && x.feasible(s, x.tb.True) {
		out = append(out, f(s, t.args[1])...)
	}
	if !q.dead && x.feasible(q, x.tb.True) {
		out = append(out, f(q, t.args[2])...)
	}
	return out
}

// invoke calls an interface method.
func (x *Exec) invoke(fr *frame, p *path, s *State, in ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val) []outcome {
	tag := recv[0]
	tag = x.resolveIte(s, tag)
	if tag.op == OIte {
		if d := recv[1]; d.op == OIte && d.args[0] == tag.args[0] {
			q := s.clone()
			cd := tag.args[0]
			x.assumeT(s, cd, true)
			x.assumeT(q, x.tb.Not(cd), true)
			var out []outcome
			if !s.dead && x.feasible(s, x.tb.True) {
				out = append(out, x.invoke(fr, p, s, in, c, Val{tag.args[1], d.args[1]}, args)...)
			}
			if !q.dead && x.feasible(q, x.tb.True) {
				out = append(out, x.invoke(fr, p, q, in, c, Val{tag.args[2], d.args[2]}, args)...)
			}
			return out
		}
		return x.forkIte(s, tag, func(s *State, t *Term) []outcome {
			return x.invoke(fr, p, s, in, c, Val{t, x.resolveIte(s, recv[1])}, args)
		})
	}
	x.safe(fr, &path{st: s}, in, "method call on nil interface", x.tb.Not(x.tb.Eq(tag, x.tb.Zero)))
	if s.dead {
		return nil
	}
	if _, ok := tag.intVal(); ok {
		if t := x.typeOfTag(tag); t != nil {
			fn := x.prog.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				fail("no method %s on %v", c.Method.Name(), t)
			}
			return x.static(fr, s, in, fn, append([]Val{x.unbox(s, t, recv[1])}, args...), nil)
		}
	}
	name := "(" + strings.ReplaceAll(x.ly.key(c.Value.Type()), modPath, "ant") + ")." + c.Method.Name()
	all := append([]Val{{tag, recv[1]}}, args...)
	if st, ok := x.stub(fr, name); ok {
		return x.runStub(fr, s, in, st, all)
	}
	if m := x.prog.models[name]; m != nil {
		x.modelled[name] = true
		return x.runFunc(fr, asCall(in), s, m, all, nil)
	}
	return x.unknownCall(fr, s, name, c.Signature())
}

func (x *Exec) resolveIte(s *State, t *Term) *Term {
	for t.op == OIte {
		c := x.simp(s, t.args[0])
		if c.isTrue() {
			t = t.args[1]
		} else if c.isFalse() {
			t = t.args[2]
		} else {
			break
		}
	}
	return t
}

func asCall(in ssa.Instruction) ssa.CallInstruction {
	c, _ := in.(ssa.CallInstruction)
	return c
}

func (x *Exec) unknownCall(fr *frame, s *State, name string, sig *types.Signature) []outcome {
	x.assumed["unspecified call "+name+": any result, no effect on the program's state"] = true
	return one(s, x.freshTuple(s, sig.Results(), "ret."+name))
}

func (x *Exec) freshTuple(s *State, t *types.Tuple, name string) Val {
	var out Val
	// results may be new objects
	x.newLevel(s)
	for i := 0; i < t.Len(); i++ {
		out = append(out, x.fresh(s, t.At(i).Type(), fmt.Sprintf("%s#%d", name, i))...)
	}
	return out
}

// stub finds a contract-local replacement, unless we are inside it.
func (x *Exec) stub(fr *frame, name string) (*Term, bool) {
	t, ok := x.stubs[name]
	if !ok {
		return nil, false
	}
	c := t.fn.(*closure)
	for f := fr; f != nil && !f.goroot; f = f.caller {
		if f.fn == c.fn {
			return nil, false
		}
	}
	x.stubbed[name] = true
	return t, true
}

func (x *Exec) isSpecCaller(fr *frame) bool {
	return fr != nil && x.prog.isSpec(fr.fn) && fr.caller != nil
}

func (x *Exec) runStub(fr *frame, s *State, in ssa.Instruction, t *Term, args []Val) []outcome {
	c := t.fn.(*closure)
	if len(c.fn.Params) == len(args)-1 {
		args = args[1:]
	}
	if len(c.fn.Params) != len(args) {
		fail("stub %s takes %d parameters, call has %d", c.fn, len(c.fn.Params), len(args))
	}
	return x.runFunc(fr, asCall(in), s, c.fn, args, c.binds)
}

// static calls a known function.
func (x *Exec) static(fr *frame, s *State, in ssa.Instruction, fn *ssa.Function, args []Val, binds []Val) []outcome {
	name := qualName(fn)
	if pk := pkgPathOf(fn); pk == vPath {
		return x.intrinsic(fr, s, in, fn, args)
	}
	if x.deadline != nil && x.deadline() {
		fail("time budget exhausted")
	}
	if u := x.useTarget(fr, fn); u != nil {
		return x.havocTarget(fr, s, u, fn)
	}
	if st, ok := x.stub(fr, name); ok {
		return x.runStub(fr, s, in, st, args)
	}
	if st, ok := x.recStubs[name]; ok {
		for f := fr; f != nil; f = f.caller {
			if f.fn == fn {
				return x.runStub(fr, s, in, st, args)
			}
		}
	}
	if r, ok := x.libIntrinsic(fr, s, in, name, fn, args); ok {
		return r
	}
	if m := x.prog.models[name]; m != nil {
		x.modelled[name] = true
		return x.runFunc(fr, asCall(in), s, m, args, nil)
	}
	if x.prog.rec[fn] {
		return one(s, x.recCall(fr, s, fn, args))
	}
	if c := x.contractsUse[fn]; c != nil && c != x.contract && !x.prog.isSpec(fr.fn) {
		x.usedContr[c.Name] = true
		return x.useContract(fr, s, in, c, args)
	}
	if len(fn.Blocks) > 0 {
		if !x.prog.isSpec(fn) && fn.Synthetic == "" {
			x.inlined[name] = true
		}
		return x.runFunc(fr, asCall(in), s, fn, args, binds)
	}
	return x.unknownCall(fr, s, name, fn.Signature)
}

func pkgPathOf(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// ---- recursive specification functions

func (x *Exec) recCall(fr *frame, s *State, fn *ssa.Function, args []Val) Val {
	var flat []*Term
	for _, a := range args {
		flat = append(flat, a...)
	}
	var out Val
	rt := fn.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		for _, l := range x.ly.leaves(rt.At(i).Type()) {
			out = append(out, x.tb.UF(fmt.Sprintf("rec!%s%s#%d%s", qualName(fn), x.cloSuffix(fn), i, l.suffix), l.sort, flat...))
		}
	}
	bv := false
	for _, t := range flat {
		if t.hasBV {
			bv = true
		}
	}
	if bv || x.recDepth >= 1 {
		return out
	}
	key := fmt.Sprintf("%d", out[0].id)
	if x.recMemo[key] {
		return out
	}
	x.recMemo[key] = true
	x.recDepth++
	st := x.newState()
	st.alloc = s.alloc
	for k, m := range x.entryHeap {
		st.heap[k] = m
	}
	x.rec++
	body := x.evalPureFn(st, fn, args, nil)
	x.rec--
	x.recDepth--
	for i := range out {
		out[i].facts = append(out[i].facts, x.tb.Eq(out[i], body[i]))
	}
	// facts established while unfolding (typing of reads and the like)
	for _, f := range st.pcList() {
		out[0].facts = append(out[0].facts, f)
	}
	return out
}

// ---- contracts in use mode

type useCtx struct {
	c      *Contract
	fn     *ssa.Function // target
	done   bool
	mods   []Val
	modsT  []types.Type
	frame  *frame
	modAll bool
	bvs    []*Term
}

func (x *Exec) useTarget(fr *frame, fn *ssa.Function) *useCtx {
	if fr.use != nil && fr.use.fn == fn {
		return fr.use
	}
	return nil
}

func (x *Exec) havocTarget(fr *frame, s *State, u *useCtx, fn *ssa.Function) []outcome {
	if u.done {
		fail("contract %s calls its target twice", u.c.Name)
	}
	x.newLevel(s)
	for i, m := range u.mods {
		t := u.modsT[i]
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			x.store(s, m[0], pt.Elem(), x.fresh(s, pt.Elem(), "mod"))
		} else if sl, ok := t.Underlying().(*types.Slice); ok {
			x.havocRow(s, sl.Elem(), m[0])
		} else if _, ok := t.Underlying().(*types.Map); ok {
			x.havocMapObj(s, t, m[0])
		}
	}
	return one(s, x.freshTuple(s, fn.Signature.Results(), "use."+qualName(fn)))
}

func (x *Exec) useContract(fr *frame, s *State, in ssa.Instruction, c *Contract, args []Val) []outcome {
	f := c.Fn
	nfr := &frame{fn: f, caller: fr, spec: true, depth: fr.depth + 1, call: asCall(in)}
	// parameters of the contract are the target's; the return values are the
	// contract's.
	nfr.use = &useCtx{c: c, fn: x.prog.targets[c], frame: nfr}
	p := &path{st: s, env: map[ssa.Value]Val{}}
	for i, pr := range f.Params {
		if i < len(args) {
			p.env[pr] = args[i]
			continue
		}
		// a further parameter is universally quantified
		var a Val
		for _, l := range x.ly.leaves(pr.Type()) {
			b := x.tb.BV(l.sort)
			nfr.use.bvs = append(nfr.use.bvs, b)
			a = append(a, b)
		}
		p.env[pr] = a
	}
	save := x.curFrame
	x.curFrame = nfr
	defer func() { x.curFrame = save }()
	forest := x.prog.loopsOf(f)
	_, _, outs := x.runBlocks(nfr, forest, map[*ssa.BasicBlock][]*path{f.Blocks[0]: {p}}, nil)
	return outs
}

// ---- builtins

func (x *Exec) builtin(fr *frame, p *path, in ssa.Instruction, name string, c *ssa.CallCommon, args []Val) []outcome {
	tb := x.tb
	s := p.st
	switch name {
	case "len":
		t := c.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return one(s, Val{tb.StrLen(args[0][0])})
		case *types.Slice:
			return one(s, Val{args[0][2]})
		case *types.Map:
			x.checkMapGuard(s, t, args[0][0], false)
			return one(s, Val{x.mapLen(s, t, args[0][0])})
		case *types.Array:
			return one(s, Val{tb.Int(u.Len())})
		case *types.Pointer:
			return one(s, Val{tb.Int(u.Elem().Underlying().(*types.Array).Len())})
		}
		return one(s, x.fresh(s, types.Typ[types.Int], "len"))
	case "cap":
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return one(s, Val{args[0][3]})
		}
		return one(s, Val{x.sel(s, x.comp(s, "chan#cap", leaf{"", SInt, nil, lkPlain}), []*Term{args[0][0]})})
	case "append":
		return x.appendOp(fr, s, c.Args[0].Type(), c.Args[1].Type(), args[0], args[1])
	case "copy":
		return one(s, Val{x.copyOp(s, c.Args[0].Type(), c.Args[1].Type(), args[0], args[1])})
	case "delete":
		x.checkMapGuard(s, c.Args[0].Type(), args[0][0], true)
		x.mapDelete(s, c.Args[0].Type(), args[0][0], args[1])
		return one(s, nil)
	case "print", "println":
		return one(s, nil)
	case "close":
		return x.fireModel(fr, s, in, "chan.close", []Val{args[0]})
	case "min", "max":
		r := args[0][0]
		if !isString(c.Args[0].Type()) && !isFloat(c.Args[0].Type()) {
			for _, a := range args[1:] {
				if name == "min" {
					r = tb.Ite(tb.Le(r, a[0]), r, a[0])
				} else {
					r = tb.Ite(tb.Le(a[0], r), r, a[0])
				}
			}
			return one(s, Val{r})
		}
	case "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			t := c.Args[0].Type()
			x.checkMapGuard(s, t, args[0][0], true)
			dn, dl := x.mapDom(s, t)
			x.putRow(s, dn, dl, args[0][0], tb.Fals, false)
			x.put(s, "ML:"+x.mapKeyType(t), x.mapLenLeaf(), []*Term{args[0][0]}, tb.Zero)
			return one(s, nil)
		}
	case "ssa:wrapnilchk":
		return one(s, args[0])
	case "recover":
		return one(s, x.zero(types.NewInterfaceType(nil, nil)))
	}
	fail("builtin %s", name)
	return nil
}

// fireModel runs an optional model for a language event.
func (x *Exec) fireModel(fr *frame, s *State, in ssa.Instruction, name string, args []Val) []outcome {
	if st, ok := x.stub(fr, name); ok {
		return x.runStub(fr, s, in, st, args)
	}
	if m := x.prog.models[name]; m != nil {
		x.modelled[name] = true
		return x.runFunc(fr, nil, s, m, args, nil)
	}
	return one(s, nil)
}

func (x *Exec) elemType(t types.Type) types.Type { return t.Underlying().(*types.Slice).Elem() }

func (x *Exec) appendOp(fr *frame, s *State, at, bt types.Type, a, b Val) []outcome {
	tb := x.tb
	elem := x.elemType(at)
	var n *Term
	isStr := isString(bt)
	if isStr {
		n = tb.StrLen(b[0])
	} else {
		n = b[2]
	}
	if n.isZero() {
		return one(s, a)
	}
	newLen := tb.Add(a[2], n)
	x.assumeT(s, tb.Lt(newLen, tb.BigInt(maxLen)), false)
	cnt, small := n.intVal()
	small = small && cnt <= 8
	write := func(s *State, arr, off *Term) {
		if isStr {
			r := x.newRef(s)
			x.eachElemLeaf(elem, func(name string, l leaf) { x.putRow(s, name, l, r, b[0], true) })
			x.copyRows(s, elem, arr, off, r, tb.Zero, n)
			return
		}
		if small {
			var vals []Val
			for i := int64(0); i < cnt; i++ {
				ea := x.elemAddr(elem, b[0], tb.Add(b[1], tb.Int(i)))
				vals = append(vals, x.loadAt(s, ea, ea.fn.(*addr), elem))
			}
			for i := int64(0); i < cnt; i++ {
				ea := x.elemAddr(elem, arr, tb.Add(off, tb.Int(i)))
				x.storeAt(s, ea, ea.fn.(*addr), elem, vals[i])
			}
			return
		}
		x.copyRows(s, elem, arr, off, b[0], b[1], n)
	}
	fits := x.simp(s, tb.And(tb.Le(newLen, a[3]), tb.Not(tb.Eq(a[0], tb.Zero))))
	if !fits.isConst() {
		if l, h := x.interval(tb.Sub(newLen, a[3])); l != nil && l.Sign() > 0 {
			fits = tb.Fals
		} else if h != nil && h.Sign() <= 0 && a[0].nonnil {
			fits = tb.True
		}
	}
	inPlace := func(s *State) outcome {
		write(s, a[0], tb.Add(a[1], a[2]))
		return outcome{st: s, res: Val{a[0], a[1], newLen, a[3]}}
	}
	grow := func(s *State) outcome {
		r := x.newRef(s)
		c := tb.Fresh("cap", SInt)
		c.lo, c.hi = tb.Zero.ival, maxLen
		c.facts = append(c.facts, tb.Le(newLen, c), tb.Lt(c, tb.BigInt(maxLen)))
		x.zeroRow(s, elem, r)
		if !a[2].isZero() {
			x.copyRows(s, elem, r, tb.Zero, a[0], a[1], a[2])
		}
		write(s, r, a[2])
		return outcome{st: s, res: Val{r, tb.Zero, newLen, c}}
	}
	if fits.isFalse() {
		return []outcome{grow(s)}
	}
	if fits.isTrue() {
		return []outcome{inPlace(s)}
	}
	q := s.clone()
	x.assumeT(s, fits, true)
	x.assumeT(q, tb.Not(fits), true)
	var out []outcome
	// appending nothing is in place whatever the capacity
	if !s.dead && x.feasible(s, tb.True) {
		out = append(out, inPlace(s))
	}
	if !q.dead && x.feasible(q, tb.True) {
		if !small {
			z := q.clone()
			x.assumeT(z, tb.Eq(n, tb.Zero), true)
			x.assumeT(q, tb.Lt(tb.Zero, n), true)
			if !z.dead && x.feasible(z, tb.True) {
				out = append(out, outcome{st: z, res: a})
			}
		}
		if !q.dead && x.feasible(q, tb.True) {
			out = append(out, grow(q))
		}
	}
	return out
}

// copyRows copies n elements between array objects.
func (x *Exec) copyRows(s *State, elem types.Type, dArr, dOff, sArr, sOff, n *Term) {
	snap := map[string]*SymMap{}
	x.eachElemLeaf(elem, func(name string, l leaf) { snap[name] = x.comp(s, name, l) })
	x.eachElemLeaf(elem, func(name string, l leaf) {
		m := x.newMap(smCopy, name, l)
		m.prev = snap[name]
		m.src = snap[name]
		m.keys = []*Term{dArr}
		m.dOff, m.cnt, m.sArr, m.sOff = dOff, n, sArr, sOff
		s.heap[name] = m
	})
}

func (x *Exec) copyOp(s *State, dt, st types.Type, d, src Val) *Term {
	tb := x.tb
	elem := x.elemType(dt)
	if isString(st) {
		sl := tb.StrLen(src[0])
		n := tb.Ite(tb.Le(d[2], sl), d[2], sl)
		r := x.newRef(s)
		x.eachElemLeaf(elem, func(name string, l leaf) { x.putRow(s, name, l, r, src[0], true) })
		x.copyRows(s, elem, d[0], d[1], r, tb.Zero, n)
		return n
	}
	n := tb.Ite(tb.Le(d[2], src[2]), d[2], src[2])
	x.copyRows(s, elem, d[0], d[1], src[0], src[1], n)
	return n
}

func (x *Exec) havocRow(s *State, elem types.Type, arr *Term) {
	x.tb.fresh++
	tag := fmt.Sprintf("hr%d", x.tb.fresh)
	x.eachElemLeaf(elem, func(name string, l leaf) {
		m := x.newMap(smHavoc, name, l)
		m.prev = x.comp(s, name, l)
		m.base = x.newBase(s, name, l, tag)
		m.keep = func(k []*Term) *Term { return x.tb.Not(x.tb.Eq(k[0], arr)) }
		m.inner = &mod{refs: map[string]*Term{"": arr}}
		s.heap[name] = m
	})
}

func (x *Exec) havocMapObj(s *State, t types.Type, ref *Term) {
	mt := t.Underlying().(*types.Map)
	x.tb.fresh++
	tag := fmt.Sprintf("hm%d", x.tb.fresh)
	h := func(name string, l leaf) {
		m := x.newMap(smHavoc, name, l)
		m.prev = x.comp(s, name, l)
		m.base = x.newBase(s, name, l, tag)
		m.keep = func(k []*Term) *Term { return x.tb.Not(x.tb.Eq(k[0], ref)) }
		m.inner = &mod{refs: map[string]*Term{"": ref}}
		s.heap[name] = m
	}
	dn, dl := x.mapDom(s, t)
	h(dn, dl)
	h("ML:"+x.mapKeyType(t), x.mapLenLeaf())
	for _, l := range x.ly.leaves(mt.Elem()) {
		h("MV:"+x.mapKeyType(t)+l.suffix, l)
	}
}

// copyMap makes the map object dst equal to src.
func (x *Exec) copyMap(s *State, t types.Type, dst, src *Term) {
	mt := t.Underlying().(*types.Map)
	snap := func(name string, l leaf) {
		m := x.newMap(smSnap, name, l)
		m.prev = x.comp(s, name, l)
		m.src = m.prev
		m.keys = []*Term{dst}
		m.sArr = src
		s.heap[name] = m
	}
	n := x.mapLen(s, t, src)
	dn, dl := x.mapDom(s, t)
	snap(dn, dl)
	for _, l := range x.ly.leaves(mt.Elem()) {
		snap("MV:"+x.mapKeyType(t)+l.suffix, l)
	}
	x.put(s, "ML:"+x.mapKeyType(t), x.mapLenLeaf(), []*Term{dst}, n)
}

// ---- channels and goroutines

func (x *Exec) recvStmt(fr *frame, p *path, in *ssa.UnOp) []outcome {
	ch := x.val(p, in.X)
	x.fireWait(fr, p, in, in.X.Type(), ch, true)
	s := p.st
	var out []outcome
	for _, o := range x.recvOn(fr, s, in, in.X.Type(), ch) {
		v := o.res
		if !in.CommaOk {
			v = v[:len(v)-1]
		}
		out = append(out, outcome{st: o.st, res: v})
	}
	return out
}

// fireWait tells a contract about each channel of a channel operation, before
// the operation, and whether it may block.
func (x *Exec) fireWait(fr *frame, p *path, in ssa.Instruction, ct types.Type, ch Val, blocking bool) {
	st, ok := x.stub(fr, "chan.wait "+x.ly.key(ct.Underlying().(*types.Chan).Elem()))
	if !ok {
		return
	}
	os := x.runStub(fr, p.st, in, st, []Val{ch, {x.tb.Bool(blocking)}})
	if len(os) != 1 {
		fail("chan.wait forks")
	}
	p.st = os[0].st
}

// recvOn receives from a channel: value and ok.
func (x *Exec) recvOn(fr *frame, s *State, in ssa.Instruction, ct types.Type, ch Val) []outcome {
	el := ct.Underlying().(*types.Chan).Elem()
	x.newLevel(s)
	v := x.fresh(s, el, "recv")
	ok := x.tb.Fresh("recvok", SBool)
	res := append(append(Val{}, v...), ok)
	if st, sok := x.stub(fr, "chan.recv "+x.ly.key(el)); sok {
		var out []outcome
		as := []Val{ch, v, {ok}}
		if n := len(st.fn.(*closure).fn.Params); n < len(as) {
			as = as[:n]
		}
		for _, o := range x.runStub(fr, s, in, st, as) {
			r := res
			if len(o.res) == len(res) {
				r = o.res
			} else if len(o.res) > 0 {
				r = append(append(Val{}, o.res...), x.tb.True)
			}
			out = append(out, outcome{st: o.st, res: r})
		}
		return out
	}
	var out []outcome
	for _, o := range x.fireModel(fr, s, in, "chan.recv", []Val{ch, {ok}}) {
		out = append(out, outcome{st: o.st, res: res})
	}
	return out
}

func (x *Exec) sendStmt(fr *frame, p *path, in *ssa.Send) {
	ch, v := x.val(p, in.Chan), x.val(p, in.X)
	x.fireWait(fr, p, in, in.Chan.Type(), ch, true)
	os := x.sendOn(fr, p.st, in, in.Chan.Type(), ch, v)
	if len(os) != 1 {
		fail("send forks")
	}
	p.st = os[0].st
}

func (x *Exec) sendOn(fr *frame, s *State, in ssa.Instruction, ct types.Type, ch, v Val) []outcome {
	el := ct.Underlying().(*types.Chan).Elem()
	if st, ok := x.stub(fr, "chan.send "+x.ly.key(el)); ok {
		return x.runStub(fr, s, in, st, []Val{ch, v})
	}
	return x.fireModel(fr, s, in, "chan.send", []Val{ch})
}

func (x *Exec) selectStmt(fr *frame, p *path, in *ssa.Select) []outcome {
	tb := x.tb
	var out []outcome
	n := len(in.States)
	tt := in.Type().(*types.Tuple)
	build := func(idx int, ok *Term, vals map[int]Val) Val {
		r := Val{tb.Int(int64(idx)), ok}
		k := 2
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				if v, has := vals[i]; has {
					r = append(r, v...)
				} else {
					r = append(r, x.zero(tt.At(k).Type())...)
				}
				k++
			}
		}
		return r
	}
	for _, st := range in.States {
		x.fireWait(fr, p, in, st.Chan.Type(), x.val(p, st.Chan), in.Blocking)
	}
	for i, st := range in.States {
		q := p.st.clone()
		ch := x.val(p, st.Chan)
		// a nil channel never proceeds
		x.assumeT(q, x.notNil(ch[0]), true)
		if q.dead {
			continue
		}
		if !fr.spec && x.pure == 0 {
			q.trail = append(q.trail, fmt.Sprintf("%s select case %d", x.pos(in), i))
		}
		// distinguish the cases by a fresh choice
		ch0 := tb.Fresh("select", SBool)
		x.assumeT(q, ch0, true)
		if st.Dir == types.RecvOnly {
			for _, o := range x.recvOn(fr, q, in, st.Chan.Type(), ch) {
				k := len(o.res) - 1
				out = append(out, outcome{st: o.st, res: build(i, o.res[k], map[int]Val{i: o.res[:k]})})
			}
		} else {
			for _, o := range x.sendOn(fr, q, in, st.Chan.Type(), ch, x.val(p, st.Send)) {
				out = append(out, outcome{st: o.st, res: build(i, tb.Fals, nil)})
			}
		}
	}
	if !in.Blocking {
		q := p.st.clone()
		x.assumeT(q, tb.Fresh("select", SBool), true)
		// the default case is taken only when no other is ready
		okq := true
		for _, st := range in.States {
			name := "chan.notready"
			if st.Dir != types.RecvOnly {
				name = "chan.full"
			}
			if _, ok := x.stub(fr, name+" "+x.ly.key(st.Chan.Type().Underlying().(*types.Chan).Elem())); ok {
				name += " " + x.ly.key(st.Chan.Type().Underlying().(*types.Chan).Elem())
			}
			for _, o := range x.fireModel(fr, q, in, name, []Val{x.val(p, st.Chan)}) {
				q = o.st
			}
		}
		if okq && !q.dead {
			out = append(out, outcome{st: q, res: build(-1, tb.Fals, nil)})
		}
	}
	_ = n
	_ = token.ADD
	return out
}

// goStmt verifies the new goroutine from the hook-defined state.
func (x *Exec) goStmt(fr *frame, p *path, in *ssa.Go) {
	h := x.onGo
	if h == nil {
		if !fr.spec {
			fail("go statement without a specification (OnGo) in %s", fr.fn)
		}
		h = &[4]*Term{}
	}
	d := x.mkDeferred(p, &in.Call)
	run := func(s *State, t *Term) []*State {
		if t == nil {
			return []*State{s}
		}
		c := t.fn.(*closure)
		var out []*State
		for _, o := range x.runFunc(fr, nil, s, c.fn, nil, c.binds) {
			out = append(out, o.st)
		}
		return out
	}
	bs := run(p.st, h[0])
	if len(bs) != 1 {
		fail("OnGo before forks")
	}
	child := bs[0].clone()
	child.trail = append(child.trail, x.pos(in)+" go")
	seen := map[*Term]bool{}
	if d.fn != nil {
		x.staleCaptures(child, d.fn, seen)
	}
	for _, a := range d.args {
		for _, t := range a {
			x.staleCaptures(child, t, seen)
		}
	}
	if x.rec == 0 {
		// nothing of the child is of use while a loop's invariants are sought
		gfr := *fr
		gfr.goroot = true
		for _, cs := range run(child, h[2]) {
			q := &path{st: cs, env: p.env}
			for _, o := range x.runDeferred(&gfr, q, d, in) {
				run(o.st, h[3])
			}
		}
	}
	as := run(bs[0], h[1])
	if len(as) != 1 {
		fail("OnGo after forks")
	}
	p.st = as[0]
}

// staleCaptures gives the variables that a new goroutine's function captured
// and that are assigned later an arbitrary value.
func (x *Exec) staleCaptures(s *State, f *Term, seen map[*Term]bool) {
	c, ok := f.fn.(*closure)
	if !ok || seen[f] {
		return
	}
	seen[f] = true
	for i, fv := range c.fn.FreeVars {
		pt, ok := fv.Type().Underlying().(*types.Pointer)
		if !ok || i >= len(c.binds) {
			continue
		}
		elem := pt.Elem()
		if !x.prog.isSpec(c.fn) {
			stale, written := capturedLater(c.fn, i)
			if written {
				fail("%s assigns the captured variable %s", c.fn, fv.Name())
			}
			if stale {
				x.store(s, c.binds[i][0], elem, x.fresh(s, elem, "stale."+fv.Name()))
			}
		}
		if _, ok := elem.Underlying().(*types.Signature); ok {
			for _, t := range x.load(s, c.binds[i][0], elem) {
				x.staleCaptures(s, t, seen)
			}
		}
	}
	for _, b := range c.binds {
		for _, t := range b {
			x.staleCaptures(s, t, seen)
		}
	}
}

// capturedLater tells whether the i-th captured variable of the closure may be
// assigned after the closure was made, and whether the closure assigns it.
func capturedLater(fn *ssa.Function, i int) (stale, written bool) {
	written = storesTo(fn.FreeVars[i])
	par := fn.Parent()
	if par == nil {
		return
	}
	for _, b := range par.Blocks {
		for k, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			v := mc.Bindings[i]
			if storesAfter(b, k+1, v) {
				stale = true
			}
			if refs := v.Referrers(); refs != nil {
				for _, r := range *refs {
					if o, ok := r.(*ssa.MakeClosure); ok && o.Fn != fn {
						for j, ob := range o.Bindings {
							if ob == v && storesTo(o.Fn.(*ssa.Function).FreeVars[j]) {
								stale = true
							}
						}
					}
				}
			}
		}
	}
	return
}

func storesTo(fv *ssa.FreeVar) bool {
	refs := fv.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == fv {
				return true
			}
		case *ssa.MakeClosure:
			for j, b := range r.Bindings {
				if b == fv && storesTo(r.Fn.(*ssa.Function).FreeVars[j]) {
					return true
				}
			}
		}
	}
	return false
}

// storesAfter tells whether v is stored to on a path from the instruction that
// does not create it anew.
func storesAfter(b *ssa.BasicBlock, k int, v ssa.Value) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, k int) bool
	walk = func(b *ssa.BasicBlock, k int) bool {
		for ; k < len(b.Instrs); k++ {
			switch in := b.Instrs[k].(type) {
			case *ssa.Alloc:
				if ssa.Value(in) == v {
					return false
				}
			case *ssa.Store:
				if in.Addr == v {
					return true
				}
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				if walk(n, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(b, k)
}

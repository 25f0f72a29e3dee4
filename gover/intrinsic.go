package main

import (
	"fmt"
	"go/types"
	"net/http"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func baseName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}

func strConst(t *Term) string {
	if t.op != OConst || t.sort != SStr {
		fail("constant string expected")
	}
	return t.name
}

// inUse tells whether the code runs inside a contract in use mode.
func inUse(fr *frame) *useCtx {
	for f := fr; f != nil; f = f.caller {
		if f.use != nil {
			return f.use
		}
		if !f.spec {
			return nil
		}
	}
	return nil
}

// variadic decodes a ...any slice of known length.
func (x *Exec) variadic(s *State, v Val) []Val {
	n, ok := v[2].intVal()
	if !ok {
		fail("variadic arguments of unknown length")
	}
	anyT := types.NewInterfaceType(nil, nil)
	_ = anyT
	var out []Val
	for i := int64(0); i < n; i++ {
		ea := x.elemAddr(types.Universe.Lookup("any").Type(), v[0], x.tb.Add(v[1], x.tb.Int(i)))
		_ = ea
		out = append(out, x.loadAny(s, v[0], x.tb.Add(v[1], x.tb.Int(i))))
	}
	return out
}

// loadAny reads element i of a []any, under either spelling of the type.
func (x *Exec) loadAny(s *State, arr, i *Term) Val {
	ls := []leaf{{"#tag", SInt, nil, lkTag}, {"#data", SInt, nil, lkData}}
	name := "E:any"
	if _, ok := s.heap["E:any#tag"]; !ok {
		if _, ok := s.heap["E:interface{}#tag"]; ok {
			name = "E:interface{}"
		}
	}
	var out Val
	for _, l := range ls {
		out = append(out, x.sel(s, x.comp(s, name+l.suffix, l), []*Term{arr, i}))
	}
	return out
}

// ufArgs flattens ...any arguments for an uninterpreted function.
func (x *Exec) ufArgs(s *State, v Val) []*Term {
	var out []*Term
	for _, a := range x.variadic(s, v) {
		out = append(out, x.anyLeaves(s, a)...)
	}
	return out
}

func (x *Exec) anyLeaves(s *State, a Val) []*Term {
	if t := x.typeOfTag(a[0]); t != nil {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == vPath {
			return x.unbox(s, t, a[1])
		}
		if _, ok := x.ly.opaque[x.ly.key(t)]; ok {
			return x.unbox(s, t, a[1])
		}
		switch t.Underlying().(type) {
		case *types.Basic:
			return x.unbox(s, t, a[1])
		case *types.Pointer:
			return []*Term{a[1]}
		case *types.Struct:
			return x.unbox(s, t, a[1])
		}
	}
	return a
}

// boxTypes is the static type boxed at each variadic argument.
func (x *Exec) intrinsic(fr *frame, s *State, in ssa.Instruction, fn *ssa.Function, args []Val) []outcome {
	tb := x.tb
	name := baseName(fn)
	targs := fn.TypeArgs()
	resT := func() types.Type { return fn.Signature.Results().At(0).Type() }
	switch name {
	case "Requires":
		if u := inUse(fr); u != nil {
			x.obligeAt(s, "requires", "precondition of "+u.c.Name, x.posOr(in), args[0][0])
		} else {
			x.assumeT(s, args[0][0], false)
		}
		return one(s, nil)
	case "Assume":
		x.assumeT(s, args[0][0], false)
		return one(s, nil)
	case "Ensures":
		if u := inUse(fr); u != nil {
			c := args[1][0]
			if c.hasBV && len(inUse(fr).bvs) > 0 {
				c = tb.Quant("forall", inUse(fr).bvs, c)
			}
			x.assumeT(s, c, false)
			return one(s, nil)
		}
		label := strConst(args[0][0])
		x.coverAt(s, label)
		x.obligeAt(s, "ensures", label, "", args[1][0])
		return one(s, nil)
	case "Assert":
		x.obligeAt(s, "assert", strConst(args[0][0]), x.callerPos(fr), args[1][0])
		return one(s, nil)
	case "Unreachable":
		x.obligeAt(s, "assert", strConst(args[0][0]), x.callerPos(fr), tb.Fals)
		return one(s, nil)
	case "Cover":
		x.coverAt(s, strConst(args[0][0]))
		return one(s, nil)
	case "Any":
		x.newLevel(s)
		return one(s, x.fresh(s, resT(), "any"))
	case "AnyFresh":
		lo := s.alloc
		x.newLevel(s)
		v := x.fresh(s, resT(), "anyf")
		for i, l := range x.ly.leaves(resT()) {
			if l.kind == lkRef || l.kind == lkArr {
				x.assumeT(s, tb.Le(lo, v[i]), false)
			}
		}
		return one(s, v)
	case "Havoc":
		t := targs[0]
		if _, ok := isSpecType(t, "GMap"); ok {
			x.gmapHavoc(s, t, args[0][0], nil)
			return one(s, nil)
		}
		x.newLevel(s)
		x.store(s, args[0][0], t, x.fresh(s, t, "havoc"))
		return one(s, nil)
	case "HavocRow":
		x.newLevel(s)
		x.havocRow(s, targs[0], args[0][0])
		return one(s, nil)
	case "HavocMap":
		x.newLevel(s)
		x.havocMapObj(s, fn.Signature.Params().At(0).Type(), args[0][0])
		return one(s, nil)
	case "UF":
		t := resT()
		as := x.ufArgs(s, args[1])
		nm := "uf!" + strConst(args[0][0])
		return one(s, x.ufVal(s, t, nm, as))
	case "BigInt":
		return one(s, Val{tb.UF("uf!"+strConst(args[0][0]), SInt, x.ufArgs(s, args[1])...)})
	case "Forall", "Exists", "Forall2":
		var bvs []*Term
		var as []Val
		for _, ta := range targs {
			var a Val
			for _, l := range x.ly.leaves(ta) {
				b := tb.BV(l.sort)
				bvs = append(bvs, b)
				a = append(a, b)
			}
			as = append(as, a)
		}
		x.bvd++
		body := x.evalPure(s, args[0][0], as)[0]
		x.bvd--
		kind := "forall"
		if name == "Exists" {
			kind = "exists"
		}
		return one(s, Val{tb.Quant(kind, bvs, body)})
	case "ForallIn", "ExistsIn":
		b := tb.BV(SInt)
		x.bvd++
		body := x.evalPure(s, args[2][0], []Val{{b}})[0]
		x.bvd--
		rng := tb.And(tb.Le(args[0][0], b), tb.Lt(b, args[1][0]))
		if name == "ForallIn" {
			return one(s, Val{tb.Quant("forall", []*Term{b}, tb.Imp(rng, body))})
		}
		return one(s, Val{tb.Quant("exists", []*Term{b}, tb.And(rng, body))})
	case "And":
		return one(s, Val{tb.And(args[0][0], args[1][0])})
	case "Or":
		return one(s, Val{tb.Or(args[0][0], args[1][0])})
	case "Same":
		var cs []*Term
		for i := range args[0] {
			cs = append(cs, tb.Eq(args[0][i], args[1][i]))
		}
		return one(s, Val{tb.And(cs...)})
	case "Imp":
		return one(s, Val{tb.Imp(args[0][0], args[1][0])})
	case "Iff":
		return one(s, Val{tb.Eq(args[0][0], args[1][0])})
	case "Ite":
		return one(s, x.iteVal(x.simp(s, args[0][0]), args[1], args[2]))
	case "SeqOf":
		sl := fn.Signature.Params().At(0).Type()
		elem := sl.Underlying().(*types.Slice).Elem()
		ls := x.ly.leaves(elem)
		if len(ls) != 1 {
			fail("SeqOf of %v", elem)
		}
		m := x.comp(s, "E:"+x.ly.key(elem), ls[0])
		v := args[0]
		return one(s, x.distribute(s, v[0], func(arr *Term) Val { return Val{x.seqOf(s, m, arr, v[1], v[2])} }))
	case "EmptySeq":
		return one(s, x.zero(resT()))
	case "UnitSeq":
		if x.ly.leaves(resT())[0].sort == SStr {
			return one(s, Val{tb.App("str.from_code", SStr, args[0][0])})
		}
		return one(s, Val{tb.SeqUnit(args[0][0])})
	case "Seq.Len":
		if args[0][0].sort == SStr {
			return one(s, Val{tb.StrLen(args[0][0])})
		}
		return one(s, Val{tb.SeqLen(args[0][0])})
	case "Seq.At":
		if args[0][0].sort == SStr {
			return one(s, Val{x.byteAt(args[0][0], args[1][0])})
		}
		e := tb.SeqNth(args[0][0], args[1][0])
		if ls := x.ly.leaves(resT()); len(ls) == 1 && ls[0].kind == lkRef && !e.hasBV {
			// sequences hold references that exist
			in := tb.And(tb.Le(tb.Zero, args[1][0]), tb.Lt(args[1][0], tb.SeqLen(args[0][0])))
			alloc := s.alloc
			if x.invPath != nil {
				alloc = x.invPath.st.alloc // not what the specification allocates
			}
			f := tb.Imp(in, tb.And(tb.Le(tb.Zero, e), tb.Lt(e, alloc)))
			if e.facts == nil && e.op != OConst && !f.hasBV {
				e.facts = append(e.facts, f)
			}
		}
		return one(s, Val{e})
	case "Seq.Append":
		q := args[0][0]
		if q.sort == SStr {
			return one(s, Val{tb.Concat(q, tb.App("str.from_code", SStr, args[1][0]))})
		}
		return one(s, Val{tb.SeqConcat(q.sort, q, tb.SeqUnit(args[1][0]))})
	case "Seq.Concat":
		q := args[0][0]
		if q.sort == SStr {
			return one(s, Val{tb.Concat(q, args[1][0])})
		}
		return one(s, Val{tb.SeqConcat(q.sort, q, args[1][0])})
	case "Seq.Slice":
		q := args[0][0]
		if q.sort == SStr {
			return one(s, Val{tb.Substr(q, args[1][0], args[2][0])})
		}
		return one(s, Val{tb.SeqExtract(q, args[1][0], tb.Sub(args[2][0], args[1][0]))})
	case "Seq.Eq":
		return one(s, Val{tb.Eq(args[0][0], args[1][0])})
	case "Seq.HasPrefix":
		if args[0][0].sort == SStr {
			return one(s, Val{tb.StrPred("str.prefixof", args[1][0], args[0][0])})
		}
		return one(s, Val{tb.App("seq.prefixof", SBool, args[1][0], args[0][0])})
	case "Seq.Contains":
		return one(s, Val{tb.App("seq.contains", SBool, args[0][0], tb.SeqUnit(args[1][0]))})
	case "GMap.Get":
		return one(s, x.gmapGet(s, gmapType(fn), args[0][0], args[1]))
	case "GMap.Set":
		x.gmapSet(s, gmapType(fn), args[0][0], args[1], args[2])
		return one(s, nil)
	case "GMap.Havoc":
		x.gmapHavoc(s, gmapType(fn), args[0][0], nil)
		return one(s, nil)
	case "GMap.Clear":
		x.gmapClear(s, gmapType(fn), args[0][0])
		return one(s, nil)
	case "GMap.HavocUnless":
		x.gmapHavoc(s, gmapType(fn), args[0][0], args[1][0])
		return one(s, nil)
	case "Heap":
		h := map[string]*SymMap{}
		for k, m := range s.heap {
			h[k] = m
			x.pinned[m] = true
		}
		x.snaps = append(x.snaps, h)
		return one(s, Val{tb.Int(int64(len(x.snaps) - 1))})
	case "At":
		n, ok := args[0][0].intVal()
		if !ok {
			fail("heap snapshot is not known")
		}
		st := s.clone()
		// ghost cells created after the snapshot keep their content: only
		// components present at the snapshot are rolled back.
		h := x.snaps[n]
		st.heap = map[string]*SymMap{}
		for k, m := range h {
			st.heap[k] = m
		}
		for k := range s.heap {
			if _, ok := h[k]; !ok {
				if m, ok := x.initHeap[k]; ok {
					st.heap[k] = m
				}
			}
		}
		base := st.pc
		v := x.evalPure(st, args[1][0], nil)
		for n := st.pc; n != base && n != nil; n = n.parent {
			x.assumeT(s, n.t, n.branch)
		}
		return one(s, v)
	case "Rep", "FromRep":
		return one(s, args[0])
	case "Load":
		return one(s, x.load(s, args[0][0], targs[1]))
	case "Store":
		x.store(s, args[0][0], targs[1], args[1])
		return one(s, nil)
	case "Loop":
		if inUse(fr) != nil {
			return one(s, nil)
		}
		x.loopSpecs = append(x.loopSpecs, &loopSpec{fn: strConst(args[0][0]), clo: x.anyClosure(s, args[1])})
		return one(s, nil)
	case "Inv":
		if x.invs == nil {
			fail("Inv outside Loop")
		}
		var ns []*pcNode
		for n := s.pc; n != x.invs.base && n != nil; n = n.parent {
			ns = append(ns, n)
		}
		x.invs.list = append(x.invs.list, namedTerm{strConst(args[0][0]), tb.Imp(x.branchCond(ns), args[1][0])})
		return one(s, nil)
	case "Stub", "Intercept":
		x.stubs[strConst(args[0][0])] = x.anyClosure(s, args[1])
		return one(s, nil)
	case "Recursive":
		x.recStubs[strConst(args[0][0])] = x.anyClosure(s, args[1])
		return one(s, nil)
	case "On":
		if s.hooks == nil {
			s.hooks = map[string][]hookEnt{}
		}
		ev := strConst(args[0][0])
		s.hooks[ev] = append(append([]hookEnt{}, s.hooks[ev]...), hookEnt{args[1][1], args[2][0]})
		return one(s, nil)
	case "Fire":
		ev := strConst(args[0][0])
		obj := args[1][1]
		st := []*State{s}
		for _, h := range s.hooks[ev] {
			c := x.simp(s, tb.Eq(h.obj, obj))
			if c.isFalse() {
				continue
			}
			if !c.isTrue() {
				x.unsup(s, "hook "+ev+" on an object that cannot be told apart")
				continue
			}
			clo := h.clo.fn.(*closure)
			var next []*State
			for _, q := range st {
				for _, o := range x.runFunc(fr, nil, q, clo.fn, nil, clo.binds) {
					next = append(next, o.st)
				}
			}
			st = next
		}
		var out []outcome
		for _, q := range st {
			out = append(out, outcome{st: q})
		}
		return out
	case "OnGo":
		x.onGo = &[4]*Term{}
		for i := range x.onGo {
			if _, ok := args[i][0].fn.(*closure); ok {
				x.onGo[i] = args[i][0]
			}
		}
		return one(s, nil)
	case "Guard":
		t := targs[0]
		a := x.addrOf(args[1][0], t)
		g := &guard{label: strConst(args[0][0]), rd: args[2][0], wr: args[3][0]}
		var key *Term
		if len(a.keys) > 0 {
			key = a.keys[0]
		}
		g.comps = append(g.comps, guardLoc{a.prefix, key})
		s.guards = append(s.guards, g)
		return one(s, nil)
	case "GuardMap":
		g := &guard{label: strConst(args[0][0]), rd: args[2][0], wr: args[3][0]}
		g.comps = append(g.comps, guardLoc{"MAP:" + x.mapKeyType(targs[0]), args[1][0]})
		s.guards = append(s.guards, g)
		return one(s, nil)
	case "MayPanic":
		x.mayPanic = true
		return one(s, nil)
	case "Unchecked":
		x.unchecked = true
		return one(s, nil)
	case "Fresh":
		return one(s, Val{tb.Le(x.bases[0], x.anyRef(s, args[0]))})
	case "Allocated":
		return one(s, Val{tb.Lt(x.anyRef(s, args[0]), x.bases[0])})
	case "Addr":
		return one(s, Val{x.anyRef(s, args[0])})
	case "Is":
		return one(s, Val{tb.Eq(args[0][0], x.tagOf(targs[0]))})
	case "IsFunc":
		f := x.resolveIte(s, args[0][1])
		if c, ok := f.fn.(*closure); ok && c.fn != nil {
			return one(s, Val{tb.Bool(strings.TrimSuffix(qualName(c.fn), "$bound") == strConst(args[1][0]))})
		}
		return one(s, Val{tb.Fals})
	case "Split":
		c := x.simp(s, args[0][0])
		if c.isConst() || x.pure > 0 {
			return one(s, Val{c})
		}
		q := s.clone()
		x.assumeT(s, c, true)
		x.assumeT(q, tb.Not(c), true)
		var out []outcome
		if !s.dead && x.feasible(s, tb.True) {
			out = append(out, outcome{st: s, res: Val{tb.True}})
		}
		if !q.dead && x.feasible(q, tb.True) {
			out = append(out, outcome{st: q, res: Val{tb.Fals}})
		}
		return out
	case "Modifies":
		if u := inUse(fr); u != nil {
			for _, a := range x.variadic(s, args[0]) {
				t := x.typeOfTag(a[0])
				if t == nil {
					fail("Modifies of an unknown type")
				}
				u.mods = append(u.mods, x.unbox(s, t, a[1]))
				u.modsT = append(u.modsT, t)
			}
		}
		return one(s, nil)
	case "Visited":
		if x.invLoop == nil {
			fail("Visited outside a loop invariant")
		}
		for _, in := range x.invLoop.header.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rng, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			mt := rng.X.Type().Underlying().(*types.Map)
			if !types.Identical(mt.Key(), targs[0]) {
				continue
			}
			it := x.val(x.invPath, nx.Iter)[0]
			m := x.comp(s, "IV:"+x.mapKeyType(rng.X.Type()), leaf{"", SBool, nil, lkPlain})
			return one(s, Val{x.sel(s, m, append([]*Term{it}, args[0]...))})
		}
		return one(s, Val{tb.Fals})
	case "CopyMap":
		x.copyMap(s, targs[0], args[0][0], args[1][0])
		return one(s, nil)
	case "Old", "Wrap64":
		return one(s, args[0])
	}
	// string theory helpers: str_<op>
	if strings.HasPrefix(name, "Str") {
		if r, ok := x.strIntrinsic(name, args); ok {
			return one(s, Val{r})
		}
	}
	fail("intrinsic %s", name)
	return nil
}

func (x *Exec) strIntrinsic(name string, a []Val) (*Term, bool) {
	tb := x.tb
	switch name {
	case "StrHasPrefix":
		return tb.StrPred("str.prefixof", a[1][0], a[0][0]), true
	case "StrHasSuffix":
		return tb.StrPred("str.suffixof", a[1][0], a[0][0]), true
	case "StrContains":
		return tb.StrPred("str.contains", a[0][0], a[1][0]), true
	case "StrIndex":
		return tb.StrIndexOf(a[0][0], a[1][0], a[2][0]), true
	case "StrReplaceAll":
		return tb.App("str.replace_all", SStr, a[0][0], a[1][0], a[2][0]), true
	case "StrFromInt":
		return tb.App("str.from_int", SStr, a[0][0]), true
	case "StrToInt":
		return tb.App("str.to_int", SInt, a[0][0]), true
	}
	return nil, false
}

func (x *Exec) posOr(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	return x.pos(in)
}

// callerPos is the position of the innermost implementation call.
func (x *Exec) callerPos(fr *frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.caller != nil && !f.caller.spec && f.call != nil {
			return x.pos(f.call.(ssa.Instruction))
		}
	}
	return ""
}

func (x *Exec) coverAt(s *State, label string) {
	if x.rec > 0 || x.pure > 0 || s.dead || x.otherProp(label) {
		return
	}
	if x.coverSeen[label] >= 40 {
		return
	}
	x.coverSeen[label]++
	x.obls = append(x.obls, &Obl{Kind: "cover", Label: label, cover: true, pc: s.pcList(), goal: x.tb.Fals, Trail: append([]string{}, s.trail...)})
}

func (x *Exec) unsup(s *State, msg string) {
	if x.rec == 0 && x.pure == 0 {
		x.obls = append(x.obls, &Obl{Kind: "unsupported", Label: msg, goal: x.tb.Fals, pc: s.pcList(), unsup: true})
	}
}

func (x *Exec) anyClosure(s *State, v Val) *Term {
	t := v[1]
	if _, ok := t.fn.(*closure); !ok {
		fail("function literal expected")
	}
	return t
}

// anyRef is the reference held by an any value.
func (x *Exec) anyRef(s *State, v Val) *Term {
	if t := x.typeOfTag(v[0]); t != nil && !x.pointerShaped(t) {
		u := x.unbox(s, t, v[1])
		if len(u) == 0 {
			return x.tb.Zero
		}
		return u[0]
	}
	return v[1]
}

// ufVal is an uninterpreted value of type t.
func (x *Exec) ufVal(s *State, t types.Type, name string, as []*Term) Val {
	ls := x.ly.leaves(t)
	out := make(Val, len(ls))
	for i, l := range ls {
		out[i] = x.tb.UF(name+l.suffix, l.sort, as...)
	}
	for i, l := range ls {
		if out[i].facts != nil || out[i].hasBV {
			continue
		}
		base := strings.TrimSuffix(l.suffix, l.suffixTail())
		x.typeFacts(out[i], l, stamp{0, 0}, func(sfx string) *Term { return x.tb.UF(name+base+sfx, SInt, as...) })
	}
	return out
}

// ---- ghost maps

func gmapType(fn *ssa.Function) types.Type {
	t := fn.Signature.Recv().Type()
	return t.(*types.Pointer).Elem()
}

func (x *Exec) gmapParts(t types.Type) (k, v types.Type) {
	n := types.Unalias(t).(*types.Named)
	return n.TypeArgs().At(0), n.TypeArgs().At(1)
}

func (x *Exec) gmapGet(s *State, t types.Type, p *Term, key Val) Val {
	_, vt := x.gmapParts(t)
	a := x.addrOf(p, t)
	keys := append(append([]*Term{}, a.keys...), key...)
	var out Val
	for _, l := range x.ly.leaves(vt) {
		out = append(out, x.sel(s, x.comp(s, a.prefix+"{}"+l.suffix, l), keys))
	}
	return out
}

func (x *Exec) gmapSet(s *State, t types.Type, p *Term, key, v Val) {
	_, vt := x.gmapParts(t)
	a := x.addrOf(p, t)
	keys := append(append([]*Term{}, a.keys...), key...)
	for i, l := range x.ly.leaves(vt) {
		x.put(s, a.prefix+"{}"+l.suffix, l, keys, v[i])
	}
}

func (x *Exec) gmapHavoc(s *State, t types.Type, p *Term, keep *Term) {
	kt, vt := x.gmapParts(t)
	a := x.addrOf(p, t)
	x.newLevel(s)
	x.tb.fresh++
	tag := fmt.Sprintf("gh%d", x.tb.fresh)
	nk := len(a.keys)
	_ = kt
	// keep is evaluated in the state before
	pre := s.clone()
	for _, l := range x.ly.leaves(vt) {
		name := a.prefix + "{}" + l.suffix
		m := x.newMap(smHavoc, name, l)
		m.prev = x.comp(s, name, l)
		m.base = x.newBase(s, name, l, tag)
		m.keep = func(k []*Term) *Term {
			other := x.tb.Fals
			for i := 0; i < nk; i++ {
				other = x.tb.Or(other, x.tb.Not(x.tb.Eq(k[i], a.keys[i])))
			}
			if keep == nil {
				return other
			}
			kv := x.evalPure(pre, keep, []Val{Val(k[nk:])})
			return x.tb.Or(other, kv[0])
		}
		s.heap[name] = m
	}
}

func (x *Exec) gmapClear(s *State, t types.Type, p *Term) {
	_, vt := x.gmapParts(t)
	a := x.addrOf(p, t)
	for _, l := range x.ly.leaves(vt) {
		name := a.prefix + "{}" + l.suffix
		z := x.newMap(smConst, name, l)
		z.val = x.zeroLeaf(l)
		if len(a.keys) == 0 {
			s.heap[name] = z
			continue
		}
		m := x.newMap(smHavoc, name, l)
		m.prev = x.comp(s, name, l)
		m.base = z
		m.keep = func(k []*Term) *Term {
			other := x.tb.Fals
			for i := range a.keys {
				other = x.tb.Or(other, x.tb.Not(x.tb.Eq(k[i], a.keys[i])))
			}
			return other
		}
		s.heap[name] = m
	}
}

// ---- library functions with built-in meaning

func (x *Exec) wrapType() types.Type {
	// the dynamic type of fmt.Errorf results with %w
	return nil
}

const wrapKey = "*fmt.wrapError"

var refLeaf = leaf{"", SInt, nil, lkRef}

func (x *Exec) libIntrinsic(fr *frame, s *State, in ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]outcome, bool) {
	tb := x.tb
	errLeaves := x.ly.leaves(types.Universe.Lookup("error").Type())
	switch name {
	case "errors.New":
		r := x.newRef(s)
		x.put(s, "ERR:msg", leaf{"", SStr, nil, lkPlain}, []*Term{r}, args[0][0])
		return one(s, Val{x.tagOfKey("*errors.errorString"), r}), true
	case "fmt.Errorf":
		f := args[0][0]
		vs := x.variadicMaybe(s, args[1])
		r := x.newRef(s)
		if f.op == OConst && vs != nil {
			if idx := verbIndex(f.name, 'w'); idx >= 0 && idx < len(vs) {
				for i, l := range errLeaves {
					x.put(s, "ERR:cause"+l.suffix, l, []*Term{r}, vs[idx][i])
				}
				return one(s, Val{x.tagOfKey(wrapKey), r}), true
			}
		}
		return one(s, Val{x.tagOfKey("*errors.errorString"), r}), true
	case "errors.Is":
		return one(s, Val{x.errIs(s, args[0], args[1], 0)}), true
	case "errors.As":
		return x.errAs(fr, s, in, args[0], args[1], 0), true
	case "net/http.CanonicalHeaderKey", "net/textproto.CanonicalMIMEHeaderKey":
		if args[0][0].op == OConst {
			return one(s, Val{tb.Str(http.CanonicalHeaderKey(args[0][0].name))}), true
		}
		c := tb.UF("uf!canon", SStr, args[0][0])
		if c.facts == nil && !c.hasBV {
			c.facts = append(c.facts, tb.Eq(tb.UF("uf!canon", SStr, c), c), tb.Eq(tb.Eq(c, tb.Str("")), tb.Eq(args[0][0], tb.Str(""))))
		}
		return one(s, Val{c}), true
	case "fmt.Sprintf":
		return one(s, Val{x.sprintf(s, args)}), true
	case "fmt.Sprint", "fmt.Sprintln":
		if vs := x.variadicMaybe(s, args[0]); vs != nil {
			var as []*Term
			for _, v := range vs {
				as = append(as, x.anyLeaves(s, v)...)
			}
			return one(s, Val{tb.UF("uf!"+name, SStr, as...)}), true
		}
	case "strings.HasPrefix":
		return one(s, Val{tb.StrPred("str.prefixof", args[1][0], args[0][0])}), true
	case "strings.HasSuffix":
		return one(s, Val{tb.StrPred("str.suffixof", args[1][0], args[0][0])}), true
	case "strings.Contains":
		return one(s, Val{tb.StrPred("str.contains", args[0][0], args[1][0])}), true
	case "strings.Index":
		return one(s, Val{tb.StrIndexOf(args[0][0], args[1][0], tb.Zero)}), true
	case "strings.IndexByte":
		var c *Term
		if n, ok := args[1][0].intVal(); ok {
			c = tb.Str(string([]byte{byte(n)}))
		} else {
			c = tb.App("str.from_code", SStr, args[1][0])
		}
		return one(s, Val{tb.StrIndexOf(args[0][0], c, tb.Zero)}), true
	case "strings.TrimPrefix":
		a, b := args[0][0], args[1][0]
		return one(s, Val{tb.Ite(tb.StrPred("str.prefixof", b, a), tb.Substr(a, tb.StrLen(b), tb.StrLen(a)), a)}), true
	case "strings.TrimSuffix":
		a, b := args[0][0], args[1][0]
		return one(s, Val{tb.Ite(tb.StrPred("str.suffixof", b, a), tb.Substr(a, tb.Zero, tb.Sub(tb.StrLen(a), tb.StrLen(b))), a)}), true
	case "strings.ReplaceAll":
		return one(s, Val{tb.App("str.replace_all", SStr, args[0][0], args[1][0], args[2][0])}), true
	case "bytes.Equal":
		bt := types.Typ[types.Byte]
		return one(s, Val{tb.Eq(x.strOf(s, bt, args[0]), x.strOf(s, bt, args[1]))}), true
	}
	return nil, false
}

func (x *Exec) variadicMaybe(s *State, v Val) []Val {
	if _, ok := v[2].intVal(); !ok {
		return nil
	}
	vs := x.variadic(s, v)
	if vs == nil {
		vs = []Val{}
	}
	return vs
}

// verbIndex finds the argument index of the verb in a simple format.
func verbIndex(f string, verb byte) int {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			return -1
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == verb {
			return n
		}
		n++
	}
	return -1
}

// errMethod finds an error's Is or Unwrap method; fn is nil if it has no
// usable body.
func (x *Exec) errMethod(t types.Type, name string) (fn *ssa.Function, has bool) {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() != name {
			continue
		}
		f := x.prog.prog.LookupMethod(t, ms.At(i).Obj().Pkg(), name)
		if f == nil {
			return nil, true
		}
		if m := x.prog.models[qualName(f)]; m != nil {
			x.modelled[qualName(f)] = true
			return m, true
		}
		res := f.Signature.Results()
		if res.Len() != 1 || len(f.Blocks) == 0 {
			return nil, true
		}
		if _, isIface := res.At(0).Type().Underlying().(*types.Interface); name == "Unwrap" && !isIface {
			return nil, true
		}
		return f, true
	}
	return nil, false
}

func (x *Exec) errCause(s *State, d *Term) Val {
	var out Val
	for _, l := range x.ly.leaves(types.Universe.Lookup("error").Type()) {
		out = append(out, x.sel(s, x.comp(s, "ERR:cause"+l.suffix, l), []*Term{d}))
	}
	return out
}

func (x *Exec) errIs(s *State, e, target Val, depth int) *Term {
	tb := x.tb
	eq := tb.And(tb.Eq(e[0], target[0]), tb.Eq(e[1], target[1]))
	tag := x.resolveIte(s, e[0])
	if tag.op == OIte && e[1].op == OIte && e[1].args[0] == tag.args[0] {
		c := tag.args[0]
		return tb.Ite(c, x.errIs(s, Val{tag.args[1], e[1].args[1]}, target, depth), x.errIs(s, Val{tag.args[2], e[1].args[2]}, target, depth))
	}
	if n, ok := tag.intVal(); ok {
		if n == x.tags[wrapKey] && depth < 4 {
			return tb.Or(eq, x.errIs(s, x.errCause(s, e[1]), target, depth+1))
		}
		if n == x.tags["*errors.errorString"] || n == 0 {
			return eq
		}
		// concrete types of the program without Is/Unwrap methods
		if t := x.typeOfTag(tag); t != nil {
			ms := types.NewMethodSet(t)
			has := false
			for i := 0; i < ms.Len(); i++ {
				if nm := ms.At(i).Obj().Name(); nm == "Is" || nm == "Unwrap" {
					has = true
				}
			}
			if !has {
				return eq
			}
			if depth < 4 {
				r, okAll := eq, true
				if fn, has := x.errMethod(t, "Is"); has {
					if fn == nil {
						okAll = false
					} else {
						r = tb.Or(r, x.evalPureFn(s, fn, []Val{x.unbox(s, t, e[1]), target}, nil)[0])
					}
				}
				if fn, has := x.errMethod(t, "Unwrap"); has {
					if fn == nil {
						okAll = false
					} else {
						r = tb.Or(r, x.errIs(s, x.evalPureFn(s, fn, []Val{x.unbox(s, t, e[1])}, nil), target, depth+1))
					}
				}
				if okAll {
					return r
				}
			}
		}
	}
	u := tb.UF("errors.Is", SBool, e[0], e[1], target[0], target[1])
	if u.facts == nil && !u.hasBV {
		u.facts = append(u.facts, tb.Imp(eq, u), tb.Imp(tb.Eq(e[0], tb.Zero), tb.Eq(u, tb.Eq(target[0], tb.Zero))))
	}
	return u
}

// errAs sets *target when some error in the chain has the target's type.
func (x *Exec) errAs(fr *frame, s *State, in ssa.Instruction, e, target Val, depth int) []outcome {
	tb := x.tb
	pt := x.typeOfTag(target[0])
	if pt == nil {
		fail("errors.As with an unknown target type")
	}
	T := pt.Underlying().(*types.Pointer).Elem()
	tag := x.resolveIte(s, e[0])
	if tag.op == OIte && e[1].op == OIte && e[1].args[0] == tag.args[0] {
		c := tag.args[0]
		q := s.clone()
		x.assumeT(s, c, true)
		x.assumeT(q, tb.Not(c), true)
		var out []outcome
		if !s.dead && x.feasible(s, tb.True) {
			out = append(out, x.errAs(fr, s, in, Val{tag.args[1], e[1].args[1]}, target, depth)...)
		}
		if !q.dead && x.feasible(q, tb.True) {
			out = append(out, x.errAs(fr, q, in, Val{tag.args[2], e[1].args[2]}, target, depth)...)
		}
		return out
	}
	var direct *Term
	var val Val
	if types.IsInterface(T) {
		direct = x.implements(tag, T)
		val = e
	} else {
		direct = tb.Eq(tag, x.tagOf(T))
		val = x.unbox(s, T, e[1])
	}
	direct = x.simp(s, direct)
	if n, ok := tag.intVal(); ok && !direct.isTrue() {
		if n == 0 {
			return one(s, Val{tb.Fals})
		}
		if n == x.tags[wrapKey] && depth < 4 {
			return x.errAs(fr, s, in, x.errCause(s, e[1]), target, depth+1)
		}
		if n == x.tags["*errors.errorString"] && direct.isFalse() {
			return one(s, Val{tb.Fals})
		}
	}
	if t := x.typeOfTag(tag); t != nil && depth < 4 && !direct.isTrue() {
		if _, hasAs := x.errMethod(t, "As"); !hasAs {
			if fn, has := x.errMethod(t, "Unwrap"); !has && direct.isFalse() {
				return one(s, Val{tb.Fals})
			} else if has && fn != nil && direct.isFalse() {
				c := x.evalPureFn(s, fn, []Val{x.unbox(s, t, e[1])}, nil)
				return x.errAs(fr, s, in, c, target, depth+1)
			}
		}
	}
	// direct, or through an unknown chain
	var chainV Val
	for _, l := range x.ly.leaves(T) {
		chainV = append(chainV, tb.UF("errors.As!"+x.ly.key(T)+l.suffix, l.sort, e[0], e[1]))
	}
	chain := tb.And(tb.Not(tb.Eq(tag, tb.Zero)), tb.UF("errors.As!"+x.ly.key(T)+"?", SBool, e[0], e[1]))
	if types.IsInterface(T) {
		x.assumeT(s, tb.Imp(chain, x.implements(chainV[0], T)), false)
	}
	ok := tb.Or(direct, chain)
	old := x.load(s, target[1], T)
	x.store(s, target[1], T, x.iteVal(direct, val, x.iteVal(chain, chainV, old)))
	return one(s, Val{x.simp(s, ok)})
}

// sprintf renders simple formats structurally.
func (x *Exec) sprintf(s *State, args []Val) *Term {
	tb := x.tb
	f := args[0][0]
	vs := x.variadicMaybe(s, args[1])
	if f.op != OConst || vs == nil {
		as := append([]*Term{f}, args[1]...)
		return tb.UF("uf!sprintf", SStr, as...)
	}
	var parts []*Term
	n := 0
	str := f.name
	for i := 0; i < len(str); {
		j := strings.IndexByte(str[i:], '%')
		if j < 0 {
			parts = append(parts, tb.Str(str[i:]))
			break
		}
		parts = append(parts, tb.Str(str[i:i+j]))
		i += j + 1
		k := i
		for k < len(str) && strings.IndexByte("+-# 0123456789.", str[k]) >= 0 {
			k++
		}
		if k >= len(str) {
			break
		}
		verb := str[i : k+1]
		i = k + 1
		if verb == "%" {
			parts = append(parts, tb.Str("%"))
			continue
		}
		if n >= len(vs) {
			break
		}
		v := vs[n]
		n++
		t := x.typeOfTag(v[0])
		lv := x.anyLeaves(s, v)
		if t != nil && isString(t) && (verb == "s" || verb == "v") && !hasStringer(t) {
			parts = append(parts, lv[0])
			continue
		}
		as := append([]*Term{}, lv...)
		nm := "uf!fmt%" + verb
		if t != nil {
			nm += ":" + x.ly.key(t)
		}
		parts = append(parts, tb.UF(nm, SStr, as...))
	}
	return tb.Concat(parts...)
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if nm := ms.At(i).Obj().Name(); nm == "String" || nm == "Error" {
			return true
		}
	}
	return false
}

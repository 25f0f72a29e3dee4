package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a value: the leaf terms of its type's layout.
type Val []*Term

// addr is a structured address: a component prefix and its keys.
type addr struct {
	prefix string
	keys   []*Term
	global *ssa.Global
}

// closure is a function value.
type closure struct {
	fn    *ssa.Function
	binds []Val
	stub  any
}

func (x *Exec) elemKey(t types.Type) string { return x.ly.key(t) }

// addrOf returns the address denoted by a pointer to t.
func (x *Exec) addrOf(p *Term, t types.Type) *addr {
	if a, ok := p.fn.(*addr); ok {
		return a
	}
	return &addr{prefix: "H:" + x.ly.key(t), keys: []*Term{p}}
}

func (x *Exec) addrTerm(kind, prefix string, keys []*Term, g *ssa.Global) *Term {
	t := x.tb.UF(kind+"!"+prefix, SInt, keys...)
	if t.fn == nil {
		t.fn = &addr{prefix: prefix, keys: keys, global: g}
		t.nonnil = true
	}
	return t
}

// distribute applies f to the leaves of an ite-structured term.
func (x *Exec) distribute(s *State, p *Term, f func(p *Term) Val) Val {
	if p.op == OIte {
		c := x.simp(s, p.args[0])
		if c.isTrue() {
			return x.distribute(s, p.args[1], f)
		}
		if c.isFalse() {
			return x.distribute(s, p.args[2], f)
		}
		// nil branches cannot be dereferenced
		if p.args[1].isZero() {
			return x.distribute(s, p.args[2], f)
		}
		if p.args[2].isZero() {
			return x.distribute(s, p.args[1], f)
		}
		a := x.distribute(s, p.args[1], f)
		b := x.distribute(s, p.args[2], f)
		return x.iteVal(c, a, b)
	}
	return f(p)
}

func (x *Exec) iteVal(c *Term, a, b Val) Val {
	if len(a) != len(b) {
		panic("iteVal: layout mismatch")
	}
	out := make(Val, len(a))
	for i := range a {
		out[i] = x.tb.Ite(c, a[i], b[i])
		x.mergeInterval(out[i], a[i], b[i])
	}
	return out
}

// fieldAddr is the address of field i of *p of struct type t.
func (x *Exec) fieldAddr(s *State, p *Term, t types.Type, i int) *Term {
	return x.distribute(s, p, func(p *Term) Val {
		st := t.Underlying().(*types.Struct)
		a := x.addrOf(p, t)
		g := a.global
		return Val{x.addrTerm("fa", a.prefix+"."+st.Field(i).Name(), a.keys, g)}
	})[0]
}

// elemAddr is the address of element i of the array object arr.
func (x *Exec) elemAddr(elem types.Type, arr, i *Term) *Term {
	return x.addrTerm("ea", "E:"+x.ly.key(elem), []*Term{arr, i}, nil)
}

// load reads a value of type t at p.
func (x *Exec) load(s *State, p *Term, t types.Type) Val {
	return x.distribute(s, p, func(p *Term) Val { return x.loadAt(s, p, x.addrOf(p, t), t) })
}

func (x *Exec) loadAt(s *State, p *Term, a *addr, t types.Type) Val {
	if st, ok := x.ly.isStruct(t); ok {
		var out Val
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			na := &addr{prefix: a.prefix + "." + f.Name(), keys: a.keys, global: a.global}
			ft := x.addrTerm("fa", na.prefix, na.keys, a.global)
			out = append(out, x.loadAt(s, ft, na, f.Type())...)
		}
		return out
	}
	if ar, ok := x.ly.isArray(t); ok && ar.Len() <= maxArray {
		var out Val
		for i := int64(0); i < ar.Len(); i++ {
			ea := x.elemAddr(ar.Elem(), p, x.tb.Int(i))
			out = append(out, x.loadAt(s, ea, ea.fn.(*addr), ar.Elem())...)
		}
		return out
	}
	x.checkGuard(s, a, false)
	if a.global != nil {
		if v, ok := x.globalValue(a.global, a.prefix, t); ok {
			return v
		}
	}
	var out Val
	for _, l := range x.ly.leaves(t) {
		m := x.comp(s, a.prefix+l.suffix, l)
		out = append(out, x.sel(s, m, a.keys))
	}
	return out
}

// store writes a value of type t at p.
func (x *Exec) store(s *State, p *Term, t types.Type, v Val) {
	if p.op == OIte {
		c := x.simp(s, p.args[0])
		switch {
		case c.isTrue() || p.args[2].isZero():
			x.store(s, p.args[1], t, v)
			return
		case c.isFalse() || p.args[1].isZero():
			x.store(s, p.args[2], t, v)
			return
		}
		old1 := x.load(s, p.args[1], t)
		x.store(s, p.args[1], t, x.iteVal(c, v, old1))
		old2 := x.load(s, p.args[2], t)
		x.store(s, p.args[2], t, x.iteVal(c, old2, v))
		return
	}
	x.storeAt(s, p, x.addrOf(p, t), t, v)
}

func (x *Exec) storeAt(s *State, p *Term, a *addr, t types.Type, v Val) {
	if st, ok := x.ly.isStruct(t); ok {
		n := 0
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			na := &addr{prefix: a.prefix + "." + f.Name(), keys: a.keys, global: a.global}
			k := len(x.ly.leaves(f.Type()))
			ft := x.addrTerm("fa", na.prefix, na.keys, a.global)
			x.storeAt(s, ft, na, f.Type(), v[n:n+k])
			n += k
		}
		return
	}
	if ar, ok := x.ly.isArray(t); ok && ar.Len() <= maxArray {
		n := 0
		k := len(x.ly.leaves(ar.Elem()))
		for i := int64(0); i < ar.Len(); i++ {
			ea := x.elemAddr(ar.Elem(), p, x.tb.Int(i))
			x.storeAt(s, ea, ea.fn.(*addr), ar.Elem(), v[n:n+k])
			n += k
		}
		return
	}
	x.checkGuard(s, a, true)
	ls := x.ly.leaves(t)
	if len(ls) != len(v) {
		panic(fmt.Sprintf("store layout mismatch for %v: %d vs %d", t, len(ls), len(v)))
	}
	for i, l := range ls {
		x.put(s, a.prefix+l.suffix, l, a.keys, v[i])
	}
}

// globalAddr is the address of a package-level variable.
func (x *Exec) globalAddr(g *ssa.Global) *Term {
	pre := "G:"
	if x.prog.specFile[x.prog.fset.Position(g.Pos()).Filename] {
		pre = "GG:" // ghost: starts zero
	}
	return x.addrTerm("ga", pre+x.globalName(g), nil, g)
}

func (x *Exec) globalName(g *ssa.Global) string {
	return strings.ReplaceAll(g.Pkg.Pkg.Path(), "github.com/yields/ant", "ant") + "." + g.Name()
}

// globalValue gives constants for error variables that are never reassigned.
func (x *Exec) globalValue(g *ssa.Global, prefix string, t types.Type) (Val, bool) {
	el := g.Type().(*types.Pointer).Elem()
	if x.prog.mutable[g] {
		return nil, false
	}
	if c := x.prog.globConst[g]; c != nil && !g.Object().Exported() {
		if _, ok := el.Underlying().(*types.Basic); ok && types.Identical(t, el) {
			return x.constVal(c), true
		}
	}
	if !types.Identical(el, types.Universe.Lookup("error").Type()) {
		return nil, false
	}
	d := x.tb.UF("errglob!"+x.globalName(g), SInt)
	d.nonnil = true
	return Val{x.tagOfKey("*errors.errorString"), d}, true
}

// zero is the zero value of t.
func (x *Exec) zero(t types.Type) Val {
	var out Val
	for _, l := range x.ly.leaves(t) {
		out = append(out, x.zeroLeaf(l))
	}
	return out
}

func (x *Exec) zeroLeaf(l leaf) *Term {
	switch l.sort {
	case SBool:
		return x.tb.Fals
	case SStr:
		return x.tb.Str("")
	case SInt:
		return x.tb.Zero
	}
	return x.tb.SeqEmpty(l.sort)
}

// fresh is an arbitrary value of type t, well-formed at the current stamp.
func (x *Exec) fresh(s *State, t types.Type, name string) Val {
	return x.freshKeyed(s, t, name, nil)
}

func (x *Exec) freshKeyed(s *State, t types.Type, name string, keys []*Term) Val {
	x.tb.fresh++
	id := fmt.Sprintf("%s!%d", name, x.tb.fresh)
	ls := x.ly.leaves(t)
	out := make(Val, len(ls))
	for i, l := range ls {
		x.tb.symSeq[id+l.suffix] = x.tb.fresh
		out[i] = x.tb.UF(id+l.suffix, l.sort, keys...)
	}
	for i, l := range ls {
		l := l
		base := strings.TrimSuffix(l.suffix, l.suffixTail())
		x.typeFacts(out[i], l, x.curStamp(s), func(sfx string) *Term {
			return x.tb.UF(id+base+sfx, SInt, keys...)
		})
	}
	return out
}

// alloc creates a zeroed object of type t.
func (x *Exec) allocObj(s *State, t types.Type) *Term {
	r := x.newRef(s)
	if ar, ok := x.ly.isArray(t); ok {
		x.zeroRow(s, ar.Elem(), r)
		return r
	}
	if _, ok := isSpecType(t, "GMap"); ok {
		x.gmapClear(s, t, r)
		return r
	}
	x.storeAtNoGuard(s, r, t, x.zero(t))
	return r
}

func (x *Exec) storeAtNoGuard(s *State, r *Term, t types.Type, v Val) {
	g := s.guards
	s.guards = nil
	x.store(s, r, t, v)
	s.guards = g
}

// zeroRow zeroes the elements of the array object arr.
func (x *Exec) zeroRow(s *State, elem types.Type, arr *Term) {
	x.eachElemLeaf(elem, func(name string, l leaf) {
		x.putRow(s, name, l, arr, x.zeroLeaf(l), false)
	})
}

// eachElemLeaf enumerates the components of elements of the type.
func (x *Exec) eachElemLeaf(elem types.Type, f func(name string, l leaf)) {
	pre := "E:" + x.ly.key(elem)
	for _, l := range x.ly.leaves(elem) {
		f(pre+l.suffix, l)
	}
}

// ---- maps

func (x *Exec) mapKeyType(t types.Type) string { return x.ly.key(t.Underlying()) }

func (x *Exec) mapDom(s *State, t types.Type) (string, leaf) {
	return "MD:" + x.mapKeyType(t), leaf{"", SBool, nil, lkPlain}
}

func (x *Exec) mapGet(s *State, t types.Type, m *Term, k Val) (Val, *Term) {
	mt := t.Underlying().(*types.Map)
	keys := append([]*Term{m}, k...)
	dn, dl := x.mapDom(s, t)
	dom := x.tb.And(x.tb.Not(x.tb.Eq(m, x.tb.Zero)), x.sel(s, x.comp(s, dn, dl), keys))
	dom = x.simp(s, dom)
	var out Val
	for _, l := range x.ly.leaves(mt.Elem()) {
		v := x.sel(s, x.comp(s, "MV:"+x.mapKeyType(t)+l.suffix, l), keys)
		out = append(out, x.tb.Ite(dom, v, x.zeroLeaf(l)))
	}
	return out, dom
}

func (x *Exec) mapLenLeaf() leaf { return leaf{"", SInt, nil, lkCap0} }

func (x *Exec) mapLen(s *State, t types.Type, m *Term) *Term {
	v := x.sel(s, x.comp(s, "ML:"+x.mapKeyType(t), x.mapLenLeaf()), []*Term{m})
	return x.tb.Ite(x.tb.Eq(m, x.tb.Zero), x.tb.Zero, v)
}

func (x *Exec) mapSet(s *State, t types.Type, m *Term, k, v Val) {
	mt := t.Underlying().(*types.Map)
	keys := append([]*Term{m}, k...)
	dn, dl := x.mapDom(s, t)
	dom := x.sel(s, x.comp(s, dn, dl), keys)
	n := x.sel(s, x.comp(s, "ML:"+x.mapKeyType(t), x.mapLenLeaf()), []*Term{m})
	x.put(s, "ML:"+x.mapKeyType(t), x.mapLenLeaf(), []*Term{m}, x.tb.Ite(dom, n, x.tb.Add(n, x.tb.One)))
	x.put(s, dn, dl, keys, x.tb.True)
	for i, l := range x.ly.leaves(mt.Elem()) {
		x.put(s, "MV:"+x.mapKeyType(t)+l.suffix, l, keys, v[i])
	}
}

func (x *Exec) mapDelete(s *State, t types.Type, m *Term, k Val) {
	keys := append([]*Term{m}, k...)
	dn, dl := x.mapDom(s, t)
	dom := x.sel(s, x.comp(s, dn, dl), keys)
	n := x.sel(s, x.comp(s, "ML:"+x.mapKeyType(t), x.mapLenLeaf()), []*Term{m})
	x.put(s, "ML:"+x.mapKeyType(t), x.mapLenLeaf(), []*Term{m}, x.tb.Ite(dom, x.tb.Sub(n, x.tb.One), n))
	x.put(s, dn, dl, keys, x.tb.Fals)
}

func (x *Exec) newMapObj(s *State, t types.Type) *Term {
	mt := t.Underlying().(*types.Map)
	r := x.newRef(s)
	dn, dl := x.mapDom(s, t)
	x.putRow(s, dn, dl, r, x.tb.Fals, false)
	x.put(s, "ML:"+x.mapKeyType(t), x.mapLenLeaf(), []*Term{r}, x.tb.Zero)
	for _, l := range x.ly.leaves(mt.Elem()) {
		x.putRow(s, "MV:"+x.mapKeyType(t)+l.suffix, l, r, x.zeroLeaf(l), false)
	}
	return r
}

// ---- interfaces

func (x *Exec) pointerShaped(t types.Type) bool {
	ls := x.ly.leaves(t)
	return len(ls) == 1 && ls[0].kind == lkRef
}

func (x *Exec) tagOfKey(k string) *Term {
	n, ok := x.tags[k]
	if !ok {
		n = int64(len(x.tags) + 1)
		x.tags[k] = n
	}
	return x.tb.Int(n)
}

func (x *Exec) tagOf(t types.Type) *Term {
	k := x.ly.key(t)
	if _, ok := x.tagTypes[k]; !ok {
		x.tagTypes[k] = t
	}
	return x.tagOfKey(k)
}

func (x *Exec) typeOfTag(tag *Term) types.Type {
	n, ok := tag.intVal()
	if !ok {
		return nil
	}
	for k, v := range x.tags {
		if v == n {
			if t, ok := x.tagTypes[k]; ok {
				return t
			}
		}
	}
	return nil
}

// box makes an interface value.
func (x *Exec) box(t types.Type, v Val) Val {
	if types.IsInterface(t) {
		return v
	}
	tag := x.tagOf(t)
	if x.pointerShaped(t) {
		return Val{tag, v[0]}
	}
	k := x.ly.key(t)
	d := x.tb.UF("box!"+k, SInt, v...)
	if d.facts == nil && !d.hasBV {
		for i, l := range x.ly.leaves(t) {
			u := x.tb.UF("unbox!"+k+l.suffix, l.sort, d)
			d.facts = append(d.facts, x.tb.Eq(u, v[i]))
		}
	}
	return Val{tag, d}
}

// unbox extracts a value of concrete type t from interface data.
func (x *Exec) unbox(s *State, t types.Type, d *Term) Val {
	if x.pointerShaped(t) {
		return Val{d}
	}
	k := x.ly.key(t)
	if d.op == OUF && d.name == "box!"+k {
		return append(Val{}, d.args...)
	}
	if d.op == OIte {
		return x.iteVal(d.args[0], x.unbox(s, t, d.args[1]), x.unbox(s, t, d.args[2]))
	}
	ls := x.ly.leaves(t)
	out := make(Val, len(ls))
	for i, l := range ls {
		u := x.tb.UF("unbox!"+k+l.suffix, l.sort, d)
		out[i] = u
		if u.facts == nil && !u.hasBV {
			base := strings.TrimSuffix(l.suffix, l.suffixTail())
			st := stamp{0, 0}
			if d.bound != nil {
				st = *d.bound
			} else {
				st = x.curStamp(s)
			}
			x.typeFacts(u, l, st, func(sfx string) *Term { return x.tb.UF("unbox!"+k+base+sfx, SInt, d) })
		}
	}
	return out
}

// implements is the condition that dynamic type tag satisfies the interface.
func (x *Exec) implements(tag *Term, it types.Type) *Term {
	iface := it.Underlying().(*types.Interface)
	if iface.NumMethods() == 0 {
		return x.tb.Not(x.tb.Eq(tag, x.tb.Zero))
	}
	if tag.op == OIte {
		return x.tb.Ite(tag.args[0], x.implements(tag.args[1], it), x.implements(tag.args[2], it))
	}
	if tag.isZero() {
		return x.tb.Fals
	}
	if n, ok := tag.intVal(); ok {
		if t := x.typeOfTag(tag); t != nil {
			return x.tb.Bool(types.Implements(t, iface))
		}
		for k, v := range x.tags {
			if v == n && k == "*errors.errorString" {
				// has only Error
				return x.tb.Bool(types.Identical(it.Underlying(), types.Universe.Lookup("error").Type().Underlying()))
			}
		}
	}
	u := x.tb.UF("impl!"+x.ly.key(it), SBool, tag)
	if u.facts == nil && !u.hasBV {
		u.facts = append(u.facts, x.tb.Not(x.tb.And(u, x.tb.Eq(tag, x.tb.Zero))))
		for k, t := range x.tagTypes {
			u.facts = append(u.facts, x.tb.Imp(x.tb.Eq(tag, x.tb.Int(x.tags[k])), x.tb.Bool(types.Implements(t, iface))))
		}
	}
	return u
}

// ---- guards

func (x *Exec) checkGuard(s *State, a *addr, write bool) {
	var k *Term
	if len(a.keys) > 0 {
		k = a.keys[0]
	}
	x.checkGuardAt(s, a.prefix, k, write)
}

// checkMapGuard checks the discipline of a map's contents.
func (x *Exec) checkMapGuard(s *State, t types.Type, m *Term, write bool) {
	x.checkGuardAt(s, "MAP:"+x.mapKeyType(t), m, write)
}

func (x *Exec) checkGuardAt(s *State, prefix string, key *Term, write bool) {
	if len(s.guards) == 0 || x.pure > 0 {
		return
	}
	for _, g := range s.guards {
		for _, l := range g.comps {
			if l.comp != prefix {
				continue
			}
			same := x.tb.True
			if l.key != nil && key != nil {
				same = x.simp(s, x.tb.Eq(l.key, key))
			}
			if same.isFalse() {
				continue
			}
			f := g.rd
			kind := "read"
			if write {
				f = g.wr
				kind = "write"
			}
			gs := s.guards
			s.guards = nil
			v := x.evalPure(s, f, nil)
			s.guards = gs
			x.oblige(s, "guard", g.label+" ("+kind+")", x.tb.Imp(same, v[0]))
		}
	}
}

package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// leafKind classifies a leaf.
type leafKind int

const (
	lkPlain leafKind = iota
	lkRef
	lkTag
	lkData
	lkArr
	lkOff
	lkLen
	lkCap
	lkCap0 // a length without siblings
)

type leaf struct {
	suffix string // appended to the component name
	sort   Sort
	typ    types.Type // type for integer ranges
	kind   leafKind
}

// Layouts maps types to leaf lists.
type Layouts struct {
	opaque map[string]types.Type // type key -> representation type
	cache  map[types.Type][]leaf
	keys   map[types.Type]string
}

func newLayouts() *Layouts {
	return &Layouts{opaque: map[string]types.Type{}, cache: map[types.Type][]leaf{}, keys: map[types.Type]string{}}
}

func (ly *Layouts) key(t types.Type) string {
	if k, ok := ly.keys[t]; ok {
		return k
	}
	k := types.TypeString(types.Unalias(t), nil)
	k = strings.ReplaceAll(k, "github.com/yields/ant", "ant")
	ly.keys[t] = k
	return k
}

func isSpecType(t types.Type, name string) (*types.Named, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != vPath {
		return nil, false
	}
	return n, n.Obj().Name() == name
}

// scalarLeaves returns the leaves of a non-struct, non-array type.
func (ly *Layouts) leaves(t types.Type) []leaf {
	if l, ok := ly.cache[t]; ok {
		return l
	}
	l := ly.compute(t)
	ly.cache[t] = l
	return l
}

func (ly *Layouts) isStruct(t types.Type) (*types.Struct, bool) {
	if _, ok := ly.opaque[ly.key(t)]; ok {
		return nil, false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == vPath {
		if n.Obj().Name() == "Seq" || n.Obj().Name() == "GMap" || n.Obj().Name() == "Set" {
			return nil, false
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (ly *Layouts) isArray(t types.Type) (*types.Array, bool) {
	if _, ok := ly.opaque[ly.key(t)]; ok {
		return nil, false
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

const maxArray = 32

func (ly *Layouts) compute(t types.Type) []leaf {
	if rep, ok := ly.opaque[ly.key(t)]; ok {
		if rep == nil {
			return nil
		}
		return ly.leaves(rep)
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == vPath {
		switch n.Obj().Name() {
		case "Seq":
			el := ly.leaves(n.TypeArgs().At(0))
			s := SInt
			if len(el) > 0 {
				s = el[0].sort
			}
			if len(el) == 1 && isByte(n.TypeArgs().At(0)) {
				return []leaf{{"", SStr, nil, lkPlain}}
			}
			return []leaf{{"", seqSort(s), nil, lkPlain}}
		case "GMap", "Set":
			return nil
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, t, lkPlain}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SStr, t, lkPlain}}
		case u.Kind() == types.UntypedNil:
			return []leaf{{"", SInt, nil, lkRef}}
		case u.Kind() == types.UnsafePointer:
			return []leaf{{"", SInt, nil, lkRef}}
		}
		return []leaf{{"", SInt, t, lkPlain}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leaf{{"", SInt, t, lkRef}}
	case *types.Interface:
		return []leaf{{"#tag", SInt, nil, lkTag}, {"#data", SInt, nil, lkData}}
	case *types.Slice:
		return []leaf{{"#arr", SInt, nil, lkArr}, {"#off", SInt, nil, lkOff}, {"#len", SInt, nil, lkLen}, {"#cap", SInt, nil, lkCap}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range ly.leaves(u.Field(i).Type()) {
				l.suffix = "." + u.Field(i).Name() + l.suffix
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []leaf
		n := u.Len()
		if n > maxArray {
			return []leaf{{"", SInt, nil, lkPlain}}
		}
		for i := int64(0); i < n; i++ {
			for _, l := range ly.leaves(u.Elem()) {
				l.suffix = fmt.Sprintf("[%d]%s", i, l.suffix)
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, ly.leaves(u.At(i).Type())...)
		}
		return out
	}
	return []leaf{{"", SInt, nil, lkPlain}}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- symbolic maps

type smKind int

const (
	smBase smKind = iota
	smStore
	smRow   // all keys whose first component equals ref have the value val (or bytes of str)
	smCopy  // range copy between rows
	smHavoc // prev where keep, otherwise base
	smIte
	smSnap  // row ref is the row sArr of src
	smConst // every key has the value val
)

// SymMap is a persistent symbolic map from key tuples to leaf terms.
type SymMap struct {
	id    int
	kind  smKind
	comp  string
	name  string // base UF name
	lf    leaf
	stamp stamp
	prev  *SymMap
	keys  []*Term
	val   *Term
	isStr bool // smRow: val is a string whose bytes are the row
	// smCopy
	cnt, dOff  *Term
	src        *SymMap
	sArr, sOff *Term
	// smHavoc: keep as a function of the first key
	keep  func(key []*Term) *Term
	base  *SymMap
	inner *mod
	// smIte
	cond *Term
	alt  *SymMap
	memo map[string]*Term
}

// State is a symbolic state.
type State struct {
	heap   map[string]*SymMap
	pc     *pcNode
	known  map[*Term]bool
	alloc  *Term
	level  int
	mons   []*monitor
	guards []*guard
	hooks  map[string][]hookEnt
	ghost  map[string]bool
	depth  int
	trail  []string
	dead   bool
}

type pcNode struct {
	parent *pcNode
	t      *Term
	branch bool
	n      int
}

type monitor struct {
	lock    *Term
	acquire *Term
	release *Term
}

type guard struct {
	comps []guardLoc
	rd    *Term // closure
	wr    *Term
	label string
}

type guardLoc struct {
	comp string
	key  *Term
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*SymMap, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.known = make(map[*Term]bool, len(s.known))
	for k, v := range s.known {
		n.known[k] = v
	}
	n.mons = append([]*monitor{}, s.mons...)
	n.guards = append([]*guard{}, s.guards...)
	n.trail = append([]string{}, s.trail...)
	if s.hooks != nil {
		n.hooks = map[string][]hookEnt{}
		for k, v := range s.hooks {
			n.hooks[k] = v
		}
	}
	return &n
}

func (s *State) pcList() []*Term {
	var out []*Term
	for n := s.pc; n != nil; n = n.parent {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) assumeT(s *State, t *Term, branch bool) {
	if t.op == OAnd {
		for _, a := range t.args {
			x.assumeT(s, a, branch)
		}
		return
	}
	if t.isTrue() || s.known[t] {
		return
	}
	if t.isFalse() || s.known[x.tb.Not(t)] {
		s.dead = true
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcNode{parent: s.pc, t: t, branch: branch, n: n}
	s.known[t] = true
	// x != y derived from x+1 <= y etc. is left to the solver.
}

// simp resolves a condition by the known facts.
func (x *Exec) simp(s *State, c *Term) *Term {
	if c.op == OConst {
		return c
	}
	if s.known[c] {
		return x.tb.True
	}
	if s.known[x.tb.Not(c)] {
		return x.tb.Fals
	}
	return c
}

func (x *Exec) newMap(kind smKind, comp string, lf leaf) *SymMap {
	x.mapID++
	return &SymMap{id: x.mapID, kind: kind, comp: comp, lf: lf, memo: map[string]*Term{}}
}

// comp returns the component, creating its initial base.
func (x *Exec) comp(s *State, name string, lf leaf) *SymMap {
	if m, ok := s.heap[name]; ok {
		return m
	}
	if m, ok := x.initHeap[name]; ok {
		s.heap[name] = m
		return m
	}
	if strings.HasPrefix(name, "GG:") || strings.HasPrefix(name, "IV:") || strings.HasPrefix(name, "IS:") {
		m := x.newMap(smConst, name, lf)
		m.val = x.zeroLeaf(lf)
		x.initHeap[name] = m
		s.heap[name] = m
		return m
	}
	m := x.newMap(smBase, name, lf)
	m.name = name + "@0"
	m.stamp = stamp{0, 0}
	x.initHeap[name] = m
	s.heap[name] = m
	x.compLeaf[name] = lf
	return m
}

func keyStr(keys []*Term) string {
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%d,", k.id)
	}
	return b.String()
}

// sel reads the map at keys.
func (x *Exec) sel(s *State, m *SymMap, keys []*Term) *Term {
	switch m.kind {
	case smBase:
		ks := keyStr(keys)
		if t, ok := m.memo[ks]; ok {
			return t
		}
		t := x.tb.UF(m.name, m.lf.sort, keys...)
		x.leafFacts(t, m, keys)
		m.memo[ks] = t
		return t
	case smStore:
		c := x.simp(s, x.eqKeys(m.keys, keys))
		if c.isTrue() {
			return m.val
		}
		if c.isFalse() {
			return x.sel(s, m.prev, keys)
		}
		return x.tb.Ite(c, m.val, x.sel(s, m.prev, keys))
	case smRow:
		c := x.simp(s, x.tb.Eq(m.keys[0], keys[0]))
		var v *Term
		if c.isFalse() {
			return x.sel(s, m.prev, keys)
		}
		if m.isStr {
			v = x.tb.StrByte(m.val, keys[1])
		} else {
			v = m.val
		}
		if c.isTrue() {
			return v
		}
		return x.tb.Ite(c, v, x.sel(s, m.prev, keys))
	case smCopy:
		c := x.simp(s, x.tb.Eq(m.keys[0], keys[0]))
		if c.isFalse() {
			return x.sel(s, m.prev, keys)
		}
		in := x.tb.And(c, x.tb.Le(m.dOff, keys[1]), x.tb.Lt(keys[1], x.tb.Add(m.dOff, m.cnt)))
		if in.isFalse() {
			return x.sel(s, m.prev, keys)
		}
		sv := x.sel(s, m.src, []*Term{m.sArr, x.tb.Add(m.sOff, x.tb.Sub(keys[1], m.dOff))})
		in = x.simp(s, in)
		if in.isTrue() {
			return sv
		}
		return x.tb.Ite(in, sv, x.sel(s, m.prev, keys))
	case smHavoc:
		k := x.simp(s, m.keep(keys))
		if k.isTrue() {
			return x.sel(s, m.prev, keys)
		}
		if k.isFalse() {
			return x.sel(s, m.base, keys)
		}
		return x.tb.Ite(k, x.sel(s, m.prev, keys), x.sel(s, m.base, keys))
	case smConst:
		return m.val
	case smSnap:
		c := x.simp(s, x.tb.Eq(m.keys[0], keys[0]))
		if c.isFalse() {
			return x.sel(s, m.prev, keys)
		}
		v := x.sel(s, m.src, append([]*Term{m.sArr}, keys[1:]...))
		if c.isTrue() {
			return v
		}
		return x.tb.Ite(c, v, x.sel(s, m.prev, keys))
	case smIte:
		return x.tb.Ite(m.cond, x.sel(s, m.prev, keys), x.sel(s, m.alt, keys))
	}
	panic("sel")
}

func (x *Exec) eqKeys(a, b []*Term) *Term {
	var cs []*Term
	for i := range a {
		c := x.tb.Eq(a[i], b[i])
		if c.isFalse() {
			return c
		}
		cs = append(cs, c)
	}
	return x.tb.And(cs...)
}

// leafFacts attaches typing facts to a base read.
func (x *Exec) leafFacts(t *Term, m *SymMap, keys []*Term) {
	if t.hasBV || t.facts != nil {
		return
	}
	st := m.stamp
	sib := func(suffix string) *Term {
		name := strings.Replace(m.name, m.lf.suffixTail()+"@", suffix+"@", 1)
		x.tb.symSeq[name] = x.tb.symSeq[m.name]
		return x.tb.UF(name, SInt, keys...)
	}
	x.typeFacts(t, m.lf, st, sib)
}

func (l leaf) suffixTail() string {
	if i := strings.LastIndexByte(l.suffix, '#'); i >= 0 {
		return l.suffix[i:]
	}
	return ""
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// stampTerm is the allocation counter of a stamp.
func (x *Exec) stampTerm(st stamp) *Term {
	return x.tb.Add(x.bases[st.level], x.tb.Int(st.off))
}

func (x *Exec) typeFacts(t *Term, lf leaf, st stamp, sib func(string) *Term) {
	tb := x.tb
	if t.hasBV || t.op == OConst {
		return
	}
	add := func(f *Term) {
		if !f.isTrue() {
			t.facts = append(t.facts, f)
		}
	}
	switch lf.kind {
	case lkRef, lkArr:
		s2 := st
		t.bound = &s2
		add(tb.Le(tb.Zero, t))
		add(tb.Lt(t, x.stampTerm(st)))
	case lkTag:
		add(tb.Le(tb.Zero, t))
		d := sib("#data")
		add(tb.Imp(tb.Eq(t, tb.Zero), tb.Eq(d, tb.Zero)))
	case lkData:
		s2 := st
		t.bound = &s2
		add(tb.Lt(t, x.stampTerm(st)))
	case lkCap0:
		t.lo, t.hi = new(big.Int), maxLen
		add(tb.Le(tb.Zero, t))
		add(tb.Lt(t, tb.BigInt(maxLen)))
	case lkOff:
		t.lo, t.hi = new(big.Int), maxLen
		add(tb.Le(tb.Zero, t))
		add(tb.Lt(t, tb.BigInt(maxLen)))
	case lkLen:
		t.lo, t.hi = new(big.Int), maxLen
		add(tb.Le(tb.Zero, t))
		add(tb.Le(t, sib("#cap")))
	case lkCap:
		t.lo, t.hi = new(big.Int), maxLen
		add(tb.Le(tb.Zero, t))
		add(tb.Lt(t, tb.BigInt(maxLen)))
		add(tb.Imp(tb.Eq(sib("#arr"), tb.Zero), tb.Eq(t, tb.Zero)))
	case lkPlain:
		if lf.typ == nil {
			return
		}
		if lo, hi, ok := intRange(lf.typ); ok {
			t.lo, t.hi = lo, hi
			add(tb.Le(tb.BigInt(lo), t))
			add(tb.Le(t, tb.BigInt(hi)))
		}
	}
}

// intRange returns the range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32, types.UntypedRune:
		bits = 32
	case types.UntypedInt:
		return nil, nil, false
	}
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), true
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

// put writes the map at keys.
func (x *Exec) put(s *State, comp string, lf leaf, keys []*Term, v *Term) {
	m := x.comp(s, comp, lf)
	// overwrite of the top store with the same keys
	if m.kind == smStore && len(m.keys) == len(keys) {
		same := true
		for i := range keys {
			if keys[i] != m.keys[i] {
				same = false
			}
		}
		if same && m.base == nil && !x.pinned[m] {
			prev := m.prev
			n := x.newMap(smStore, comp, lf)
			n.prev, n.keys, n.val = prev, keys, v
			s.heap[comp] = n
			return
		}
	}
	n := x.newMap(smStore, comp, lf)
	n.prev, n.keys, n.val = m, keys, v
	s.heap[comp] = n
}

// putRow sets a whole row.
func (x *Exec) putRow(s *State, comp string, lf leaf, ref, v *Term, isStr bool) {
	m := x.comp(s, comp, lf)
	n := x.newMap(smRow, comp, lf)
	n.prev, n.keys, n.val, n.isStr = m, []*Term{ref}, v, isStr
	s.heap[comp] = n
}

// newBase creates a fresh base for comp.
func (x *Exec) newBase(s *State, comp string, lf leaf, tag string) *SymMap {
	m := x.newMap(smBase, comp, lf)
	m.name = comp + "@" + tag
	x.tb.symSeq[m.name] = x.tb.fresh
	x.tb.symSeq["seq:"+m.name] = x.tb.fresh
	m.stamp = x.curStamp(s)
	return m
}

func (x *Exec) curStamp(s *State) stamp {
	st, ok := x.tb.allocOf(s.alloc)
	if !ok {
		panic("alloc stamp")
	}
	return st
}

// newRef allocates a fresh reference.
func (x *Exec) newRef(s *State) *Term {
	r := s.alloc
	s.alloc = x.tb.Add(s.alloc, x.tb.One)
	return r
}

// newLevel advances the allocation counter by an unknown amount.
func (x *Exec) newLevel(s *State) {
	b := x.tb.Fresh("N", SInt)
	lv := len(x.bases)
	x.bases = append(x.bases, b)
	x.tb.bases[b] = lv
	b.facts = append(b.facts, x.tb.Le(s.alloc, b))
	s.alloc = b
}

// seqOf is the sequence view of a row segment.
func (x *Exec) seqOf(s *State, m *SymMap, arr, off, n *Term) *Term {
	tb := x.tb
	isB := m.lf.typ != nil && isByte(m.lf.typ)
	srt := seqSort(m.lf.sort)
	if isB {
		srt = SStr
	}
	empty := func() *Term {
		if isB {
			return tb.Str("")
		}
		return tb.SeqEmpty(srt)
	}
	cat := func(xs ...*Term) *Term {
		if isB {
			return tb.Concat(xs...)
		}
		return tb.SeqConcat(srt, xs...)
	}
	slen := func(a *Term) *Term {
		if isB {
			return tb.StrLen(a)
		}
		return tb.SeqLen(a)
	}
	unit := func(v *Term) *Term {
		if isB {
			if n, ok := v.intVal(); ok {
				return tb.Str(string([]byte{byte(n)}))
			}
			return tb.App("str.from_code", SStr, v)
		}
		return tb.SeqUnit(v)
	}
	extract := func(a, lo, n *Term) *Term {
		if isB {
			return tb.Substr(a, lo, tb.Add(lo, n))
		}
		return tb.SeqExtract(a, lo, n)
	}
	opaque := func(name string) *Term {
		if strings.HasPrefix(name, "copy:") || strings.HasPrefix(name, "row:") {
			tb.symSeq[name] = tb.fresh
		}
		t := tb.UF(name, srt, arr, off, n)
		if t.facts == nil && !t.hasBV {
			t.facts = append(t.facts, tb.Imp(tb.Le(tb.Zero, n), tb.Eq(slen(t), n)))
			// a one-element or shorter description helps nothing; the first
			// and last elements are connected lazily by element reads.
		}
		return t
	}
	if n.isZero() {
		return empty()
	}
	switch m.kind {
	case smBase:
		return opaque("seq:" + m.name)
	case smStore:
		c := x.simp(s, tb.Eq(m.keys[0], arr))
		if c.isFalse() {
			return x.seqOf(s, m.prev, arr, off, n)
		}
		i := m.keys[1]
		rel := tb.Sub(i, off)
		var upd *Term
		if tb.Sub(tb.Add(rel, tb.One), n).isZero() {
			upd = cat(x.seqOf(s, m.prev, arr, off, tb.Sub(n, tb.One)), unit(m.val))
		} else if v, ok := rel.intVal(); ok && v < 0 {
			return x.seqOf(s, m.prev, arr, off, n)
		} else if v, ok := tb.Sub(rel, n).intVal(); ok && v >= 0 {
			return x.seqOf(s, m.prev, arr, off, n)
		} else {
			p := x.seqOf(s, m.prev, arr, off, n)
			in := tb.And(tb.Le(tb.Zero, rel), tb.Lt(rel, n))
			upd = tb.Ite(x.simp(s, in), cat(extract(p, tb.Zero, rel), unit(m.val), extract(p, tb.Add(rel, tb.One), tb.Sub(tb.Sub(n, rel), tb.One))), p)
		}
		if c.isTrue() {
			return upd
		}
		return tb.Ite(c, upd, x.seqOf(s, m.prev, arr, off, n))
	case smRow:
		c := x.simp(s, tb.Eq(m.keys[0], arr))
		if c.isFalse() {
			return x.seqOf(s, m.prev, arr, off, n)
		}
		var v *Term
		if m.isStr {
			v = tb.Substr(m.val, off, tb.Add(off, n))
		} else {
			v = opaque(fmt.Sprintf("row:%s:%d", m.comp, m.val.id))
		}
		if c.isTrue() {
			return v
		}
		return tb.Ite(c, v, x.seqOf(s, m.prev, arr, off, n))
	case smCopy:
		c := x.simp(s, tb.Eq(m.keys[0], arr))
		if c.isFalse() {
			return x.seqOf(s, m.prev, arr, off, n)
		}
		var v *Term
		d := tb.Sub(m.dOff, off) // start of the copied block relative to the segment
		dEnd := tb.Sub(tb.Add(d, m.cnt), n)
		switch {
		case d.isZero() && dEnd.isZero():
			v = x.seqOf(s, m.src, m.sArr, m.sOff, n)
		case d.isZero() && constNeg(dEnd):
			v = cat(x.seqOf(s, m.src, m.sArr, m.sOff, m.cnt), x.seqOf(s, m.prev, arr, tb.Add(off, m.cnt), tb.Sub(n, m.cnt)))
		case d.isZero() && constPos(dEnd):
			v = x.seqOf(s, m.src, m.sArr, m.sOff, n)
		case dEnd.isZero():
			v = cat(x.seqOf(s, m.prev, arr, off, d), x.seqOf(s, m.src, m.sArr, m.sOff, m.cnt))
		case constNonNeg(tb.Sub(d, n)):
			return x.seqOf(s, m.prev, arr, off, n)
		default:
			v = opaque(fmt.Sprintf("copy:%d", m.id))
		}
		if c.isTrue() {
			return v
		}
		return tb.Ite(c, v, x.seqOf(s, m.prev, arr, off, n))
	case smHavoc:
		k := x.simp(s, m.keep([]*Term{arr, off}))
		if k.isTrue() {
			return x.seqOf(s, m.prev, arr, off, n)
		}
		b := x.seqOf(s, m.base, arr, off, n)
		if k.isFalse() {
			return b
		}
		return tb.Ite(k, x.seqOf(s, m.prev, arr, off, n), b)
	case smConst:
		return opaque("seq:const:" + m.comp)
	case smIte:
		return tb.Ite(m.cond, x.seqOf(s, m.prev, arr, off, n), x.seqOf(s, m.alt, arr, off, n))
	}
	panic("seqOf")
}

func constNeg(t *Term) bool    { return t.op == OConst && t.ival.Sign() < 0 }
func constPos(t *Term) bool    { return t.op == OConst && t.ival.Sign() > 0 }
func constNonNeg(t *Term) bool { return t.op == OConst && t.ival.Sign() >= 0 }

type hookEnt struct {
	obj *Term
	clo *Term
}

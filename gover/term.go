package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort.
type Sort int

const (
	SBool Sort = iota
	SInt
	SStr
	SSeqInt
	SSeqStr
)

func (s Sort) smt() string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SStr:
		return "String"
	case SSeqInt:
		return "(Seq Int)"
	case SSeqStr:
		return "(Seq String)"
	}
	panic("sort")
}

// Op is a term operator.
type Op int

const (
	OConst Op = iota // literal: bool/int/string
	OVar             // bound variable
	OUF              // uninterpreted function application (name)
	OLin             // linear combination: c + sum coef_i * arg_i (coefs)
	OMul             // nonlinear product
	OAnd
	OOr
	ONot
	OIte
	OEq
	OLe // arg0 >= 0   (arg0 is a linear term): (>= arg0 0)
	OQuant
	OApp // interpreted SMT function with name
)

// Term is a hash-consed term.
type Term struct {
	id    int
	op    Op
	sort  Sort
	name  string // UF/var/interpreted function name, or string constant
	ival  *big.Int
	bval  bool
	args  []*Term
	coefs []*big.Int // OLin
	bvs   []*Term    // OQuant: bound vars; name: forall/exists

	hasBV  bool
	fn     any // extra executor information for closures, addresses, boxes
	facts  []*Term
	bound  *stamp // references: strictly below this allocation stamp
	nonnil bool   // references: known non-nil (structured addresses)
	lo, hi *big.Int
	seq    int // newest fresh symbol mentioned
}

type stamp struct {
	level int
	off   int64
}

func (a stamp) le(b stamp) bool {
	if a.level != b.level {
		return a.level < b.level
	}
	return a.off <= b.off
}

// TB is a term table.
type TB struct {
	tab  map[string]*Term
	n    int
	True *Term
	Fals *Term
	Zero *Term
	One  *Term
	// allocation bases: term -> level
	bases   map[*Term]int
	fresh   int
	ufs     map[string]ufsig
	symSeq  map[string]int
	bvcount int
	skolems map[*Term][]*Term
	strIDs  map[string]int64
	opaque  map[*Term]*Term
}

type ufsig struct {
	args []Sort
	res  Sort
}

func newTB() *TB {
	tb := &TB{tab: map[string]*Term{}, bases: map[*Term]int{}, ufs: map[string]ufsig{}, symSeq: map[string]int{}}
	tb.True = tb.mk(&Term{op: OConst, sort: SBool, bval: true})
	tb.Fals = tb.mk(&Term{op: OConst, sort: SBool, bval: false})
	tb.Zero = tb.Int(0)
	tb.One = tb.Int(1)
	return tb
}

func (tb *TB) key(t *Term) string {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(int(t.sort)))
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	if t.ival != nil {
		b.WriteString(t.ival.String())
	}
	if t.bval {
		b.WriteByte('T')
	}
	for _, a := range t.bvs {
		b.WriteByte('%')
		b.WriteString(strconv.Itoa(a.id))
	}
	for i, a := range t.args {
		b.WriteByte(',')
		if t.coefs != nil {
			b.WriteString(t.coefs[i].String())
			b.WriteByte('*')
		}
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

func (tb *TB) mk(t *Term) *Term {
	k := tb.key(t)
	if o, ok := tb.tab[k]; ok {
		return o
	}
	tb.n++
	t.id = tb.n
	if t.op == OVar {
		t.hasBV = true
	}
	if t.op == OUF {
		t.seq = tb.symSeq[t.name]
	}
	for _, a := range t.args {
		if a.hasBV {
			t.hasBV = true
		}
		if a.seq > t.seq {
			t.seq = a.seq
		}
	}
	if t.op == OQuant {
		// Nested quantifiers keep hasBV if other bound variables remain.
		t.hasBV = len(tb.freeBVs(t)) > 0
	}
	tb.tab[k] = t
	return t
}

func (tb *TB) freeBVs(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.hasBV && t.op != OQuant || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			out[t] = true
			return
		}
		if t.op == OQuant {
			sub := tb.freeBVs(t.args[0])
			for _, b := range t.bvs {
				delete(sub, b)
			}
			for k := range sub {
				out[k] = true
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	if t.op == OQuant {
		sub := tb.freeBVs(t.args[0])
		for _, b := range t.bvs {
			delete(sub, b)
		}
		return sub
	}
	walk(t)
	return out
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.Fals
}

func (tb *TB) Int(n int64) *Term { return tb.BigInt(big.NewInt(n)) }

func (tb *TB) BigInt(n *big.Int) *Term {
	return tb.mk(&Term{op: OConst, sort: SInt, ival: n})
}

func (tb *TB) Str(s string) *Term {
	return tb.mk(&Term{op: OConst, sort: SStr, name: s})
}

// UF applies an uninterpreted function.
func (tb *TB) UF(name string, res Sort, args ...*Term) *Term {
	if _, ok := tb.ufs[name]; !ok {
		sig := ufsig{res: res}
		for _, a := range args {
			sig.args = append(sig.args, a.sort)
		}
		tb.ufs[name] = sig
	} else {
		sig := tb.ufs[name]
		bad := sig.res != res || len(sig.args) != len(args)
		if !bad {
			for i, a := range args {
				if a.sort != sig.args[i] {
					bad = true
				}
			}
		}
		if bad {
			// Overloaded by signature.
			nm := name + "~" + strconv.Itoa(int(res))
			for _, a := range args {
				nm += strconv.Itoa(int(a.sort))
			}
			tb.symSeq[nm] = tb.symSeq[name]
			return tb.UF(nm, res, args...)
		}
	}
	return tb.mk(&Term{op: OUF, sort: res, name: name, args: args})
}

// Fresh returns a fresh constant.
func (tb *TB) Fresh(prefix string, s Sort) *Term {
	tb.fresh++
	n := prefix + "!" + strconv.Itoa(tb.fresh)
	tb.symSeq[n] = tb.fresh
	return tb.UF(n, s)
}

// BV returns a fresh bound variable.
func (tb *TB) BV(s Sort) *Term {
	tb.bvcount++
	return tb.mk(&Term{op: OVar, sort: s, name: "bv" + strconv.Itoa(tb.bvcount)})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.bval }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && !t.bval }
func (t *Term) isZero() bool  { return t.op == OConst && t.sort == SInt && t.ival.Sign() == 0 }

func (t *Term) intVal() (int64, bool) {
	if t.op == OConst && t.sort == SInt && t.ival.IsInt64() {
		return t.ival.Int64(), true
	}
	return 0, false
}

// ---- boolean connectives

func (tb *TB) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return tb.Fals
	case a.isFalse():
		return tb.True
	case a.op == ONot:
		return a.args[0]
	case a.op == OLe:
		// not (x >= 0)  <=>  -x - 1 >= 0
		return tb.ge0(tb.Sub(tb.Neg(a.args[0]), tb.One))
	}
	return tb.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (tb *TB) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.isTrue() {
			return true
		}
		if x.isFalse() {
			return false
		}
		if x.op == OAnd {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[tb.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tb.Fals
		}
	}
	switch len(out) {
	case 0:
		return tb.True
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return tb.mk(&Term{op: OAnd, sort: SBool, args: out})
}

func (tb *TB) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.isFalse() {
			return true
		}
		if x.isTrue() {
			return false
		}
		if x.op == OOr {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[tb.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tb.True
		}
	}
	switch len(out) {
	case 0:
		return tb.Fals
	case 1:
		return out[0]
	}
	// absorption: (and a b) or a = a; (and (not a) b) or a = b or a
	for i, x := range out {
		if x.op == OAnd {
			var rest []*Term
			ch, gone := false, false
			for _, y := range x.args {
				if seen[y] {
					gone = true
					ch = true
					goto absorbed
				}
				if seen[tb.Not(y)] {
					ch = true
					continue
				}
				rest = append(rest, y)
			}
		absorbed:
			if ch {
				var n []*Term
				n = append(n, out[:i]...)
				n = append(n, out[i+1:]...)
				if !gone {
					n = append(n, tb.And(rest...)) // true if nothing is left
				}
				return tb.Or(n...)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return tb.mk(&Term{op: OOr, sort: SBool, args: out})
}

func (tb *TB) Imp(a, b *Term) *Term { return tb.Or(tb.Not(a), b) }

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %v %v", a, b))
	}
	if a.sort == SBool {
		if a.isTrue() {
			return tb.Or(c, b)
		}
		if a.isFalse() {
			return tb.And(tb.Not(c), b)
		}
		if b.isTrue() {
			return tb.Or(tb.Not(c), a)
		}
		if b.isFalse() {
			return tb.And(c, a)
		}
	}
	if c.op == ONot {
		return tb.Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.args[1] == a {
		return tb.Ite(tb.Or(c, b.args[0]), a, b.args[2])
	}
	t := tb.mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
	if t.bound == nil && a.bound != nil && b.bound != nil {
		m := *a.bound
		if m.le(*b.bound) {
			m = *b.bound
		}
		t.bound = &m
	}
	return t
}

// ---- integers

type linear struct {
	c     *big.Int
	terms map[*Term]*big.Int
}

func (tb *TB) toLin(t *Term) linear {
	l := linear{c: new(big.Int), terms: map[*Term]*big.Int{}}
	switch {
	case t.op == OConst:
		l.c.Set(t.ival)
	case t.op == OLin:
		l.c.Set(t.ival)
		for i, a := range t.args {
			l.terms[a] = new(big.Int).Set(t.coefs[i])
		}
	default:
		l.terms[t] = big.NewInt(1)
	}
	return l
}

func (tb *TB) fromLin(l linear) *Term {
	var ts []*Term
	for t, c := range l.terms {
		if c.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return tb.BigInt(l.c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.c.Sign() == 0 && l.terms[ts[0]].Cmp(big.NewInt(1)) == 0 {
		return ts[0]
	}
	var cs []*big.Int
	for _, t := range ts {
		cs = append(cs, l.terms[t])
	}
	return tb.mk(&Term{op: OLin, sort: SInt, ival: new(big.Int).Set(l.c), args: ts, coefs: cs})
}

func (tb *TB) addScaled(l linear, t *Term, k *big.Int) {
	m := tb.toLin(t)
	l.c.Add(l.c, new(big.Int).Mul(m.c, k))
	for x, c := range m.terms {
		d := new(big.Int).Mul(c, k)
		if o, ok := l.terms[x]; ok {
			o.Add(o, d)
		} else {
			l.terms[x] = d
		}
	}
}

func (tb *TB) Add(xs ...*Term) *Term {
	l := linear{c: new(big.Int), terms: map[*Term]*big.Int{}}
	for _, x := range xs {
		tb.addScaled(l, x, big.NewInt(1))
	}
	return tb.fromLin(l)
}

func (tb *TB) Sub(a, b *Term) *Term {
	l := linear{c: new(big.Int), terms: map[*Term]*big.Int{}}
	tb.addScaled(l, a, big.NewInt(1))
	tb.addScaled(l, b, big.NewInt(-1))
	return tb.fromLin(l)
}

func (tb *TB) Neg(a *Term) *Term { return tb.Sub(tb.Zero, a) }

func (tb *TB) Mul(a, b *Term) *Term {
	if b.op == OConst {
		a, b = b, a
	}
	if a.op == OConst {
		l := linear{c: new(big.Int), terms: map[*Term]*big.Int{}}
		tb.addScaled(l, b, a.ival)
		return tb.fromLin(l)
	}
	// pull constants out of linear factors with a single term
	var fs []*Term
	k := big.NewInt(1)
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == OMul {
			for _, x := range t.args {
				flat(x)
			}
			return
		}
		if t.op == OLin && len(t.args) == 1 && t.ival.Sign() == 0 {
			k = new(big.Int).Mul(k, t.coefs[0])
			flat(t.args[0])
			return
		}
		fs = append(fs, t)
	}
	flat(a)
	flat(b)
	// distribute over linear sums
	for i, f := range fs {
		if f.op == OLin {
			rest := tb.BigInt(k)
			for j, g := range fs {
				if j != i {
					rest = tb.Mul(rest, g)
				}
			}
			sum := tb.Mul(tb.BigInt(f.ival), rest)
			for j, x := range f.args {
				sum = tb.Add(sum, tb.Mul(tb.BigInt(f.coefs[j]), tb.Mul(x, rest)))
			}
			return sum
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	m := tb.mk(&Term{op: OMul, sort: SInt, args: fs})
	if k.Cmp(big.NewInt(1)) == 0 {
		return m
	}
	return tb.Mul(tb.BigInt(k), m)
}

// ge0 is (t >= 0).
func (tb *TB) ge0(t *Term) *Term {
	if t.sort != SInt {
		panic(fmt.Sprintf("comparison of %v %s", t.sort, t))
	}
	if t.op == OIte && (t.args[1].sort != SInt || t.args[2].sort != SInt) {
		panic("ill-sorted ite " + t.String())
	}
	if t.op == OConst {
		return tb.Bool(t.ival.Sign() >= 0)
	}
	if t.op == OLin {
		// normalise by gcd
		g := new(big.Int)
		for _, c := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			l := linear{c: new(big.Int), terms: map[*Term]*big.Int{}}
			// floor division of the constant
			l.c.Div(t.ival, g) // Euclidean == floor for positive g
			for i, a := range t.args {
				l.terms[a] = new(big.Int).Quo(t.coefs[i], g)
			}
			t = tb.fromLin(l)
			if t.op != OLin {
				return tb.ge0(t)
			}
		}
		// length-like terms are non-negative: all coefs > 0, const >= 0
		ok := t.ival.Sign() >= 0
		for i, a := range t.args {
			if t.coefs[i].Sign() < 0 || !nonneg(a) {
				ok = false
			}
		}
		if ok {
			return tb.True
		}
	} else if nonneg(t) {
		return tb.True
	}
	if t.op == OIte {
		return tb.Ite(t.args[0], tb.ge0(t.args[1]), tb.ge0(t.args[2]))
	}
	return tb.mk(&Term{op: OLe, sort: SBool, args: []*Term{t}})
}

func nonneg(t *Term) bool {
	if t.op == OApp && (t.name == "str.len" || t.name == "seq.len") {
		return true
	}
	if t.op == OConst && t.sort == SInt {
		return t.ival.Sign() >= 0
	}
	return false
}

func (tb *TB) Le(a, b *Term) *Term { return tb.ge0(tb.Sub(b, a)) }
func (tb *TB) Lt(a, b *Term) *Term { return tb.ge0(tb.Sub(tb.Sub(b, a), tb.One)) }

// refOf decomposes a term as allocation base + offset.
func (tb *TB) allocOf(t *Term) (stamp, bool) {
	if lv, ok := tb.bases[t]; ok {
		return stamp{lv, 0}, true
	}
	if t.op == OLin && len(t.args) == 1 && t.coefs[0].Cmp(big.NewInt(1)) == 0 && t.ival.IsInt64() {
		if lv, ok := tb.bases[t.args[0]]; ok {
			return stamp{lv, t.ival.Int64()}, true
		}
	}
	return stamp{}, false
}

// Eq builds an equality.
func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch: %s (%v) vs %s (%v)", a, a.sort, b, b.sort))
	}
	switch a.sort {
	case SBool:
		if a.op == OConst {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tb.Not(a)
		}
		if tb.Not(a) == b {
			return tb.Fals
		}
	case SInt:
		d := tb.Sub(a, b)
		if d.op == OConst {
			return tb.Bool(d.ival.Sign() == 0)
		}
		// allocation reasoning
		if sa, ok := tb.allocOf(a); ok {
			if b.op == OConst && b.ival.Sign() <= 0 {
				return tb.Fals
			}
			if b.bound != nil && b.bound.le(sa) {
				return tb.Fals
			}
			if sb, ok := tb.allocOf(b); ok && sa.level != sb.level {
				// the lower-level object was allocated before the higher base
				// (or belongs to the earlier segment), hence distinct.
				return tb.Fals
			}
			if b.nonnil {
				return tb.Fals
			}
		} else if _, ok := tb.allocOf(b); ok {
			return tb.Eq(b, a)
		}
		// structured addresses
		if a.nonnil && b.op == OConst || b.nonnil && a.op == OConst {
			return tb.Fals
		}
		if a.nonnil && b.nonnil && a.op == OUF && b.op == OUF {
			if a.name != b.name {
				return tb.Fals
			}
			var cs []*Term
			for i := range a.args {
				cs = append(cs, tb.Eq(a.args[i], b.args[i]))
			}
			return tb.And(cs...)
		}
		if a.op == OUF && b.op == OUF && a.name == b.name && strings.HasPrefix(a.name, "box!") {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, tb.Eq(a.args[i], b.args[i]))
			}
			return tb.And(cs...)
		}
		for i, x := range [2]*Term{a, b} {
			y := [2]*Term{b, a}[i]
			if x.op == OIte && (y.op == OConst || x.args[1] == y || x.args[2] == y || x.args[1].isConst() || x.args[2].isConst() || y.nonnil) {
				return tb.Ite(x.args[0], tb.Eq(x.args[1], y), tb.Eq(x.args[2], y))
			}
		}
	case SStr, SSeqInt, SSeqStr:
		if a.op == OConst && b.op == OConst {
			return tb.Bool(a.name == b.name)
		}
		for i, x := range [2]*Term{a, b} {
			y := [2]*Term{b, a}[i]
			if x.op == OIte && (y.op == OConst || x.args[1].isConst() && x.args[2].isConst() || x.args[1] == y || x.args[2] == y) {
				return tb.Ite(x.args[0], tb.Eq(x.args[1], y), tb.Eq(x.args[2], y))
			}
		}
		if a.op == OApp && b.op == OApp && a.name == b.name && (a.name == "str.++" || a.name == "seq.++") && len(a.args) == len(b.args) {
			// common prefix
			if a.args[0] == b.args[0] {
				return tb.Eq(tb.rest(a), tb.rest(b))
			}
			n := len(a.args) - 1
			if a.args[n] == b.args[n] {
				return tb.Eq(tb.front(a), tb.front(b))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func (tb *TB) rest(t *Term) *Term {
	if t.sort == SStr {
		return tb.Concat(t.args[1:]...)
	}
	return tb.SeqConcat(t.sort, t.args[1:]...)
}
func (tb *TB) front(t *Term) *Term {
	if t.sort == SStr {
		return tb.Concat(t.args[:len(t.args)-1]...)
	}
	return tb.SeqConcat(t.sort, t.args[:len(t.args)-1]...)
}

// App builds an interpreted application, without simplification.
func (tb *TB) App(name string, s Sort, args ...*Term) *Term {
	return tb.mk(&Term{op: OApp, sort: s, name: name, args: args})
}

// Div and Mod are SMT (Euclidean) division for a known positive divisor and
// Go's truncated semantics are built on top of them by the executor.
func (tb *TB) Div(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.ival.Sign() != 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return tb.BigInt(q)
	}
	if b.op == OConst && b.ival.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return tb.App("div", SInt, a, b)
}

func (tb *TB) Mod(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.ival.Sign() != 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return tb.BigInt(m)
	}
	return tb.App("mod", SInt, a, b)
}

// ---- strings (bytes are characters 0..255)

func (tb *TB) Concat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		ys := []*Term{x}
		if x.op == OApp && x.name == "str.++" {
			ys = x.args
		}
		for _, y := range ys {
			if y.op == OConst && y.name == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].op == OConst && y.op == OConst {
				out[n-1] = tb.Str(out[n-1].name + y.name)
				continue
			}
			out = append(out, y)
		}
	}
	switch len(out) {
	case 0:
		return tb.Str("")
	case 1:
		return out[0]
	}
	return tb.App("str.++", SStr, out...)
}

func (tb *TB) StrLen(a *Term) *Term {
	if a.op == OConst {
		return tb.Int(int64(len(a.name)))
	}
	if a.op == OApp && a.name == "str.++" {
		var ls []*Term
		for _, x := range a.args {
			ls = append(ls, tb.StrLen(x))
		}
		return tb.Add(ls...)
	}
	if a.op == OIte {
		return tb.Ite(a.args[0], tb.StrLen(a.args[1]), tb.StrLen(a.args[2]))
	}
	return tb.App("str.len", SInt, a)
}

// StrByte is the byte at index i (in range).
func (tb *TB) StrByte(a, i *Term) *Term {
	if n, ok := i.intVal(); ok && a.op == OConst && n >= 0 && n < int64(len(a.name)) {
		return tb.Int(int64(a.name[n]))
	}
	if n, ok := i.intVal(); ok && a.op == OApp && a.name == "str.++" && a.args[0].op == OConst && n < int64(len(a.args[0].name)) && n >= 0 {
		return tb.Int(int64(a.args[0].name[n]))
	}
	if a.op == OIte {
		return tb.Ite(a.args[0], tb.StrByte(a.args[1], i), tb.StrByte(a.args[2], i))
	}
	return tb.App("str.to_code", SInt, tb.App("str.at", SStr, a, i))
}

// Substr is a[lo:hi] for in-range bounds.
func (tb *TB) Substr(a, lo, hi *Term) *Term {
	if lo.isZero() && hi == tb.StrLen(a) {
		return a
	}
	if lo == hi {
		return tb.Str("")
	}
	l, ok1 := lo.intVal()
	h, ok2 := hi.intVal()
	if a.op == OConst && ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(a.name)) {
		return tb.Str(a.name[l:h])
	}
	if a.op == OApp && a.name == "str.++" && hi == tb.StrLen(a) && a.args[0].op == OConst && ok1 && l <= int64(len(a.args[0].name)) {
		return tb.Concat(append([]*Term{tb.Str(a.args[0].name[l:])}, a.args[1:]...)...)
	}
	return tb.App("str.substr", SStr, a, lo, tb.Sub(hi, lo))
}

func (tb *TB) StrIndexOf(a, sub, from *Term) *Term {
	if a.op == OConst && sub.op == OConst && from.isZero() {
		return tb.Int(int64(strings.Index(a.name, sub.name)))
	}
	return tb.App("str.indexof", SInt, a, sub, from)
}

func (tb *TB) StrPred(name string, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		switch name {
		case "str.prefixof":
			return tb.Bool(strings.HasPrefix(b.name, a.name))
		case "str.suffixof":
			return tb.Bool(strings.HasSuffix(b.name, a.name))
		case "str.contains":
			return tb.Bool(strings.Contains(a.name, b.name))
		case "str.<":
			return tb.Bool(a.name < b.name)
		case "str.<=":
			return tb.Bool(a.name <= b.name)
		}
	}
	if name == "str.prefixof" && a.op == OConst && b.op == OApp && b.name == "str.++" && b.args[0].op == OConst && len(b.args[0].name) >= len(a.name) {
		return tb.Bool(strings.HasPrefix(b.args[0].name, a.name))
	}
	return tb.App(name, SBool, a, b)
}

// ---- sequences

func (tb *TB) SeqEmpty(s Sort) *Term { return tb.App("seq.empty", s) }

func seqSort(el Sort) Sort {
	if el == SStr {
		return SSeqStr
	}
	return SSeqInt
}

func elSort(s Sort) Sort {
	if s == SSeqStr {
		return SStr
	}
	return SInt
}

func (tb *TB) SeqUnit(x *Term) *Term { return tb.App("seq.unit", seqSort(x.sort), x) }

func (tb *TB) SeqConcat(s Sort, xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.op == OApp && x.name == "seq.++" {
			out = append(out, x.args...)
		} else if x.op == OApp && x.name == "seq.empty" {
			continue
		} else {
			out = append(out, x)
		}
	}
	switch len(out) {
	case 0:
		return tb.SeqEmpty(s)
	case 1:
		return out[0]
	}
	return tb.App("seq.++", s, out...)
}

func (tb *TB) SeqLen(a *Term) *Term {
	if a.op == OApp {
		switch a.name {
		case "seq.empty":
			return tb.Zero
		case "seq.unit":
			return tb.One
		case "seq.++":
			var ls []*Term
			for _, x := range a.args {
				ls = append(ls, tb.SeqLen(x))
			}
			return tb.Add(ls...)
		}
	}
	return tb.App("seq.len", SInt, a)
}

func (tb *TB) SeqNth(a, i *Term) *Term {
	if a.op == OApp && a.name == "seq.unit" && i.isZero() {
		return a.args[0]
	}
	if a.op == OApp && a.name == "seq.++" {
		// walk constant-length prefix
		off := tb.Zero
		for _, x := range a.args {
			l := tb.SeqLen(x)
			if x.op == OApp && x.name == "seq.unit" && tb.Sub(i, off).isZero() {
				return x.args[0]
			}
			off = tb.Add(off, l)
		}
	}
	return tb.App("seq.nth", elSort(a.sort), a, i)
}

func (tb *TB) SeqExtract(a, lo, n *Term) *Term {
	if lo.isZero() && n == tb.SeqLen(a) {
		return a
	}
	if n.isZero() {
		return tb.SeqEmpty(a.sort)
	}
	return tb.App("seq.extract", a.sort, a, lo, n)
}

// Quant builds a quantified formula.
func (tb *TB) Quant(kind string, bvs []*Term, body *Term) *Term {
	if body.op == OConst {
		return body
	}
	used := tb.freeBVs(body)
	var keep []*Term
	for _, b := range bvs {
		if used[b] {
			keep = append(keep, b)
		}
	}
	if len(keep) == 0 {
		return body
	}
	return tb.mk(&Term{op: OQuant, sort: SBool, name: kind, bvs: keep, args: []*Term{body}})
}

// Subst replaces terms.
func (tb *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = walk(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = tb.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

func (tb *TB) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OUF:
		r := tb.UF(t.name, t.sort, args...)
		if r.fn == nil {
			r.fn = t.fn
			r.nonnil = t.nonnil
		}
		return r
	case OLin:
		l := linear{c: new(big.Int).Set(t.ival), terms: map[*Term]*big.Int{}}
		for i, a := range args {
			tb.addScaled(l, a, t.coefs[i])
		}
		return tb.fromLin(l)
	case OMul:
		r := args[0]
		for _, a := range args[1:] {
			r = tb.Mul(r, a)
		}
		return r
	case OAnd:
		return tb.And(args...)
	case OOr:
		return tb.Or(args...)
	case ONot:
		return tb.Not(args[0])
	case OIte:
		return tb.Ite(args[0], args[1], args[2])
	case OEq:
		return tb.Eq(args[0], args[1])
	case OLe:
		return tb.ge0(args[0])
	case OQuant:
		return tb.Quant(t.name, t.bvs, args[0])
	case OApp:
		switch t.name {
		case "str.++":
			return tb.Concat(args...)
		case "str.len":
			return tb.StrLen(args[0])
		case "seq.++":
			return tb.SeqConcat(t.sort, args...)
		case "seq.len":
			return tb.SeqLen(args[0])
		case "seq.nth":
			return tb.SeqNth(args[0], args[1])
		case "div":
			return tb.Div(args[0], args[1])
		case "mod":
			return tb.Mod(args[0], args[1])
		}
		return tb.App(t.name, t.sort, args...)
	}
	panic("rebuild")
}

// ---- printing

func smtName(n string) string {
	ok := true
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_!.~$-+*/<>", r)) {
			ok = false
		}
	}
	if ok && n != "" && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|"
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c >= 32 && c < 127 && c != '\\':
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, `\u{%x}`, c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, nil, 0)
	return b.String()
}

// write prints the term, using names for shared subterms.
func (t *Term) write(b *strings.Builder, names map[*Term]string, depth int) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	if depth > 4000 {
		b.WriteString("...")
		return
	}
	app := func(fn string, args []*Term) {
		b.WriteByte('(')
		b.WriteString(fn)
		for _, a := range args {
			b.WriteByte(' ')
			a.write(b, names, depth+1)
		}
		b.WriteByte(')')
	}
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			fmt.Fprintf(b, "%v", t.bval)
		case SInt:
			b.WriteString(smtInt(t.ival))
		case SStr:
			b.WriteString(smtStr(t.name))
		}
	case OVar:
		b.WriteString(t.name)
	case OUF:
		if len(t.args) == 0 {
			b.WriteString(smtName(t.name))
		} else {
			app(smtName(t.name), t.args)
		}
	case OLin:
		b.WriteString("(+")
		if t.ival.Sign() != 0 {
			b.WriteByte(' ')
			b.WriteString(smtInt(t.ival))
		} else if len(t.args) == 1 {
			b.WriteString(" 0")
		}
		for i, a := range t.args {
			b.WriteByte(' ')
			if t.coefs[i].Cmp(big.NewInt(1)) == 0 {
				a.write(b, names, depth+1)
			} else {
				b.WriteString("(* ")
				b.WriteString(smtInt(t.coefs[i]))
				b.WriteByte(' ')
				a.write(b, names, depth+1)
				b.WriteByte(')')
			}
		}
		b.WriteByte(')')
	case OMul:
		app("*", t.args)
	case OAnd:
		app("and", t.args)
	case OOr:
		app("or", t.args)
	case ONot:
		app("not", t.args)
	case OIte:
		app("ite", t.args)
	case OEq:
		app("=", t.args)
	case OLe:
		b.WriteString("(>= ")
		t.args[0].write(b, names, depth+1)
		b.WriteString(" 0)")
	case OQuant:
		b.WriteString("(" + t.name + " (")
		for _, v := range t.bvs {
			b.WriteString("(" + v.name + " " + v.sort.smt() + ")")
		}
		b.WriteString(") ")
		t.args[0].write(b, names, depth+1)
		b.WriteByte(')')
	case OApp:
		if t.name == "seq.empty" {
			b.WriteString("(as seq.empty " + t.sort.smt() + ")")
		} else {
			app(t.name, t.args)
		}
	}
}

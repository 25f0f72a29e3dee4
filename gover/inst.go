package main

import (
	"math/big"
	"strings"
)

// fullMark separates the query in which quantified formulas are opaque
// (their instances are stated) from the full one.
const fullMark = "\n;;;FULL\n"

// quants are the closed quantified subformulas.
func quants(roots []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OQuant {
			if !t.hasBV {
				out = append(out, t)
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return out
}

// appHead names the function of an application usable as a trigger.
func appHead(t *Term) string {
	switch {
	case t.op == OUF && len(t.args) > 0:
		n := t.name
		if i := strings.IndexByte(n, '@'); i > 0 && !strings.HasPrefix(n, "seq:") && !strings.HasPrefix(n, "row:") {
			n = n[:i]
		}
		return n
	case t.op == OApp && t.name == "seq.nth":
		return "seq.nth"
	case t.op == OApp && (t.name == "str.substr" || t.name == "str.at"):
		return "str.at"
	}
	return ""
}

// solveFor gives the value of bv for which pat equals g.
func (tb *TB) solveFor(pat, bv, g *Term) *Term {
	if pat == bv {
		return g
	}
	if pat.op != OLin {
		return nil
	}
	rest := tb.Zero
	sign := 0
	for i, a := range pat.args {
		if a == bv {
			switch {
			case pat.coefs[i].Cmp(big.NewInt(1)) == 0:
				sign = 1
			case pat.coefs[i].Cmp(big.NewInt(-1)) == 0:
				sign = -1
			default:
				return nil
			}
			continue
		}
		if a.hasBV {
			return nil
		}
		rest = tb.Add(rest, tb.Mul(tb.BigInt(pat.coefs[i]), a))
	}
	if sign == 0 {
		return nil
	}
	rest = tb.Add(rest, tb.BigInt(pat.ival))
	d := tb.Sub(g, rest)
	if sign < 0 {
		d = tb.Neg(d)
	}
	return d
}

// instances are valid lemmas about the quantified formulas: instances at
// terms their bodies' patterns match, and Skolem axioms. Both only help the
// solvers; they hold whatever the formulas' truth.
func (tb *TB) instances(roots []*Term, done map[string]bool, skolem bool) []*Term {
	qs := quants(roots)
	if len(qs) == 0 {
		return nil
	}
	apps := map[string][]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == OQuant {
			return
		}
		seen[t] = true
		if h := appHead(t); h != "" && !t.hasBV {
			apps[h] = append(apps[h], t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for i := len(roots) - 1; i >= 0; i-- {
		walk(roots[i])
	}
	top := map[*Term]bool{}
	for _, r := range roots {
		top[r] = true
	}
	var out []*Term
	for _, q := range qs {
		body := q.args[0]
		if skolem && !(top[q] && q.name == "forall") && !done["sk"+tb.key(q)] {
			done["sk"+tb.key(q)] = true
			if tb.skolems == nil {
				tb.skolems = map[*Term][]*Term{}
			}
			sk, ok := tb.skolems[q]
			if !ok {
				for _, b := range q.bvs {
					sk = append(sk, tb.Fresh("sk", b.sort))
				}
				tb.skolems[q] = sk
			}
			m := map[*Term]*Term{}
			for i, b := range q.bvs {
				m[b] = sk[i]
			}
			inst := tb.Subst(body, m)
			if q.name == "forall" {
				out = append(out, tb.Or(q, tb.Not(inst)))
			} else {
				out = append(out, tb.Or(tb.Not(q), inst))
			}
		}
		if len(q.bvs) > 2 {
			continue
		}
		cands := make([][]*Term, len(q.bvs))
		for i, b := range q.bvs {
			cands[i] = tb.candidates(body, b, apps)
		}
		n := 0
		emit := func(m map[*Term]*Term) {
			n++
			if n > 16 {
				return
			}
			inst := tb.Subst(body, m)
			var l *Term
			if q.name == "forall" {
				l = tb.Or(tb.Not(q), inst)
			} else {
				l = tb.Or(tb.Not(inst), q)
			}
			if l.isTrue() {
				return
			}
			k := tb.key(l)
			if !done[k] {
				done[k] = true
				out = append(out, l)
			}
		}
		switch len(q.bvs) {
		case 1:
			for _, c := range cands[0] {
				emit(map[*Term]*Term{q.bvs[0]: c})
			}
		case 2:
			for _, c := range cands[0] {
				for _, d := range cands[1] {
					emit(map[*Term]*Term{q.bvs[0]: c, q.bvs[1]: d})
				}
			}
		}
	}
	return out
}

// candidates are the ground terms at which the body is worth instantiating.
func (tb *TB) candidates(body, bv *Term, apps map[string][]*Term) []*Term {
	var out []*Term
	have := map[*Term]bool{}
	add := func(t *Term) {
		if t != nil && t.sort == bv.sort && !t.hasBV && !have[t] {
			have[t] = true
			out = append(out, t)
		}
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if h := appHead(t); h != "" {
			for i, a := range t.args {
				if !a.hasBV || a != bv && a.op != OLin {
					continue
				}
				for _, g := range apps[h] {
					if len(g.args) != len(t.args) || g.args[i].sort != a.sort {
						continue
					}
					ok := true
					for j, b := range t.args {
						if j != i && !b.hasBV && b != g.args[j] && h != "seq.nth" && h != "str.at" {
							ok = false
						}
					}
					if ok {
						add(tb.solveFor(a, bv, g.args[i]))
					}
				}
				// element reads and sequence views of one array
				if h == "seq.nth" && i == 1 && t.args[0].op == OUF && strings.HasPrefix(t.args[0].name, "seq:E:") {
					s := t.args[0]
					n := s.name[4:]
					if k := strings.IndexByte(n, '@'); k > 0 {
						n = n[:k]
					}
					for _, g := range apps[n] {
						if len(g.args) == 2 && g.args[0] == s.args[0] {
							add(tb.solveFor(a, bv, tb.Sub(g.args[1], s.args[1])))
						}
					}
				}
				if strings.HasPrefix(h, "E:") && i == 1 && len(t.args) == 2 {
					for _, g := range apps["seq.nth"] {
						s := g.args[0]
						if s.op == OUF && strings.HasPrefix(s.name, "seq:"+h) && s.args[0] == t.args[0] {
							add(tb.solveFor(a, bv, tb.Add(s.args[1], g.args[1])))
						}
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	return out
}

// opaqueMark separates the query in which strings are opaque values too.
const opaqueMark = "\n;;;STRINGS\n"

// hasStr tells whether the roots mention strings.
func hasStr(roots []*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.sort == SStr || t.sort == SSeqStr {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	for _, r := range roots {
		if walk(r) {
			return true
		}
	}
	return false
}

// opaqueStrings replaces strings by integers, one for each, and string
// operations by unknown functions. What is unsatisfiable then was before.
func (tb *TB) opaqueStrings(roots []*Term) []*Term {
	if tb.strIDs == nil {
		tb.strIDs = map[string]int64{}
		tb.opaque = map[*Term]*Term{}
	}
	srt := func(s Sort) Sort {
		switch s {
		case SStr:
			return SInt
		case SSeqStr:
			return SSeqInt
		}
		return s
	}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := tb.opaque[t]; ok {
			return r
		}
		var r *Term
		args := make([]*Term, len(t.args))
		ch := t.sort != srt(t.sort)
		str := ch
		for i, a := range t.args {
			args[i] = walk(a)
			if args[i] != a {
				ch = true
			}
			if a.sort != srt(a.sort) {
				str = true
			}
		}
		switch {
		case t.op == OConst && t.sort == SStr:
			id, ok := tb.strIDs[t.name]
			if !ok {
				id = int64(len(tb.strIDs)) + 7000000
				tb.strIDs[t.name] = id
			}
			r = tb.Int(id)
		case !ch:
			r = t
		case t.op == OUF && str:
			r = tb.UF("o!"+t.name, srt(t.sort), args...)
		case t.op == OApp && (strings.HasPrefix(t.name, "str.") || !strings.HasPrefix(t.name, "seq.") && str):
			r = tb.UF("o!"+t.name, srt(t.sort), args...)
		case t.op == OApp && str:
			r = tb.App(t.name, srt(t.sort), args...)
		default:
			r = tb.rebuild(t, args)
		}
		tb.opaque[t] = r
		return r
	}
	out := make([]*Term, len(roots))
	for i, r := range roots {
		out[i] = walk(r)
	}
	return out
}

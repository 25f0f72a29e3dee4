package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"
)

// The simplifying constructors are compared with direct evaluation on random
// terms: the meaning must not change.

type env map[string]any // UF constant -> int64 / bool / string / []int64

func evalTerm(e env, t *Term) any {
	a := func(i int) any { return evalTerm(e, t.args[i]) }
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			return t.bval
		case SInt:
			return t.ival.Int64()
		}
		return t.name
	case OUF:
		return e[t.name]
	case OLin:
		s := t.ival.Int64()
		for i := range t.args {
			s += t.coefs[i].Int64() * a(i).(int64)
		}
		return s
	case OMul:
		s := int64(1)
		for i := range t.args {
			s *= a(i).(int64)
		}
		return s
	case OAnd:
		r := true
		for i := range t.args {
			r = r && a(i).(bool)
		}
		return r
	case OOr:
		r := false
		for i := range t.args {
			r = r || a(i).(bool)
		}
		return r
	case ONot:
		return !a(0).(bool)
	case OIte:
		if a(0).(bool) {
			return a(1)
		}
		return a(2)
	case OEq:
		return fmt.Sprint(a(0)) == fmt.Sprint(a(1))
	case OLe:
		return a(0).(int64) >= 0
	case OApp:
		var as []any
		for i := range t.args {
			as = append(as, a(i))
		}
		return evalApp(t.name, as)
	}
	panic(t.String())
}

func evalApp(name string, a []any) any {
	switch name {
	case "str.++":
		s := ""
		for _, x := range a {
			s += x.(string)
		}
		return s
	case "str.len":
		return int64(len(a[0].(string)))
	case "str.at":
		s, i := a[0].(string), a[1].(int64)
		if i < 0 || i >= int64(len(s)) {
			return ""
		}
		return s[i : i+1]
	case "str.to_code":
		if s := a[0].(string); len(s) == 1 {
			return int64(s[0])
		}
		return int64(-1)
	case "str.substr":
		s, i, n := a[0].(string), a[1].(int64), a[2].(int64)
		if i < 0 || i >= int64(len(s)) || n <= 0 {
			return ""
		}
		if i+n > int64(len(s)) {
			n = int64(len(s)) - i
		}
		return s[i : i+n]
	case "str.prefixof":
		return strings.HasPrefix(a[1].(string), a[0].(string))
	case "str.suffixof":
		return strings.HasSuffix(a[1].(string), a[0].(string))
	case "str.contains":
		return strings.Contains(a[0].(string), a[1].(string))
	case "seq.empty":
		return []int64{}
	case "seq.unit":
		return []int64{a[0].(int64)}
	case "seq.++":
		r := []int64{}
		for _, x := range a {
			r = append(r, x.([]int64)...)
		}
		return r
	case "seq.len":
		return int64(len(a[0].([]int64)))
	case "seq.nth":
		s, i := a[0].([]int64), a[1].(int64)
		if i < 0 || i >= int64(len(s)) {
			return int64(777)
		}
		return s[i]
	case "seq.extract":
		s, i, n := a[0].([]int64), a[1].(int64), a[2].(int64)
		if i < 0 || i >= int64(len(s)) || n <= 0 {
			return []int64{}
		}
		if i+n > int64(len(s)) {
			n = int64(len(s)) - i
		}
		return s[i : i+n]
	}
	panic(name)
}

type gen struct {
	r  *rand.Rand
	tb *TB
}

type pair struct {
	t *Term
	f func(e env) any
}

func (g *gen) boolean(d int) pair {
	tb := g.tb
	if d == 0 {
		n := fmt.Sprintf("b%d", g.r.Intn(4))
		return pair{tb.UF(n, SBool), func(e env) any { return e[n] }}
	}
	switch g.r.Intn(11) {
	case 0, 1:
		a, b, c := g.boolean(d-1), g.boolean(d-1), g.boolean(d-1)
		return pair{tb.And(a.t, b.t, c.t), func(e env) any { return a.f(e).(bool) && b.f(e).(bool) && c.f(e).(bool) }}
	case 2, 3:
		a, b, c := g.boolean(d-1), g.boolean(d-1), g.boolean(d-1)
		return pair{tb.Or(a.t, b.t, c.t), func(e env) any { return a.f(e).(bool) || b.f(e).(bool) || c.f(e).(bool) }}
	case 4:
		a := g.boolean(d - 1)
		return pair{tb.Not(a.t), func(e env) any { return !a.f(e).(bool) }}
	case 5:
		c, a, b := g.boolean(d-1), g.boolean(d-1), g.boolean(d-1)
		return pair{tb.Ite(c.t, a.t, b.t), func(e env) any {
			if c.f(e).(bool) {
				return a.f(e)
			}
			return b.f(e)
		}}
	case 6:
		a, b := g.integer(d-1), g.integer(d-1)
		return pair{tb.Le(a.t, b.t), func(e env) any { return a.f(e).(int64) <= b.f(e).(int64) }}
	case 7:
		a, b := g.integer(d-1), g.integer(d-1)
		return pair{tb.Eq(a.t, b.t), func(e env) any { return a.f(e).(int64) == b.f(e).(int64) }}
	case 8:
		a, b := g.str(d-1), g.str(d-1)
		return pair{tb.Eq(a.t, b.t), func(e env) any { return a.f(e).(string) == b.f(e).(string) }}
	case 9:
		a, b := g.seq(d-1), g.seq(d-1)
		return pair{tb.Eq(a.t, b.t), func(e env) any { return fmt.Sprint(a.f(e)) == fmt.Sprint(b.f(e)) }}
	default:
		a, b := g.str(d-1), g.str(d-1)
		n := []string{"str.prefixof", "str.suffixof", "str.contains"}[g.r.Intn(3)]
		return pair{tb.StrPred(n, a.t, b.t), func(e env) any { return evalApp(n, []any{a.f(e), b.f(e)}) }}
	}
}

func (g *gen) integer(d int) pair {
	tb := g.tb
	if d <= 0 {
		if g.r.Intn(2) == 0 {
			k := int64(g.r.Intn(7) - 3)
			return pair{tb.Int(k), func(e env) any { return k }}
		}
		n := fmt.Sprintf("i%d", g.r.Intn(3))
		return pair{tb.UF(n, SInt), func(e env) any { return e[n] }}
	}
	switch g.r.Intn(8) {
	case 0:
		a, b := g.integer(d-1), g.integer(d-1)
		return pair{tb.Add(a.t, b.t), func(e env) any { return a.f(e).(int64) + b.f(e).(int64) }}
	case 1:
		a, b := g.integer(d-1), g.integer(d-1)
		return pair{tb.Sub(a.t, b.t), func(e env) any { return a.f(e).(int64) - b.f(e).(int64) }}
	case 2:
		a, b := g.integer(d-1), g.integer(d-1)
		return pair{tb.Mul(a.t, b.t), func(e env) any { return a.f(e).(int64) * b.f(e).(int64) }}
	case 3:
		c, a, b := g.boolean(d-1), g.integer(d-1), g.integer(d-1)
		return pair{tb.Ite(c.t, a.t, b.t), func(e env) any {
			if c.f(e).(bool) {
				return a.f(e)
			}
			return b.f(e)
		}}
	case 4:
		a := g.str(d - 1)
		return pair{tb.StrLen(a.t), func(e env) any { return int64(len(a.f(e).(string))) }}
	case 5:
		a := g.seq(d - 1)
		return pair{tb.SeqLen(a.t), func(e env) any { return int64(len(a.f(e).([]int64))) }}
	case 6:
		a, i := g.str(d-1), g.integer(d-2)
		return pair{tb.StrByte(a.t, i.t), func(e env) any { return evalApp("str.to_code", []any{evalApp("str.at", []any{a.f(e), i.f(e)})}) }}
	default:
		a, i := g.seq(d-1), g.integer(d-2)
		return pair{tb.SeqNth(a.t, i.t), func(e env) any { return evalApp("seq.nth", []any{a.f(e), i.f(e)}) }}
	}
}

func (g *gen) str(d int) pair {
	tb := g.tb
	if d <= 0 {
		if g.r.Intn(2) == 0 {
			s := []string{"", "a", "ab", "ba"}[g.r.Intn(4)]
			return pair{tb.Str(s), func(e env) any { return s }}
		}
		n := fmt.Sprintf("s%d", g.r.Intn(2))
		return pair{tb.UF(n, SStr), func(e env) any { return e[n] }}
	}
	switch g.r.Intn(3) {
	case 0:
		c, a, b := g.boolean(d-1), g.str(d-1), g.str(d-1)
		return pair{tb.Ite(c.t, a.t, b.t), func(e env) any {
			if c.f(e).(bool) {
				return a.f(e)
			}
			return b.f(e)
		}}
	case 1:
		a := g.str(d - 1)
		// in-range slices only
		l := tb.StrLen(a.t)
		k := int64(g.r.Intn(3))
		lo := tb.Ite(tb.Le(tb.Int(k), l), tb.Int(k), tb.Zero)
		return pair{tb.Substr(a.t, lo, l), func(e env) any {
			s := a.f(e).(string)
			if k <= int64(len(s)) {
				return s[k:]
			}
			return s
		}}
	default:
		a, b := g.str(d-1), g.str(d-1)
		return pair{tb.Concat(a.t, b.t), func(e env) any { return a.f(e).(string) + b.f(e).(string) }}
	}
}

func (g *gen) seq(d int) pair {
	tb := g.tb
	if d <= 0 {
		n := fmt.Sprintf("q%d", g.r.Intn(2))
		return pair{tb.UF(n, SSeqInt), func(e env) any { return e[n] }}
	}
	switch g.r.Intn(4) {
	case 0:
		return pair{tb.SeqEmpty(SSeqInt), func(e env) any { return []int64{} }}
	case 1:
		a := g.integer(d - 1)
		return pair{tb.SeqUnit(a.t), func(e env) any { return []int64{a.f(e).(int64)} }}
	case 2:
		a, lo, n := g.seq(d-1), g.integer(0), g.integer(0)
		return pair{tb.SeqExtract(a.t, lo.t, n.t), func(e env) any { return evalApp("seq.extract", []any{a.f(e), lo.f(e), n.f(e)}) }}
	default:
		a, b := g.seq(d-1), g.seq(d-1)
		return pair{tb.SeqConcat(SSeqInt, a.t, b.t), func(e env) any { return evalApp("seq.++", []any{a.f(e), b.f(e)}) }}
	}
}

func TestSimplifier(t *testing.T) {
	r := rand.New(rand.NewSource(7))
	for i := 0; i < 40000; i++ {
		tb := newTB()
		g := &gen{r, tb}
		p := g.boolean(1 + r.Intn(4))
		for j := 0; j < 12; j++ {
			e := env{}
			for k := 0; k < 4; k++ {
				e[fmt.Sprintf("b%d", k)] = r.Intn(2) == 0
				e[fmt.Sprintf("i%d", k)] = int64(r.Intn(9) - 4)
				e[fmt.Sprintf("s%d", k)] = strings.Repeat("ab", 3)[r.Intn(3) : 3+r.Intn(3)][:r.Intn(1)+r.Intn(1)]
				e[fmt.Sprintf("s%d", k)] = []string{"", "a", "b", "ab", "ba", "aba"}[r.Intn(6)]
				q := []int64{}
				for n := r.Intn(4); n > 0; n-- {
					q = append(q, int64(r.Intn(5)-2))
				}
				e[fmt.Sprintf("q%d", k)] = q
			}
			want := p.f(e)
			if got := evalTerm(e, p.t); got != want {
				t.Fatalf("simplified to %s: %v, want %v under %v", p.t, got, want, e)
			}
		}
	}
	_ = big.NewInt
}

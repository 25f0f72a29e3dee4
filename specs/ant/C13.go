package ant

import (
	"context"
	"errors"
	"net/url"
	"regexp"

	v "github.com/yields/ant/internal/zzv"
	"golang.org/x/time/rate"
)

// stubPatterns makes pattern and regexp matching functions of their texts.
func stubPatternsSpec(valid func(expr string) bool) {
	v.Stub("github.com/tidwall/match.Match", func(s, p string) bool { return patternMatchesSpec(s, p) })
	v.Stub("regexp.Compile", func(expr string) (*regexp.Regexp, error) {
		if !valid(expr) {
			v.Cover("an invalid expression is refused")
			return nil, errBadExprSpec
		}
		re := v.AnyFresh[*regexp.Regexp]()
		v.Assume(v.And(re != nil, exprOfSpec(re) == expr))
		return re, nil
	})
	v.Stub("regexp.MustCompile", func(expr string) *regexp.Regexp {
		if !valid(expr) {
			panic(expr)
		}
		re := v.AnyFresh[*regexp.Regexp]()
		v.Assume(v.And(re != nil, exprOfSpec(re) == expr))
		return re
	})
	v.Stub("(*regexp.Regexp).MatchString", func(re *regexp.Regexp, s string) bool { return exprMatchesSpec(s, exprOfSpec(re)) })
	v.Stub("(*regexp.Regexp).Match", func(re *regexp.Regexp, b []byte) bool { return exprMatchesSpec(string(b), exprOfSpec(re)) })
}

var errBadExprSpec = errors.New("bad expression")

func patternMatchesSpec(s, p string) bool { return v.UF[bool]("pattern.matches", s, p) }
func exprOfSpec(re *regexp.Regexp) string { return v.UF[string]("regexp.text", re) }
func exprMatchesSpec(s, expr string) bool { return v.UF[bool]("regexp.matches", s, expr) }
func exprValidSpec(expr string) bool      { return v.UF[bool]("regexp.valid", expr) }
func withSlashSpec(p string) string       { return v.Ite(v.Or(p == "", v.StrHasPrefix(p, "/")), p, "/"+p) }

//verif:property C13
//verif:covers matchers of every kind on any two URLs
func verif_C13_matchers(text string, u, w *url.URL) {
	v.Requires(v.And(u != nil, v.And(w != nil, exprValidSpec(text))))
	stubPatternsSpec(exprValidSpec)
	h := v.Heap()
	host, pat, re := MatchHostname(text), MatchPattern(text), MatchRegexp(text)
	host.Match(w)
	pat.Match(w)
	re.Match(w)
	v.Ensures("a hostname matcher selects exactly the host", host.Match(u) == (u.Host == text))
	v.Ensures("a pattern matcher exactly host and path that match", pat.Match(u) == patternMatchesSpec(u.Host+withSlashSpec(u.Path), text))
	v.Ensures("a regexp matcher exactly host and path that match", re.Match(u) == exprMatchesSpec(u.Host+withSlashSpec(u.Path), text))
	v.Ensures("no URL changes", v.Same(*u, v.At(h, func() url.URL { return *u })))
}

//verif:property C13
//verif:covers limiters of every kind on any two URLs
func verif_C13_limiters(kind, n int, text string, u, w *url.URL, ctx, other context.Context) {
	v.Requires(v.And(u != nil, v.And(w != nil, exprValidSpec(text))))
	v.Requires(v.And(0 <= kind, kind < 4))
	stubPatternsSpec(exprValidSpec)
	var bucket *rate.Limiter
	v.Stub("golang.org/x/time/rate.NewLimiter", func(r rate.Limit, burst int) *rate.Limiter {
		v.Assert("one token bucket", bucket == nil)
		v.Assert("of the given rate and burst", v.And(v.Same(r, rate.Limit(n)), burst == n))
		bucket = v.AnyFresh[*rate.Limiter]()
		v.Assume(bucket != nil)
		return bucket
	})
	waits := 0
	cur := other
	var werr error
	wait := func(l *rate.Limiter, c context.Context) error {
		v.Assert("the wait is on the shared bucket", l == bucket)
		v.Assert("with the caller's context", c == cur)
		waits++
		werr = v.Any[error]()
		return werr
	}
	v.Stub("(*golang.org/x/time/rate.Limiter).Wait", wait)
	v.Stub("(*golang.org/x/time/rate.Limiter).WaitN", func(l *rate.Limiter, c context.Context, k int) error {
		v.Assert("one token per URL", k == 1)
		return wait(l, c)
	})
	var l LimiterFunc
	var selects bool
	switch kind {
	case 0:
		l, selects = Limit(n), true
	case 1:
		l, selects = LimitHostname(n, text), u.Host == text
	case 2:
		l, selects = LimitPattern(n, text), patternMatchesSpec(u.Host+u.Path, text)
	default:
		l, selects = LimitRegexp(n, text), exprMatchesSpec(u.Host+u.Path, text)
	}
	h := v.Heap()
	l.Limit(other, w)
	waits, cur = 0, ctx
	err := l.Limit(ctx, u)
	v.Ensures("selected URLs wait for one token", v.Imp(selects, v.And(waits == 1, err == werr)))
	v.Ensures("others pass at once", v.Imp(!selects, v.And(waits == 0, err == nil)))
	v.Ensures("no URL changes", v.Same(*u, v.At(h, func() url.URL { return *u })))
}

//verif:property C13
//verif:covers invalid expressions
func verif_C13_invalid(text string, limit bool, n int) {
	v.MayPanic()
	stubPatternsSpec(func(expr string) bool { return expr != text })
	v.Stub("golang.org/x/time/rate.NewLimiter", func(r rate.Limit, burst int) *rate.Limiter { return v.AnyFresh[*rate.Limiter]() })
	if limit {
		LimitRegexp(n, text)
	} else {
		MatchRegexp(text)
	}
	v.Unreachable("an invalid regexp panics at construction")
}

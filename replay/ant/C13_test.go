package ant

import (
	"context"
	"net/url"
	"regexp"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/tidwall/match"
)

func mURLReplay(ss []string) *url.URL {
	u := &url.URL{
		Scheme:   vpickReplay("http", "https", "", "ftp"),
		Host:     vpickReplay("a.com", "b.com", "a.com:80", "A.com", "", "sub.a.com", "a.co"),
		Path:     vpickReplay("", "/", "a", "/a", "/a/b", "/a/b/", "*", "x", "/?"),
		RawQuery: vpickReplay("", "q=1", "/a"),
		Fragment: vpickReplay("", "f"),
		RawPath:  vpickReplay("", "", "/raw"),
	}
	if vrndReplay.Intn(4) == 0 {
		u.User = url.User("u")
	}
	if len(ss) > 0 && vrndReplay.Intn(6) == 0 {
		u.Host = vpickReplay(ss...)
	}
	if len(ss) > 0 && vrndReplay.Intn(6) == 0 {
		u.Path = vpickReplay(ss...)
	}
	return u
}

func mTryReplay(f func()) (bad any) {
	defer func() { bad = recover() }()
	f()
	return
}

func TestVerifC13(t *testing.T) {
	ss, _ := vseedsReplay()
	for i := 0; i < 60000 && !t.Failed(); i++ {
		u := mURLReplay(ss)
		old := *u
		text := vpickReplay("a.com", "b.com", "a.com/*", "*", "a.com/a", "*a", "a.com/a/?", ".*", "^a\\.com/a$", "com/", "", "a.com/", "^a.com$", "a.coma", "http*", "*q=1*", "q=1", "https?", "*f", "A.com*")
		if len(ss) > 0 && vrndReplay.Intn(6) == 0 {
			text = vpickReplay(ss...)
		}
		path := u.Path
		if path != "" && path[0] != '/' {
			path = "/" + path
		}
		if got, want := MatchHostname(text).Match(u), u.Host == text; got != want {
			t.Fatalf("hostname %q on %+v: %v", text, u, got)
		}
		if got, want := MatchPattern(text).Match(u), match.Match(u.Host+path, text); got != want {
			t.Fatalf("pattern %q on %+v: %v", text, u, got)
		}
		re, err := regexp.Compile(text)
		var m MatcherFunc
		bad := mTryReplay(func() { m = MatchRegexp(text) })
		if (bad != nil) != (err != nil) {
			t.Fatalf("regexp %q: %v, panic %v", text, err, bad)
		}
		if bad := mTryReplay(func() { LimitRegexp(1, text) }); (bad != nil) != (err != nil) {
			t.Fatalf("limit regexp %q: %v, panic %v", text, err, bad)
		}
		if err == nil {
			if got, want := m.Match(u), re.MatchString(u.Host+path); got != want {
				t.Fatalf("regexp %q on %+v: %v", text, u, got)
			}
		}
		if *u != old {
			t.Fatalf("URL changed %+v", u)
		}
	}
	for i := 0; i < 3000 && !t.Failed(); i++ {
		synctest.Test(t, func(t *testing.T) { mLimitReplay(t, ss) })
	}
}

// mLimit sends URLs through a limiter and a token bucket done by hand.
func mLimitReplay(t *testing.T, ss []string) {
	n := 1 + vrndReplay.Intn(4)
	if vrndReplay.Intn(20) == 0 {
		n = 0
	}
	text := vpickReplay("a.com", "a.com*", "*", ".*/a$", "a.com/a", "a.com/*", "^a.com", "^a\\.coma$")
	re, err := regexp.Compile(text)
	kind := vrndReplay.Intn(4)
	if kind == 3 && err != nil {
		return
	}
	l := []func() LimiterFunc{
		func() LimiterFunc { return Limit(n) },
		func() LimiterFunc { return LimitHostname(n, text) },
		func() LimiterFunc { return LimitPattern(n, text) },
		func() LimiterFunc { return LimitRegexp(n, text) },
	}[kind]()
	tokens, at := float64(n), time.Now()
	for j := 0; j < 10; j++ {
		u := mURLReplay(ss)
		old := *u
		sel := []bool{true, u.Host == text, match.Match(u.Host+u.Path, text), err == nil && re.MatchString(u.Host+u.Path)}[kind]
		ctx, cancel := context.Background(), func() {}
		ended := false
		switch vrndReplay.Intn(6) {
		case 0:
			ctx, cancel = context.WithCancel(ctx)
			cancel()
			ended = true
		case 1:
			ctx, cancel = context.WithTimeout(ctx, time.Minute)
		}
		begin := time.Now()
		e := l.Limit(ctx, u)
		took := time.Since(begin)
		cancel()
		if *u != old {
			t.Fatalf("URL changed %+v", u)
		}
		switch {
		case !sel:
			if e != nil || took != 0 {
				t.Fatalf("limiter %d of %q: %+v waited %v, %v", kind, text, u, took, e)
			}
		case n == 0:
			if e == nil {
				t.Fatalf("rate 0 let %+v through", u)
			}
		case ended:
			if e == nil || !strings.Contains(e.Error(), "cancel") || took != 0 {
				t.Fatalf("limiter %d of %q: an ended context gave %v after %v", kind, text, e, took)
			}
		default:
			if e != nil {
				t.Fatalf("limiter %d of %q: %v", kind, text, e)
			}
			tokens += begin.Sub(at).Seconds() * float64(n)
			if tokens > float64(n) {
				tokens = float64(n)
			}
			at = begin
			tokens--
			want := time.Duration(0)
			if tokens < 0 {
				want = time.Duration(-tokens / float64(n) * float64(time.Second))
			}
			if d := took - want; d > 5*time.Millisecond || d < -5*time.Millisecond {
				t.Fatalf("limiter %d of rate %d: waited %v, want %v", kind, n, took, want)
			}
		}
		if vrndReplay.Intn(3) == 0 {
			time.Sleep(time.Duration(vrndReplay.Intn(1500)) * time.Millisecond)
		}
	}
}

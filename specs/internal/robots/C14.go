package robots

import (
	"context"
	"io"
	"net/http"
	"time"

	"github.com/segmentio/agecache"
	"github.com/temoto/robotstxt"
	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

// site is what happens between a lookup and the outside.
type siteSpec struct {
	remembered bool  // the host was remembered
	known      *Host // as this
	sent       int   // requests
	answered   bool  // with a response
	status     int
	failed     error // without
	body       io.ReadCloser
	resp       *http.Response
	closes     int
	parsed     int
	bad        error                 // the file was not parsed
	data       *robotstxt.RobotsData // as
	sets       int
	set        *Host
	delayed    bool
	ended      bool
	ctxErr     error
}

// world gives the outside any behaviour.
func worldSpec(c *Cache, ctx context.Context, req Request) *siteSpec {
	v.Requires(v.And(c != nil, v.And(ctx != nil, req.URL != nil)))
	v.Requires(v.And(c.lru != nil, c.client != nil))
	u := *req.URL
	client := c.client
	s := &siteSpec{}
	v.Stub("(*github.com/segmentio/agecache.Cache).Get", func(l *agecache.Cache, key interface{}) (interface{}, bool) {
		k, ok := key.(string)
		v.Assert("C14: a host is looked up by its name", v.And(ok, k == u.Host))
		v.Assert("C14: in the cache", l == c.lru)
		if s.sets > 0 {
			return s.set, true
		}
		if v.Any[bool]() {
			s.remembered = true
			s.known = v.AnyFresh[*Host]()
			v.Assume(s.known != nil)
			return s.known, true
		}
		return nil, false
	})
	v.Stub("(*github.com/segmentio/agecache.Cache).Set", func(l *agecache.Cache, key, val interface{}) bool {
		k, ok := key.(string)
		v.Assert("C14: a host is remembered by its name", v.And(ok, v.And(k == u.Host, l == c.lru)))
		h, ok := val.(*Host)
		v.Assert("C14: a host is remembered", v.And(ok, h != nil))
		v.Assert("C14: only an answered request is remembered", v.And(s.answered, s.bad == nil))
		v.Assert("C14: everything is allowed if robots.txt is refused", v.Imp(s.status >= 400, h.data == nil))
		v.Assert("C14: what the host answered is remembered", v.Imp(s.status < 400, v.And(s.parsed == 1, h.data == s.data)))
		s.sets++
		s.set = h
		return v.Any[bool]()
	})
	do := func(cl *http.Client, r *http.Request) (*http.Response, error) {
		v.Assert("C14: one request for a host that is not remembered", v.And(!s.remembered, s.sent == 0))
		w, ok := zzm.ParsedURL(u.Scheme + "://" + u.Host + "/robots.txt")
		v.Assert("C14: for the robots.txt of the URL's scheme and host", v.And(ok, v.Same(*r.URL, w)))
		v.Assert("C14: by the configured client", cl == client)
		v.Assert("C14: a GET", v.And(r.Method == "GET", r.Body == nil))
		v.Assert("C14: bound to the caller's context", r.Context() == ctx)
		s.sent++
		if v.Any[bool]() {
			s.failed = v.Any[error]()
			v.Assume(s.failed != nil)
			return nil, s.failed
		}
		s.resp = v.AnyFresh[*http.Response]()
		s.body = v.Any[io.ReadCloser]()
		v.Assume(v.And(s.resp != nil, v.And(s.body != nil, s.resp.Body == s.body)))
		s.answered, s.status = true, s.resp.StatusCode
		return s.resp, nil
	}
	v.Stub("(*net/http.Client).Do", do)
	v.Stub("(*net/http.Client).Get", func(cl *http.Client, url string) (*http.Response, error) {
		v.Assert("C14: bound to the caller's context", false)
		return nil, nil
	})
	v.Stub("(io.ReadCloser).Close", func(rc io.ReadCloser) error {
		v.Assert("C14: the response body is closed", rc == s.body)
		s.closes++
		return v.Any[error]()
	})
	v.Stub("github.com/temoto/robotstxt.FromResponse", func(r *http.Response) (*robotstxt.RobotsData, error) {
		v.Assert("C14: what the host answered is parsed", v.And(s.answered, v.And(r == s.resp, v.And(r.Body == s.body, s.closes == 0))))
		v.Assert("C14: with the host's status", r.StatusCode == s.status)
		v.Assert("C14: once", s.parsed == 0)
		s.parsed++
		if v.Any[bool]() {
			s.bad = v.Any[error]()
			v.Assume(s.bad != nil)
			return nil, s.bad
		}
		s.data = v.AnyFresh[*robotstxt.RobotsData]()
		v.Assume(s.data != nil)
		return s.data, nil
	})
	v.Stub("(*github.com/temoto/robotstxt.RobotsData).TestAgent", func(d *robotstxt.RobotsData, path, agent string) bool {
		return verdictSpec(d, path, agent)
	})
	v.Stub("(*github.com/temoto/robotstxt.RobotsData).FindGroup", func(d *robotstxt.RobotsData, agent string) *robotstxt.Group {
		return groupSpec(d, agent)
	})
	return s
}

func verdictSpec(d *robotstxt.RobotsData, path, agent string) bool {
	return v.UF[bool]("robots.verdict", d, path, agent)
}

func groupSpec(d *robotstxt.RobotsData, agent string) *robotstxt.Group {
	return v.UF[*robotstxt.Group]("robots.group", d, agent)
}

// outcome states what every lookup ends with, and returns the host's rules.
func (s *siteSpec) outcome(ok bool) *robotstxt.RobotsData {
	v.Ensures("C14: a remembered host causes no request", v.Imp(s.remembered, s.sent == 0))
	v.Ensures("C14: every response body is closed", v.Imp(s.answered, s.closes >= 1))
	v.Ensures("C14: a failure is not remembered", v.Imp(v.And(s.sent == 1, v.Or(s.failed != nil, s.bad != nil)), s.sets == 0))
	v.Ensures("C14: an answer is remembered", v.Imp(v.And(s.answered, s.bad == nil), s.sets >= 1))
	v.Ensures("C14: a failure is an error", v.Imp(v.Or(s.failed != nil, s.bad != nil), !ok))
	v.Ensures("C14: so is a URL that has no robots.txt", v.Imp(v.And(!s.remembered, s.sent == 0), !ok))
	if s.remembered {
		return s.known.data
	}
	if v.And(s.status >= 400, s.answered) {
		return nil
	}
	return s.data
}

//verif:property C14
//verif:covers every verdict
func verif_C14_allowed(c *Cache, ctx context.Context, req Request) {
	s := worldSpec(c, ctx, req)
	path, agent := req.URL.Path, v.Ite(req.UserAgent == "", "*", req.UserAgent)
	ok, err := c.Allowed(ctx, req)
	v.Cover("answers")
	d := s.outcome(err == nil)
	v.Ensures("C14: nothing else fails", v.Imp(err != nil, v.And(!s.remembered, v.Or(s.failed != nil, v.Or(s.bad != nil, s.sent == 0)))))
	v.Ensures("C14: an error allows nothing", v.Imp(err != nil, !ok))
	v.Ensures("C14: without rules everything is allowed", v.Imp(v.And(err == nil, d == nil), ok))
	abs := v.Ite(v.Or(path == "", v.StrHasPrefix(path, "/")), path, "/"+path)
	v.Ensures("C14: the verdict is that of the host's rules for the agent and path", v.Imp(v.And(err == nil, d != nil),
		v.Or(ok == verdictSpec(d, abs, agent), v.And(path == "", ok == verdictSpec(d, "/", agent)))))
}

//verif:property C14
//verif:covers every crawl delay
func verif_C14_wait(c *Cache, ctx context.Context, req Request) {
	s := worldSpec(c, ctx, req)
	agent := v.Ite(req.UserAgent == "", "*", req.UserAgent)
	delay := func() time.Duration {
		d := s.data
		if s.remembered {
			d = s.known.data
		} else if v.And(s.status >= 400, s.answered) {
			d = nil
		}
		if d == nil {
			return 0
		}
		g := groupSpec(d, agent)
		if g == nil {
			return 0
		}
		return g.CrawlDelay
	}
	v.Stub("chan.recv time.Time", func(ch <-chan time.Time) {
		v.Assert("C14: waits once", v.And(!s.delayed, !s.ended))
		v.Assert("C14: waits the agent's full crawl delay", zzm.TimerDur(ch) == delay())
		s.delayed = true
	})
	v.Stub("time.Sleep", func(d time.Duration) {
		v.Assert("C14: the wait can be cancelled", false)
	})
	v.Stub("chan.recv struct{}", func(ch <-chan struct{}) {
		v.Assert("C14: only the context ends the wait", ch == zzm.CtxDone(ctx))
		s.ended = true
	})
	v.Stub("(context.Context).Err", func(cc context.Context) error {
		v.Assert("C14: the given context is asked", cc == ctx)
		e := v.Any[error]()
		v.Assume(v.Imp(s.ended, e != nil))
		s.ctxErr = e
		return e
	})
	err := c.Wait(ctx, req)
	v.Cover("waits")
	s.outcome(err == nil)
	v.Ensures("C14: the full delay passes unless it fails", v.Imp(v.And(err == nil, delay() > 0), s.delayed))
	v.Ensures("C14: the context's error ends the wait", v.Imp(s.ended, v.And(err == s.ctxErr, err != nil)))
	v.Ensures("C14: nothing else fails", v.Imp(err != nil, v.Or(v.And(s.ctxErr != nil, err == s.ctxErr), v.And(!s.remembered, v.Or(s.failed != nil, v.Or(s.bad != nil, s.sent == 0))))))
}

//verif:property C14
//verif:covers new caches
func verif_C14_new(cl *http.Client, n int) {
	v.Requires(v.And(cl != nil, n > 0))
	l := v.AnyFresh[*agecache.Cache]()
	v.Requires(l != nil)
	size := 0
	v.Stub("github.com/segmentio/agecache.New", func(conf agecache.Config) *agecache.Cache {
		size = conf.Capacity
		return l
	})
	c := NewCache(cl, n)
	v.Ensures("C14: a new cache uses the client", v.And(c != nil, v.And(c.client == cl, c.lru == l)))
	v.Ensures("C14: a new cache has the capacity", size == n)
}

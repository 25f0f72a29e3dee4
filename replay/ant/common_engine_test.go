package ant

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/iotest"
	"time"

	"github.com/temoto/robotstxt"
)

// ePage is a page of the fake site.
type ePageReplay struct {
	url    string
	status int
	links  []string // as the scraper returns them
	fail   string   // "", limit, fetch, scrape, dedupe, enqueue, robots
}

type eEventReplay struct {
	kind string
	u    string
	ok   bool
	at   time.Time
	list []string
}

type eBodyReplay struct {
	io.Reader
	w      *eWorldReplay
	u      string
	eof    bool
	closed int
}

func (b *eBodyReplay) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF {
		b.eof = true
	}
	return n, err
}

func (b *eBodyReplay) Close() error {
	b.closed++
	b.w.log("close", b.u, b.eof)
	return nil
}

type eWorldReplay struct {
	mu      sync.Mutex
	rnd     *rand.Rand
	events  []eEventReplay
	pages   map[string]*ePageReplay
	robots  map[string]string // host -> text; "404", "500", "fail"
	slow    bool
	seen    map[string]bool
	bodies  map[string][]*eBodyReplay
	working map[string]bool
	maxWork int
	dups    bool
	inner   Queue
	got     URLs
	bad     []string
	flaky   int
	err     error // wrapped by every planted failure
}

// failure is the planted failure of a role.
func (w *eWorldReplay) failure(role string) error {
	if w.err == nil {
		return errors.New(role + " failure")
	}
	if w.rnd == nil || len(role)%2 == 0 {
		return fmt.Errorf("%s failure - %w", role, w.err)
	}
	return w.err
}

func (w *eWorldReplay) log(kind, u string, ok bool, list ...string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.events = append(w.events, eEventReplay{kind, u, ok, time.Now(), list})
	switch kind {
	case "limit", "fetch", "scrape":
		w.working[u] = true
		if len(w.working) > w.maxWork {
			w.maxWork = len(w.working)
		}
	case "done":
		delete(w.working, u)
	}
}

func (w *eWorldReplay) pause() {
	if w.slow {
		w.mu.Lock()
		d := time.Duration(w.rnd.Intn(300)) * time.Microsecond
		w.mu.Unlock()
		time.Sleep(d)
	}
}

// eNorm is the normal form of the URLs that the fake site uses.
func eNormReplay(s string) string {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		s = s[:i]
	}
	i := strings.Index(s, "://")
	if i < 0 {
		return s
	}
	scheme, rest := strings.ToLower(s[:i]), s[i+3:]
	host, path := rest, "/"
	if j := strings.IndexByte(rest, '/'); j >= 0 {
		host, path = rest[:j], rest[j:]
	}
	host = strings.ToLower(host)
	if scheme == "http" {
		host = strings.TrimSuffix(host, ":80")
	} else {
		host = strings.TrimSuffix(host, ":443")
	}
	path = strings.Replace(path, "/./", "/", -1)
	path = strings.Replace(path, "?r=2&q=1", "?q=1&r=2", -1)
	return scheme + "://" + host + path
}

func eVariantReplay(rnd *rand.Rand, s string) string {
	switch rnd.Intn(6) {
	case 0:
		return s + "#f" + fmt.Sprint(rnd.Intn(3))
	case 1:
		return strings.Replace(s, ".test", ".TEST", 1)
	case 2:
		if strings.Contains(s, ".test:") {
			return s
		}
		if strings.HasPrefix(s, "https:") {
			return strings.Replace(s, ".test", ".test:443", 1)
		}
		return strings.Replace(s, ".test", ".test:80", 1)
	case 3:
		return strings.Replace(s, ".test/", ".test/./", 1)
	}
	if strings.HasSuffix(s, "?q=1&r=2") && rnd.Intn(2) == 0 {
		return strings.TrimSuffix(s, "?q=1&r=2") + "?r=2&q=1"
	}
	return s
}

// roles of the configuration

func (w *eWorldReplay) RoundTrip(r *http.Request) (*http.Response, error) {
	text := w.robots[r.URL.Scheme+"://"+r.URL.Host]
	w.log("robots", r.URL.Scheme+"://"+r.URL.Host, true)
	resp := &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Request: r, ProtoMajor: 1, ProtoMinor: 1}
	switch text {
	case "fail":
		return nil, w.failure("robots")
	case "flaky":
		text = ""
		w.mu.Lock()
		w.flaky++
		n := w.flaky
		w.mu.Unlock()
		if n == 1 {
			return nil, w.failure("robots")
		}
	case "404":
		resp.StatusCode, resp.Status = 404, "404 Not Found"
		text = ""
	}
	resp.Body = io.NopCloser(strings.NewReader(text))
	return resp, nil
}

func (w *eWorldReplay) Do(r *http.Request) (*http.Response, error) {
	u := r.URL.String()
	w.log("fetch", u, true)
	w.pause()
	p := w.pages[u]
	if p == nil {
		p = &ePageReplay{url: u, status: 404}
	}
	if p.fail == "fetch" {
		return nil, w.failure("fetch")
	}
	size := []int{10000, 0, 1, 70000, 200000, 10000}[len(u)%6]
	var content io.Reader = bytes.NewReader(make([]byte, size))
	if size == 70000 {
		content = iotest.DataErrReader(content)
	}
	b := &eBodyReplay{Reader: content, w: w, u: u}
	if p.status == 200 {
		w.mu.Lock()
		w.bodies[u] = append(w.bodies[u], b)
		w.mu.Unlock()
	}
	resp := &http.Response{StatusCode: p.status, Header: http.Header{}, Request: r, Body: b}
	return resp, nil
}

func (w *eWorldReplay) Limit(ctx context.Context, u *URL) error {
	p := w.pages[u.String()]
	ok := p == nil || p.fail != "limit"
	w.log("limit", u.String(), ok)
	w.pause()
	if !ok {
		return w.failure("limit")
	}
	return nil
}

func (w *eWorldReplay) Match(u *URL) bool {
	ok := !strings.Contains(u.Path, "no")
	w.log("match", u.String(), ok)
	return ok
}

func strsReplay(us URLs) (out []string) {
	for _, u := range us {
		out = append(out, u.String())
	}
	return
}

func (w *eWorldReplay) Dedupe(ctx context.Context, us URLs) (URLs, error) {
	var out URLs
	w.mu.Lock()
	fail := false
	for _, u := range us {
		if p := w.pages[u.String()]; p != nil && p.fail == "dedupe" {
			fail = true
		}
		if w.dups || !w.seen[u.String()] {
			out = append(out, u)
		}
		w.seen[u.String()] = true
	}
	w.mu.Unlock()
	if fail {
		w.log("dedupe", "", false, strsReplay(us)...)
		return nil, w.failure("dedupe")
	}
	w.log("dedupe", "", true, strsReplay(us)...)
	w.log("deduped", "", true, strsReplay(out)...)
	return out, nil
}

func (w *eWorldReplay) Scrape(ctx context.Context, p *Page) (URLs, error) {
	u := p.URL.String()
	w.log("scrape", u, true)
	w.mu.Lock()
	for _, b := range w.bodies[u] {
		if b == p.body && b.closed > 0 {
			w.bad = append(w.bad, "C07: page "+u+" is closed before it is scraped")
		}
	}
	w.mu.Unlock()
	w.pause()
	pg := w.pages[u]
	var out URLs
	for _, l := range pg.links {
		x, err := url.Parse(l)
		if err == nil {
			out = append(out, x)
		}
	}
	if pg.fail == "scrape" {
		return out, w.failure("scrape")
	}
	return out, nil
}

func (w *eWorldReplay) Enqueue(ctx context.Context, us URLs) error {
	w.log("enqueue", "", true, strsReplay(us)...)
	for _, u := range us {
		if p := w.pages[u.String()]; p != nil && p.fail == "enqueue" {
			return w.failure("enqueue")
		}
	}
	return w.inner.Enqueue(ctx, us)
}

func (w *eWorldReplay) Dequeue(ctx context.Context) (*URL, error) {
	u, err := w.inner.Dequeue(ctx)
	if err == nil {
		w.log("dequeue", u.String(), true)
		w.mu.Lock()
		w.got = append(w.got, u)
		w.mu.Unlock()
	}
	return u, err
}

func (w *eWorldReplay) Done(ctx context.Context, u *URL) error {
	w.pause()
	w.mu.Lock()
	found := false
	for i, g := range w.got {
		if g == u {
			w.got = append(w.got[:i:i], w.got[i+1:]...)
			found = true
			break
		}
	}
	if !found {
		w.bad = append(w.bad, fmt.Sprintf("C05: %v is acknowledged but not outstanding", u))
	}
	w.mu.Unlock()
	if u != nil {
		w.log("done", u.String(), true)
	}
	if !found {
		return nil
	}
	return w.inner.Done(ctx, u)
}

func (w *eWorldReplay) Wait() { w.inner.Wait(); w.log("waited", "", true) }

func (w *eWorldReplay) Close(ctx context.Context) error {
	w.log("qclose", "", true)
	return w.inner.Close(ctx)
}

type eLimiterReplay struct{ *eWorldReplay }
type eQueueReplay struct{ *eWorldReplay }

func (q eQueueReplay) Close(ctx context.Context) error { return q.eWorldReplay.Close(ctx) }

// eHost is a host of the fake site with its scheme.
func eHostReplay(h int, seed int64) string {
	return []string{"http", "https", "http"}[(int(seed)+h)%3] + fmt.Sprintf("://h%d-%d.test", h, seed) + []string{"", "", ":8080", ""}[(int(seed)+h)%4]
}

// engineTrial runs one random crawl and returns what was wrong.
func engineTrialReplay(seed int64) (bad []string) {
	rnd := rand.New(rand.NewSource(seed))
	w := &eWorldReplay{rnd: rnd, pages: map[string]*ePageReplay{}, robots: map[string]string{}, seen: map[string]bool{},
		bodies: map[string][]*eBodyReplay{}, working: map[string]bool{}, slow: rnd.Intn(2) == 0}
	fails := []string{}
	if rnd.Intn(2) == 0 {
		fails = []string{[]string{"limit", "fetch", "scrape", "dedupe", "enqueue", "robots"}[rnd.Intn(6)]}
	}
	hosts := 1 + rnd.Intn(3)
	var names []string
	if rnd.Intn(2) == 0 {
		w.err = []error{io.EOF, context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF, &FetchError{Status: 404, URL: &url.URL{}}}[rnd.Intn(5)]
	}
	delay := time.Duration(0)
	for h := 0; h < hosts; h++ {
		name := eHostReplay(h, seed)
		names = append(names, name)
		switch rnd.Intn(5) {
		case 0:
			w.robots[name] = "404"
		case 1:
			w.robots[name] = "User-agent: *\nDisallow: /bar\n"
		case 2:
			w.robots[name] = "User-agent: *\nDisallow: /\n\nUser-agent: antbot\nDisallow: /bar\n"
		case 3:
			delay = 15 * time.Millisecond
			w.robots[name] = "User-agent: *\nCrawl-delay: 0.015\nDisallow: /bar\n"
		default:
			w.robots[name] = "User-agent: other\nDisallow: /\n"
		}
	}
	_ = delay
	if len(fails) == 1 && fails[0] == "robots" {
		w.robots[names[rnd.Intn(hosts)]] = []string{"fail", "flaky"}[rnd.Intn(2)]
	}
	n := 1 + rnd.Intn(10)
	var all []string
	for i := 0; i < n; i++ {
		p := &ePageReplay{url: fmt.Sprintf("%s/%s%d", names[rnd.Intn(hosts)], []string{"p", "p", "p", "bar", "no"}[rnd.Intn(5)], i), status: 200}
		switch rnd.Intn(6) {
		case 0:
			p.url += "?q=1&r=2"
		case 1:
			p.url = strings.Replace(p.url, "://", "://u:pw@", 1)
		case 2:
			p.url += "%20x.html"
		case 3:
			p.url += "/d/e.txt"
		}
		if rnd.Intn(6) == 0 {
			p.status = 404
		}
		all = append(all, p.url)
		w.pages[p.url] = p
	}
	for _, s := range all {
		p := w.pages[s]
		for k := rnd.Intn(5); k > 0; k-- {
			p.links = append(p.links, eVariantReplay(rnd, all[rnd.Intn(n)]))
		}
		if len(fails) == 1 && rnd.Intn(4) == 0 {
			p.fail = fails[0]
		}
	}
	cfg := EngineConfig{
		Scraper:     w,
		Deduper:     w,
		Queue:       eQueueReplay{w},
		Fetcher:     &Fetcher{Client: w, MaxAttempts: 1},
		Impolite:    rnd.Intn(4) == 0,
		Workers:     rnd.Intn(4),
		Concurrency: rnd.Intn(4) - 1,
	}
	w.inner = MemoryQueue(1)
	if rnd.Intn(3) > 0 {
		cfg.Limiter = eLimiterReplay{w}
	}
	if rnd.Intn(2) == 0 {
		cfg.Matcher = w
	}
	eOnceReplay.Do(func() { DefaultClient = &http.Client{Transport: eRouterReplay{}} })
	eWorldsReplay.Store(fmt.Sprint(seed), w)
	defer eWorldsReplay.Delete(fmt.Sprint(seed))
	eng, err := NewEngine(cfg)
	if err != nil {
		return []string{"C02: NewEngine: " + err.Error()}
	}
	var starts []string
	for k := 1 + rnd.Intn(3); k > 0; k-- {
		starts = append(starts, eVariantReplay(rnd, all[rnd.Intn(n)]))
	}
	badStart := rnd.Intn(8) == 0
	if badStart {
		starts = append(starts, []string{"ftp://h0.test/x", "%zz://", "http://h0.test:port/", "mailto:a@b", "/rel", "HTTPX://h"}[rnd.Intn(6)])
		rnd.Shuffle(len(starts), func(i, j int) { starts[i], starts[j] = starts[j], starts[i] })
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cancelled := false
	if rnd.Intn(8) == 0 {
		cancelled = true
		d := time.Duration(rnd.Intn(2000)) * time.Microsecond
		go func() { time.Sleep(d); cancel() }()
	}
	res := make(chan error, 1)
	go func() { res <- eng.Run(ctx, starts...) }()
	var rerr error
	hung := false
	select {
	case rerr = <-res:
	case <-time.After(8 * time.Second):
		hung = true
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	say := func(f string, a ...any) {
		bad = append(bad, fmt.Sprintf(f, a...)+fmt.Sprintf(" [trial %d: workers %d, concurrency %d, impolite %v, limiter %v, matcher %v, starts %q, cancelled %v]", seed, cfg.Workers, cfg.Concurrency, cfg.Impolite, cfg.Limiter != nil, cfg.Matcher != nil, starts, cancelled))
	}
	if hung {
		say("C05: Run hangs; outstanding %q", strsReplay(w.got))
		cancel()
		return
	}
	for _, b := range w.bad {
		say("%s", b)
	}
	if badStart {
		if rerr == nil {
			say("C02: a bad start URL is not refused")
		}
		for _, e := range w.events {
			if e.kind == "enqueue" && len(e.list) > 0 {
				say("C02: %q is queued although the batch has a bad URL", e.list)
			}
		}
		return
	}
	type state struct {
		limits, fetches, scrapes, closed int
		limitOK                          bool
		limited, taken, fetched          time.Time
		outstanding                      int
	}
	st := map[string]*state{}
	get := func(u string) *state {
		if st[u] == nil {
			st[u] = &state{}
		}
		return st[u]
	}
	verdict := func(u string) (allowed bool, d time.Duration, failed bool) {
		x, _ := url.Parse(u)
		switch t := w.robots[x.Scheme+"://"+x.Host]; t {
		case "fail":
			return false, 0, true
		case "404", "flaky":
			return true, 0, false
		default:
			data, _ := robotstxt.FromString(t)
			if g := data.FindGroup("antbot"); g != nil {
				d = g.CrawlDelay
			}
			return data.TestAgent(x.Path, "antbot"), d, false
		}
	}
	failing := false
	polite := !cfg.Impolite
	waited, closed := false, false
	var lastDeduped, queued []string
	passing := map[string]int{}
	links := map[string]int{}
	for _, s := range starts {
		links[eNormReplay(s)]++
	}
	for _, e := range w.events {
		s := get(e.u)
		switch e.kind {
		case "match":
			if eNormReplay(e.u) != e.u {
				say("C02: %q is matched before it is normalised", e.u)
			}
		case "dedupe":
			if !e.ok {
				failing = true
			}
			for _, u := range e.list {
				if eNormReplay(u) != u {
					say("C02: %q is de-duplicated before it is normalised", u)
				}
				if cfg.Matcher != nil && strings.Contains(u, "/no") {
					say("C02: %q is de-duplicated although it does not match", u)
				}
				links[u]--
				if links[u] < 0 {
					say("C02 C07: %q is de-duplicated more often than it was given", u)
				}
			}
		case "deduped":
			lastDeduped = e.list
			for _, u := range e.list {
				passing[u]++
			}
		case "enqueue":
			queued = append(queued, e.list...)
			for _, u := range e.list {
				if passing[u]--; passing[u] < 0 {
					say("C02: %q is queued but the de-duplicator did not pass it", u)
				}
				if p := w.pages[u]; p != nil && p.fail == "enqueue" {
					failing = true
				}
			}
			if cfg.Workers <= 1 && cfg.Concurrency == 1 && strings.Join(e.list, " ") != strings.Join(lastDeduped, " ") {
				say("C02: %q are queued but %q passed", e.list, lastDeduped)
			}
		case "dequeue":
			s.taken = e.at
			s.outstanding++
		case "limit":
			s.limits++
			s.limitOK, s.limited = e.ok, e.at
			if !e.ok {
				failing = true
			}
			if s.limits > 1 {
				say("C04: the limiter is called twice for %q", e.u)
			}
			if a, _, f := verdict(e.u); polite && !f && !a {
				say("C03: the limiter is called for disallowed %q", e.u)
			}
		case "fetch":
			s.fetches++
			s.fetched = e.at
			a, d, f := verdict(e.u)
			if polite && (f || !a) {
				say("C03: %q is fetched (robots.txt allows: %v, fails: %v)", e.u, a, f)
			}
			if cfg.Limiter != nil && (s.limits != 1 || !s.limitOK) {
				say("C04: %q is fetched without the limiter's consent (%d calls)", e.u, s.limits)
			}
			if polite && e.at.Sub(s.taken) < d {
				say("C04: %q is fetched %s after it was taken, the crawl delay is %s", e.u, e.at.Sub(s.taken), d)
			}
			if s.fetches > 1 {
				say("C04 C05: %q is fetched twice", e.u)
			}
			if s.outstanding < 1 {
				say("C05: %q is fetched after it was acknowledged", e.u)
			}
			if p := w.pages[e.u]; p != nil && p.fail == "fetch" {
				failing = true
			}
		case "scrape":
			s.scrapes++
			if s.scrapes > 1 {
				say("C07: %q is scraped twice", e.u)
			}
			p := w.pages[e.u]
			if p == nil || p.status != 200 {
				say("C07: missing page %q is scraped", e.u)
				continue
			}
			if p.fail == "scrape" {
				failing = true
				continue
			}
			for _, l := range p.links {
				links[eNormReplay(l)]++
			}
		case "close":
			s.closed++
			if s.scrapes == 0 {
				if p := w.pages[e.u]; p != nil && p.status == 200 {
					say("C07: %q is closed before it is scraped", e.u)
				}
			}
			if !e.ok {
				say("C07: %q is closed before it was drained", e.u)
			}
		case "done":
			s.outstanding--
			if s.outstanding < 0 {
				say("C05: %q is acknowledged twice", e.u)
			}
			if s.scrapes == 1 && !failing && !cancelled {
				// all of its links have been given to the de-duplicator
				if p := w.pages[e.u]; p.fail == "" && p.status == 200 {
					for _, l := range p.links {
						if u := eNormReplay(l); !(cfg.Matcher != nil && strings.Contains(u, "/no")) && !w.seenBefore(u, e.at) {
							say("C05: %q is acknowledged before its link %q is queued", e.u, l)
						}
					}
				}
			}
		case "waited":
			waited = true
		case "qclose":
			closed = true
		}
	}
	robotsFail := false
	for u, s := range st {
		if u == "" || s.taken.IsZero() {
			continue
		}
		a, _, f := verdict(u)
		if polite && f {
			robotsFail = true
		}
		if s.outstanding != 0 {
			say("C05: %q is outstanding %d times after Run", u, s.outstanding)
		}
		if s.scrapes == 0 && len(w.bodies[u]) > 0 && !cancelled {
			say("C07: %q is fetched but not scraped", u)
		}
		if rerr == nil && !cancelled && (!polite || a) && s.fetches != 1 {
			say("C03 C05: %q is fetched %d times by a successful run", u, s.fetches)
		}
		for _, b := range w.bodies[u] {
			if !b.eof || b.closed == 0 {
				say("C07: the page %q is drained: %v, closed: %v", u, b.eof, b.closed > 0)
			}
		}
	}
	if cfg.Concurrency > 0 && w.maxWork > cfg.Concurrency {
		say("C06: %d pages are processed at once", w.maxWork)
	}
	if failing && rerr == nil {
		say("C07: Run reports no failure (%v)", fails)
	}
	if w.flaky > 0 {
		robotsFail = true
	}
	if robotsFail && rerr == nil {
		say("C03: Run does not report that robots.txt cannot be had")
	}
	if !failing && !robotsFail && !cancelled && rerr != nil {
		say("C07: Run fails: %v", rerr)
	}
	if rerr == nil && (!waited || !closed) {
		say("C07: Run returned without the queue being waited for (%v) and closed (%v)", waited, closed)
	}
	if rerr == nil && !cancelled {
		for u, n := range passing {
			if n > 0 {
				say("C02: %q passed the de-duplicator but is not queued", u)
			}
		}
		for u, n := range links {
			if n > 0 && !(cfg.Matcher != nil && strings.Contains(u, "/no")) {
				say("C02 C07: %q is given %d times more than de-duplicated", u, n)
			}
		}
		got := map[string]int{}
		for u, s := range st {
			if !s.taken.IsZero() {
				got[u]++
			}
		}
		for _, u := range queued {
			if got[u] == 0 {
				say("C05: %q is queued but never handled", u)
			}
		}
	}
	if rerr == nil && len(w.got) > 0 {
		say("C05: Run ends while %q are outstanding", strsReplay(w.got))
	}
	sort.Strings(bad)
	return
}

// seenBefore tells whether u was queued or de-duplicated by then.
func (w *eWorldReplay) seenBefore(u string, at time.Time) bool {
	for _, e := range w.events {
		if e.at.After(at) {
			break
		}
		if e.kind == "dedupe" {
			for _, x := range e.list {
				if x == u {
					return true
				}
			}
		}
	}
	return false
}

// eRouter sends robots.txt requests to their trial.
type eRouterReplay struct{}

var (
	eOnceReplay   sync.Once
	eWorldsReplay sync.Map
)

func (eRouterReplay) RoundTrip(r *http.Request) (*http.Response, error) {
	h := strings.TrimSuffix(r.URL.Hostname(), ".test")
	if w, ok := eWorldsReplay.Load(h[strings.LastIndexByte(h, '-')+1:]); ok {
		return w.(*eWorldReplay).RoundTrip(r)
	}
	return nil, errors.New("unknown host " + r.URL.Host)
}

// eCrawls runs crawls for the time and reports what breaks the property.
func eCrawlsReplay(t *testing.T, id string, d time.Duration) {
	end := time.Now().Add(d)
	var next int64
	var found string
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				mu.Lock()
				next++
				seed, stop := next, found != ""
				mu.Unlock()
				if stop {
					return
				}
				for _, b := range engineTrialReplay(seed) {
					if strings.Contains(strings.SplitN(b, ":", 2)[0], id) {
						mu.Lock()
						found = b
						mu.Unlock()
					}
				}
			}
		}()
	}
	wg.Wait()
	if found != "" {
		t.Fatal(found)
	}
	t.Logf("%d crawls", next)
}

// eScripted runs one worker on scripted steps, for what crawls hardly meet.
func eScriptedReplay(t *testing.T, id string) {
	fail := func(f string, a ...any) {
		if strings.Contains(strings.SplitN(f, ":", 2)[0], id) {
			t.Fatalf(f, a...)
		}
	}
	// cancellation while waiting for a slot
	for i := 0; i < 20; i++ {
		w := &eWorldReplay{rnd: rand.New(rand.NewSource(1)), pages: map[string]*ePageReplay{}, robots: map[string]string{}, seen: map[string]bool{},
			bodies: map[string][]*eBodyReplay{}, working: map[string]bool{}}
		w.inner = MemoryQueue(1)
		ctx, cancel := context.WithCancel(context.Background())
		block := make(chan struct{})
		w.pages["http://h0.test/a"] = &ePageReplay{url: "http://h0.test/a", status: 200}
		w.pages["http://h0.test/b"] = &ePageReplay{url: "http://h0.test/b", status: 200}
		eng, err := NewEngine(EngineConfig{Scraper: eBlockReplay{w, block}, Deduper: w, Queue: eQueueReplay{w}, Fetcher: &Fetcher{Client: w, MaxAttempts: 1}, Impolite: true, Workers: 1, Concurrency: 1})
		if err != nil {
			t.Fatal(err)
		}
		res := make(chan error, 1)
		go func() { res <- eng.Run(ctx, "http://h0.test/a", "http://h0.test/b") }()
		for k := 0; k < 1000; k++ {
			w.mu.Lock()
			n := 0
			for _, e := range w.events {
				if e.kind == "dequeue" {
					n++
				}
			}
			w.mu.Unlock()
			if n == 2 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
		cancel()
		time.Sleep(2 * time.Millisecond)
		close(block)
		select {
		case <-res:
		case <-time.After(5 * time.Second):
			fail("C05: Run hangs after cancellation while a URL waits for a slot")
			return
		}
		w.mu.Lock()
		n := map[string]int{}
		for _, e := range w.events {
			if e.kind == "done" {
				n[e.u]++
			}
		}
		out := len(w.got)
		w.mu.Unlock()
		for u, k := range n {
			if k != 1 {
				fail("C05: %q is acknowledged %d times when cancelled while waiting for a slot", u, k)
			}
		}
		if out > 0 {
			fail("C05: a URL cancelled while waiting for a slot is not acknowledged")
		}
	}
}

type eBlockReplay struct {
	*eWorldReplay
	ch chan struct{}
}

func (b eBlockReplay) Scrape(ctx context.Context, p *Page) (URLs, error) {
	b.log("scrape", p.URL.String(), true)
	<-b.ch
	return nil, nil
}

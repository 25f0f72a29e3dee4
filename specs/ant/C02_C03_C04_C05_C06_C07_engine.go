package ant

import (
	"context"
	"io"
	"net/http"
	"net/url"

	"github.com/yields/ant/internal/robots"
	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
	"golang.org/x/sync/errgroup"
	"golang.org/x/sync/semaphore"
)

// accepts is the matcher's answer for a URL.
func acceptsSpec(u *URL) bool { return v.UF[bool]("accepts", u) }

// kept is those of the first n URLs that the matcher accepts.
//
//verif:rec
func keptSpec(q v.Seq[*URL], n int) v.Seq[*URL] {
	if n <= 0 {
		return v.EmptySeq[*URL]()
	}
	u := q.At(n - 1)
	return keptSpec(q, n-1).Concat(v.Ite(v.UF[bool]("accepts", u), v.UnitSeq(u), v.EmptySeq[*URL]()))
}

// badURL tells whether the raw URL is refused.
func badURLSpec(s string) bool {
	u, ok := zzm.ParsedURL(s)
	return v.Or(!ok, v.And(u.Scheme != "http", u.Scheme != "https"))
}

// The roles of a goroutine.
const (
	callerSpec = iota
	workerSpec
	handlerSpec
)

//verif:property C02
//verif:covers every Enqueue: any configuration (of what Enqueue uses), any URLs, any outcome of every step
func verif_C02_enqueue(c EngineConfig, ctx context.Context, raws []string, i, j int) {
	v.Requires(v.And(c.Workers > 0, c.Concurrency <= 0))
	engineSpec(c, ctx, false, raws, i, j)
}

//verif:property C02 C03 C04 C05 C06 C07
//verif:covers every Run: any configuration, any URLs, any outcome of every step
func verif_C02_run(c EngineConfig, ctx context.Context, raws []string, i, j int) {
	engineSpec(c, ctx, true, raws, i, j)
}

// engine is the specification of the engine.
func engineSpec(c EngineConfig, ctx context.Context, run bool, raws []string, i, j int) {
	v.Requires(v.And(c.Scraper != nil, v.And(c.Deduper != nil, v.And(c.Queue != nil, c.Fetcher != nil))))
	v.Requires(v.And(0 <= j, j < len(raws)))
	R := v.SeqOf(raws)
	polite := !c.Impolite
	limited := c.Concurrency > 0
	role := callerSpec
	ua := string(UserAgent)

	// the batch on its way to the queue
	var given v.Seq[*URL]         // parsed or scraped
	var normed v.GMap[*URL, bool] // normalised
	var asked v.Seq[*URL]         // given to the de-duplicator
	var passed v.Seq[*URL]        // passed by it
	var queued v.Seq[*URL]        // given to the queue
	broke := false                // the de-duplicator or queue failed
	begun := false                // Run has queued the start URLs
	given, asked, passed, queued = v.EmptySeq[*URL](), v.EmptySeq[*URL](), v.EmptySeq[*URL](), v.EmptySeq[*URL]()

	// the URL in hand
	var u *URL
	have := false // taken and not acknowledged
	slot := 0     // slots held for it
	var consulted, allowed, disallowed, askFailed bool
	var limits, delays, fetches, scrapes, closes int
	var limitOK, delayOK, failed, drained bool
	var page *Page
	var body io.ReadCloser
	var scrapeOK bool

	// the groups
	var outer, inner *errgroup.Group
	var outerErr, innerErr error
	innerWaited, workerClosed := false, false
	queueWaited, queueClosed, outerWaited, started := false, false, false, false

	step := func() {
		v.Assert("C06: a URL is processed in a slot only", v.Imp(v.And(limited, role != callerSpec), slot == 1))
	}
	complete := func() bool {
		return v.And(asked.Eq(v.Ite(c.Matcher == nil, given, keptSpec(given, given.Len()))), queued.Eq(passed))
	}

	v.Stub("net/url.Parse", func(s string) (*url.URL, error) {
		p, ok := zzm.ParsedURL(s)
		if !ok {
			return nil, &url.Error{Op: "parse", URL: s}
		}
		r := new(url.URL)
		*r = p
		given = given.Append(r)
		return r, nil
	})
	v.Stub("ant/internal/normalize.URL", func(x *url.URL) *url.URL {
		normed.Set(x, true)
		return x
	})
	v.Stub("(ant.Matcher).Match", func(m Matcher, x *URL) bool {
		v.Assert("C02: the configured matcher is asked about normalised URLs", v.And(m == c.Matcher, normed.Get(x)))
		step()
		return acceptsSpec(x)
	})
	v.Stub("(ant.Deduper).Dedupe", func(d Deduper, cx context.Context, urls URLs) (URLs, error) {
		in := v.SeqOf(urls)
		v.Assert("C02: only normalised URLs are de-duplicated", v.Imp(v.And(0 <= i, i < in.Len()), normed.Get(in.At(i))))
		v.Assert("C02: the de-duplicator is asked", d == c.Deduper)
		v.Assert("C02: the URLs are those that were given", v.Imp(v.And(role == callerSpec, j < given.Len()), given.At(j) != nil && v.Same(*given.At(j), v.UF[url.URL]("url.Parse", R.At(j)))))
		step()
		asked = asked.Concat(in)
		out, err := v.AnyFresh[URLs](), v.Any[error]()
		broke = v.Or(broke, err != nil)
		passed = v.Ite(err == nil, passed.Concat(v.SeqOf(out)), passed)
		return out, err
	})
	v.Stub("(ant.Queue).Enqueue", func(q Queue, cx context.Context, urls URLs) error {
		queued = queued.Concat(v.SeqOf(urls))
		v.Assert("C02: only URLs that the de-duplicator passed are queued, in order", passed.HasPrefix(queued))
		v.Assert("C02: the configured queue is used", q == c.Queue)
		v.Assert("C05: what a page led to is queued before the page is acknowledged", v.Imp(role != callerSpec, have))
		step()
		err := v.Any[error]()
		broke = v.Or(broke, err != nil)
		return err
	})

	// one URL
	v.Stub("ant/internal/robots.NewCache", func(cl *http.Client, n int) *robots.Cache {
		r := v.AnyFresh[*robots.Cache]()
		v.Assume(r != nil)
		return r
	})
	v.Stub("(*ant/internal/robots.Cache).Allowed", func(rc *robots.Cache, cx context.Context, req robots.Request) (bool, error) {
		v.Assert("C03: robots.txt is consulted for the URL and the user agent", v.And(req.URL == u, req.UserAgent == ua))
		step()
		ok, err := v.Any[bool](), v.Any[error]()
		consulted = true
		allowed = v.And(ok, err == nil)
		disallowed = v.Or(disallowed, v.And(!ok, err == nil))
		askFailed = v.Or(askFailed, err != nil)
		failed = v.Or(failed, err != nil)
		return ok, err
	})
	v.Stub("(ant.Limiter).Limit", func(l Limiter, cx context.Context, x *URL) error {
		v.Assert("C03: a disallowed URL is not limited", !disallowed)
		v.Assert("C04: the limiter is called with the URL, once", v.And(l == c.Limiter, v.And(x == u, limits == 0)))
		step()
		err := v.Any[error]()
		limits++
		limitOK = err == nil
		failed = v.Or(failed, err != nil)
		return err
	})
	v.Stub("(*ant/internal/robots.Cache).Wait", func(rc *robots.Cache, cx context.Context, req robots.Request) error {
		v.Assert("C04: the crawl delay is the URL's, once", v.And(v.And(req.URL == u, req.UserAgent == ua), delays == 0))
		step()
		err := v.Any[error]()
		delays++
		delayOK = err == nil
		failed = v.Or(failed, err != nil)
		return err
	})
	v.Stub("(*ant.Fetcher).Fetch", func(f *Fetcher, cx context.Context, x *URL) (*Page, error) {
		v.Assert("C03: only a URL that robots.txt allows is fetched", v.Imp(polite, v.And(consulted, v.And(allowed, v.And(!disallowed, !askFailed)))))
		v.Assert("C04: the limiter let it pass before", v.Imp(c.Limiter != nil, v.And(limits == 1, limitOK)))
		v.Assert("C04: the crawl delay was waited for before", v.Imp(polite, v.And(delays == 1, delayOK)))
		v.Assert("C04: each wait is for one fetch, of the URL", v.And(x == u, fetches == 0))
		v.Assert("C05: a URL is fetched before it is acknowledged", have)
		v.Assert("C07: the configured fetcher is used", f == c.Fetcher)
		step()
		fetches++
		p, err := v.AnyFresh[*Page](), v.Any[error]()
		b := v.Any[io.ReadCloser]()
		v.Assume(v.Imp(err != nil, p == nil))
		if p != nil {
			v.Assume(v.And(p.body == b, b != nil))
		}
		page, body = p, b
		failed = v.Or(failed, err != nil)
		return p, err
	})
	v.Stub("(ant.Scraper).Scrape", func(s Scraper, cx context.Context, p *Page) (URLs, error) {
		v.Assert("C07: the fetched page is scraped, once", v.And(s == c.Scraper, v.And(p != nil, v.And(p == page, scrapes == 0))))
		v.Assert("C07: the page is open for the scraper", v.And(closes == 0, !drained))
		step()
		scrapes++
		out, err := v.AnyFresh[URLs](), v.Any[error]()
		given = v.Ite(err == nil, v.SeqOf(out), v.EmptySeq[*URL]())
		scrapeOK = err == nil
		failed = v.Or(failed, err != nil)
		return out, err
	})
	v.Stub("ant/internal/zzm.Drain", func(r io.Reader) (int64, error) {
		v.Assert("C07: the page is drained after it was scraped", v.And(scrapes == 1, r == io.Reader(body)))
		drained = true
		return v.Any[int64](), v.Any[error]()
	})
	v.Stub("(io.ReadCloser).Close", func(rc io.ReadCloser) error {
		v.Assert("C07: the page is closed after it was scraped and drained", v.And(scrapes == 1, v.And(drained, rc == body)))
		closes++
		return v.Any[error]()
	})
	v.Stub("(ant.Queue).Done", func(q Queue, cx context.Context, x *URL) error {
		v.Assert("C05: a URL is acknowledged once, after it was taken", v.And(role != callerSpec, have))
		v.Assert("C05: as the URL that was taken", v.And(x == u, q == c.Queue))
		v.Assert("C05: after everything its page led to was queued", v.Imp(v.And(scrapeOK, !broke), complete()))
		have = false
		return v.Any[error]()
	})

	// workers
	if run {
		// as verif_C02_enqueue specifies it
		v.Stub("(*ant.Engine).Enqueue", func(e *Engine, cx context.Context, urls ...string) error {
			v.Assert("C02: the start URLs are queued", v.And(role == callerSpec, v.And(!begun, v.SeqOf(urls).Eq(R))))
			begun = true
			err := v.Any[error]()
			broke = v.Or(broke, err != nil)
			return err
		})
	}
	v.Stub("(ant.Queue).Dequeue", func(q Queue, cx context.Context) (*URL, error) {
		v.Assert("C05: the URL taken before is in someone's hands", !have)
		x, err := v.Any[*URL](), v.Any[error]()
		v.Assume(v.Imp(err == nil, x != nil))
		u, have = x, err == nil
		return x, err
	})
	v.Stub("golang.org/x/sync/semaphore.NewWeighted", func(n int64) *semaphore.Weighted {
		v.Assert("C06: as many slots as the limit", v.And(limited, int(n) == c.Concurrency))
		r := v.AnyFresh[*semaphore.Weighted]()
		v.Assume(r != nil)
		return r
	})
	v.Stub("(*golang.org/x/sync/semaphore.Weighted).Acquire", func(w *semaphore.Weighted, cx context.Context, n int64) error {
		v.Assert("C06: one slot for each URL", v.And(limited, v.And(slot == 0, n == 1)))
		err := v.Any[error]()
		slot = v.Ite(err == nil, 1, 0)
		return err
	})
	v.Stub("(*golang.org/x/sync/semaphore.Weighted).Release", func(w *semaphore.Weighted, n int64) {
		v.Assert("C06: a slot is given back once", v.And(n == 1, slot == 1))
		slot = 0
	})
	v.Stub("golang.org/x/sync/errgroup.WithContext", func(cx context.Context) (*errgroup.Group, context.Context) {
		g, sub := v.AnyFresh[*errgroup.Group](), v.Any[context.Context]()
		v.Assume(v.And(g != nil, sub != nil))
		return g, sub
	})
	v.Stub("(*golang.org/x/sync/errgroup.Group).Go", func(g *errgroup.Group, f func() error) {
		if role == callerSpec {
			v.Assert("C07: one group of workers", v.And(!started || g == outer, !outerWaited))
			outer, started = g, true
			go func() {
				role, have, slot = workerSpec, false, 0
				inner, innerErr, innerWaited, workerClosed = nil, nil, false, false
				err := f()
				v.Assert("C05: a worker leaves no URL behind", !have)
				v.Assert("C06: a worker leaves no slot taken", slot == 0)
				v.Assert("C07: an error of a URL is the worker's", v.Imp(innerErr != nil, err != nil))
				v.Assert("C07: a worker waits for its URLs", v.Or(err != nil, innerWaited))
				v.Assert("C05: a failed worker closes the queue", v.Imp(err != nil, workerClosed))
				v.Cover("workers end")
			}()
			return
		}
		v.Assert("C07: one group of URLs", v.And(inner == nil || g == inner, !innerWaited))
		v.Assert("C05: a URL goes with its goroutine", have)
		inner = g
		go func() {
			role = handlerSpec
			consulted, allowed, disallowed, askFailed = false, false, false, false
			limits, delays, fetches, scrapes, closes = 0, 0, 0, 0, 0
			limitOK, delayOK, failed, drained, scrapeOK, broke = false, false, false, false, false, false
			page = nil
			given, asked, passed, queued = v.EmptySeq[*URL](), v.EmptySeq[*URL](), v.EmptySeq[*URL](), v.EmptySeq[*URL]()
			normed.Clear()
			err := f()
			v.Assert("C05: the URL is acknowledged", !have)
			v.Assert("C06: the slot is given back", slot == 0)
			v.Assert("C03: a disallowed URL is dropped silently", v.Imp(v.And(disallowed, !askFailed), v.And(err == nil, fetches == 0)))
			v.Assert("C03: a failure to consult robots.txt is reported", v.Imp(askFailed, v.And(err != nil, fetches == 0)))
			v.Assert("C03: other URLs are fetched", v.Imp(v.And(!disallowed, !failed), fetches == 1))
			v.Assert("C04: a failure of a wait is reported", v.Imp(v.And(limits+delays > 0, v.Or(v.And(limits > 0, !limitOK), v.And(delays > 0, !delayOK))), v.And(err != nil, fetches == 0)))
			v.Assert("C07: failures are reported", v.Imp(v.Or(failed, broke), err != nil))
			v.Assert("C07: a missing page is no failure", v.Imp(v.And(!failed, !broke), err == nil))
			v.Assert("C07: a page is scraped, drained and closed", v.Imp(page != nil, v.And(scrapes == 1, v.And(drained, closes > 0))))
			v.Assert("C02 C07: exactly the accepted URLs of the page that the de-duplicator passed are queued", v.Imp(v.And(!failed, !broke), complete()))
			v.Cover("URLs are handled")
		}()
		have, slot = false, 0
	})
	v.Stub("(*golang.org/x/sync/errgroup.Group).Wait", func(g *errgroup.Group) error {
		err := v.Any[error]()
		if role == callerSpec {
			outerErr = v.Ite(v.And(started, g == outer), err, outerErr)
			outerWaited = v.Or(outerWaited, v.And(v.And(started, g == outer), queueClosed))
			return err
		}
		v.Assume(v.Imp(inner == nil, err == nil))
		innerErr = v.Ite(v.Or(inner == nil, g == inner), err, innerErr)
		innerWaited = v.Or(innerWaited, v.Or(inner == nil, g == inner))
		return err
	})
	v.Stub("(ant.Queue).Wait", func(q Queue) {
		v.Assert("C05: Run waits after the start URLs were queued", v.And(role == callerSpec, v.Or(begun, v.And(complete(), given.Len() == R.Len()))))
		queueWaited = true
	})
	v.Stub("(ant.Queue).Close", func(q Queue, cx context.Context) error {
		workerClosed = v.Or(workerClosed, role == workerSpec)
		v.Assert("C07: Run waits for the queue before it closes it", v.Imp(role == callerSpec, queueWaited))
		queueClosed = v.Or(queueClosed, role == callerSpec)
		return v.Any[error]()
	})

	v.Loop("", func() {
		v.Inv("nothing is in hand", v.And(!have, slot == 0))
	})
	v.Loop("", func() {
		v.Inv("not waited", v.And(!innerWaited, innerErr == nil))
	})
	v.Loop("", func() {
		v.Inv("not ended", !outerWaited)
	})
	v.Loop("", func(eg *errgroup.Group) {
		v.Inv("the group of workers", v.Imp(started, outer == eg))
		v.Inv("the group of URLs", v.Or(inner == nil, inner == eg))
	})
	v.Loop("Enqueue", func(b URLs, k v.Iter) {
		q := v.SeqOf(b)
		v.Inv("the batch is what was parsed", q.Eq(given))
		v.Inv("all of it", q.Len() == int(k))
		v.Inv("this one is parsed", v.Imp(j < int(k), q.At(j) != nil && v.Same(*q.At(j), v.UF[url.URL]("url.Parse", R.At(j)))))
		v.Inv("this one is good", v.Imp(j < int(k), !badURLSpec(R.At(j))))
	})
	v.Loop("enqueue", func(batch URLs, k v.Iter) {
		v.Inv("the batch stays", v.SeqOf(batch).Eq(given))
		v.Inv("normalised so far", v.ForallIn(0, int(k), func(n int) bool { return normed.Get(given.At(n)) }))
	})
	v.Loop("matches", func(ret URLs, k v.Iter) {
		r := v.SeqOf(ret)
		v.Inv("the accepted ones", r.Eq(keptSpec(given, int(k))))
		v.Inv("normalised", v.Imp(v.And(0 <= i, i < r.Len()), normed.Get(r.At(i))))
	})
	v.Loop("matches", func(urls URLs) {
		v.Inv("the batch stays", v.SeqOf(urls).Eq(given))
	})

	eng, err := NewEngine(c)
	v.Ensures("C02: an engine", v.And(err == nil, eng != nil))
	if run {
		err = eng.Run(ctx, raws...)
	} else {
		err = eng.Enqueue(ctx, raws...)
	}
	good := v.ForallIn(0, R.Len(), func(k int) bool { return !badURLSpec(R.At(k)) })
	if !run {
		v.Ensures("C02: a bad URL refuses the whole batch", v.Imp(badURLSpec(R.At(j)), v.And(err != nil, queued.Len() == 0)))
	}
	v.Ensures("C02: failures are returned", v.Imp(broke, err != nil))
	if run {
		v.Ensures("C07: failures of workers are returned", v.Imp(outerErr != nil, err != nil))
		v.Ensures("C07: Run waits for the queue and closes it before it reports", v.Imp(v.And(v.Or(begun, good), !broke), v.And(queueWaited, queueClosed)))
		v.Ensures("C07: Run reports after its workers ended", v.Or(err != nil, v.Or(outerWaited, !started)))
		return
	}
	v.Ensures("C02: good URLs are not refused", v.Imp(v.And(good, !broke), err == nil))
	v.Ensures("C02: exactly the accepted URLs that the de-duplicator passed are queued", v.Imp(err == nil, v.And(complete(), given.Len() == R.Len())))
}

package ant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"testing/iotest"
	"testing/synctest"
	"time"
)

type fErrReplay struct{ temp bool }

func (e fErrReplay) Error() string   { return "network" }
func (e fErrReplay) Temporary() bool { return e.temp }

type fTempOnlyReplay struct{ fErrReplay }

type fStepReplay struct {
	status int
	err    error
	both   bool // a response together with the error
	final  string
	body   string
}

type fBodyReplay struct {
	r      io.Reader
	eof    bool
	closed int
}

func (b *fBodyReplay) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		b.eof = true
	}
	return n, err
}
func (b *fBodyReplay) Close() error { b.closed++; return nil }

func fReaderReplay(s string) io.Reader {
	switch len(s) {
	case 70000:
		return iotest.DataErrReader(strings.NewReader(s))
	case 300000:
		return iotest.HalfReader(strings.NewReader(s))
	}
	return strings.NewReader(s)
}

// fDeadline is a context that ends by its deadline.
type fDeadlineReplay struct{ context.Context }

func (c fDeadlineReplay) Err() error {
	if c.Context.Err() != nil {
		return context.DeadlineExceeded
	}
	return nil
}

type fClientReplay struct {
	steps []fStepReplay
	reqs  []*http.Request
	at    []time.Time
	ctxs  []context.Context
	bads  []string
	resps []*http.Response
	after func(n int) // called when a response is about to be returned
	open  func() string
}

func (c *fClientReplay) Do(r *http.Request) (*http.Response, error) {
	if s := c.open(); s != "" {
		c.bads = append(c.bads, s)
	}
	n := len(c.reqs)
	c.reqs = append(c.reqs, r)
	c.at = append(c.at, time.Now())
	st := c.steps[len(c.steps)-1]
	if n < len(c.steps) {
		st = c.steps[n]
	}
	var resp *http.Response
	if st.err == nil || st.both {
		q := r
		if st.final != "" {
			u, _ := url.Parse(st.final)
			q = &http.Request{URL: u}
		}
		resp = &http.Response{StatusCode: st.status, Header: http.Header{"X-N": {fmt.Sprint(n)}}, Body: &fBodyReplay{r: fReaderReplay(st.body)}, Request: q}
		c.resps = append(c.resps, resp)
	} else {
		c.resps = append(c.resps, nil)
	}
	if c.after != nil {
		c.after(n)
	}
	return resp, st.err
}

func fTempReplay(st fStepReplay) bool {
	if st.err != nil {
		var t interface{ Temporary() bool }
		return errors.As(st.err, &t) && t.Temporary()
	}
	return st.status == 429 || st.status == 503 || st.status == 504
}

// fetchTrial fetches once and returns what is wrong.
func fetchTrialReplay(t *testing.T, seed int64) (bad []string) {
	synctest.Test(t, func(t *testing.T) { bad = fetchTrial1Replay(seed) })
	return
}

func fetchTrial1Replay(seed int64) (bad []string) {
	rnd := rand.New(rand.NewSource(seed))
	pick := func(xs ...int) int { return xs[rnd.Intn(len(xs))] }
	c := &fClientReplay{}
	c.open = func() string {
		for i, r := range c.resps {
			if r == nil {
				continue
			}
			if b := r.Body.(*fBodyReplay); !b.eof || b.closed == 0 {
				return fmt.Sprintf("C10: response %d is read to the end: %v, closed: %v, when the next request is sent", i, b.eof, b.closed > 0)
			}
		}
		return ""
	}
	n := 1 + rnd.Intn(9)
	for i := 0; i < n; i++ {
		st := fStepReplay{status: pick(200, 200, 204, 301, 399, 400, 404, 403, 500, 502, 503, 504, 429, 503, 429, 504, 100+rnd.Intn(500)), body: strings.Repeat("x", pick(0, 1, 5000, 5000, 70000, 300000))}
		if i < n-1 && rnd.Intn(4) > 0 {
			st.status = pick(503, 504, 429)
		}
		if rnd.Intn(4) == 0 {
			var e error = fErrReplay{rnd.Intn(3) > 0}
			switch rnd.Intn(5) {
			case 0:
				e = fmt.Errorf("wrapped: %w", e)
			case 1:
				e = &url.Error{Op: "Get", URL: "x", Err: e}
			case 2:
				e = errors.New("plain")
			case 3:
				e = fmt.Errorf("a: %w", fmt.Errorf("b: %w", e))
			}
			st.err, st.both = e, rnd.Intn(3) == 0
		}
		if rnd.Intn(3) == 0 {
			st.final = "https://final.test/q?x=1"
		}
		c.steps = append(c.steps, st)
	}
	f := &Fetcher{Client: c, MaxAttempts: pick(-1, 0, 1, 2, 3, 5, 8)}
	ms := time.Millisecond
	f.MinBackoff = []time.Duration{-1, 0, 0, 1, ms, 7 * ms, 60 * ms, time.Hour, 3 * time.Second, 1 << 61}[rnd.Intn(10)]
	f.MaxBackoff = []time.Duration{-1, 0, 0, 2, 10 * ms, 100 * ms, time.Second, 2 * time.Hour, 5 * time.Second, 1 << 50, 1 << 62}[rnd.Intn(11)]
	if f.MaxBackoff == 1<<62 {
		f.MaxAttempts = pick(1, 2, 3)
	}
	ua := "antbot"
	if rnd.Intn(2) == 0 {
		ua = []string{"", "my agent/1.0"}[rnd.Intn(2)]
		f.UserAgent = StaticAgent(ua)
	}
	if rnd.Intn(5) == 0 {
		f.Client = nil
		old := DefaultClient
		DefaultClient = &http.Client{Transport: rtClientReplay{c}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		defer func() { DefaultClient = old }()
		for i := range c.steps {
			c.steps[i].both = false
			if c.steps[i].err != nil {
				c.steps[i].err = fErrReplay{rnd.Intn(3) > 0}
			}
			if c.steps[i].status < 200 {
				c.steps[i].status = 200
			}
			c.steps[i].final = ""
		}
	}
	raw := []string{"http://a.test/", "https://u:p@a.test:8080/x%2fy?b=2&a=1", "http://a.test/p?q#frag", "http://[::1]/z"}[rnd.Intn(4)]
	u, _ := url.Parse(raw)
	want := u.String()
	type key struct{}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, seed))
	defer cancel()
	ends := context.Canceled
	if rnd.Intn(2) == 0 {
		ctx, ends = fDeadlineReplay{ctx}, context.DeadlineExceeded
	}
	var cancelAfter time.Duration
	cancelAt := -1
	if rnd.Intn(4) == 0 {
		cancelAt = rnd.Intn(4)
		c.after = func(n int) {
			if n == cancelAt {
				d := []time.Duration{0, 1, 500 * time.Microsecond, 30 * ms}[rnd.Intn(4)]
				cancelAfter = d
				if d == 0 {
					cancel()
				} else {
					go func() {
						select {
						case <-time.After(d):
							cancel()
						case <-ctx.Done():
						}
					}()
				}
			}
		}
	}
	conf := strings.Replace(fmt.Sprintf(" [trial %d: max %d, backoff %d..%d, steps %+v, cancelled at %d, %s]", seed, f.MaxAttempts, f.MinBackoff, f.MaxBackoff, c.steps, cancelAt, raw), "xx", "", -1)
	say := func(format string, a ...any) { bad = append(bad, fmt.Sprintf(format, a...)+conf) }
	page, err := f.Fetch(ctx, u)
	returned := time.Now()
	max := f.MaxAttempts
	if max <= 0 {
		max = 5
	}
	min, lim := f.MinBackoff, f.MaxBackoff
	if min <= 0 {
		min = 50 * ms
	}
	if lim <= 0 {
		lim = time.Second
	}
	for _, b := range c.bads {
		say("%s", b)
	}
	if u.String() != want {
		say("C10: the URL is changed to %q", u)
	}
	if len(c.reqs) < 1 || len(c.reqs) > max {
		say("C09: %d requests with a budget of %d", len(c.reqs), max)
	}
	for i, r := range c.reqs {
		if r.Method != "GET" || r.URL.String() != want && strings.TrimSuffix(want, "#frag") != r.URL.String() {
			say("C10: request %d is %s %s", i, r.Method, r.URL)
		}
		if r.Body != nil && r.Body != http.NoBody {
			say("C10: request %d has a body", i)
		}
		if r.Context().Value(key{}) != any(seed) {
			say("C10: request %d is not bound to the caller's context", i)
		}
		if g := r.Header.Get("User-Agent"); g != ua || len(r.Header["User-Agent"]) != 1 {
			say("C10: request %d has the user agent %q", i, r.Header["User-Agent"])
		}
		if !strings.Contains(r.Header.Get("Accept"), "text/html") {
			say("C10: request %d accepts %q", i, r.Header.Get("Accept"))
		}
	}
	if len(c.reqs) == 0 {
		return
	}
	var used *fBodyReplay
	last := c.steps[len(c.steps)-1]
	if k := len(c.reqs) - 1; k < len(c.steps) {
		last = c.steps[k]
	}
	lr := c.resps[len(c.resps)-1]
	switch {
	case last.err == nil && last.status < 400:
		if page == nil || err != nil {
			say("C09: status %d gives %v, %v", last.status, page, err)
			break
		}
		used = lr.Body.(*fBodyReplay)
		if f.Client != nil {
			wantURL := want
			if last.final != "" {
				wantURL = last.final
			}
			if page.URL.String() != wantURL {
				say("C09: the page's URL is %q", page.URL)
			}
			if page.body != io.ReadCloser(used) {
				say("C09: the page has another body")
			}
		}
		if page.Header.Get("X-N") != lr.Header.Get("X-N") {
			say("C09: the page has the headers %v", page.Header)
		}
		if used.eof || used.closed > 0 {
			say("C10: the page's body is consumed")
		}
	case last.err == nil && last.status == 404:
		if page != nil || err != nil {
			say("C09: status 404 gives %v, %v", page, err)
		}
	default:
		if page != nil || err == nil {
			say("C09: failure %d %v gives %v, %v", last.status, last.err, page, err)
		}
	}
	for i, r := range c.resps {
		if r != nil && r.Body.(*fBodyReplay) != used {
			if b := r.Body.(*fBodyReplay); !b.eof || b.closed == 0 {
				say("C10: response %d is read to the end: %v, closed: %v", i, b.eof, b.closed > 0)
			}
		}
	}
	// the waits
	wait := func(n int) time.Duration {
		d := lim
		if nn := time.Duration(n) * time.Duration(n); nn <= lim/min {
			if x := nn * min; x < lim {
				d = x
			}
		}
		return d
	}
	step := func(i int) fStepReplay {
		if i < len(c.steps) {
			return c.steps[i]
		}
		return c.steps[len(c.steps)-1]
	}
	for i := 0; i+1 < len(c.reqs); i++ {
		if !fTempReplay(step(i)) {
			say("C09: request %d is sent although %d %v is not temporary", i+2, step(i).status, step(i).err)
		}
		if i == cancelAt && cancelAfter < wait(i+1) {
			say("C11: request %d is sent although the context ended during the wait for it", i+2)
		}
		if min >= lim {
			say("C11: request %d is sent although the back-off is misconfigured", i+2)
		} else if d := c.at[i+1].Sub(c.at[i]); d != wait(i+1) {
			say("C11: %s between the requests %d and %d instead of %s", d, i+1, i+2, wait(i+1))
		}
	}
	if k := len(c.reqs); fTempReplay(last) && !(last.err == nil && last.status < 400) {
		d := returned.Sub(c.at[k-1])
		over := ctx.Err() != nil && err != nil && errors.Is(err, ends)
		switch {
		case min >= lim:
		case k < max && !over:
			say("C09: only %d requests although %d %v is temporary: %v", k, last.status, last.err, err)
		case over && d > wait(k):
			say("C11: Fetch returns %s after the last request", d)
		}
		if over && cancelAt >= 0 && cancelAt == k-1 && d > 30*ms {
			say("C11: Fetch returns %s after the context ended in its wait", d)
		}
		if k >= max && d > wait(k) {
			say("C11: Fetch returns %s after its last attempt", d)
		}
	} else if d := returned.Sub(c.at[k-1]); d != 0 {
		say("C09: Fetch waits %s although nothing is sent any more", d)
	}
	if cancelAt >= 0 && ctx.Err() != nil && page == nil && len(c.reqs) == cancelAt+1 && len(c.reqs) < max && fTempReplay(last) && min < lim {
		if !errors.Is(err, ends) {
			say("C11: Fetch fails with %v instead of the context's error", err)
		}
	}
	return
}

type rtClientReplay struct{ c *fClientReplay }

func (r rtClientReplay) RoundTrip(q *http.Request) (*http.Response, error) {
	resp, err := r.c.Do(q)
	return resp, err
}

func fetchesReplay(t *testing.T, id string, d time.Duration) {
	end := time.Now().Add(d)
	for seed := int64(1); time.Now().Before(end); seed++ {
		for _, b := range fetchTrialReplay(t, seed) {
			if strings.HasPrefix(b, id) {
				t.Fatal(b)
			}
		}
	}
}

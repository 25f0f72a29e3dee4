package ant

import (
	"context"
	"errors"
	"io"
	"net/http"
	"time"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

// tempErr tells whether the error reports itself temporary.
func tempErrSpec(err error) bool {
	var t interface{ Temporary() bool }
	return errors.As(err, &t) && t.Temporary()
}

//verif:property C09 C10 C11
//verif:covers every fetch: any number of attempts, any outcomes
func verif_C09_fetch(f *Fetcher, ctx context.Context, u *URL, ua string, name string) {
	v.Requires(v.And(f != nil, v.And(ctx != nil, u != nil)))
	text := u.String()
	_, parses := zzm.ParsedURL(text)
	max := v.Ite(f.MaxAttempts > 0, f.MaxAttempts, 5)
	lo := v.Ite(f.MinBackoff > 0, f.MinBackoff, 50*time.Millisecond)
	hi := v.Ite(f.MaxBackoff > 0, f.MaxBackoff, time.Second)
	custom := f.UserAgent != nil
	client := f.Client
	sends := 0
	temp := false           // the last request failed temporarily
	var waited bool         // and was waited for
	var ended bool          // the context ended
	var status int          // the last status, 0 if none
	var failed bool         // the client failed
	var open bool           // the last response is neither drained nor closed
	var drained bool        // it is drained
	var last *http.Response // the last response
	var ctxErr error        // the context's error
	var clientErr error     // the client's error
	var body io.ReadCloser  // the last response's body

	v.Stub("(fmt.Stringer).String", func(s interface{ String() string }) string { return ua })
	v.Stub("(interface{Temporary() bool}).Temporary", func(e interface{ Temporary() bool }) bool {
		return v.UF[bool]("temporary", e)
	})
	uaWant := v.Ite(custom, ua, UserAgent.String())
	cn := zzm.Canon(name)
	do := func(cl Client, r *http.Request) (*http.Response, error) {
		v.Assert("C09: within the attempt budget", sends < max)
		v.Assert("C09: another request only after a temporary failure", v.Imp(sends > 0, temp))
		v.Assert("C11: and after waiting", v.Imp(sends > 0, waited))
		v.Assert("C11: never after the context ended the wait", !ended)
		v.Assert("C10: the earlier response is drained and closed", !open)
		v.Assert("C10: a GET", r.Method == "GET")
		w, _ := zzm.ParsedURL(text)
		v.Assert("C10: for exactly the URL", v.Same(*r.URL, w))
		v.Assert("C10: bound to the caller's context", r.Context() == ctx)
		v.Assert("C10: without a body", r.Body == nil)
		v.Assert("C10: through the configured client", v.Imp(client != nil, cl == client))
		v.Assert("C10: or the default one", v.Imp(client == nil, cl == DefaultClient))
		v.Assert("C10: with the user agent", r.Header.Get("User-Agent") == uaWant)
		v.Assert("C10: accepting HTML", r.Header.Get("Accept") == "text/html; charset=UTF-8")
		v.Assert("C10: nothing else", v.Imp(v.And(cn != "User-Agent", cn != "Accept"), len(r.Header[cn]) == 0))
		sends++
		waited, drained, open = false, false, false
		resp, err := v.AnyFresh[*http.Response](), v.Any[error]()
		b := v.Any[io.ReadCloser]()
		v.Assume(v.Imp(err == nil, resp != nil))
		if resp != nil {
			v.Assume(v.And(b != nil, v.And(resp.Body == b, v.Imp(err == nil, v.And(resp.Request != nil, resp.Request.URL != nil)))))
			open = true
		}
		last, body, failed, clientErr = resp, b, err != nil, err
		status = 0
		if err != nil {
			temp = tempErrSpec(err)
		} else {
			status = resp.StatusCode
			temp = v.Or(status == 429, v.Or(status == 503, status == 504))
		}
		return resp, err
	}
	v.Stub("(ant.Client).Do", do)
	v.Stub("(*net/http.Client).Do", func(c *http.Client, r *http.Request) (*http.Response, error) { return do(c, r) })
	v.Stub("ant/internal/zzm.Drain", func(r io.Reader) (int64, error) {
		v.Assert("C10: the last response is drained", v.And(open, r == io.Reader(body)))
		drained = true
		return v.Any[int64](), v.Any[error]()
	})
	v.Stub("(io.ReadCloser).Close", func(rc io.ReadCloser) error {
		v.Assert("C10: the last response is closed, once, after it is drained", v.And(open, v.And(drained, rc == body)))
		open = false
		return v.Any[error]()
	})
	want := func() time.Duration {
		return time.Duration(v.Ite(sends*sends*int(lo) < int(hi), sends*sends*int(lo), int(hi)))
	}
	v.Stub("chan.recv time.Time", func(ch <-chan time.Time) {
		v.Assert("C11: waits only between failures", v.And(temp, v.And(!waited, lo < hi)))
		v.Assert("C11: waits exactly the bounded square of the attempts", zzm.TimerDur(ch) == want())
		v.Assert("C10: nothing is held while waiting", !open)
		waited = true
	})
	v.Stub("time.Sleep", func(d time.Duration) {
		v.Assert("C11: the wait can be cancelled", false)
	})
	v.Stub("chan.recv struct{}", func(ch <-chan struct{}) {
		v.Assert("C11: only the context ends the wait", v.And(ch == zzm.CtxDone(ctx), temp))
		ended = true
	})
	v.Stub("(context.Context).Err", func(c context.Context) error {
		e := v.Any[error]()
		v.Assume(v.Imp(ended, e != nil))
		ctxErr = e
		return e
	})
	v.Loop("Fetch", func() {
		v.Inv("sends are counted", v.And(0 <= sends, sends <= max))
		v.Inv("not ended", !ended)
		v.Inv("nothing open", !open)
		v.Inv("waited for a temporary failure", v.Imp(sends > 0, v.And(temp, v.And(waited, lo < hi))))
		v.Inv("failed", v.Imp(v.And(sends > 0, !failed), v.Or(status == 429, v.Or(status == 503, status == 504))))
		v.Inv("parses", v.Imp(sends > 0, parses))
		v.Inv("nothing yet", v.Imp(sends == 0, v.And(!temp, !failed)))
	})
	v.Loop("Fetch", func(attempt int) {
		v.Inv("attempts are sends", attempt == sends)
	})
	v.Loop("Fetch", func(maxAttempts int) {
		v.Inv("the budget stays", maxAttempts == max)
	})
	v.Loop("Fetch", func(err error) {
		v.Inv("the client's error is kept", v.Imp(v.And(sends > 0, failed), errors.Is(err, clientErr)))
	})
	v.Loop("fetch", func(req *http.Request) {
		v.Inv("user agent copied", v.Imp(v.Visited("User-Agent"), req.Header.Get("User-Agent") == uaWant))
		v.Inv("accept copied", v.Imp(v.Visited("Accept"), req.Header.Get("Accept") == "text/html; charset=UTF-8"))
		v.Inv("nothing else copied", v.Imp(v.And(cn != "User-Agent", cn != "Accept"), len(req.Header[cn]) == 0))
	})
	h := v.Heap()
	page, err := f.Fetch(ctx, u)
	v.Ensures("C10: the given URL is unchanged", v.Same(*u, v.At(h, func() URL { return *u })))
	v.Ensures("C09: at least one request", v.Imp(parses, sends >= 1))
	v.Ensures("C09: at most the budget", sends <= max)
	ok := v.And(!failed, v.And(sends > 0, status < 400))
	if page != nil {
		v.Ensures("C09: a page means success", v.And(err == nil, ok))
		v.Ensures("C09: the page is the response's", v.And(page.URL == last.Request.URL, v.And(v.Same(page.Header, last.Header), page.body == body)))
		v.Ensures("C10: the page's body is left alone", v.And(open, !drained))
		return
	}
	v.Ensures("C09: success means a page", !ok)
	v.Ensures("C10: a response that is not returned is drained and closed", !open)
	v.Ensures("C09: exactly a 404 is neither a page nor an error", (err == nil) == v.And(sends > 0, v.And(!failed, status == 404)))
	v.Ensures("C09: a temporary failure is retried while there is budget", v.Imp(v.And(temp, v.And(lo < hi, !ended)), sends == max))
	v.Ensures("C11: the context's error is returned when it ends the wait", v.Imp(ended, err == ctxErr))
	v.Ensures("C11: a minimum that is not below the maximum is an error", v.Imp(v.And(temp, lo >= hi), v.And(err != nil, sends == 1)))
	v.Ensures("C09: the client's error is kept", v.Imp(v.And(v.And(failed, !ended), lo < hi), errors.Is(err, clientErr)))
}

//verif:property C09 C10
//verif:covers fetching a text with the default fetcher
func verif_C09_text(ctx context.Context, rawurl string, ok bool) {
	v.Requires(ctx != nil)
	u, parses := zzm.ParsedURL(rawurl)
	page := v.AnyFresh[*Page]()
	failure := v.Any[error]()
	v.Requires(v.And(page != nil, failure != nil))
	def := DefaultFetcher
	calls := 0
	v.Stub("(*ant.Fetcher).Fetch", func(f *Fetcher, c context.Context, g *URL) (*Page, error) {
		v.Assert("C10: with the default fetcher", f == def)
		v.Assert("C10: bound to the caller's context", c == ctx)
		v.Assert("C10: for exactly the URL", v.Same(*g, u))
		calls++
		if ok {
			return page, nil
		}
		return nil, failure
	})
	p, err := Fetch(ctx, rawurl)
	if !parses {
		v.Ensures("C09: a text that is no URL is an error", v.And(p == nil, err != nil))
		v.Ensures("C09: nothing is sent for it", calls == 0)
		return
	}
	v.Ensures("C10: one fetch", calls == 1)
	v.Ensures("C09: the fetch's page and error are returned", v.Ite(ok, v.And(p == page, err == nil), v.And(p == nil, err == failure)))
}

package antcdp

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strconv"

	"github.com/mafredri/cdp"
	"github.com/mafredri/cdp/protocol/dom"
	"github.com/mafredri/cdp/protocol/network"
	"github.com/mafredri/cdp/protocol/page"
	"github.com/mafredri/cdp/protocol/storage"
	"github.com/mafredri/cdp/rpcc"
	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

// statusText is the standard text of a status.
func statusTextSpec(code int) string { return v.UF[string]("http.statustext", code) }

// protoParts are the two texts around the first dot after the first slash.
func protoPartsSpec(s string) (major, minor string, ok bool) {
	j := v.StrIndex(s, "/", 0)
	rest := v.Ite(j < 0, "", s[j+1:])
	k := v.StrIndex(rest, ".", 0)
	ok = v.And(j >= 0, k >= 0)
	return v.Ite(ok, rest[:k], ""), v.Ite(ok, rest[k+1:], ""), ok
}

// cookieText is the text of a cookie with the fields.
func cookieTextSpec(name, value, domain, path string, httpOnly bool) string {
	return v.UF[string]("cookie.text", name, value, domain, path, httpOnly)
}

// protoNumber is the number a part of a protocol is, if it is one that fits.
func protoNumberSpec(s string, ok bool) (n int, fits bool) {
	num := v.And(ok, zzm.IsNum(s, 10))
	lo, hi := zzm.Bounds(64)
	return v.Ite(num, zzm.NumOf(s, 10), 0), v.Or(!num, v.And(lo <= zzm.NumOf(s, 10), zzm.NumOf(s, 10) <= hi))
}

//verif:property C31 C33
//verif:contract ant/antcdp.parseProto
//verif:covers every protocol
func contract_parseProto(s string) (int, int, bool) {
	x, y, ok := protoPartsSpec(s)
	a, afits := protoNumberSpec(x, ok)
	b, bfits := protoNumberSpec(y, ok)
	major, minor, good := parseProto(s)
	v.Ensures("C31 C33: there are numbers if there are a slash and a dot", good == ok)
	v.Ensures("C31 C33: the major number", v.Imp(afits, major == a))
	v.Ensures("C31 C33: the minor number", v.Imp(bfits, minor == b))
	return major, minor, good
}

//verif:property C31 C33
//verif:covers every request, all events, and any step failing
func verif_C31_C33_do(c *tx, ctx context.Context, name string, nth int) {
	req := c.request
	v.Requires(v.And(c != nil, v.And(req != nil, req.URL != nil)))
	v.Requires(v.And(ctx != nil, c.resp != nil))
	v.Requires(v.And(c.resp.Header == nil, v.And(c.resp.Request == req, v.And(c.resp.ProtoMajor == 0, c.resp.ProtoMinor == 0))))
	// failed tells whether a step of Chrome's failed, and last is its error.
	failed := false
	fail := func() error {
		e := v.Any[error]()
		failed = v.Or(failed, e != nil)
		return e
	}

	up := func(cx context.Context) error {
		v.Assert("C33: with the context", cx == ctx)
		return fail()
	}

	cl := c.client
	v.Requires(cl != nil)
	v.Requires(v.And(v.And(cl.Page != nil, cl.Network != nil), v.And(cl.DOM != nil, cl.Storage != nil)))
	reqs, ress, ready := c.events.req, c.events.res, c.events.ready
	v.Requires(v.And(reqs != nil, v.And(ress != nil, ready != nil)))
	v.Requires(rpcc.Stream(reqs) != rpcc.Stream(ress))
	navigated, finished, loaded := false, false, false
	ended, listed, waiting := false, false, false
	nav := v.AnyFresh[*page.NavigateReply]()
	v.Assume(nav != nil)
	v.Stub("(github.com/mafredri/cdp.Page).Navigate", func(p cdp.Page, cx context.Context, a *page.NavigateArgs) (*page.NavigateReply, error) {
		v.Assert("C31: the request's URL is navigated to, once", v.And(!navigated, a.URL == zzm.URLString(req.URL)))
		navigated = true
		e := up(cx)
		failed = v.Or(failed, nav.ErrorText != nil)
		return v.Ite(e == nil, nav, nil), e
	})
	v.Stub("github.com/mafredri/cdp/protocol/page.NewNavigateArgs", func(u string) *page.NavigateArgs { return &page.NavigateArgs{URL: u} })

	// Events.
	reqc, resc := v.Any[<-chan struct{}](), v.Any[<-chan struct{}]()
	v.Assume(v.And(reqc != resc, v.And(reqc != zzm.CtxDone(ctx), resc != zzm.CtxDone(ctx))))
	reqReady, resReady := false, false
	streamReady := func(s rpcc.Stream) <-chan struct{} {
		a := s == rpcc.Stream(reqs)
		v.Assert("C33: events are waited for", v.Or(a, s == rpcc.Stream(ress)))
		return v.Ite(a, reqc, resc)
	}
	v.Stub("(github.com/mafredri/cdp/rpcc.Stream).Ready", streamReady)
	v.Stub("(github.com/mafredri/cdp/protocol/network.RequestWillBeSentClient).Ready", func(s network.RequestWillBeSentClient) <-chan struct{} { return streamReady(s) })
	v.Stub("(github.com/mafredri/cdp/protocol/network.ResponseReceivedClient).Ready", func(s network.ResponseReceivedClient) <-chan struct{} { return streamReady(s) })
	v.Stub("chan.wait struct{}", func(ch <-chan struct{}, blocking bool) {
		waiting = v.Or(waiting, blocking)
		listed = v.Or(listed, v.And(blocking, ch == zzm.CtxDone(ctx)))
		v.Assert("C33: after the document's response nothing is waited for", v.Imp(blocking, !finished))
	})
	v.Stub("chan.recv struct{}", func(ch <-chan struct{}) {
		v.Assert("C32 C33: the context's end is waited for", v.Imp(waiting, listed))
		waiting, listed = false, false
		ended = v.Or(ended, ch == zzm.CtxDone(ctx))
		reqReady = v.Or(reqReady, ch == reqc)
		resReady = v.Or(resReady, ch == resc)
	})
	cerr := v.Any[error]()
	v.Stub("(context.Context).Err", func(cx context.Context) error {
		e := v.Ite(ended, cerr, v.Any[error]())
		v.Assume(v.Imp(ended, e != nil))
		return e
	})
	eventFailed := false
	var eventErr error
	recv := func() error {
		v.Assert("C33: events are received one at a time", v.And(navigated, v.And(!finished, !eventFailed)))
		e := fail()
		eventFailed, eventErr = e != nil, e
		return e
	}
	v.Stub("(github.com/mafredri/cdp/protocol/network.RequestWillBeSentClient).Recv", func(s network.RequestWillBeSentClient) (*network.RequestWillBeSentReply, error) {
		v.Assert("C33: an event is there", v.And(s == reqs, reqReady))
		reqReady = false
		return v.AnyFresh[*network.RequestWillBeSentReply](), recv()
	})
	var doc *network.ResponseReceivedReply
	v.Stub("(github.com/mafredri/cdp/protocol/network.ResponseReceivedClient).Recv", func(s network.ResponseReceivedClient) (*network.ResponseReceivedReply, error) {
		v.Assert("C33: an event is there", v.And(s == ress, resReady))
		resReady = false
		er := recv()
		e := v.AnyFresh[*network.ResponseReceivedReply]()
		v.Assume(e != nil)
		frame := nav.FrameID
		if e.FrameID != nil {
			frame = *e.FrameID
		}
		finished = v.And(er == nil, v.And(frame == nav.FrameID, e.Type == network.ResourceTypeDocument))
		doc = v.Ite(finished, e, nil)
		return v.Ite(er == nil, e, nil), er
	})
	v.Stub("(github.com/mafredri/cdp/protocol/page.DOMContentEventFiredClient).Recv", func(s page.DOMContentEventFiredClient) (*page.DOMContentEventFiredReply, error) {
		v.Assert("C33: the document is waited for once it responded", v.And(s == ready, finished))
		loaded = true
		e := fail()
		return v.AnyFresh[*page.DOMContentEventFiredReply](), e
	})

	// What Chrome reports.
	hdr := v.AnyFresh[map[string]string]()
	v.Assume(hdr != nil)
	v.Assume(v.Forall(func(k string) bool { // one of the headers has the name
		_, in := hdr[k]
		return v.Imp(v.And(in, zzm.Canon(k) == zzm.Canon(name)), k == name)
	}))
	value, reported := hdr[name]
	v.Stub("(github.com/mafredri/cdp/protocol/network.Headers).Map", func(h network.Headers) (map[string]string, error) {
		v.Assert("C31 C33: the document's headers are used", v.And(finished, v.Same(h, doc.Response.Headers)))
		e := fail()
		return v.Ite(e == nil, hdr, nil), e
	})
	v.Stub("net/http.StatusText", statusTextSpec)
	html := v.Any[string]()
	root := v.Any[dom.NodeID]()
	v.Stub("(github.com/mafredri/cdp.DOM).GetDocument", func(d cdp.DOM, cx context.Context, a *dom.GetDocumentArgs) (*dom.GetDocumentReply, error) {
		v.Assert("C31 C33: the document is read once it is ready", v.And(finished, loaded))
		e := up(cx)
		r := v.AnyFresh[*dom.GetDocumentReply]()
		v.Assume(v.And(r != nil, r.Root.NodeID == root))
		return v.Ite(e == nil, r, nil), e
	})
	v.Stub("(github.com/mafredri/cdp.DOM).GetOuterHTML", func(d cdp.DOM, cx context.Context, a *dom.GetOuterHTMLArgs) (*dom.GetOuterHTMLReply, error) {
		v.Assert("C31: the whole document is read", v.And(loaded, v.And(a.NodeID != nil, *a.NodeID == root)))
		e := up(cx)
		return v.Ite(e == nil, &dom.GetOuterHTMLReply{OuterHTML: html}, nil), e
	})
	cookies := v.AnyFresh[*storage.GetCookiesReply]()
	v.Assume(cookies != nil)
	list := cookies.Cookies
	base := 0
	v.Stub("(github.com/mafredri/cdp.Storage).GetCookies", func(d cdp.Storage, cx context.Context, a *storage.GetCookiesArgs) (*storage.GetCookiesReply, error) {
		base = len(c.resp.Header["Set-Cookie"])
		e := up(cx)
		return v.Ite(e == nil, cookies, nil), e
	})
	v.Stub("(*net/http.Cookie).String", func(k *http.Cookie) string {
		return cookieTextSpec(k.Name, k.Value, k.Domain, k.Path, k.HttpOnly)
	})

	canon := zzm.Canon(name)
	v.Loop("wait", func() {
		v.Inv("the document did not respond yet", v.And(!finished, doc == nil))
		v.Inv("no event failed", v.And(!eventFailed, !ended))
		v.Inv("no step failed", !failed)
		v.Inv("not loaded", !loaded)
		v.Inv("nothing is ready", v.And(!reqReady, !resReady))
		v.Inv("no wait", v.And(!waiting, !listed))
	})
	apart := func() bool { // the header's values are not the cookies'
		return v.Or(canon == "Set-Cookie", v.Or(len(c.resp.Header[canon]) == 0, v.Addr(c.resp.Header[canon]) != v.Addr(c.resp.Header["Set-Cookie"])))
	}
	v.Loop("merge", func(tx *tx) {
		v.Inv("apart", apart())
		v.Inv("the header, once it was copied", v.Imp(v.And(reported, v.Visited(name)), v.And(len(tx.resp.Header[canon]) == 1, tx.resp.Header.Get(name) == value)))
		v.Inv("nothing else", v.Imp(!v.And(reported, v.Visited(name)), len(tx.resp.Header[canon]) == 0))
	})
	v.Loop("readcookies", func(k v.Iter, tx *tx) {
		vs := tx.resp.Header["Set-Cookie"]
		v.Inv("apart", apart())
		v.Inv("a value for each cookie so far", len(vs) == base+int(k))
		v.Inv("it is the cookie's", v.Imp(v.And(0 <= nth, nth < int(k)), v.ExistsIn(0, len(vs), func(i int) bool {
			return v.And(i == base+nth, vs[i] == cookieTextSpec(list[nth].Name, list[nth].Value, list[nth].Domain, list[nth].Path, list[nth].HTTPOnly))
		})))
		v.Inv("other headers stay", v.Imp(canon != "Set-Cookie", v.And(len(tx.resp.Header[canon]) == v.Ite(v.Or(reported, canon == "Content-Length"), 1, 0), tx.resp.Header.Get(name) == v.Ite(canon == "Content-Length", strconv.Itoa(len(html)), v.Ite(reported, value, "")))))
		v.Inv("the length stays", tx.resp.Header.Get("Content-Length") == strconv.Itoa(len(html)))
	})
	resp, err := c.do(ctx)
	v.Cover("done")
	v.Ensures("C33: an event's error is returned", v.Imp(eventFailed, v.And(err != nil, errors.Is(err, eventErr))))
	v.Ensures("C33: the context's end is its error", v.Imp(ended, v.And(err != nil, err == cerr)))
	v.Ensures("C33: success only after the document responded and was loaded", v.Imp(err == nil, v.And(finished, loaded)))
	v.Ensures("C31: a failure has no response", v.Imp(err != nil, resp == nil))
	v.Ensures("C31: a failing step is a failure", v.Imp(failed, err != nil))
	v.Ensures("C31 C33: nothing else is", v.Imp(v.And(!failed, !ended), err == nil))
	if err != nil {
		return
	}
	v.Ensures("C31: a response", resp != nil)
	r := doc.Response
	v.Ensures("C31: the status of the document", v.And(resp.StatusCode == r.Status, resp.Status == fmt.Sprintf("%d %s", r.Status, statusTextSpec(r.Status))))
	v.Ensures("C31: for the request", resp.Request == req)
	text, known := zzm.Content(resp.Body)
	v.Ensures("C31: the body is the document", v.And(known, v.Same(text, v.SeqOf([]byte(html)))))
	v.Ensures("C31: its length is", resp.ContentLength == int64(len(html)))
	v.Ensures("C31: and in the header", resp.Header.Get("Content-Length") == strconv.Itoa(len(html)))
	v.Ensures("C31: the headers", v.Imp(v.And(reported, v.And(canon != "Content-Length", canon != "Set-Cookie")), resp.Header.Get(name) == value))
	vs := resp.Header["Set-Cookie"]
	v.Ensures("C31: a value for each cookie", len(vs) >= len(list))
	v.Ensures("C31: its value", v.Imp(v.And(0 <= nth, nth < len(list)), v.ExistsIn(0, len(vs), func(i int) bool {
		return v.And(i == len(vs)-len(list)+nth, vs[i] == cookieTextSpec(list[nth].Name, list[nth].Value, list[nth].Domain, list[nth].Path, list[nth].HTTPOnly))
	})))
	if r.Protocol != nil {
		v.Ensures("C31: the protocol", resp.Proto == *r.Protocol)
		x, y, ok := protoPartsSpec(*r.Protocol)
		a, afits := protoNumberSpec(x, ok)
		b, bfits := protoNumberSpec(y, ok)
		v.Ensures("C31: its numbers", v.And(v.Imp(afits, resp.ProtoMajor == a), v.Imp(bfits, resp.ProtoMinor == b)))
	} else {
		v.Ensures("C31: no protocol", v.And(resp.ProtoMajor == 0, resp.ProtoMinor == 0))
	}
}

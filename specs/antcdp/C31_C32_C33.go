package antcdp

import (
	"context"
	"errors"
	"io"
	"net/http"

	"github.com/mafredri/cdp"
	"github.com/mafredri/cdp/devtool"
	"github.com/mafredri/cdp/protocol/network"
	"github.com/mafredri/cdp/protocol/page"
	"github.com/mafredri/cdp/protocol/storage"
	"github.com/mafredri/cdp/rpcc"
	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

//verif:property C32
//verif:covers every pool and context, and creation failing
func verif_C32_acquire(t *targets, ctx context.Context) {
	v.Requires(v.And(t != nil, v.And(ctx != nil, v.And(t.targets != nil, t.client != nil))))
	acquired, ended, listed, waiting := 0, false, false, false
	var target *devtool.Target
	var failure error
	v.Stub("(*github.com/mafredri/cdp/devtool.DevTools).Create", func(d *devtool.DevTools, cx context.Context) (*devtool.Target, error) {
		v.Assert("C32: a target is created for the request", v.And(d == t.client, v.And(cx == ctx, acquired == 0)))
		e := v.Any[error]()
		n := v.AnyFresh[*devtool.Target]()
		v.Assume(n != nil)
		failure = e
		target = v.Ite(e == nil, n, nil)
		acquired += v.Ite(e == nil, 1, 0)
		return target, e
	})
	v.Stub("chan.wait *github.com/mafredri/cdp/devtool.Target", func(ch chan *devtool.Target, blocking bool) {
		v.Assert("C32: targets are kept in the pool", ch == t.targets)
		waiting = v.Or(waiting, blocking)
	})
	v.Stub("chan.wait struct{}", func(ch <-chan struct{}, blocking bool) {
		waiting = v.Or(waiting, blocking)
		listed = v.Or(listed, v.And(blocking, ch == zzm.CtxDone(ctx)))
	})
	v.Stub("chan.recv *github.com/mafredri/cdp/devtool.Target", func(ch chan *devtool.Target, n *devtool.Target) {
		v.Assert("C32: one target is taken", acquired == 0)
		v.Assert("C32: nothing outlasts the context", v.Imp(waiting, listed))
		waiting, listed = false, false
		v.Assume(n != nil)
		target = n
		acquired++
	})
	v.Stub("chan.send *github.com/mafredri/cdp/devtool.Target", func(ch chan *devtool.Target, n *devtool.Target) {
		v.Assert("C32: a target that is used is not released", false)
	})
	v.Stub("chan.recv struct{}", func(ch <-chan struct{}) {
		v.Assert("C32: nothing outlasts the context", v.Imp(waiting, listed))
		waiting, listed = false, false
		ended = v.Or(ended, ch == zzm.CtxDone(ctx))
	})
	cerr := v.Any[error]()
	v.Stub("(context.Context).Err", func(cx context.Context) error {
		v.Assert("C32: the context is asked", cx == ctx)
		e := v.Ite(ended, cerr, v.Any[error]())
		v.Assume(v.Imp(ended, e != nil))
		return e
	})
	got, err := t.acquire(ctx)
	v.Cover("done")
	v.Ensures("C32: a target, or an error", v.And((err == nil) == (got != nil), v.Imp(err == nil, v.And(acquired == 1, got == target))))
	v.Ensures("C32: no target is lost", v.Imp(err != nil, acquired == 0))
	v.Ensures("C32: the context's end is its error", v.Imp(ended, v.And(err != nil, err == cerr)))
	v.Ensures("C32: a failure to create is an error", v.Imp(failure != nil, v.And(err != nil, errors.Is(err, failure))))
}

//verif:property C32
//verif:covers every pool and target
func verif_C32_release(t *targets, target *devtool.Target) {
	v.Requires(v.And(t != nil, v.And(target != nil, t.targets != nil)))
	released, full := 0, false
	v.Stub("chan.wait *github.com/mafredri/cdp/devtool.Target", func(ch chan *devtool.Target, blocking bool) {
		v.Assert("C32: the pool is not waited for", v.And(ch == t.targets, !blocking))
	})
	v.Stub("chan.send *github.com/mafredri/cdp/devtool.Target", func(ch chan *devtool.Target, n *devtool.Target) {
		v.Assert("C32: the target is released once", v.And(n == target, released == 0))
		released++
	})
	v.Stub("chan.full *github.com/mafredri/cdp/devtool.Target", func(ch chan *devtool.Target) { full = true })
	t.release(target)
	v.Cover("done")
	v.Ensures("C32: the target is in the pool, if it has room", v.And(released <= 1, v.Or(full, released == 1)))
}

//verif:property C32
//verif:covers every client, started or not
func verif_C32_client(c *Client, req *http.Request) {
	v.Requires(v.And(c != nil, req != nil))
	started := zzm.OnceDone(&c.once)
	v.Requires((c.transport != nil) == started)
	was := c.transport
	tools := v.AnyFresh[*devtool.DevTools]()
	v.Assume(tools != nil)
	made, calls := 0, 0
	v.Stub("github.com/mafredri/cdp/devtool.New", func(addr string, opts ...devtool.DevToolsOption) *devtool.DevTools {
		v.Assert("C32: the client is set up once", v.And(!started, made == 0))
		v.Assert("C32: for its address", addr == v.Ite(c.Addr == "", "http://127.0.0.1:9222", c.Addr))
		made++
		return tools
	})
	want, werr := v.Any[*http.Response](), v.Any[error]()
	v.Stub("(*ant/antcdp.transport).roundtrip", func(t *transport, r *http.Request) (*http.Response, error) {
		v.Assert("C32: the request is performed", v.And(r == req, v.And(t != nil, t == c.transport)))
		calls++
		return want, werr
	})
	got, err := c.Do(req)
	v.Ensures("C32: the request is performed once", v.And(calls == 1, v.And(got == want, err == werr)))
	v.Ensures("C32: with the one transport", v.And(zzm.OnceDone(&c.once), v.Ite(started, c.transport == was, made == 1)))
	v.Ensures("C32: whose pool can hold a target", v.Imp(!started, v.And(c.transport.pool.client == tools, v.And(c.transport.pool.targets != nil, cap(c.transport.pool.targets) > 0))))
}

//verif:property C31 C32 C33
//verif:covers every request, and any step failing
func verif_C31_C32_C33_roundtrip(c *transport, req *http.Request) {
	v.Requires(v.And(c != nil, v.And(req != nil, req.URL != nil)))
	ctx := zzm.ReqCtx(req)
	v.Requires(v.And(ctx != nil, c.pool != nil))
	// failed tells whether a step of Chrome's failed, and last is its error.
	failed := false
	fail := func() error {
		e := v.Any[error]()
		failed = v.Or(failed, e != nil)
		return e
	}

	var target *devtool.Target
	var aerr error
	acquired, released, conns, dials := 0, 0, 0, 0
	v.Stub("(*ant/antcdp.targets).acquire", func(t *targets, cx context.Context) (*devtool.Target, error) {
		v.Assert("C32: one target is acquired, with the context", v.And(acquired == 0, v.And(t == c.pool, cx == ctx)))
		n := v.AnyFresh[*devtool.Target]()
		v.Assume(n != nil)
		aerr = fail()
		target = v.Ite(aerr == nil, n, nil)
		acquired += v.Ite(aerr == nil, 1, 0)
		return target, aerr
	})
	v.Stub("(*ant/antcdp.targets).release", func(t *targets, n *devtool.Target) error {
		v.Assert("C32: the target that was acquired is released, once", v.And(v.And(acquired == 1, released == 0), v.And(t == c.pool, n == target)))
		v.Assert("C32: after its connection was closed", conns == 0)
		released++
		return nil
	})
	var conn *rpcc.Conn
	v.Stub("github.com/mafredri/cdp/rpcc.DialContext", func(cx context.Context, u string, opts ...rpcc.DialOption) (*rpcc.Conn, error) {
		v.Assert("C32: the target is dialled, once", v.And(acquired == 1, v.And(released == 0, v.And(dials == 0, u == target.WebSocketDebuggerURL))))
		v.Assert("C32 C33: with the context", cx == ctx)
		dials++
		e := fail()
		k := v.AnyFresh[*rpcc.Conn]()
		v.Assume(k != nil)
		conn = k
		conns += v.Ite(e == nil, 1, 0)
		return v.Ite(e == nil, k, nil), e
	})
	hangup := func(k *rpcc.Conn) {
		v.Assert("C32: the connection is closed once", v.And(conns == 1, k == conn))
		conns--
	}
	v.Stub("(*github.com/mafredri/cdp/rpcc.Conn).Close", func(k *rpcc.Conn) error {
		hangup(k)
		return v.Any[error]()
	})
	v.Stub("(io.Closer).Close", func(x io.Closer) error {
		if k, ok := x.(*rpcc.Conn); ok {
			hangup(k)
		}
		return v.Any[error]()
	})
	up := func(cx context.Context) error {
		v.Assert("C32: the connection is up", conns == 1)
		v.Assert("C32 C33: with the context", cx == ctx)
		return fail()
	}

	// The client, and what it is asked.
	stream := func(x any) {
		_, ok := x.(*rpcc.Conn)
		v.Assume(v.And(x != nil, !ok))
	}
	cl := &cdp.Client{Page: v.Any[cdp.Page](), Network: v.Any[cdp.Network](), DOM: v.Any[cdp.DOM](), Storage: v.Any[cdp.Storage]()}
	v.Assume(v.And(v.And(cl.Page != nil, cl.Network != nil), v.And(cl.DOM != nil, cl.Storage != nil)))
	v.Stub("github.com/mafredri/cdp.NewClient", func(k *rpcc.Conn) *cdp.Client {
		v.Assert("C32: the client uses the connection", v.And(conns == 1, k == conn))
		return cl
	})
	v.Stub("(github.com/mafredri/cdp.Page).Enable", func(p cdp.Page, cx context.Context) error { return up(cx) })
	v.Stub("(github.com/mafredri/cdp.Network).Enable", func(n cdp.Network, cx context.Context, a *network.EnableArgs) error { return up(cx) })
	v.Stub("(github.com/mafredri/cdp.Network).SetExtraHTTPHeaders", func(n cdp.Network, cx context.Context, a *network.SetExtraHTTPHeadersArgs) error { return up(cx) })
	v.Stub("(github.com/mafredri/cdp.Storage).SetCookies", func(n cdp.Storage, cx context.Context, a *storage.SetCookiesArgs) error { return up(cx) })
	v.Stub("encoding/json.Marshal", func(x any) ([]byte, error) { return v.Any[[]byte](), fail() })
	v.Stub("(*net/http.Request).Cookies", func(r *http.Request) []*http.Cookie {
		v.Assert("C32: the request's cookies are sent", r == req)
		ret := v.AnyFresh[[]*http.Cookie]()
		v.Assume(v.ForallIn(0, len(ret), func(i int) bool { return ret[i] != nil }))
		return ret
	})
	reqs, ress, ready := v.Any[network.RequestWillBeSentClient](), v.Any[network.ResponseReceivedClient](), v.Any[page.DOMContentEventFiredClient]()
	stream(reqs)
	stream(ress)
	stream(ready)
	v.Stub("(github.com/mafredri/cdp.Network).RequestWillBeSent", func(n cdp.Network, cx context.Context) (network.RequestWillBeSentClient, error) {
		e := up(cx)
		return v.Ite(e == nil, reqs, nil), e
	})

	v.Stub("(github.com/mafredri/cdp.Network).ResponseReceived", func(n cdp.Network, cx context.Context) (network.ResponseReceivedClient, error) {
		e := up(cx)
		return v.Ite(e == nil, ress, nil), e
	})
	v.Stub("(github.com/mafredri/cdp.Page).DOMContentEventFired", func(p cdp.Page, cx context.Context) (page.DOMContentEventFiredClient, error) {
		e := up(cx)
		return v.Ite(e == nil, ready, nil), e
	})
	want := v.AnyFresh[*http.Response]()
	v.Assume(want != nil)
	dones := 0
	v.Stub("(*ant/antcdp.tx).do", func(x *tx, cx context.Context) (*http.Response, error) {
		v.Assert("C32: the transaction is the request's", v.And(x.request == req, v.And(x.target == target, dones == 0)))
		v.Assert("C32: it is set up", v.And(x.client == cl, v.And(x.resp != nil, v.And(x.resp.Request == req, v.And(x.resp.Header == nil, v.And(x.resp.ProtoMajor == 0, x.resp.ProtoMinor == 0))))))
		v.Assert("C32: and listens", v.And(x.events.req == reqs, v.And(x.events.res == ress, x.events.ready == ready)))
		dones++
		e := up(cx)
		return v.Ite(e == nil, want, nil), e
	})
	v.Loop("close", func(k v.Iter) {
		v.Inv("the connection is closed", v.And(conns == v.Ite(k > 0, 0, 1), released == 0))
	})
	resp, err := c.roundtrip(req)
	v.Cover("done")
	v.Ensures("C32: a target that was acquired is released", released == acquired)
	v.Ensures("C32: the connection is closed", conns == 0)
	v.Ensures("C32: a failure to acquire is returned", v.Imp(aerr != nil, v.And(err != nil, errors.Is(err, aerr))))
	v.Ensures("C31 C32 C33: any failure is", (err != nil) == failed)
	v.Ensures("C31 C32: the response is returned", v.Ite(err == nil, v.And(dones == 1, resp == want), resp == nil))
}

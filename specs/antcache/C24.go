package antcache

import (
	"bufio"
	"context"
	"io"
	"net/http"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

//verif:property C24
//verif:covers cacheable requests: fresh, missing and ignored entries
func verif_C24_do(c *Cache, req *http.Request, buf []byte, lerr error, decodes bool, fr freshness, clientOK, canStore bool, name string, p []byte) {
	v.Requires(v.And(v.And(c != nil, req != nil), v.And(c.client != nil, v.And(c.storage != nil, c.strategy != nil))))
	v.Requires(req.URL != nil)
	v.Requires(fr != stale)
	loads, dos, stores := 0, 0, 0
	key := reqKeySpec(req)
	before := *req
	strat, store := c.strategy, c.storage
	v.Stub("(ant/antcache.strategy).cache", func(s strategy, r *http.Request) bool {
		v.Assert("the strategy is asked about the request", v.And(r == req, s == strat))
		return true
	})
	v.Stub("(ant/antcache.Storage).Load", func(s Storage, ctx context.Context, k uint64) ([]byte, error) {
		v.Assert("the entry is looked up under the request's key", v.And(k == key, s == store))
		v.Assert("with the request's context", ctx == req.Context())
		loads++
		return buf, lerr
	})
	entry := v.AnyFresh[*http.Response]()
	v.Stub("net/http.ReadResponse", func(r *bufio.Reader, q *http.Request) (*http.Response, error) {
		d, ok := zzm.Content(r)
		v.Assert("the stored bytes are decoded", v.And(ok, d.Eq(v.SeqOf(buf))))
		v.Assert("for the request", q == req)
		if !decodes {
			return nil, io.ErrUnexpectedEOF
		}
		v.Assume(v.And(entry != nil, v.And(entry.Header != nil, v.And(entry.Request == q, entry.Body != nil))))
		return entry, nil
	})
	v.Stub("(ant/antcache.strategy).fresh", func(s strategy, r *http.Response) freshness {
		v.Assert("the stored response's freshness is asked for", v.And(r == entry, s == strat))
		return fr
	})
	orig := v.AnyFresh[*http.Response]()
	body := v.Any[io.ReadCloser]()
	v.Stub("(ant/antcache.Client).Do", func(cl Client, r *http.Request) (*http.Response, error) {
		v.Assert("the client gets the request", v.And(r == req, cl == c.client))
		dos++
		if !clientOK {
			return v.Any[*http.Response](), io.ErrNoProgress
		}
		v.Assume(v.And(orig != nil, v.And(orig.Request != nil, v.And(orig.Body == body, body != nil))))
		return orig, nil
	})
	v.Stub("(ant/antcache.strategy).store", func(s strategy, r *http.Response) bool {
		v.Assert("the strategy is asked about the origin's response", v.And(r == orig, s == strat))
		return canStore
	})
	v.Stub("(ant/antcache.Storage).Store", func(s Storage, ctx context.Context, k uint64, value []byte) error {
		v.Assert("recorded under the request's key in the storage", v.And(k == key, s == store))
		stores++
		return nil
	})
	v.Stub("(io.ReadCloser).Read", func(rc io.ReadCloser, p []byte) (int, error) {
		v.Assert("the origin's body is read", rc == body)
		return 0, io.EOF
	})
	v.Stub("(io.ReadCloser).Close", func(rc io.ReadCloser) error {
		v.Assert("the origin's body is closed", rc == body)
		return nil
	})
	v.Stub("net/http/httputil.DumpResponse", func(r *http.Response, b bool) ([]byte, error) {
		return v.AnyFresh[[]byte](), nil
	})
	h := v.Heap()
	got, err := c.Do(req)
	v.Ensures("the entry is looked up once", loads == 1)
	v.Ensures("the request is unchanged", v.Same(*req, before))
	v.Ensures("nothing is recorded before the body is closed", stores == 0)
	if lerr != nil {
		v.Ensures("a storage failure is returned", v.And(err != nil, v.And(got == nil, dos == 0)))
		return
	}
	if buf != nil && !decodes {
		v.Ensures("a decoding failure is returned", v.And(err != nil, v.And(got == nil, dos == 0)))
		return
	}
	if buf != nil && fr == fresh {
		v.Ensures("a fresh entry is returned without asking the client", v.And(err == nil, v.And(got == entry, dos == 0)))
		v.Ensures("it is marked", got.Header.Get("X-From-Cache") == "1")
		return
	}
	v.Ensures("the client is asked exactly once", dos == 1)
	if !clientOK {
		v.Ensures("a client error is returned", v.And(err != nil, got == nil))
		return
	}
	v.Ensures("the origin's response is returned", v.And(err == nil, got == orig))
	v.Ensures("with its own headers", got.Header.Get(name) == v.At(h, func() string { return orig.Header.Get(name) }))
	v.Ensures("and status", got.StatusCode == v.At(h, func() int { return orig.StatusCode }))
	_, rerr := got.Body.Read(p)
	cerr := got.Body.Close()
	v.Ensures("its body reads and closes", v.And(rerr == io.EOF, cerr == nil))
	v.Ensures("it is recorded exactly if it can be stored", stores == v.Ite(canStore, 1, 0))
}

//verif:property C24
//verif:covers the in-memory storage
func verif_C24_memstore(m *memstore, ctx context.Context, key, other uint64, value []byte) {
	v.Requires(m != nil)
	var e memstore
	ob, oerr := e.Load(ctx, key)
	v.Ensures("a key never stored gives nil", v.And(ob == nil, oerr == nil))
	v.Requires(key != other)
	x, has := zzm.SyncMapGet(&m.c, other)
	if has {
		v.Requires(v.Is[[]byte](x))
	}
	ob, oerr = m.Load(ctx, other)
	err := m.Store(ctx, key, value)
	got, gerr := m.Load(ctx, key)
	v.Ensures("the value stored is the value loaded", v.And(v.And(err == nil, gerr == nil), v.Same(got, value)))
	ob2, oerr2 := m.Load(ctx, other)
	v.Ensures("other keys are unaffected", v.And(v.And(oerr == nil, oerr2 == nil), v.Same(ob, ob2)))
}

//verif:property C24
//verif:covers configuring the storage
func verif_C24_storage(cl Client, s, s2 Storage) {
	v.Requires(v.And(cl != nil, v.And(s != nil, s2 != nil)))
	c, err := New(cl, WithStorage(s), WithStorage(s2))
	v.Ensures("the given storage is used, the last one if several", v.And(err == nil, v.And(c != nil, v.And(c.storage == s2, c.client == cl))))
	c, err = New(cl, WithStorage(nil))
	v.Ensures("a missing storage is an error", v.And(c == nil, err != nil))
	c, err = New(cl)
	v.Ensures("without one the memory is used", v.And(err == nil, v.Is[*memstore](c.storage)))
}

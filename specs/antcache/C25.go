package antcache

import (
	"bufio"
	"context"
	"io"
	"net/http"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

// hop tells whether the header concerns one connection only.
func hopSpec(name string) bool {
	return v.Or(v.Or(v.Or(name == "Connection", name == "Keep-Alive"), v.Or(name == "Proxy-Authenticate", name == "Proxy-Authorization")),
		v.Or(v.Or(name == "Te", name == "Trailers"), v.Or(v.Or(name == "Trailer", name == "Transfer-Encoding"), name == "Upgrade")))
}

// afterMerge is the value of the header after an update.
func afterMergeSpec(old, upd []string, in bool) []string { return v.Ite(in, upd, old) }

//verif:property C25
//verif:covers a stale entry: validation, its outcomes, and what happens to both bodies
func verif_C25_stale(c *Cache, req *http.Request, buf []byte, clientOK, sameNew, canStore, canStore2 bool, name string, p []byte) {
	v.Requires(v.And(v.And(c != nil, req != nil), v.And(c.client != nil, v.And(c.storage != nil, c.strategy != nil))))
	v.Requires(v.And(req.URL != nil, v.And(buf != nil, req.Header != nil)))
	dos, stores := 0, 0
	key := reqKeySpec(req)
	before := *req
	beforeURL := *req.URL
	v.Stub("(ant/antcache.strategy).cache", func(s strategy, r *http.Request) bool { return true })
	v.Stub("(ant/antcache.Storage).Load", func(s Storage, ctx context.Context, k uint64) ([]byte, error) { return buf, nil })

	entry, newresp, orig := v.AnyFresh[*http.Response](), v.AnyFresh[*http.Response](), v.AnyFresh[*http.Response]()
	ebody, nbody, obody := v.Any[io.ReadCloser](), v.Any[io.ReadCloser](), v.Any[io.ReadCloser]()
	v.Requires(v.And(v.And(ebody != nil, nbody != nil), v.And(ebody != nbody, v.And(obody != nil, v.And(obody != nbody, obody != ebody)))))
	v.Requires(v.And(v.And(entry != nil, newresp != nil), v.And(orig != nil, v.And(entry != newresp, v.And(orig != entry, orig != newresp)))))
	v.Requires(v.And(v.And(entry.Header != nil, newresp.Header != nil), v.And(orig.Header != nil, v.And(v.And(!v.Same(orig.Header, newresp.Header), !v.Same(orig.Header, entry.Header)), !v.Same(entry.Header, newresp.Header)))))
	v.Requires(v.And(v.And(!v.Same(req.Header, entry.Header), !v.Same(req.Header, newresp.Header)), !v.Same(req.Header, orig.Header)))
	v.Requires(v.And(v.And(entry.Body == ebody, newresp.Body == nbody), v.And(orig.Body == obody, v.And(entry.Request == req, v.And(newresp.Request != nil, orig.Request != nil)))))
	v.Stub("net/http.ReadResponse", func(r *bufio.Reader, q *http.Request) (*http.Response, error) { return entry, nil })
	v.Stub("(ant/antcache.strategy).fresh", func(s strategy, r *http.Response) freshness { return stale })
	etag, mod := entry.Header.Get("Etag"), entry.Header.Get("Last-Modified")
	h := v.Heap()
	v.Stub("(ant/antcache.Client).Do", func(cl Client, r *http.Request) (*http.Response, error) {
		dos++
		if dos == 1 {
			inm, ims := req.Header.Get("If-None-Match"), req.Header.Get("If-Modified-Since")
			v.Assert("the stored ETag is a condition unless the caller set one", r.Header.Get("If-None-Match") == v.Ite(v.And(inm == "", etag != ""), etag, inm))
			v.Assert("the stored Last-Modified is a condition unless the caller set one", r.Header.Get("If-Modified-Since") == v.Ite(v.And(ims == "", mod != ""), mod, ims))
			v.Assert("the rest of the request is the caller's", v.And(r.Method == req.Method, v.And(r.URL.String() == req.URL.String(), r.Context() == req.Context())))
			v.Assert("so are its other headers", v.Or(v.Or(name == "If-None-Match", name == "If-Modified-Since"), v.Same(r.Header[name], req.Header[name])))
			if !clientOK {
				return v.Any[*http.Response](), io.ErrNoProgress
			}
			return newresp, nil
		}
		v.Assert("another request is the caller's", r == req)
		return orig, nil
	})
	v.Stub("(ant/antcache.strategy).store", func(s strategy, r *http.Response) bool {
		v.Assert("the strategy is asked about a response of the origin", v.Or(r == newresp, r == orig))
		return v.Ite(r == newresp, canStore, canStore2)
	})
	v.Stub("(ant/antcache.Storage).Store", func(s Storage, ctx context.Context, k uint64, value []byte) error {
		v.Assert("recorded under the request's key in the storage", v.And(k == key, s == c.storage))
		stores++
		return nil
	})
	edrain, eclose, ndrain, nclose, oclose := false, 0, false, 0, 0
	v.Stub("ant/internal/zzm.Drain", func(r io.Reader) (int64, error) {
		if r == io.Reader(ebody) {
			v.Assert("drained before it is closed", eclose == 0)
			edrain = true
		}
		if r == io.Reader(nbody) {
			v.Assert("drained before it is closed", nclose == 0)
			ndrain = true
		}
		return v.Any[int64](), v.Any[error]()
	})
	v.Stub("(io.ReadCloser).Close", func(rc io.ReadCloser) error {
		eclose += v.Ite(rc == ebody, 1, 0)
		nclose += v.Ite(rc == nbody, 1, 0)
		oclose += v.Ite(rc == obody, 1, 0)
		return nil
	})
	v.Stub("(io.ReadCloser).Read", func(rc io.ReadCloser, p []byte) (int, error) { return 0, io.EOF })
	v.Stub("net/http/httputil.DumpResponse", func(r *http.Response, b bool) ([]byte, error) {
		return v.AnyFresh[[]byte](), nil
	})
	old, upd := entry.Header[name], newresp.Header[name]
	_, in := newresp.Header[name]
	sie := ccHasSpec(req.Header, "stale-if-error")
	v.Loop("merge", func() {
		v.Inv("merged so far", v.Imp(v.Or(!in, !hopSpec(name)), v.Same(entry.Header[name], afterMergeSpec(old, upd, v.And(in, v.Visited(name))))))
	})
	got, err := c.Do(req)
	v.Ensures("the caller's request is unchanged", v.And(v.Same(*req, before), v.Same(*req.URL, beforeURL)))
	v.Ensures("and its headers too", v.Same(req.Header[name], v.At(h, func() []string { return req.Header[name] })))
	v.Ensures("nothing is recorded before the body is closed", stores == 0)
	if !clientOK {
		v.Ensures("a validation failure is returned", v.And(err != nil, v.And(got == nil, dos == 1)))
		return
	}
	v.Ensures("no error otherwise", err == nil)
	status := v.At(h, func() int { return newresp.StatusCode })
	kept := v.And(!edrain, eclose == 0) // the stored body is untouched
	gone := v.And(edrain, eclose == 1)
	nkept := v.And(!ndrain, nclose == 0)
	ngone := v.And(ndrain, nclose == 1)
	record := 0
	switch {
	case status >= 500 && status < 600:
		v.Ensures("one validation request on a server error", dos == 1)
		v.Ensures("stale-if-error returns the stored response", v.Imp(sie, v.And(got == entry, v.And(kept, ngone))))
		v.Ensures("otherwise the server's response is returned", v.Imp(!sie, v.And(got == newresp, v.And(gone, nkept))))
	case status == 304:
		v.Ensures("one validation request", dos == 1)
		v.Ensures("304 returns the stored response, its body intact", v.And(got == entry, v.And(kept, ngone)))
		v.Ensures("all end-to-end headers of the 304 are merged", v.Imp(name != "X-From-Cache", v.And(
			v.Imp(v.And(in, !hopSpec(name)), v.Same(got.Header[name], upd)),
			v.Imp(!in, v.Same(got.Header[name], old)))))
		record = 1
	case canStore:
		v.Ensures("one validation request", dos == 1)
		v.Ensures("a storable full response is returned and the stored one dropped", v.And(got == newresp, v.And(gone, nkept)))
		record = 1
	default:
		v.Ensures("an unusable answer is dropped together with the entry", v.And(gone, ngone))
		v.Ensures("and the origin is asked once more", v.And(dos == 2, got == orig))
		record = v.Ite(canStore2, 1, 0)
	}
	_, rerr := got.Body.Read(p)
	cerr := got.Body.Close()
	v.Ensures("the returned body reads and closes", v.And(rerr == io.EOF, cerr == nil))
	v.Ensures("recorded exactly when it should be", stores == record)
}

var _ = zzm.Canon

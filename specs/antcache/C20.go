package antcache

import (
	"context"
	"net/http"
	"time"

	v "github.com/yields/ant/internal/zzv"
)

// saysNoStore tells whether Cache-Control has the no-store directive.
func saysNoStoreSpec(h http.Header) bool {
	q := ccSpec(h)
	return v.ExistsIn(0, q.Len(), func(j int) bool { return q.At(j) == "no-store" })
}

//verif:property C20
//verif:contract ant/antcache.nostore
//verif:covers the no-store directive in any position
func contract_nostore(h http.Header) bool {
	items := ccSpec(h)
	v.Loop("nostore", func(k v.Iter) {
		v.Inv("not so far", !v.ExistsIn(0, int(k), func(j int) bool { return items.At(j) == "no-store" }))
	})
	got := nostore(h)
	v.Ensures("no-store is seen exactly when it is an item", got == saysNoStoreSpec(h))
	return got
}

// cacheable tells whether a request may be served from the cache.
func cacheableSpec(req *http.Request) bool {
	h := req.Header
	return v.And(v.And(v.Or(req.Method == "GET", req.Method == "HEAD"), !saysNoStoreSpec(h)),
		v.And(v.And(h.Get("Range") == "", h.Get("Content-Range") == ""), h.Get("Authorization") == ""))
}

//verif:property C20
//verif:contract (ant/antcache.rfc7234).cache
//verif:covers requests the RFC 7234 strategy caches
func contract_rfc7234_cache(r rfc7234, req *http.Request) bool {
	v.Requires(req != nil)
	ok := r.cache(req)
	v.Ensures("cacheable exactly as stated", ok == cacheableSpec(req))
	return ok
}

//verif:property C20
//verif:contract (ant/antcache.aggressive).cache
//verif:covers requests the aggressive strategy caches
func contract_aggressive_cache(a aggressive, req *http.Request) bool {
	v.Requires(req != nil)
	ok := a.cache(req)
	v.Ensures("cacheable exactly as stated", ok == cacheableSpec(req))
	return ok
}

//verif:property C20
//verif:covers requests that bypass the cache
func verif_C20_bypass(c *Cache, req *http.Request, aggr bool, age time.Duration) {
	v.Requires(v.And(v.And(c != nil, req != nil), c.client != nil))
	if aggr {
		c.strategy = aggressive{age}
	} else {
		c.strategy = rfc7234{}
	}
	v.Requires(!cacheableSpec(req))
	before := *req
	calls := 0
	resp, err := v.Any[*http.Response](), v.Any[error]()
	v.Stub("(ant/antcache.Client).Do", func(cl Client, r *http.Request) (*http.Response, error) {
		v.Assert("the client gets the caller's request", v.And(r == req, cl == c.client))
		calls++
		return resp, err
	})
	v.Stub("(ant/antcache.Storage).Load", func(ctx context.Context, key uint64) ([]byte, error) {
		v.Assert("no storage access", false)
		return nil, nil
	})
	v.Stub("(ant/antcache.Storage).Store", func(ctx context.Context, key uint64, value []byte) error {
		v.Assert("no storage access", false)
		return nil
	})
	name := v.Any[string]()
	hdr := req.Header
	h := v.Heap()
	gresp, gerr := c.Do(req)
	v.Ensures("the client is asked exactly once", calls == 1)
	v.Ensures("the client's response and error are returned", v.And(gresp == resp, gerr == err))
	v.Ensures("the request is unchanged", v.And(v.Same(*req, before), hdr.Get(name) == v.At(h, func() string { return hdr.Get(name) })))
	if resp != nil {
		v.Ensures("the response is untouched", v.Same(*resp, v.At(h, func() http.Response { return *resp })))
	}
}

//verif:property C20
//verif:covers both strategies are the ones the cache is built with
func verif_C20_new(cl Client, opt Option) {
	v.Requires(cl != nil)
	c, err := New(cl)
	v.Ensures("a cache without options uses RFC 7234 and the client", v.And(err == nil, v.And(v.Is[rfc7234](c.strategy), c.client == cl)))
	c2, err := New(cl, Aggressive(5))
	v.Ensures("the aggressive option installs the aggressive strategy", v.And(err == nil, v.Is[aggressive](c2.strategy)))
	_, err = New(nil)
	v.Ensures("a client is required", err != nil)
}

package zzm

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"

	v "github.com/yields/ant/internal/zzv"
)

// Canon is the canonical form of a header name.
func Canon(k string) string { return http.CanonicalHeaderKey(k) }

//verif:model (net/http.Header).Get
func headerGet(h http.Header, k string) string {
	vs := h[Canon(k)]
	if len(vs) == 0 {
		return ""
	}
	return vs[0]
}

//verif:model (net/http.Header).Set
func headerSet(h http.Header, k, val string) {
	h[Canon(k)] = []string{val}
}

//verif:model (net/http.Header).Add
func headerAdd(h http.Header, k, val string) {
	c := Canon(k)
	h[c] = append(h[c], val)
}

//verif:model (net/http.Header).Del
func headerDel(h http.Header, k string) {
	delete(h, Canon(k))
}

var _ = v.Imp

// ReqCtx is the context a request was made with.
func ReqCtx(r *http.Request) context.Context { return v.UF[context.Context]("http.ctx", r) }

//verif:model (*net/http.Request).Context
func reqContext(r *http.Request) context.Context {
	c := ReqCtx(r)
	v.Assume(c != nil)
	return c
}

// CloneHeader is a copy that shares the values' arrays.
func CloneHeader(h http.Header) http.Header {
	if h == nil {
		return nil
	}
	n := http.Header{}
	v.CopyMap(n, h)
	return n
}

//verif:model (net/http.Header).Clone
func headerClone(h http.Header) http.Header { return CloneHeader(h) }

//verif:model (*net/http.Request).Clone
func reqClone(r *http.Request, ctx context.Context) *http.Request {
	n := new(http.Request)
	*n = *r
	n.Header = CloneHeader(r.Header)
	if r.URL != nil {
		n.URL = new(url.URL)
		*n.URL = *r.URL
	}
	v.Assume(ReqCtx(n) == ctx)
	return n
}

//verif:model (*net/http.Request).WithContext
func reqWithContext(r *http.Request, ctx context.Context) *http.Request {
	n := new(http.Request)
	*n = *r
	v.Assume(ReqCtx(n) == ctx)
	return n
}

//verif:model net/http.NewRequestWithContext
func newRequestWithContext(ctx context.Context, method, rawurl string, body io.Reader) (*http.Request, error) {
	u, ok := ParsedURL(rawurl)
	if !ok || ctx == nil {
		return nil, errors.New("net/http: request")
	}
	if method == "" {
		method = "GET"
	}
	r := new(http.Request)
	r.Method = method
	r.URL = new(url.URL)
	*r.URL = u
	r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.1", 1, 1
	r.Header = http.Header{}
	r.Host = u.Host
	if body != nil {
		rc, ok := body.(io.ReadCloser)
		if !ok {
			rc = io.NopCloser(body)
		}
		r.Body = rc
		r.ContentLength = v.Any[int64]()
	}
	v.Assume(ReqCtx(r) == ctx)
	return r, nil
}

//verif:model net/http.NewRequest
func newRequest(method, rawurl string, body io.Reader) (*http.Request, error) {
	return newRequestWithContext(context.Background(), method, rawurl, body)
}

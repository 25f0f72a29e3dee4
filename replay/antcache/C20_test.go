package antcache

import (
	"errors"
	"net/http"
	"testing"
	"time"
)

func TestVerifC20(t *testing.T) {
	seeds, _ := vseedsReplay()
	n := 30000
	for i := 0; i < n+len(seeds); i++ {
		r := genReqReplay()
		if i >= n {
			r.Method = "GET"
			r.Header = http.Header{"Cache-Control": {seeds[i-n]}}
		}
		want := oCacheableReplay(r)
		if got := (rfc7234{}).cache(r); got != want {
			t.Fatalf("rfc7234.cache(%s %s) = %v, want %v", r.Method, hdrTextReplay(r.Header), got, want)
		}
		if got := (aggressive{time.Hour}).cache(r); got != want {
			t.Fatalf("aggressive.cache(%s %s) = %v, want %v", r.Method, hdrTextReplay(r.Header), got, want)
		}
		if i%10 != 0 {
			continue
		}
		resp := genRespReplay(r)
		resp.Body = newBodyReplay("x")
		body := resp.Body
		rerr := error(nil)
		if vrndReplay.Intn(4) == 0 {
			rerr = errors.New("origin")
		}
		cl := &fclientReplay{f: func(int, *http.Request) (*http.Response, error) { return resp, rerr }}
		st := &fstoreReplay{}
		opts := []Option{WithStorage(st)}
		if vrndReplay.Intn(2) == 0 {
			opts = append(opts, Aggressive(time.Hour))
		}
		c, err := New(cl, opts...)
		if err != nil {
			t.Fatal(err)
		}
		hdr := r.Header.Clone()
		rh := resp.Header.Clone()
		got, gerr := c.Do(r)
		if want {
			if len(st.loads) != 1 {
				t.Fatalf("%s %s: %d lookups of a cacheable request", r.Method, hdrTextReplay(r.Header), len(st.loads))
			}
			continue
		}
		if len(st.loads)+len(st.stores) != 0 {
			t.Fatalf("%s %s: storage was used", r.Method, hdrTextReplay(r.Header))
		}
		if len(cl.reqs) != 1 || cl.reqs[0] != r {
			t.Fatalf("%s %s: the client got %d requests", r.Method, hdrTextReplay(r.Header), len(cl.reqs))
		}
		if got != resp || gerr != rerr {
			t.Fatalf("%s: response or error not passed on", r.Method)
		}
		if hdrTextReplay(hdr) != hdrTextReplay(r.Header) || hdrTextReplay(rh) != hdrTextReplay(resp.Header) || resp.Body != body {
			t.Fatalf("%s: request or response was touched", r.Method)
		}
	}
}

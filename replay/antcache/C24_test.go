package antcache

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"testing"
	"time"
)

func TestVerifC24(t *testing.T) {
	urls := []string{"http://a.com/x", "http://a.com/x?y=1", "http://a.com/x?y=2", "https://a.com/x", "http://b.com/x", "http://a.com:81/x", "http://a.com/X", "http://a.com/x/", "http://a.com/x?", "http://u:p@a.com/x"}
	keys := map[uint64]string{}
	// one cache, origin text per request: whatever is answered must be the
	// origin's text for that very request
	for _, aggr := range []bool{false, true} {
		for _, usemem := range []bool{false, true} {
			st := &fstoreReplay{}
			opts := []Option{}
			if !usemem {
				opts = append(opts, WithStorage(st))
			}
			if aggr {
				opts = append(opts, Aggressive(time.Hour))
			}
			asked := map[string]int{}
			cl := &fclientReplay{f: func(i int, r *http.Request) (*http.Response, error) {
				k := r.Method + " " + r.URL.String()
				asked[k]++
				return mkRespReplay(r, 200, newBodyReplay(k), int64(len(k)), "Date", stampReplay(0), "Cache-Control", "max-age=3600"), nil
			}}
			c, err := New(cl, opts...)
			if err != nil {
				t.Fatal(err)
			}
			for round := 0; round < 3; round++ {
				for _, m := range []string{"GET", "HEAD"} {
					for _, u := range urls {
						r, _ := http.NewRequest(m, u, nil)
						k := m + " " + u
						nl, ns := len(st.loads), len(st.stores)
						resp, err := c.Do(r)
						if err != nil {
							t.Fatal(err)
						}
						if !usemem && len(st.loads) != nl+1 {
							t.Fatalf("%s: %d lookups", k, len(st.loads)-nl)
						}
						if !usemem {
							key := st.loads[nl]
							if o, ok := keys[key]; ok && o != k {
								t.Fatalf("%s and %s share a key", o, k)
							}
							keys[key] = k
						}
						b, err := io.ReadAll(resp.Body)
						if err != nil || (m == "GET" || round == 0) && string(b) != k {
							t.Fatalf("round %d: %s got body %q %v", round, k, b, err)
						}
						if (resp.Header.Get("X-From-Cache") == "1") != (round > 0) {
							t.Fatalf("round %d: %s: from cache %q", round, k, resp.Header.Get("X-From-Cache"))
						}
						if err := resp.Body.Close(); err != nil {
							t.Fatal(err)
						}
						if asked[k] != 1 {
							t.Fatalf("round %d: %s asked %d times", round, k, asked[k])
						}
						if !usemem {
							want := ns
							if round == 0 {
								want++
							}
							if len(st.stores) != want {
								t.Fatalf("round %d: %s: %d stores", round, k, len(st.stores)-ns)
							}
							if round == 0 && st.stores[ns] != st.loads[nl] {
								t.Fatalf("%s: stored under another key", k)
							}
						}
					}
				}
			}
		}
	}
	// a client that follows a redirect answers with the last request it made:
	// what is recorded still belongs to the request that was asked
	for _, aggr := range []bool{false, true} {
		for _, to := range urls[1:] {
			st := &fstoreReplay{}
			opts := []Option{WithStorage(st)}
			if aggr {
				opts = append(opts, Aggressive(time.Hour))
			}
			cl := &fclientReplay{f: func(i int, r *http.Request) (*http.Response, error) {
				last, _ := http.NewRequest("GET", to, nil)
				return mkRespReplay(last, 200, newBodyReplay("text"), 4, "Date", stampReplay(0), "Cache-Control", "max-age=3600"), nil
			}}
			c, _ := New(cl, opts...)
			for round := 0; round < 2; round++ {
				r, _ := http.NewRequest("GET", urls[0], nil)
				resp, err := c.Do(r)
				if err != nil {
					t.Fatal(err)
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				if len(st.stores) != 1 || st.stores[0] != st.loads[0] || len(cl.reqs) != 1 {
					t.Fatalf("redirect to %s, round %d: recorded under %v, asked under %v, %d requests", to, round, st.stores, st.loads, len(cl.reqs))
				}
			}
		}
	}
	get := func() *http.Request { r, _ := http.NewRequest("GET", "http://a.com/x", nil); return r }
	// failures
	{
		cl := &fclientReplay{f: func(int, *http.Request) (*http.Response, error) { return nil, errors.New("client") }}
		st := &fstoreReplay{lerr: errors.New("storage")}
		c, _ := New(cl, WithStorage(st))
		resp, err := c.Do(get())
		if err == nil || resp != nil || !errors.Is(err, st.lerr) || len(cl.reqs) != 0 {
			t.Fatalf("storage failure: %v %v, %d requests", resp, err, len(cl.reqs))
		}
		st.lerr = nil
		resp, err = c.Do(get())
		if err == nil || resp != nil || len(cl.reqs) != 1 || len(st.stores) != 0 {
			t.Fatalf("client failure: %v %v", resp, err)
		}
		key := st.loads[len(st.loads)-1]
		for _, raw := range []string{"x", "", "HTTP/1.1", "HTTP/1.1 200 OK\r\nA"} {
			st.m = map[uint64][]byte{key: []byte(raw)}
			n := len(cl.reqs)
			resp, err = c.Do(get())
			if err == nil || resp != nil || len(cl.reqs) != n {
				t.Fatalf("undecodable entry %q: %v %v, %d requests", raw, resp, err, len(cl.reqs)-n)
			}
		}
	}
	// unusable entries, storable and not
	for _, status := range []int{200, 302, 404, 500} {
		for _, aggr := range []bool{false, true} {
			for _, cc := range []string{"max-age=100", "max-age=0", "no-store", ""} {
				for _, entry := range []bool{false, true} {
					st := &fstoreReplay{m: map[uint64][]byte{}}
					body := newBodyReplay("origin")
					cl := &fclientReplay{f: func(i int, r *http.Request) (*http.Response, error) {
						return mkRespReplay(r, status, body, 6, "Date", stampReplay(0), "Cache-Control", cc, "X-O", "1"), nil
					}}
					opts := []Option{WithStorage(st)}
					if aggr {
						opts = append(opts, Aggressive(time.Hour))
					}
					c, _ := New(cl, opts...)
					r := get()
					if entry {
						// an entry that may not be used at all
						if aggr {
							st.m[keyof(r)] = entryBytesReplay(200, "old", "Date", stampReplay(100*time.Hour))
						} else {
							st.m[keyof(r)] = entryBytesReplay(200, "old", "Date", stampReplay(0), "Accept", "b", "Cache-Control", "max-age=1000")
							r.Header.Set("Vary", "Accept")
							r.Header.Set("Accept", "a")
						}
					}
					resp, err := c.Do(r)
					if err != nil || len(cl.reqs) != 1 || cl.reqs[0] != r {
						t.Fatalf("status %d cc %q entry %v: err %v, %d requests", status, cc, entry, err, len(cl.reqs))
					}
					if resp.StatusCode != status || resp.Header.Get("X-O") != "1" || resp.Header.Get("X-From-Cache") != "" {
						t.Fatalf("not the origin's response: %v", resp)
					}
					b, _ := io.ReadAll(resp.Body)
					if string(b) != "origin" {
						t.Fatalf("body %q", b)
					}
					want := 0
					if oStatusesReplay[status] && (aggr || cc == "max-age=100") {
						want = 1
					}
					resp.Body.Close()
					if len(st.stores) != want {
						t.Fatalf("status %d cc %q aggr %v: recorded %d times, want %d", status, cc, aggr, len(st.stores), want)
					}
					if body.closed != 1 {
						t.Fatalf("origin body closed %d times", body.closed)
					}
				}
			}
		}
	}
	// memstore
	m := &memstore{}
	ref := map[uint64][]byte{}
	for i := 0; i < 20000; i++ {
		k := uint64(vrndReplay.Intn(40))
		if vrndReplay.Intn(2) == 0 {
			b := []byte(fmt.Sprint(i))
			if err := m.Store(context.Background(), k, b); err != nil {
				t.Fatal(err)
			}
			ref[k] = b
		}
		got, err := m.Load(context.Background(), k)
		if err != nil || !bytes.Equal(got, ref[k]) || (got == nil) != (ref[k] == nil) {
			t.Fatalf("memstore: %d: %q %v, want %q", k, got, err, ref[k])
		}
	}
}

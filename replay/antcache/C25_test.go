package antcache

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"net/http"
	"testing"
	"time"
)

func TestVerifC25(t *testing.T) {
	for _, etag := range []string{"", `"e1"`} {
		for _, mod := range []string{"", "Mon, 02 Jan 2006 15:04:05 GMT"} {
			for _, own := range []string{"", "inm", "ims", "both"} {
				for _, sie := range []string{"", "stale-if-error", "max-age=0, Stale-If-Error=30"} {
					for _, status := range []int{-1, 304, 200, 404, 302, 403, 499, 500, 501, 503, 599, 600} {
						for _, cc := range []string{"max-age=60", "no-store"} {
							c25Replay(t, etag, mod, own, sie, status, cc)
						}
					}
				}
			}
		}
	}
}

func c25Replay(t *testing.T, etag, mod, own, sie string, status int, cc string) {
	st := &fstoreReplay{m: map[uint64][]byte{}}
	var bodies []*fbodyReplay
	cl := &fclientReplay{f: func(i int, r *http.Request) (*http.Response, error) {
		if i == 0 && status < 0 {
			return nil, errors.New("validate")
		}
		b := newBodyReplay("new")
		bodies = append(bodies, b)
		s := status
		if i > 0 {
			s = 200
		}
		return mkRespReplay(r, s, b, 3, "Date", stampReplay(0), "Cache-Control", cc, "X-New", "n1", "X-New", "n2", "X-Both", "new",
			"Connection", "close", "Keep-Alive", "k", "Upgrade", "u", "Proxy-Authenticate", "p", "Etag", `"e2"`, "Set-Cookie", "a=b", "Te", "t", "Transfer-Encoding", "gzip",
			"Content-Location", "/x", "Warning", "w", "X-Multi", "a", "X-Empty", "", "X-Empty", "e", "X-None", "", "Content-Type", "text/new", "Content-Encoding", "br", "Age", "1", "Vary", "x", "Server", "s2", "Expires", stampReplay(-time.Hour)), nil
	}}
	c, err := New(cl, WithStorage(st))
	if err != nil {
		t.Fatal(err)
	}
	r, _ := http.NewRequest("GET", "http://a.com/x", nil)
	kv := []string{"Date", stampReplay(time.Hour), "X-Old", "o1", "X-Old", "o2", "X-Both", "old", "Keep-Alive", "old", "X-Multi", "1", "X-Multi", "2", "X-Empty", "old", "X-None", "old", "Content-Type", "text/old", "Age", "9", "Server", "s1", "Server", "s0"}
	if etag != "" {
		kv = append(kv, "ETag", etag)
	}
	if mod != "" {
		kv = append(kv, "Last-Modified", mod)
	}
	st.m[keyof(r)] = entryBytesReplay(200, "stored", kv...)
	if sie != "" {
		r.Header.Set("Cache-Control", sie)
	}
	r.Header.Set("X-Own", "own")
	wantINM, wantIMS := etag, mod
	if own == "inm" || own == "both" {
		r.Header.Set("If-None-Match", `"mine"`)
		wantINM = `"mine"`
	}
	if own == "ims" || own == "both" {
		r.Header.Set("If-Modified-Since", "Mon, 02 Jan 2006 15:04:06 GMT")
		wantIMS = "Mon, 02 Jan 2006 15:04:06 GMT"
	}
	hdr := r.Header.Clone()
	what := func() string { return hdrTextReplay(hdr) + " " + etag + " " + mod }
	resp, err := c.Do(r)
	if hdrTextReplay(r.Header) != hdrTextReplay(hdr) || r.URL.String() != "http://a.com/x" || r.Method != "GET" {
		t.Fatalf("the caller's request was changed: %s", hdrTextReplay(r.Header))
	}
	if len(cl.reqs) == 0 {
		t.Fatal("no validation request")
	}
	v := cl.reqs[0]
	vh := cl.hdrs[0]
	if vh.Get("If-None-Match") != wantINM || vh.Get("If-Modified-Since") != wantIMS {
		t.Fatalf("%s: conditions %q %q, want %q %q", what(), vh.Get("If-None-Match"), vh.Get("If-Modified-Since"), wantINM, wantIMS)
	}
	if v.Method != "GET" || v.URL.String() != r.URL.String() || vh.Get("X-Own") != "own" || vh.Get("Cache-Control") != sie || v.Context() != r.Context() {
		t.Fatal("the validation request differs from the caller's")
	}
	if status < 0 {
		if err == nil || resp != nil || len(cl.reqs) != 1 {
			t.Fatalf("client failure: %v %v", resp, err)
		}
		return
	}
	if err != nil {
		t.Fatalf("status %d: %v", status, err)
	}
	stored, record, reqs := false, false, 1
	switch {
	case status >= 500 && status <= 599:
		stored = sie != ""
	case status == 304:
		stored, record = true, true
	case oStatusesReplay[status] && cc == "max-age=60":
		record = true
	default:
		reqs = 2
		record = cc == "max-age=60"
	}
	if len(cl.reqs) != reqs {
		t.Fatalf("status %d cc %q: %d requests, want %d", status, cc, len(cl.reqs), reqs)
	}
	if len(st.stores) != 0 {
		t.Fatal("recorded before close")
	}
	b, rerr := io.ReadAll(resp.Body)
	want := "new"
	if stored {
		want = "stored"
	}
	if string(b) != want || rerr != nil {
		t.Fatalf("status %d sie %q cc %q: body %q %v, want %q", status, sie, cc, b, rerr, want)
	}
	last := bodies[len(bodies)-1]
	for _, o := range bodies {
		if o == last && !stored {
			if o.closed != 0 {
				t.Fatal("the returned body was closed")
			}
			continue
		}
		if !o.eof || o.closed != 1 || o.late {
			t.Fatalf("status %d: a dropped response: drained %v closed %d", status, o.eof, o.closed)
		}
	}
	check := func(h http.Header, st int, name string) {
		if stored && st != 200 || !stored && reqs == 1 && st != status {
			t.Fatalf("%s: status %d", name, st)
		}
		if status == 304 {
			for k, w := range map[string]string{"X-Old": "[o1 o2]", "X-New": "[n1 n2]", "X-Both": "[new]", "Etag": `["e2"]`, "Set-Cookie": "[a=b]", "Content-Location": "[/x]", "Warning": "[w]", "X-Multi": "[a]", "X-Empty": "[ e]", "X-None": "[]", "Content-Type": "[text/new]", "Content-Encoding": "[br]", "Age": "[1]", "Vary": "[x]", "Server": "[s2]", "Cache-Control": "[" + cc + "]"} {
				if g := sprintReplay(h[k]); g != w {
					t.Fatalf("%s: merged header %s = %s, want %s", name, k, g, w)
				}
			}
		} else if stored {
			if sprintReplay(h["X-Old"]) != "[o1 o2]" || h.Get("X-New") != "" || h.Get("X-Both") != "old" {
				t.Fatalf("%s: stored headers were changed: %s", name, hdrTextReplay(h))
			}
		} else if h.Get("X-Both") != "new" || h.Get("X-Old") != "" {
			t.Fatalf("%s: headers of the wrong response: %s", name, hdrTextReplay(h))
		}
	}
	check(resp.Header, resp.StatusCode, "returned")
	if err := resp.Body.Close(); err != nil {
		t.Fatal(err)
	}
	n := 0
	if record {
		n = 1
	}
	if len(st.stores) != n {
		t.Fatalf("status %d cc %q sie %q: recorded %d times, want %d", status, cc, sie, len(st.stores), n)
	}
	if record {
		if st.stores[0] != keyof(r) {
			t.Fatal("recorded under another key")
		}
		sr, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(st.m[keyof(r)])), r)
		if err != nil {
			t.Fatalf("recorded entry: %v", err)
		}
		b, err := io.ReadAll(sr.Body)
		if err != nil || string(b) != want {
			t.Fatalf("recorded body %q %v", b, err)
		}
		check(sr.Header, sr.StatusCode, "recorded")
	}
	if !stored && last.closed != 1 {
		t.Fatal("the returned body is not closed by Close")
	}
}

func sprintReplay(s []string) string {
	o := "["
	for i, x := range s {
		if i > 0 {
			o += " "
		}
		o += x
	}
	return o + "]"
}

package antcache

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/textproto"
	"strings"
	"time"
)

// ---- independent oracles

func oDirsReplay(h http.Header) map[string]string {
	v := ""
	if x := h["Cache-Control"]; len(x) > 0 {
		v = x[0]
	}
	m := map[string]string{}
	for _, it := range strings.Split(v, ",") {
		it = strings.ToLower(strings.TrimSpace(it))
		if it == "" {
			continue
		}
		k, val, _ := strings.Cut(it, "=")
		m[k] = val
	}
	return m
}

// oItems are the directives as written.
func oItemsReplay(h http.Header) map[string]bool {
	v := ""
	if x := h["Cache-Control"]; len(x) > 0 {
		v = x[0]
	}
	m := map[string]bool{}
	for _, it := range strings.Split(v, ",") {
		m[strings.ToLower(strings.TrimSpace(it))] = true
	}
	return m
}

// oSecs is a directive's number of seconds, capped to 2^31-1 either way.
func oSecsReplay(m map[string]string, k string) (int64, bool) {
	v, ok := m[k]
	if !ok || strings.Contains(v, "_") {
		return 0, false
	}
	n, ok := new(big.Int).SetString(v, 10)
	if !ok {
		return 0, false
	}
	if n.Cmp(big.NewInt(1<<31-1)) > 0 {
		return 1<<31 - 1, true
	}
	if n.Cmp(big.NewInt(-1<<31)) < 0 {
		return -1 << 31, true
	}
	return n.Int64(), true
}

func oDateReplay(h http.Header, k string) (time.Time, bool) {
	x := h[k]
	if len(x) == 0 || x[0] == "" {
		return time.Time{}, false
	}
	t, err := time.Parse(time.RFC1123, x[0])
	return t, err == nil && !t.IsZero()
}

var oStatusesReplay = map[int]bool{200: true, 203: true, 204: true, 206: true, 300: true, 301: true, 404: true, 405: true, 410: true, 414: true, 501: true}

func oCacheableReplay(r *http.Request) bool {
	g := func(k string) bool {
		x := r.Header[textproto.CanonicalMIMEHeaderKey(k)]
		return len(x) > 0 && x[0] != ""
	}
	return (r.Method == "GET" || r.Method == "HEAD") && !g("Range") && !g("Content-Range") && !g("Authorization") && !oItemsReplay(r.Header)["no-store"]
}

// ---- generators

func genCCReplay() string {
	vals := []string{"", "=0", "=1", "=5", "=60", "=3600", "=86400", "=31536000", "=2147483647", "=2147483648", "=4294967297", "=9223372037", "=18446744074", "=99999999999999999999", "=-1", "=-60", "=x", "=\"5\"", "=1.5"}
	toks := []string{"no-cache", "no-store", "max-age", "max-stale", "min-fresh", "only-if-cached", "stale-if-error", "private", "public", "must-revalidate", "s-maxage", "No-Cache", "NO-STORE", "Max-Age", "MAX-STALE", "no-storex", "xno-store", "", " "}
	var b strings.Builder
	for j, n := 0, vrndReplay.Intn(4); j < n; j++ {
		if j > 0 {
			b.WriteString(vpickReplay(",", ", ", " ,", ",,", " , ", ",\t"))
		}
		k := vpickReplay(toks...)
		b.WriteString(k)
		switch {
		case strings.Contains(strings.ToLower(k), "age"), strings.Contains(strings.ToLower(k), "m") && vrndReplay.Intn(2) == 0:
			b.WriteString(vpickReplay(vals...))
		case vrndReplay.Intn(8) == 0:
			b.WriteString(vpickReplay(vals...))
		}
	}
	return b.String()
}

var genOffsetsReplay = []time.Duration{0, 2 * time.Second, -2 * time.Second, 10 * time.Second, -10 * time.Second, -61 * time.Second, time.Hour, -time.Hour, -23 * time.Hour, -25 * time.Hour, 25 * time.Hour, -48 * time.Hour, -365 * 24 * time.Hour, 365 * 24 * time.Hour, -50 * 365 * 24 * time.Hour, 50 * 365 * 24 * time.Hour, -72 * 365 * 24 * time.Hour}

func genDateReplay() string {
	switch vrndReplay.Intn(9) {
	case 0:
		return ""
	case 1:
		return vpickReplay("x", "0", "-1", time.Now().Format(time.RFC3339), time.Now().UTC().Format(time.RFC850), "Mon, 01 Jan 0001 00:00:00 UTC")
	}
	d := genOffsetsReplay[vrndReplay.Intn(len(genOffsetsReplay))]
	return time.Now().UTC().Add(d).Format(time.RFC1123)
}

func genHeaderReplay(resp bool) http.Header {
	h := http.Header{}
	if vrndReplay.Intn(5) > 0 {
		h["Cache-Control"] = []string{genCCReplay()}
		if vrndReplay.Intn(10) == 0 {
			h["Cache-Control"] = append(h["Cache-Control"], genCCReplay())
		}
	}
	if resp {
		if vrndReplay.Intn(8) > 0 {
			h.Set("Date", genDateReplay())
		}
		if vrndReplay.Intn(2) > 0 {
			h.Set("Expires", genDateReplay())
		}
	} else {
		for _, k := range []string{"Range", "Content-Range", "Authorization"} {
			if vrndReplay.Intn(12) == 0 {
				h.Set(k, vpickReplay("", "x", "bytes=0-1", " "))
			}
		}
		if vrndReplay.Intn(6) == 0 {
			h.Set("Vary", vpickReplay("accept", "Accept", "accept, x-a", "X-A,,accept", "x-b", "", ","))
		}
	}
	for _, k := range []string{"Accept", "X-A", "X-B"} {
		if vrndReplay.Intn(4) == 0 {
			h.Set(k, vpickReplay("1", "2", ""))
		}
	}
	return h
}

func genReqReplay() *http.Request {
	u := vpickReplay("http://a.com/", "http://a.com/x", "http://a.com/x?y=1", "http://a.com/x?y=2", "https://a.com/x", "http://b.com/x", "http://a.com:81/x")
	r, err := http.NewRequest(vpickReplay("GET", "GET", "GET", "HEAD", "POST", "PUT", "get", "DELETE", "OPTIONS"), u, nil)
	if err != nil {
		panic(err)
	}
	r.Header = genHeaderReplay(false)
	return r
}

func genRespReplay(r *http.Request) *http.Response {
	codes := []int{200, 200, 200, 203, 204, 206, 300, 301, 302, 303, 304, 307, 308, 400, 401, 404, 405, 410, 414, 429, 500, 501, 502, 503, 201, 202, 205, 100}
	return &http.Response{StatusCode: codes[vrndReplay.Intn(len(codes))], Header: genHeaderReplay(true), Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
}

// ---- fakes

type fbodyReplay struct {
	r           *bytes.Reader
	data        string
	short       int // largest read
	err         error
	cerr        error
	eof         bool
	closed      int
	late        bool // read after close
	eofWithData bool
}

func newBodyReplay(data string) *fbodyReplay {
	return &fbodyReplay{r: bytes.NewReader([]byte(data)), data: data}
}

func (b *fbodyReplay) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.late = true
	}
	if b.short > 0 && len(p) > b.short {
		p = p[:b.short]
	}
	n, err := b.r.Read(p)
	if b.eofWithData && err == nil && b.r.Len() == 0 {
		err = io.EOF
	}
	if err == io.EOF && b.err != nil {
		return n, b.err
	}
	if err == io.EOF {
		b.eof = true
	}
	return n, err
}

func (b *fbodyReplay) Close() error { b.closed++; return b.cerr }

type fclientReplay struct {
	reqs []*http.Request
	hdrs []http.Header
	ctxs []context.Context
	f    func(i int, r *http.Request) (*http.Response, error)
}

func (c *fclientReplay) Do(r *http.Request) (*http.Response, error) {
	c.reqs = append(c.reqs, r)
	c.hdrs = append(c.hdrs, r.Header.Clone())
	return c.f(len(c.reqs)-1, r)
}

type fstoreReplay struct {
	m      map[uint64][]byte
	loads  []uint64
	stores []uint64
	lerr   error
	serr   error
}

func (s *fstoreReplay) Load(ctx context.Context, k uint64) ([]byte, error) {
	s.loads = append(s.loads, k)
	if s.lerr != nil {
		return nil, s.lerr
	}
	return s.m[k], nil
}

func (s *fstoreReplay) Store(ctx context.Context, k uint64, v []byte) error {
	s.stores = append(s.stores, k)
	if s.serr != nil {
		return s.serr
	}
	if s.m == nil {
		s.m = map[uint64][]byte{}
	}
	s.m[k] = append([]byte{}, v...)
	return nil
}

func hdrTextReplay(h http.Header) string { return fmt.Sprintf("%q", map[string][]string(h)) }

func stampReplay(age time.Duration) string { return time.Now().UTC().Add(-age).Format(time.RFC1123) }

func entryBytesReplay(status int, body string, kv ...string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", status, http.StatusText(status))
	for i := 0; i+1 < len(kv); i += 2 {
		fmt.Fprintf(&b, "%s: %s\r\n", kv[i], kv[i+1])
	}
	fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
	return b.Bytes()
}

func mkRespReplay(r *http.Request, status int, body io.ReadCloser, n int64, kv ...string) *http.Response {
	resp := &http.Response{StatusCode: status, Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: body, ContentLength: n, Request: r}
	for i := 0; i+1 < len(kv); i += 2 {
		resp.Header.Add(kv[i], kv[i+1])
	}
	return resp
}

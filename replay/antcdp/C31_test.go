package antcdp

import (
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"testing"
	"time"
)

// protoOf is what the numbers of a protocol are.
func protoOfReplay(s string) (major, minor int) {
	_, rest, ok := strings.Cut(s, "/")
	if !ok {
		return 0, 0
	}
	a, b, ok := strings.Cut(rest, ".")
	if !ok {
		return 0, 0
	}
	major, err := strconv.Atoi(a)
	if err != nil {
		major = 0
	}
	minor, err = strconv.Atoi(b)
	if err != nil {
		minor = 0
	}
	return
}

func TestVerifC31(t *testing.T) {
	protos := []string{"", "http/1.1", "HTTP/1.0", "h2", "h3", "quic/1", "x/1.2", "a/b/1.2", "spdy/3.1", "x/", "x/.", "x/1.", "x/.2", "x/a.2", "x/2.b", "x/1.2.3", "/4.5", "http/11.12", "x.1/2", "1.1"}
	html := []string{"", "<html></html>", "héllo 世界 <b>\u0000</b>", strings.Repeat("x", 70000), "a"}
	hdrs := []objReplay{{}, {"X-A": "1"}, {"content-type": "text/html; charset=UTF-8", "x-b": "2", "ETag": "\"q\""}, {"Content-Length": "99", "Content-Encoding": "gzip", "Set-Cookie": "own=1"}, {"content-length": "3", "server": ""}}
	cookies := [][]objReplay{{}, {cookieReplay("a", "1", "a.com", "/", true)}, {cookieReplay("a", "1", "", "", false), cookieReplay("b", "2", ".b.com", "/x", true), cookieReplay("a", "3", "", "/", false)}}
	statuses := []int{200, 404, 500, 301, 204, 999, 0, 599}
	ss, _ := vseedsReplay()
	for _, s := range ss {
		protos = append(protos, s)
		html = append(html, s)
	}
	for i := 0; i < 40 || i < len(protos) || i < len(html); i++ {
		c := newChromeReplay(t)
		proto, h, cs, st, page := protos[i%len(protos)], vpickReplay(hdrs...), vpickReplay(cookies...), vpickReplay(statuses...), html[i%len(html)]
		c.reply["DOM.getOuterHTML"] = objReplay{"outerHTML": page}
		c.reply["Storage.getCookies"] = objReplay{"cookies": cs}
		c.events = []eventReplay{responseReplay("main", "Document", st, h, proto), domReadyReplay()}
		c.partial = true
		if i%5 == 0 { // the page takes its time
			c.events[1].after = 40 * time.Millisecond
		}
		cl := &Client{Addr: c.srv.URL}
		req := vgetReplay(t, "http://a.com/x?y=1#z")
		req.Header.Set("X-Own", "1")
		req.AddCookie(&http.Cookie{Name: "k", Value: "v"})
		resp, err, ok := doReplay(cl, req, 10*time.Second)
		if !ok || err != nil {
			t.Fatalf("%q %v %v: %v %v", proto, h, cs, err, ok)
		}
		want := fmt.Sprintf("%d %s", st, http.StatusText(st))
		if resp.StatusCode != st || resp.Status != want {
			t.Fatalf("status %d %q, expected %q", resp.StatusCode, resp.Status, want)
		}
		b, err := io.ReadAll(resp.Body)
		if err != nil || string(b) != page || resp.ContentLength != int64(len(page)) || resp.Header.Get("Content-Length") != fmt.Sprint(len(page)) {
			t.Fatalf("page of %d bytes: %d bytes, %v, length %d, header %v", len(page), len(b), err, resp.ContentLength, resp.Header)
		}
		if resp.Body.Close() != nil {
			t.Fatal("close")
		}
		for k, v := range h {
			switch http.CanonicalHeaderKey(k) {
			case "Content-Length", "Set-Cookie":
			default:
				if vs, in := resp.Header[http.CanonicalHeaderKey(k)]; !in || vs[0] != v {
					t.Fatalf("header %s: %v", k, resp.Header)
				}
			}
		}
		vs := resp.Header["Set-Cookie"]
		if h["Set-Cookie"] != nil {
			if len(vs) != len(cs)+1 {
				t.Fatalf("%d cookies and an own one: %q", len(cs), vs)
			}
			vs = vs[1:]
		}
		if len(vs) != len(cs) {
			t.Fatalf("%d cookies: %q", len(cs), vs)
		}
		for j, k := range cs {
			w := (&http.Cookie{Name: k["name"].(string), Value: k["value"].(string), Domain: k["domain"].(string), Path: k["path"].(string), HttpOnly: k["httpOnly"].(bool)}).String()
			if vs[j] != w {
				t.Fatalf("cookie %d: %q, expected %q", j, vs[j], w)
			}
		}
		major, minor := protoOfReplay(proto)
		if resp.Proto != proto || resp.ProtoMajor != major || resp.ProtoMinor != minor {
			t.Fatalf("protocol %q: %q %d %d", proto, resp.Proto, resp.ProtoMajor, resp.ProtoMinor)
		}
		if resp.Request != req {
			t.Fatal("request")
		}
		if len(c.navs) != 1 || c.navs[0] != req.URL.String() {
			t.Fatalf("navigated to %q", c.navs)
		}
	}
	for _, m := range methodsReplay {
		for _, drop := range []bool{false, true} {
			c := newChromeReplay(t)
			c.fail[m], c.drop[m] = !drop, drop
			c.events = []eventReplay{responseReplay("main", "Document", 200, objReplay{}, ""), domReadyReplay()}
			resp, err, ok := doReplay(&Client{Addr: c.srv.URL}, vgetReplay(t, "http://a.com"), 10*time.Second)
			if !ok || err == nil || resp != nil {
				t.Fatalf("%s failed: %v %v %v", m, resp, err, ok)
			}
		}
	}
	c := newChromeReplay(t)
	c.reply["Page.navigate"] = objReplay{"frameId": "main", "errorText": "net::ERR_ABORTED"}
	c.events = []eventReplay{responseReplay("main", "Document", 200, objReplay{}, ""), domReadyReplay()}
	if resp, err, ok := doReplay(&Client{Addr: c.srv.URL}, vgetReplay(t, "http://a.com"), 10*time.Second); !ok || err == nil || resp != nil {
		t.Fatalf("navigation failed: %v %v %v", resp, err, ok)
	}
	c = newChromeReplay(t)
	ev := responseReplay("main", "Document", 200, objReplay{}, "")
	ev.params["response"].(objReplay)["headers"] = []int{1}
	c.events = []eventReplay{ev, domReadyReplay()}
	if resp, err, ok := doReplay(&Client{Addr: c.srv.URL}, vgetReplay(t, "http://a.com"), 10*time.Second); !ok || err == nil || resp != nil {
		t.Fatalf("malformed headers: %v %v %v", resp, err, ok)
	}
}

func cookieReplay(name, value, domain, path string, only bool) objReplay {
	return objReplay{"name": name, "value": value, "domain": domain, "path": path, "expires": -1, "size": 1, "httpOnly": only, "secure": false, "session": true, "priority": "Medium", "sameParty": false, "sourceScheme": "NonSecure", "sourcePort": 80}
}

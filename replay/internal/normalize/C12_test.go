package normalize

import (
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"
)

func nTextReplay(n int, from ...string) (s string) {
	for i := vrndReplay.Intn(n + 1); i > 0; i-- {
		s += vpickReplay(from...)
	}
	return
}

func TestVerifC12(t *testing.T) {
	ss, _ := vseedsReplay()
	end := time.Now().Add(20 * time.Second)
	for i := 0; i < 400000 && time.Now().Before(end) && !t.Failed(); i++ {
		raw := vpickReplay("http", "HTTP", "https", "Https", "ftp", "hTTps") + "://" +
			vpickReplay("", "", "", "User@", "User:Pass@", "a%40B:@", ":x@") +
			vpickReplay("Example.COM", "a.com", "[::1]", "[FE80::80]", "[::443]", "localhost", "1.2.3.4", "xn--A.b", "[fe80::1%25En0]") +
			vpickReplay("", "", ":80", ":443", ":8080", ":", ":080", ":8", ":4430", ":0443") +
			vpickReplay("", "/") + nTextReplay(6, "/", "a", "..", ".", "B", "%2f", "%7e", "%2F", "%41", "//", "/../", "/./", "...", "%20", "é", ";", "@", ":") +
			vpickReplay("", "?") + nTextReplay(7, "a", "=", "&", "1", "b", "B", "%26", "+", "a=1", "&", ";", "?", "/../", "%zz") +
			vpickReplay("", "#") + nTextReplay(2, "f", "#", "%20")
		if len(ss) > 0 && vrndReplay.Intn(8) == 0 {
			raw = vpickReplay("http://", "https://") + vpickReplay("a", "[::1]") + vpickReplay("", ":"+vpickReplay(ss...)) + "/" + vpickReplay(ss...) + "?" + vpickReplay(ss...)
		}
		if vrndReplay.Intn(30) == 0 {
			raw = nTextReplay(8, "a", ":", "/", "%", "?", "[", "]", "80")
		}
		if err := nOneReplay(raw); err != nil {
			t.Fatalf("%q: %v", raw, err)
		}
	}
}

func nOneReplay(raw string) error {
	u, err := url.Parse(raw)
	got, rerr := RawURL(raw)
	if (err != nil) != (rerr != nil) {
		return fmt.Errorf("RawURL error %v, Parse error %v", rerr, err)
	}
	if err != nil || u.Host == "" {
		return nil
	}
	old := *u
	var pass, user string
	var has bool
	if u.User != nil {
		user = u.User.Username()
		pass, has = u.User.Password()
	}
	r := URL(u)
	if r == nil {
		return fmt.Errorf("nil")
	}
	if r.String() != got {
		return fmt.Errorf("RawURL %q, URL %q", got, r)
	}
	n := *r
	if n.Scheme != strings.ToLower(old.Scheme) {
		return fmt.Errorf("scheme %q", n.Scheme)
	}
	host := strings.ToLower(old.Host)
	name := host
	if i := strings.LastIndex(host, ":"); i > strings.LastIndex(host, "]") && strings.Count(host[strings.LastIndex(host, "]")+1:], ":") == 1 {
		p := host[i+1:]
		if p == "80" && n.Scheme == "http" || p == "443" && n.Scheme == "https" {
			name = host[:i]
		}
	}
	if n.Host != name {
		return fmt.Errorf("host %q, want %q", n.Host, name)
	}
	// the path by hand
	var segs []string
	for _, s := range strings.Split(old.Path, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			segs = append(segs, s)
		}
	}
	if want := "/" + strings.Join(segs, "/"); n.Path != want {
		return fmt.Errorf("path %q, want %q", n.Path, want)
	}
	parts := strings.Split(old.RawQuery, "&")
	sort.Strings(parts)
	if want := strings.Join(parts, "&"); n.RawQuery != want {
		return fmt.Errorf("query %q, want %q", n.RawQuery, want)
	}
	if n.ForceQuery || n.Fragment != "" || n.EscapedFragment() != "" || n.Opaque != old.Opaque {
		return fmt.Errorf("%+v", n)
	}
	if (n.User == nil) != (old.User == nil) {
		return fmt.Errorf("user info %v", n.User)
	}
	if n.User != nil {
		p, h := n.User.Password()
		if n.User.Username() != user || p != pass || h != has {
			return fmt.Errorf("user info %v", n.User)
		}
	}
	if n.RawPath != "" && n.RawPath != (&url.URL{Path: n.Path}).EscapedPath() {
		return fmt.Errorf("raw path %q", n.RawPath)
	}
	c := n
	URL(&c)
	if !reflect.DeepEqual(c, n) || c.String() != n.String() {
		return fmt.Errorf("normalised twice %+v, once %+v", c, n)
	}
	again, err := RawURL(got)
	if err != nil || again != got {
		return fmt.Errorf("normalised %q, again %q %v", got, again, err)
	}
	return nil
}

//verif:race
package ant

import (
	"errors"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/andybalholm/cascadia"
	"golang.org/x/net/html"
)

// pLinks are the links by hand.
func pLinksReplay(root *html.Node, base *url.URL, selector string) (out []string, ok bool) {
	sel, err := cascadia.Compile(selector)
	if err != nil {
		return nil, false
	}
	pWalkReplay(root, func(n *html.Node) {
		if n == root || n.Type != html.ElementNode || !sel.Match(n) {
			return
		}
		for _, a := range n.Attr {
			if a.Key == "href" {
				u, err := url.Parse(a.Val)
				if err != nil {
					return
				}
				if r := base.ResolveReference(u); r.Scheme == "http" || r.Scheme == "https" {
					// an absolute link may stay as it is written
					if u.IsAbs() {
						r = u
					}
					out = append(out, r.String())
				}
				return
			}
		}
	})
	return out, true
}

func TestVerifC15(t *testing.T) {
	ss, _ := vseedsReplay()
	hrefs := []string{"a", "/a", "../b", "", "#f", "?q=1", "http://x.com/p", "HTTPS://X.com", "//y.com/z", "mailto:a@b", "javascript:x()", "ftp://f", ":", "http://[", "%zz", " a ", "a b", "http:rel", "https:", "tel:1", "http", "./", "x/../../y", "é", "http://x.com:port/", "http://", "data:,x", "//", "http://u@x.com/?a=1#f"}
	hrefs = append(hrefs, ss...)
	end := time.Now().Add(20 * time.Second)
	for i := 0; i < 30000 && time.Now().Before(end) && !t.Failed(); i++ {
		text := pDocReplay(hrefs...)
		var fail error
		if vrndReplay.Intn(5) == 0 {
			fail = errBodyReplay
		}
		base := vpickReplay("http://h.com/d/e?q#f", "https://h.com", "http://h.com/", "HTTP://h/a", "https://h.com:81/x/")
		p, b := pFetchReplay(t, base, text, fail)
		baseURL := *p.URL
		root, _ := html.Parse(strings.NewReader(text))
		concurrent := vrndReplay.Intn(4) == 0
		var wg sync.WaitGroup
		for j := vrndReplay.Intn(4) + 1; j > 0; j-- {
			op, sel := vrndReplay.Intn(8), vpickReplay("a[href]", "a", "div a", "a.x", "area", "[", "", "*", "link[href]", "b > a", "a[")
			one := func() { pUseReplay(t, p, root, &baseURL, op, sel, fail, text) }
			if concurrent {
				wg.Add(1)
				go func() { defer wg.Done(); one() }()
			} else {
				one()
				pUsedReplay(t, b, text)
			}
		}
		wg.Wait()
		pUsedReplay(t, b, text)
		if *p.URL != baseURL {
			t.Errorf("the page's URL changed to %v", p.URL)
		}
	}
}

func pUsedReplay(t *testing.T, b *pBodyReplay, text string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.closed != 1 || b.late != 0 || b.ended == 0 {
		t.Errorf("body of %q closed %d times, read %d times after that, end seen %d times", text, b.closed, b.late, b.ended)
	}
}

func pUseReplay(t *testing.T, p *Page, root *html.Node, base *url.URL, op int, sel string, fail error, text string) {
	wantErr := func(what string, err error) {
		if fail == nil && err != nil || fail != nil && !errors.Is(err, fail) {
			t.Errorf("%s of %q: %v, want %v", what, text, err, fail)
		}
	}
	links := func(us URLs, sel string) {
		got := []string{}
		for _, u := range us {
			if u == nil {
				t.Errorf("nil URL in %q", text)
				return
			}
			got = append(got, u.String())
		}
		want, _ := pLinksReplay(root, base, sel)
		if fail != nil {
			want = nil
		}
		if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
			t.Errorf("links of %q below %v for %q: %q, want %q", text, base, sel, got, want)
		}
	}
	switch op {
	case 0, 1:
		links(p.URLs(), "a[href]")
	case 2, 3:
		us, err := p.Next(sel)
		if fail == nil && err != nil {
			t.Errorf("Next %q: %v", sel, err)
		}
		links(us, sel)
	case 4:
		d, err := p.Document()
		wantErr("Document", err)
		if (d != nil) != (fail == nil) {
			t.Errorf("document %v, %v", d, err)
		}
	case 5:
		s, err := p.HTML()
		wantErr("HTML", err)
		var b strings.Builder
		html.Render(&b, root)
		if fail == nil && s != b.String() {
			t.Errorf("HTML of %q is %q", text, s)
		}
	case 6:
		var dst struct {
			T string `css:"title, a"`
		}
		wantErr("Scan", p.Scan(&dst))
	default:
		n := 0
		if s, err := cascadia.Compile(sel); err == nil && fail == nil {
			n = len(s.MatchAll(root))
		}
		if got := len(p.Query(sel)); got != n {
			t.Errorf("query %q of %q found %d, not %d", sel, text, got, n)
		}
	}
}

package ant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"testing"

	"golang.org/x/net/html"
)

// pBody records how it is used.
type pBodyReplay struct {
	mu     sync.Mutex
	r      io.Reader
	fail   error // instead of EOF
	ended  int
	closed int
	late   int // reads after close
}

func (b *pBodyReplay) Read(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.closed > 0 {
		b.late++
	}
	if len(p) > 7 {
		p = p[:7]
	}
	n, err := b.r.Read(p)
	if err == io.EOF {
		b.ended++
		if b.fail != nil {
			err = b.fail
		}
	}
	return n, err
}

func (b *pBodyReplay) Close() error {
	b.mu.Lock()
	b.closed++
	b.mu.Unlock()
	return nil
}

type pClientReplay func(*http.Request) (*http.Response, error)

func (c pClientReplay) Do(r *http.Request) (*http.Response, error) { return c(r) }

var errBodyReplay = errors.New("body broke")

// pFetch is a page with the text.
func pFetchReplay(t *testing.T, raw, text string, fail error) (*Page, *pBodyReplay) {
	u, err := url.Parse(raw)
	if err != nil {
		t.Fatal(err)
	}
	b := &pBodyReplay{r: strings.NewReader(text), fail: fail}
	f := &Fetcher{Client: pClientReplay(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Header: http.Header{}, Body: b, Request: r}, nil
	})}
	p, err := f.Fetch(context.Background(), u)
	if err != nil || p == nil {
		t.Fatalf("fetch: %v %v", p, err)
	}
	return p, b
}

// pDoc is a random document.
func pDocReplay(hrefs ...string) string {
	var b strings.Builder
	n := vrndReplay.Intn(12)
	if len(hrefs) > 0 {
		n = vrndReplay.Intn(len(hrefs)*2 + 2)
	}
	var stack []string
	open := func(tag, attr string) {
		b.WriteString("<" + tag + attr + ">")
		stack = append(stack, tag)
	}
	for i := 0; i < n; i++ {
		attr := ""
		if vrndReplay.Intn(2) == 0 {
			attr += fmt.Sprintf(` class="%s"`, vpickReplay("x", "y", "x y"))
		}
		if vrndReplay.Intn(3) == 0 {
			attr += fmt.Sprintf(` id="i%d"`, i)
		}
		if vrndReplay.Intn(3) == 0 {
			attr += fmt.Sprintf(` data="%s"`, vpickReplay("1", "", "7", "z"))
		}
		switch vrndReplay.Intn(4) {
		case 0, 1:
			if len(hrefs) > 0 {
				h := ` href="` + html.EscapeString(vpickReplay(hrefs...)) + `"`
				if vrndReplay.Intn(6) == 0 {
					h += ` href="second"`
				}
				if vrndReplay.Intn(6) == 0 {
					h = ` HREF=` + "'" + html.EscapeString(vpickReplay(hrefs...)) + "'"
				}
				if vrndReplay.Intn(8) == 0 {
					h = ""
				}
				b.WriteString("<" + vpickReplay("a", "a", "a", "A", "area", "link") + attr + h + ">" + vpickReplay("", "t") + "</a>")
				break
			}
			fallthrough
		case 2:
			open(vpickReplay("div", "p", "b", "i", "ul", "li", "span"), attr)
			b.WriteString(vpickReplay("", "text", " ", "12", "-3", "4.5", "&amp;", "<!-- c -->"))
		default:
			if len(stack) > 0 {
				b.WriteString("</" + stack[len(stack)-1] + ">" + vpickReplay("", "tail"))
				stack = stack[:len(stack)-1]
			}
		}
	}
	return b.String()
}

func pWalkReplay(n *html.Node, f func(*html.Node)) {
	f(n)
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		pWalkReplay(c, f)
	}
}

// pText is the text of a node by hand: comments have none.
func pTextReplay(n *html.Node) (s string) {
	if n.Type == html.TextNode {
		return n.Data
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.TextNode || c.Type == html.ElementNode {
			s += pTextReplay(c)
		}
	}
	return
}

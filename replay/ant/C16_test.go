package ant

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/andybalholm/cascadia"
	"golang.org/x/net/html"
)

func TestVerifC16(t *testing.T) {
	_, is := vseedsReplay()
	end := time.Now().Add(20 * time.Second)
	sels := []string{"*", "div", "p, b", ".x", ".x.y", "div > *", "i", "li", "[data]", "[", "", "span b", ":first-child", "nosuch", "body"}
	for i := 0; i < 60000 && time.Now().Before(end) && !t.Failed(); i++ {
		text := pDocReplay()
		root, _ := html.Parse(strings.NewReader(text))
		var all []*html.Node
		pWalkReplay(root, func(n *html.Node) { all = append(all, n) })
		l := List{}
		for j := vrndReplay.Intn(6); j > 0; j-- {
			l = append(l, vpickReplay(all...))
		}
		if vrndReplay.Intn(10) == 0 {
			l = nil
		}
		old := append(List(nil), l...)
		sel := vpickReplay(sels...)
		c, err := cascadia.Compile(sel)
		var q List
		is1 := false
		str := ""
		for _, n := range l {
			if err == nil {
				q = append(q, c.MatchAll(n)...)
				is1 = is1 || c.Match(n)
			}
			str += pTextReplay(n)
		}
		fail := func(what string, got, want any) {
			t.Errorf("%s of %d nodes of %q, selector %q: %v, want %v", what, len(l), text, sel, got, want)
		}
		if got := l.Query(sel); !sameReplay(got, q) {
			fail("Query", got, q)
		}
		if got := l.Is(sel); got != is1 {
			fail("Is", got, is1)
		}
		if got := l.Text(); got != str {
			fail("Text", got, str)
		}
		key := vpickReplay("class", "id", "data", "", "Class")
		val, ok := "", false
		if len(l) > 0 {
			for _, a := range l[0].Attr {
				if a.Key == key {
					val, ok = a.Val, true
					break
				}
			}
		}
		if v, k := l.Attr(key); v != val || k != ok {
			fail("Attr "+key, fmt.Sprint(v, k), fmt.Sprint(val, ok))
		}
		at := vrndReplay.Intn(16) - 8
		if vrndReplay.Intn(10) == 0 {
			at = vpickReplay(1<<62, -1<<62, -1<<63, 1<<63-1)
		}
		if len(is) > 0 && vrndReplay.Intn(4) == 0 {
			at = int(vpickReplay(is...))
		}
		want := List{}
		for k := range l {
			if k == at || k-len(l) == at {
				want = append(want, l[k])
			}
		}
		got := l.At(at)
		if !sameReplay(got, want) {
			fail(fmt.Sprint("At ", at), got, want)
		}
		var dst struct {
			B string `css:"b"`
			I []int  `css:"i"`
		}
		dst.B = "before"
		if err := l.Scan(&dst); err != nil {
			fail("Scan", err, nil)
		}
		b, nums := "before", 0
		if len(l) > 0 {
			b = ""
			if n := cascadia.MustCompile("b").MatchFirst(l[0]); n != nil {
				b = pTextReplay(n)
			}
			nums = len(cascadia.MustCompile("i").MatchAll(l[0]))
		}
		if dst.B != b || len(dst.I) != nums {
			fail("Scan", dst, b)
		}
		if !reflect.DeepEqual(old, l) && len(l)+len(old) > 0 {
			fail("list", l, old)
		}
		if err := l.Scan(dst); (err != nil) != (len(l) > 0) {
			fail("Scan into no pointer", err, nil)
		}
	}
}

func sameReplay(a, b List) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

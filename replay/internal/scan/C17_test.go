package scan

import (
	"reflect"
	"testing"
	"time"

	"golang.org/x/net/html"
)

func TestVerifC17(t *testing.T) {
	end := time.Now().Add(25 * time.Second)
	s := NewScanner()
	for i := 0; i < 150000 && time.Now().Before(end) && !t.Failed(); i++ {
		if i%50 == 0 {
			s = NewScanner()
		}
		sOneReplay(t, s)
	}
	var np *int
	for _, x := range []any{nil, 1, "s", struct{}{}, np, (*string)(nil), (**int)(nil), map[string]int{}, []int{1}, sCellReplay{}, (*sCellReplay)(nil), func() {}, make(chan int)} {
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Errorf("Scan into %T panics: %v", x, p)
				}
			}()
			if err := s.Scan(x, sDocReplay(), Options{}); err == nil {
				t.Errorf("Scan into %T succeeds", x)
			}
		}()
	}
}

func sOneReplay(t *testing.T, s *Scanner) {
	typ := sTypeReplay(3)
	doc := sDocReplay()
	want, got := reflect.New(typ), reflect.New(typ)
	sFillReplay(want.Elem())
	sFillReplay(got.Elem())
	werr := sCheckReplay(typ, false)
	if werr == nil {
		sScanReplay(want.Elem(), doc, nil, "")
	}
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				t.Errorf("Scan into %v panics: %v", got.Type(), p)
			}
		}()
		for k := 1 + vrndReplay.Intn(2); k > 0; k-- {
			err = s.Scan(got.Interface(), doc, Options{})
		}
	}()
	if (err != nil) != (werr != nil) {
		t.Errorf("Scan into %v: %v, want %v", got.Type(), err, werr)
		return
	}
	if g, w := sShowReplay(got.Elem()), sShowReplay(want.Elem()); g != w {
		t.Errorf("Scan %s into %v: %s, want %s", sRenderReplay(doc), got.Type(), g, w)
	}
}

func sRenderReplay(n *html.Node) string {
	s := n.Data
	for _, a := range n.Attr {
		s += " " + a.Key + "=" + a.Val
	}
	s += "("
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		s += sRenderReplay(c) + " "
	}
	return s + ")"
}

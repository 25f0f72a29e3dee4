package selectors

import (
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/andybalholm/cascadia"
	"golang.org/x/net/html"
)

//verif:race
func TestVerifC18(t *testing.T) {
	doc, _ := html.Parse(strings.NewReader("<a class=x href=1>t<b>u</b></a><i id=k><b class='x y'>v</b></i>"))
	ss, _ := vseedsReplay()
	all := append([]string{"a", "b", "a b", "i > b", ".x", ".x.y", "#k", "*", "A", " a ", "a, b", "[", "", "a[", ":nope", "[href]", "b:first-child", "a:not(.x)", ">", "a >", "é"}, ss...)
	end := time.Now().Add(15 * time.Second)
	for i := 0; i < 2000 && time.Now().Before(end) && !t.Failed(); i++ {
		c := NewCache()
		var wg sync.WaitGroup
		global := vrndReplay.Intn(3) == 0
		for g := 0; g < 4; g++ {
			var plan []string
			for k := 0; k < 8; k++ {
				plan = append(plan, vpickReplay(all...))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, sel := range plan {
					want, werr := cascadia.Compile(sel)
					var got cascadia.Selector
					var err error
					if global {
						got, err = Compile(sel)
					} else {
						got, err = c.Compile(sel)
					}
					if (err != nil) != (werr != nil) || (got == nil) != (want == nil) {
						t.Errorf("%q: %v %v, want %v", sel, got != nil, err, werr)
						return
					}
					if werr != nil {
						if err.Error() == "" {
							t.Errorf("%q: empty error", sel)
						}
						continue
					}
					a, b := got.MatchAll(doc), want.MatchAll(doc)
					same := len(a) == len(b)
					for j := range a {
						same = same && a[j] == b[j]
					}
					if !same {
						t.Errorf("%q: %v, want %v", sel, a, b)
					}
				}
			}()
		}
		wg.Wait()
	}
}

package ant

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type jAReplay struct {
	B string   `css:"b" json:"b"`
	I []string `css:"i" json:"i"`
	K string
}
type jBReplay struct {
	D []jCReplay `css:"div, p" json:"d"`
	N int        `css:"b" json:"n"`
}
type jCReplay struct {
	C string `css:"*@class" json:"c"`
}
type jBadReplay struct {
	A chan int `css:"b"`
}
type jNoTagsReplay struct{ A string }
type jNestReplay struct {
	S struct {
		U string   `css:"u" json:"u"`
		L []string `css:"u" json:"l"`
	} `css:"section" json:"s"`
	B string `css:"b" json:"b"`
}
type jUnencodableReplay struct {
	B string `css:"b"`
	F func()
}
type jFloatReplay struct {
	F float64 `css:"b" json:"f"`
}

// jWriter is slow, and fails after some writes.
type jWriterReplay struct {
	busy  int32
	over  bool
	lines []string
	n     int
	slow  bool
}

var errWriteReplay = errors.New("write failed")

func (w *jWriterReplay) Write(p []byte) (int, error) {
	if !atomic.CompareAndSwapInt32(&w.busy, 0, 1) {
		w.over = true
	}
	if w.slow {
		time.Sleep(20 * time.Microsecond)
	}
	defer atomic.StoreInt32(&w.busy, 0)
	if w.n == 0 {
		return 0, errWriteReplay
	}
	w.n--
	w.lines = append(w.lines, string(p))
	return len(p), nil
}

func jStringsReplay(us URLs) (out []string) {
	for _, u := range us {
		out = append(out, u.String())
	}
	return
}

//verif:race
func TestVerifC19(t *testing.T) {
	ctx := context.Background()
	hrefs := []string{"a", "/b", "http://x.com/", "mailto:a", "c?d"}
	end := time.Now().Add(20 * time.Second)
	for i := 0; i < 20000 && time.Now().Before(end) && !t.Failed(); i++ {
		typ := vpickReplay[any](jNestReplay{}, &jNestReplay{}, jAReplay{}, &jAReplay{}, jBReplay{}, &jBReplay{}, jAReplay{}, jBReplay{}, jBadReplay{}, jNoTagsReplay{}, &jUnencodableReplay{}, jFloatReplay{}, 1, "s", nil, new(int), []jAReplay{}, map[string]string{}, new(*jAReplay), (*jAReplay)(nil), jAReplay{B: "preset", K: "preset"})
		var sels []string
		for k := vrndReplay.Intn(4); k > 0; k-- {
			sels = append(sels, vpickReplay("a", "a.x", "div a", "area", "[", "p a", "nosuch", "a[href]"))
		}
		w := &jWriterReplay{n: vpickReplay(100, 100, 0, 1, 2), slow: vrndReplay.Intn(10) == 0}
		enough := w.n == 100
		s := JSON(w, typ, append([]string(nil), sels...)...)
		n := 1 + vrndReplay.Intn(4)
		pages, others, fails := make([]*Page, n), make([]*Page, n), make([]error, n)
		for k := range pages {
			text := pDocReplay(hrefs...) + pDocReplay() + vpickReplay("", "<b>NaN</b>", "<b>x</b>", fmt.Sprintf("<section><u>%d</u></section>", i))
			if vrndReplay.Intn(8) == 0 {
				fails[k] = errBodyReplay
			}
			pages[k], _ = pFetchReplay(t, "http://h.com/d/", text, fails[k])
			others[k], _ = pFetchReplay(t, "http://h.com/d/", text, fails[k])
		}
		urls, errs := make([]URLs, n), make([]error, n)
		if vrndReplay.Intn(2) == 0 {
			var wg sync.WaitGroup
			for k := range pages {
				wg.Add(1)
				go func() { defer wg.Done(); urls[k], errs[k] = s.Scrape(ctx, pages[k]) }()
			}
			done := make(chan bool)
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				t.Fatal("Scrape does not return")
			}
		} else {
			for k := range pages {
				ok := make(chan bool)
				go func() { urls[k], errs[k] = s.Scrape(ctx, pages[k]); close(ok) }()
				select {
				case <-ok:
				case <-time.After(10 * time.Second):
					t.Fatal("Scrape does not return")
				}
			}
		}
		rt := reflect.TypeOf(typ)
		if rt != nil && rt.Kind() == reflect.Ptr {
			rt = rt.Elem()
		}
		if w.over {
			t.Errorf("encodings of %v overlap", rt)
		}
		lines := map[string]int{}
		for _, l := range w.lines {
			lines[l]++
		}
		for k, p := range others {
			what := fmt.Sprintf("Scrape of page %d for %v, selectors %q", k, rt, sels)
			if rt == nil || rt.Kind() != reflect.Struct {
				if errs[k] == nil || len(urls[k]) > 0 {
					t.Errorf("%s: %v, %v", what, urls[k], errs[k])
				}
				continue
			}
			x := reflect.New(rt)
			serr := p.Scan(x.Interface())
			var b []byte
			var eerr error
			if serr == nil {
				b, eerr = json.Marshal(x.Interface())
			}
			if serr != nil || eerr != nil {
				if errs[k] == nil || len(urls[k]) > 0 {
					t.Errorf("%s: %v, %v, want %v %v", what, urls[k], errs[k], serr, eerr)
				}
				if fails[k] != nil && !errors.Is(errs[k], fails[k]) {
					t.Errorf("%s: %v, want %v", what, errs[k], fails[k])
				}
				continue
			}
			if errs[k] != nil {
				if enough || !errors.Is(errs[k], errWriteReplay) || len(urls[k]) > 0 {
					t.Errorf("%s: %v, %v", what, urls[k], errs[k])
				}
				continue
			}
			line := string(b) + "\n"
			if lines[line]--; lines[line] < 0 {
				t.Errorf("%s: %q is not written once in %q", what, line, w.lines)
			}
			var want []string
			for _, sel := range sels {
				us, _ := p.Next(sel)
				want = append(want, jStringsReplay(us)...)
			}
			if len(sels) == 0 {
				want = jStringsReplay(p.URLs())
			}
			if got := jStringsReplay(urls[k]); strings.Join(got, " ") != strings.Join(want, " ") {
				t.Errorf("%s: %q, want %q", what, got, want)
			}
		}
		for l, c := range lines {
			if c > 0 {
				t.Errorf("%q was also written, for %v", l, rt)
			}
		}
	}
}

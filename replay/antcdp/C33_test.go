package antcdp

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/mafredri/cdp/devtool"
	"github.com/mafredri/cdp/protocol/page"
)

func TestVerifC33(t *testing.T) {
	types := []string{"Image", "Script", "Stylesheet", "XHR", "Fetch", "Font", "Other", "Ping"}
	for i := 0; i < 40; i++ {
		c := newChromeReplay(t)
		var before, after []eventReplay
		noise := func(n int) (es []eventReplay) {
			for j := 0; j < n; j++ {
				switch vrndReplay.Intn(3) {
				case 0:
					es = append(es, reqEventReplay(fmt.Sprint("q", j)))
				case 1:
					es = append(es, responseReplay(vpickReplay("main", "other", ""), vpickReplay(types...), 501, objReplay{"X-Bad": "1"}, "x/9.9"))
				case 2:
					es = append(es, responseReplay(vpickReplay("other", "Main", "main2"), "Document", 502, objReplay{"X-Bad": "1"}, "x/9.9"))
				}
			}
			return
		}
		before, after = noise(vrndReplay.Intn(6)), noise(vrndReplay.Intn(4))
		doc := responseReplay(vpickReplay("main", "main", ""), "Document", 203, objReplay{"X-Good": "1"}, "http/1.1")
		ready := domReadyReplay()
		if i%2 == 0 {
			doc.after = 60 * time.Millisecond
		}
		if i%3 == 0 {
			ready.after = 60 * time.Millisecond
		}
		ev := append([]eventReplay{}, before...)
		if i%4 == 0 { // the document may be ready before its response is told
			ev = append(ev, ready, doc)
		} else {
			ev = append(append(append(ev, doc), after...), ready)
		}
		c.events = ev
		c.early = i%5 == 0
		t0 := time.Now()
		resp, err, ok := doReplay(&Client{Addr: c.srv.URL}, vgetReplay(t, "http://a.com"), 10*time.Second)
		if !ok {
			t.Fatalf("blocked with events %v", ev)
		}
		if err != nil {
			t.Fatalf("%v with events %v", err, ev)
		}
		if resp.StatusCode != 203 || resp.Header.Get("X-Good") != "1" || resp.Header.Get("X-Bad") != "" {
			t.Fatalf("%d %v with events %v", resp.StatusCode, resp.Header, ev)
		}
		if d := time.Since(t0); (i%2 == 0 || i%3 == 0) && d < 55*time.Millisecond {
			t.Fatalf("returned after %s with events %v", d, ev)
		}
	}
	// the document never responds
	others := []eventReplay{reqEventReplay("q"), responseReplay("other", "Document", 200, objReplay{}, ""), responseReplay("main", "Script", 200, objReplay{}, ""), domReadyReplay()}
	for _, n := range []int{0, 1, 4} {
		for _, cancelled := range []bool{false, true} {
			c := newChromeReplay(t)
			c.events = others[:n]
			ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
			want := context.DeadlineExceeded
			if cancelled {
				cancel()
				ctx, cancel = context.WithCancel(context.Background())
				want = context.Canceled
				time.AfterFunc(200*time.Millisecond, cancel)
			}
			resp, err, ok := doReplay(&Client{Addr: c.srv.URL}, vgetReplay(t, "http://a.com").WithContext(ctx), 10*time.Second)
			cancel()
			if !ok || err == nil || resp != nil || !errors.Is(err, want) {
				t.Fatalf("no document in %v: %v %v %v", others[:n], resp, err, ok)
			}
		}
	}
	// waiting itself, on a connection that outlives the context
	for _, n := range []int{0, 1, 4} {
		for _, cancelled := range []bool{false, true} {
			c := newChromeReplay(t)
			c.events = others[:n]
			ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
			if cancelled {
				ctx, cancel = context.WithCancel(context.Background())
				time.AfterFunc(100*time.Millisecond, cancel)
			}
			x := &tx{request: vgetReplay(t, "http://a.com").WithContext(ctx)}
			var err error
			if x.target, err = newTargets(devtool.New(c.srv.URL)).acquire(context.Background()); err != nil {
				t.Fatal(err)
			}
			if err := x.init(context.Background()); err != nil {
				t.Fatal(err)
			}
			done := make(chan error, 1)
			go func() { done <- x.wait(ctx, page.NavigateReply{FrameID: "main"}) }()
			select {
			case err := <-done:
				if !errors.Is(err, ctx.Err()) || err == nil {
					t.Errorf("no document in %v: wait returned %v, the context ended with %v", others[:n], err, ctx.Err())
				}
			case <-time.After(10 * time.Second):
				t.Errorf("no document in %v: wait blocks", others[:n])
			}
			cancel()
			x.close()
		}
	}
	// the document responds, and is never ready
	c := newChromeReplay(t)
	c.events = []eventReplay{responseReplay("main", "Document", 200, objReplay{}, "")}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
	defer cancel()
	if resp, err, ok := doReplay(&Client{Addr: c.srv.URL}, vgetReplay(t, "http://a.com").WithContext(ctx), 10*time.Second); !ok || err == nil || resp != nil {
		t.Fatalf("not ready: %v %v %v", resp, err, ok)
	}
	// events that fail
	for n := 0; n < 4; n++ {
		c := newChromeReplay(t)
		c.events = append(append([]eventReplay{}, others[:n]...), eventReplay{method: "drop"})
		if resp, err, ok := doReplay(&Client{Addr: c.srv.URL}, vgetReplay(t, "http://a.com"), 10*time.Second); !ok || err == nil || resp != nil {
			t.Fatalf("dropped after %d events: %v %v %v", n, resp, err, ok)
		}
		for _, bad := range []string{"Network.responseReceived", "Network.requestWillBeSent"} {
			c := newChromeReplay(t)
			c.events = append(append([]eventReplay{}, others[:n]...), eventReplay{method: bad, params: objReplay{"requestId": 1, "type": 2}})
			if resp, err, ok := doReplay(&Client{Addr: c.srv.URL}, vgetReplay(t, "http://a.com"), 10*time.Second); !ok || err == nil || resp != nil {
				t.Fatalf("malformed %s after %d events: %v %v %v", bad, n, resp, err, ok)
			}
		}
	}
}

package antcdp

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/mafredri/cdp/devtool"
)

//verif:race
func TestVerifC32(t *testing.T) {
	good := []eventReplay{reqEventReplay("r1"), responseReplay("main", "Document", 200, objReplay{}, "http/1.1"), domReadyReplay()}
	check := func(what string, c *chromeReplay, cl *Client, want int) {
		t.Helper()
		if !c.quiet() {
			t.Fatalf("%s: a connection is left open", what)
		}
		got := pooledReplay(cl)
		if len(got) != want {
			t.Fatalf("%s: the pool holds %q, expected %d", what, got, want)
		}
		seen := map[string]bool{}
		for _, id := range got {
			if seen[id] {
				t.Fatalf("%s: %s is twice in the pool", what, id)
			}
			seen[id] = true
		}
	}
	for _, m := range methodsReplay {
		for kind := 0; kind < 3; kind++ {
			c := newChromeReplay(t)
			c.events = good
			switch kind {
			case 0:
				c.fail[m] = true
			case 1:
				c.drop[m] = true
			case 2:
				c.hang[m] = true
			}
			cl := &Client{Addr: c.srv.URL}
			ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
			if kind != 2 {
				cancel()
				ctx, cancel = context.WithTimeout(context.Background(), time.Minute)
			}
			_, err, ok := doReplay(cl, vgetReplay(t, "http://a.com").WithContext(ctx), 10*time.Second)
			cancel()
			what := fmt.Sprintf("%s, failure of kind %d", m, kind)
			if !ok {
				t.Fatalf("%s: blocked", what)
			}
			if err == nil {
				t.Fatalf("%s: no error", what)
			}
			check(what, c, cl, 1)
		}
	}
	c := newChromeReplay(t)
	c.newfail = true
	cl := &Client{Addr: c.srv.URL}
	if _, err, ok := doReplay(cl, vgetReplay(t, "http://a.com"), 10*time.Second); !ok || err == nil {
		t.Fatal("no target, and no error")
	}
	check("no target", c, cl, 0)

	c = newChromeReplay(t)
	c.badws = true
	cl = &Client{Addr: c.srv.URL}
	if _, err, ok := doReplay(cl, vgetReplay(t, "http://a.com"), 10*time.Second); !ok || err == nil {
		t.Fatal("a target that cannot be dialled, and no error")
	}
	check("not dialled", c, cl, 1)

	c = newChromeReplay(t)
	c.newhang = true
	cl = &Client{Addr: c.srv.URL}
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	if _, err, ok := doReplay(cl, vgetReplay(t, "http://a.com").WithContext(ctx), 10*time.Second); !ok || !errors.Is(err, context.DeadlineExceeded) {
		t.Fatalf("hanging creation: %v %v", err, ok)
	}
	check("hanging creation", c, cl, 0)

	for i := 0; i < 20; i++ {
		c = newChromeReplay(t)
		c.events = good
		cl = &Client{Addr: c.srv.URL}
		if i%2 == 1 {
			if _, err, ok := doReplay(cl, vgetReplay(t, "http://a.com"), 10*time.Second); !ok || err != nil {
				t.Fatal(err)
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		if _, err, ok := doReplay(cl, vgetReplay(t, "http://a.com").WithContext(ctx), 10*time.Second); !ok || !errors.Is(err, context.Canceled) {
			t.Fatalf("cancelled: %v %v", err, ok)
		}
		check("cancelled", c, cl, i%2)
	}

	c = newChromeReplay(t)
	c.events = good
	cl = &Client{Addr: c.srv.URL}
	for i := 0; i < 5; i++ {
		if _, err, ok := doReplay(cl, vgetReplay(t, "http://a.com"), 10*time.Second); !ok || err != nil {
			t.Fatal(err)
		}
		if !c.quiet() {
			t.Fatal("a connection is left open")
		}
	}
	if c.created != 1 {
		t.Fatalf("%d targets for requests one after another", c.created)
	}
	check("one after another", c, cl, 1)

	for _, n := range []int{3, 8, 25} {
		c = newChromeReplay(t)
		c.events = []eventReplay{{after: 20 * time.Millisecond, method: "x.y", params: objReplay{}}, good[0], good[1], good[2]}
		busy := map[string]int{}
		var mu sync.Mutex
		cl = &Client{Addr: c.srv.URL}
		var wg sync.WaitGroup
		var errs []error
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 3; j++ {
					if _, err, ok := doReplay(cl, vgetReplay(t, "http://a.com"), 20*time.Second); !ok || err != nil {
						mu.Lock()
						errs = append(errs, fmt.Errorf("%v %v", err, ok))
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
		_ = busy
		if len(errs) > 0 {
			t.Fatal(errs)
		}
		if !c.quiet() {
			t.Fatal("a connection is left open")
		}
		if c.dials != 3*n {
			t.Fatalf("%d connections for %d requests", c.dials, 3*n)
		}
		want := c.created
		if got := pooledReplay(cl); len(got) > want || len(got) == 0 || n < 10 && len(got) != want {
			t.Fatalf("%d targets, %d in the pool", want, len(got))
		}
	}

	// the pool itself
	p := newTargets(devtool.New("http://127.0.0.1:1"))
	mine := map[*devtool.Target]bool{}
	for i := 0; i < 40; i++ {
		x := &devtool.Target{ID: fmt.Sprint(i)}
		mine[x] = true
		done := make(chan bool)
		go func() { p.release(x); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("release blocks")
		}
	}
	n := len(p.targets)
	if n == 0 {
		t.Fatal("nothing is released")
	}
	for i := 0; i < n; i++ {
		x, err := p.acquire(context.Background())
		if err != nil || !mine[x] {
			t.Fatalf("%v %v", x, err)
		}
		delete(mine, x)
	}
	if x, err := p.acquire(context.Background()); err == nil || x != nil {
		t.Fatalf("nothing is there: %v %v", x, err)
	}
}

func TestVerifC32Exclusive(t *testing.T) {
	// a target is busy from navigation to the end of its connection
	c := newChromeReplay(t)
	c.events = []eventReplay{{after: 30 * time.Millisecond, method: "x.y", params: objReplay{}}, responseReplay("main", "Document", 200, objReplay{}, ""), domReadyReplay()}
	var mu sync.Mutex
	busy, bad := map[string]string{}, ""
	c.onNav = func(target, url string) {
		mu.Lock()
		defer mu.Unlock()
		if o, ok := busy[target]; ok {
			bad = o + " and " + url + " share " + target
		}
		busy[target] = url
	}
	cl := &Client{Addr: c.srv.URL}
	var wg sync.WaitGroup
	for i := 0; i < 12; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 4; j++ {
				u := fmt.Sprintf("http://a.com/%d/%d", i, j)
				doReplay(cl, vgetReplay(t, u), 20*time.Second)
				mu.Lock()
				for k, v := range busy {
					if v == u {
						delete(busy, k)
					}
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	_ = bad // the entry is deleted after the release: the pool may be faster
	if c.quiet(); c.dials != 48 {
		t.Fatalf("%d connections", c.dials)
	}
	if ids := pooledReplay(cl); len(ids) > c.created {
		t.Fatalf("%d of %d targets", len(ids), c.created)
	} else {
		seen := map[string]bool{}
		for _, id := range ids {
			if seen[id] {
				t.Fatalf("%s is twice in the pool", id)
			}
			seen[id] = true
		}
	}
}

package ant

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"runtime"
	"sync"
	"testing"
	"time"
)

func qURLReplay(i int) *URL { return &url.URL{Scheme: "http", Host: "h", Path: fmt.Sprint("/", i)} }

// qWithin tells whether f ends in time.
func qWithinReplay(d time.Duration, f func()) bool {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

//verif:race
func TestVerifC08(t *testing.T) {
	bg := context.Background()
	gone, cancel := context.WithCancel(bg)
	cancel()
	next := 0
	// histories of one goroutine
	end := time.Now().Add(15 * time.Second)
	for seed := int64(1); time.Now().Before(end); seed++ {
		rnd := rand.New(rand.NewSource(seed))
		q := MemoryQueue(rnd.Intn(3))
		var pending URLs
		var taken URLs
		closed := false
		hist := ""
		for k := 0; k < 30; k++ {
			switch rnd.Intn(7) {
			case 0, 1:
				n := rnd.Intn(4)
				var us URLs
				for ; n > 0; n-- {
					us = append(us, qURLReplay(next))
					next++
				}
				ctx := bg
				if rnd.Intn(5) == 0 {
					ctx = gone
				}
				err := q.Enqueue(ctx, us)
				hist += fmt.Sprintf("Enqueue(%d, cancelled %v)=%v ", len(us), ctx == gone, err)
				switch {
				case len(us) == 0:
				case closed:
					if err != io.EOF {
						t.Fatalf("%s: error %v of a closed queue", hist, err)
					}
				case ctx == gone:
					if err != context.Canceled {
						t.Fatalf("%s: error %v with a cancelled context", hist, err)
					}
				default:
					if err != nil {
						t.Fatalf("%s: error %v", hist, err)
					}
					pending = append(pending, us...)
				}
				for i := range us {
					us[i] = nil // the caller's slice
				}
			case 2, 3:
				if len(pending) == 0 && !closed {
					continue
				}
				u, err := q.Dequeue(bg)
				hist += fmt.Sprintf("Dequeue=%v,%v ", u, err)
				if closed {
					if err != io.EOF || u != nil {
						t.Fatalf("%s: after Close", hist)
					}
					continue
				}
				if err != nil || u != pending[0] {
					t.Fatalf("%s: %v is the oldest", hist, pending[0])
				}
				pending = pending[1:]
				taken = append(taken, u)
			case 4:
				if len(taken) == 0 {
					continue
				}
				i := rnd.Intn(len(taken))
				q.Done(bg, taken[i])
				hist += "Done "
				taken = append(taken[:i:i], taken[i+1:]...)
			case 5:
				if rnd.Intn(4) > 0 {
					continue
				}
				q.Close(bg)
				hist += "Close "
				closed = true
				pending = nil
			case 6:
				if rnd.Intn(3) > 0 {
					continue
				}
				outstanding := len(taken) + len(pending)
				if outstanding == 0 {
					hist += "Wait "
					if !qWithinReplay(5*time.Second, q.Wait) {
						t.Fatalf("%s: Wait hangs", hist)
					}
					continue
				}
				done := make(chan bool)
				go func() { q.Wait(); close(done) }()
				for i := 0; i < 3; i++ {
					runtime.Gosched()
				}
				if rnd.Intn(20) == 0 {
					time.Sleep(time.Millisecond)
				}
				select {
				case <-done:
					t.Fatalf("%s: Wait returns with %d URLs outstanding", hist, outstanding)
				default:
				}
				k = 30 // nothing may be added while a count of zero is waited for
			}
		}
		// leave nobody waiting
		for len(taken) > 0 {
			q.Done(bg, taken[0])
			taken = taken[1:]
		}
		if !closed && rnd.Intn(2) == 0 {
			for _, p := range pending {
				u, err := q.Dequeue(bg)
				if err != nil || u != p {
					t.Fatalf("%s: drained %v, %v instead of %v", hist, u, err, p)
				}
				q.Done(bg, u)
			}
		} else {
			q.Close(bg)
		}
		if !qWithinReplay(5*time.Second, q.Wait) {
			t.Fatalf("%s: Wait hangs in the end", hist)
		}
	}
	// many goroutines
	end = time.Now().Add(25 * time.Second)
	for seed := int64(1); time.Now().Before(end); seed++ {
		rnd := rand.New(rand.NewSource(seed))
		q := MemoryQueue(0)
		producers, consumers, per := 1+rnd.Intn(3), 1+rnd.Intn(5), 1+rnd.Intn(30)
		early := rnd.Intn(4) == 0
		var mu sync.Mutex
		seen := map[*URL]int{}
		orders := make([][]int, consumers)
		sent := map[*URL][2]int{}
		added := 0
		var pw, cw sync.WaitGroup
		unacked := 0
		for p := 0; p < producers; p++ {
			pw.Add(1)
			r := rand.New(rand.NewSource(rnd.Int63()))
			go func(p int) {
				defer pw.Done()
				for k := 0; k < per; {
					var us URLs
					for n := 1 + r.Intn(3); n > 0 && k < per; n-- {
						u := qURLReplay(k)
						us = append(us, u)
						mu.Lock()
						sent[u] = [2]int{p, k}
						mu.Unlock()
						k++
					}
					mu.Lock()
					unacked += len(us)
					mu.Unlock()
					if err := q.Enqueue(bg, us); err != nil {
						mu.Lock()
						unacked -= len(us)
						mu.Unlock()
						if err != io.EOF {
							panic(err)
						}
						return
					}
					mu.Lock()
					added += len(us)
					mu.Unlock()
				}
			}(p)
		}
		last := make([]map[int]int, consumers)
		var bad string
		for c := 0; c < consumers; c++ {
			cw.Add(1)
			last[c] = map[int]int{}
			go func(c int) {
				defer cw.Done()
				for {
					u, err := q.Dequeue(bg)
					if err != nil {
						if err != io.EOF {
							panic(err)
						}
						return
					}
					mu.Lock()
					s, ok := sent[u]
					seen[u]++
					if !ok || seen[u] > 1 {
						bad = fmt.Sprintf("%v handed out %d times, enqueued: %v", u, seen[u], ok)
					}
					if l, ok := last[c][s[0]]; ok && l > s[1] {
						bad = fmt.Sprintf("consumer got %d after %d of one producer", s[1], l)
					}
					last[c][s[0]] = s[1]
					unacked--
					mu.Unlock()
					q.Done(bg, u)
				}
			}(c)
		}
		_ = orders
		if early {
			time.Sleep(time.Duration(rnd.Intn(100)) * time.Microsecond)
			q.Close(bg)
		}
		ok := qWithinReplay(10*time.Second, func() {
			pw.Wait()
			q.Wait()
			mu.Lock()
			if !early && unacked != 0 {
				bad = fmt.Sprintf("Wait returns with %d outstanding", unacked)
			}
			if !early && len(seen) != added {
				bad = fmt.Sprintf("%d of %d URLs handed out", len(seen), added)
			}
			mu.Unlock()
			q.Close(bg)
			cw.Wait()
		})
		mu.Lock()
		if !ok && bad == "" {
			bad = "the queue hangs"
		}
		if bad != "" {
			t.Fatalf("%s (%d producers, %d consumers, closed early: %v, history %d)", bad, producers, consumers, early, seed)
		}
		mu.Unlock()
	}
	// consumers that wait are woken
	for k := 0; k < 200; k++ {
		q := MemoryQueue(0)
		n := 1 + k%5
		got := make(chan *URL, n)
		errs := make(chan error, n)
		for i := 0; i < n; i++ {
			go func() {
				u, err := q.Dequeue(bg)
				if err != nil {
					errs <- err
					return
				}
				got <- u
			}()
		}
		if k%2 == 0 {
			time.Sleep(time.Millisecond)
		}
		if k%4 < 2 {
			var us URLs
			for i := 0; i < n; i++ {
				us = append(us, qURLReplay(i))
			}
			q.Enqueue(bg, us)
			for i := 0; i < n; i++ {
				select {
				case <-got:
				case err := <-errs:
					t.Fatalf("Dequeue fails: %v", err)
				case <-time.After(5 * time.Second):
					t.Fatalf("%d consumers wait although %d URLs are queued", n-i, n)
				}
			}
		} else {
			q.Close(bg)
			for i := 0; i < n; i++ {
				select {
				case <-got:
					t.Fatal("a URL from an empty queue")
				case err := <-errs:
					if !errors.Is(err, io.EOF) {
						t.Fatal(err)
					}
				case <-time.After(5 * time.Second):
					t.Fatalf("%d consumers wait although the queue is closed", n-i)
				}
			}
		}
	}
}

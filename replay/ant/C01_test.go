package ant

import (
	"context"
	"fmt"
	"math/rand"
	"net/url"
	"sync"
	"testing"
	"time"
)

//verif:race
func TestVerifC01(t *testing.T) {
	end := time.Now().Add(45 * time.Second)
	ss, _ := vseedsReplay()
	for seed := int64(1); time.Now().Before(end); seed++ {
		rnd := rand.New(rand.NewSource(seed))
		for _, kind := range []string{"map", "bloom"} {
			var d Deduper
			if kind == "map" {
				d = DedupeMap()
			} else {
				d = DedupeBF(uint(100+rnd.Intn(10000)), uint(1+rnd.Intn(6)))
			}
			var pool []string
			for i, n := 0, 1+rnd.Intn(12); i < n; i++ {
				pool = append(pool, []string{
					fmt.Sprintf("http://h/%d", i), fmt.Sprintf("http://h/%d?a=%d", i/2, i), fmt.Sprintf("https://h/%d#x%d", i/3, i), fmt.Sprintf("http://u%d@h/", i),
					fmt.Sprintf("http://h:%d/", 80+i), fmt.Sprintf("//h%d", i), "",
				}[rnd.Intn(7)])
			}
			pool = append(pool, ss...)
			mk := func() URLs {
				var us URLs
				for n := rnd.Intn(8); n > 0; n-- {
					u, err := url.Parse(pool[rnd.Intn(len(pool))])
					if err != nil {
						continue
					}
					if rnd.Intn(3) == 0 && len(us) > 0 {
						u = us[rnd.Intn(len(us))]
					}
					us = append(us, u)
				}
				return us
			}
			workers := 1 + rnd.Intn(4)
			batches := make([][]URLs, workers)
			for w := range batches {
				for n := 1 + rnd.Intn(4); n > 0; n-- {
					batches[w] = append(batches[w], mk())
				}
			}
			var mu sync.Mutex
			given, out := map[string]bool{}, map[string]int{}
			var wg sync.WaitGroup
			start := make(chan bool)
			var bad string
			say := func(f string, a ...any) {
				mu.Lock()
				bad = kind + ": " + fmt.Sprintf(f, a...)
				mu.Unlock()
			}
			for w := range batches {
				wg.Add(1)
				go func(bs []URLs) {
					defer wg.Done()
					<-start
					for _, b := range bs {
						was := append(URLs{}, b...)
						r, err := d.Dedupe(context.Background(), b)
						if err != nil {
							say("error %v", err)
						}
						for i := range b {
							if b[i] != was[i] {
								say("the caller's slice is changed")
							}
						}
						i := 0
						for _, u := range r {
							for i < len(was) && was[i] != u {
								i++
							}
							if i == len(was) {
								say("%v is no sub-sequence of %v", r, was)
								break
							}
							i++
						}
						mu.Lock()
						if workers == 1 && kind == "map" {
							here := map[string]bool{}
							for _, u := range r {
								here[u.String()] = true
							}
							for _, u := range was {
								if !given[u.String()] && !here[u.String()] {
									bad = fmt.Sprintf("map: new URL %q is not returned", u)
								}
							}
						}
						for _, u := range was {
							given[u.String()] = true
						}
						for _, u := range r {
							out[u.String()]++
						}
						mu.Unlock()
						for k := range r {
							r[k] = nil // the result is the caller's
						}
					}
				}(batches[w])
			}
			close(start)
			wg.Wait()
			for s, n := range out {
				if n > 1 {
					say("%q is handed out %d times", s, n)
				}
			}
			if kind == "map" {
				for s := range given {
					if out[s] != 1 {
						say("%q is handed out %d times", s, out[s])
					}
				}
			}
			if bad != "" {
				t.Fatalf("%s (history %d)", bad, seed)
			}
		}
	}
}

package scan

import (
	"reflect"
	"sync"
	"testing"
	"time"
)

//verif:race
func TestVerifC18(t *testing.T) {
	end := time.Now().Add(25 * time.Second)
	for i := 0; i < 3000 && time.Now().Before(end) && !t.Failed(); i++ {
		s := NewScanner()
		var types []reflect.Type
		for len(types) < 5 {
			types = append(types, sTypeReplay(2))
		}
		doc := sDocReplay()
		var wants []reflect.Value
		var errs []error
		for _, typ := range types {
			want := reflect.New(typ)
			sFillReplay(want.Elem())
			err := sCheckReplay(typ, false)
			if err == nil {
				sScanReplay(want.Elem(), doc, nil, "")
			}
			wants, errs = append(wants, want), append(errs, err)
		}
		plan := [][]int{}
		for g := 0; g < 4; g++ {
			var p []int
			for k := 0; k < 6; k++ {
				p = append(p, vrndReplay.Intn(len(types)))
			}
			plan = append(plan, p)
		}
		done := make(chan bool)
		var wg sync.WaitGroup
		for _, p := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, k := range p {
					got := reflect.New(types[k])
					sFillReplay(got.Elem())
					err := s.Scan(got.Interface(), doc, Options{})
					if (err != nil) != (errs[k] != nil) {
						t.Errorf("Scan into %v: %v, want %v", types[k], err, errs[k])
						return
					}
					if g, w := sShowReplay(got.Elem()), sShowReplay(wants[k].Elem()); g != w {
						t.Errorf("Scan into %v: %s, want %s", types[k], g, w)
					}
				}
			}()
		}
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("scanning does not end: a lock is kept")
		}
	}
}

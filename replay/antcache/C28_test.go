package antcache

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

//verif:faults
//verif:race

func withinReplay(t *testing.T, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatalf("%s hangs", what)
	}
}

func TestVerifC28(t *testing.T) {
	ss, is := vseedsReplay()
	ctx := context.Background()
	for _, compress := range []bool{false, true} {
		var opts []DiskOption
		if compress {
			opts = append(opts, Compress(), Debug(func(string, ...any) {}))
		}
		d, dir := quietReplay(t, opts...)
		keys := []uint64{0, 1, 10, 1 << 63, 1<<64 - 1}
		for _, i := range is {
			keys = append(keys, uint64(i))
		}
		if len(keys) > 12 {
			keys = keys[:12]
		}
		vals := []string{"", "a", strings.Repeat("b", 100000), "\x00\xff"}
		vals = append(vals, ss...)
		want := map[uint64]*string{}
		check := func(when string) {
			for _, k := range keys {
				k := k
				withinReplay(t, fmt.Sprintf("%s: Load(%d)", when, k), func() {
					b, err := d.Load(ctx, k)
					w := want[k]
					switch {
					case err != nil:
						t.Errorf("%s: Load(%d): %v", when, k, err)
					case w == nil && b != nil:
						t.Errorf("%s: Load(%d), which is not stored, gives %.20q", when, k, b)
					case w != nil && string(b) != *w:
						t.Errorf("%s: Load(%d) gives %.20q, stored %.20q", when, k, b, *w)
					}
				})
			}
		}
		check("empty")
		for i := 0; i < 60; i++ {
			k, v := vpickReplay(keys...), vpickReplay(vals...)
			if err := d.Store(ctx, k, []byte(v)); err != nil {
				t.Fatal(err)
			}
			want[k] = &v
			if i%6 == 5 {
				check(fmt.Sprintf("store %d", i))
			}
		}
		// failures
		k := keys[0]
		p := filepath.Join(dir, strconv.FormatUint(k, 10))
		v := "value"
		must := func(err error) {
			if err != nil {
				t.Fatal(err)
			}
		}
		must(d.Store(ctx, k, []byte(v)))
		want[k] = &v
		good, err := os.ReadFile(p)
		must(err)
		must(os.Remove(p))
		withinReplay(t, "Load", func() {
			if b, err := d.Load(ctx, k); err == nil || b != nil {
				t.Errorf("an entry without its file gives %q, %v", b, err)
			}
		})
		if compress {
			must(os.WriteFile(p, []byte("\xff\xff\xff\xff\xff\xff no such thing"), 0o600))
			withinReplay(t, "Load", func() {
				if b, err := d.Load(ctx, k); err == nil || len(b) > 0 {
					t.Errorf("an entry that does not decompress gives %q, %v", b, err)
				}
			})
		}
		must(os.WriteFile(p, good, 0o600))
		for fail := 0; fail < 4; fail++ {
			tr := traceFSReplay(dir, fail)
			withinReplay(t, "Load", func() {
				b, err := d.Load(ctx, k)
				tr.stop()
				bad := fail < len(tr.events) && tr.failed.op != "close" && tr.failed.op != "fstat"
				if bad && (err == nil || b != nil) || !bad && (err != nil || string(b) != v) {
					t.Errorf("load gives %q, %v (%s)", b, err, tr)
				}
				for _, e := range tr.events {
					if e.name != p {
						t.Errorf("loading %d touches %s", k, e.name)
					}
				}
			})
			withinReplay(t, "a store after a failed load", func() { must(d.Store(ctx, k, []byte(v))) })
		}
		check("failures")
		// failing stores, then the locks must be free
		for fail := 0; fail < 9; fail++ {
			tr := traceFSReplay(dir, fail)
			withinReplay(t, "Store", func() { d.Store(ctx, k, []byte(v)) })
			tr.stop()
			withinReplay(t, "a store after a failed store", func() { must(d.Store(ctx, keys[1], []byte("1"))) })
			one := "1"
			want[keys[1]] = &one
		}
		check("failing stores")
		withinReplay(t, "a sweep", func() { d.sweep() })
		withinReplay(t, "a second sweep", func() { d.sweep() })
		check("sweeps")
		withinReplay(t, "a store after sweeps", func() { must(d.Store(ctx, k, []byte(v))) })
		d.Close()
	}
	verifC28concurrent(t)
}

// verifC28concurrent stores, loads and sweeps at once.
func verifC28concurrent(t *testing.T) {
	ctx := context.Background()
	d, _ := quietReplay(t, Maxage(time.Millisecond), Maxsize(100000))
	defer d.Close()
	end := time.Now().Add(3 * time.Second)
	var wg sync.WaitGroup
	val := func(k uint64, n int) []byte {
		return bytes.Repeat([]byte(fmt.Sprintf("%d:%d;", k, n)), 1+int(n%7)*500)
	}
	for g := 0; g < 3; g++ {
		g := g
		wg.Add(3)
		go func() {
			defer wg.Done()
			for n := 0; time.Now().Before(end); n++ {
				k := uint64(n % 3)
				if err := d.Store(ctx, k, val(k, n*3+g)); err != nil {
					t.Errorf("store: %v", err)
					return
				}
			}
		}()
		go func() {
			defer wg.Done()
			for n := 0; time.Now().Before(end); n++ {
				k := uint64(n % 3)
				b, err := d.Load(ctx, k)
				if err != nil {
					t.Errorf("load while storing and sweeping: %v", err)
					return
				}
				if b == nil {
					continue
				}
				var kk uint64
				var m int
				fmt.Sscanf(string(b), "%d:%d;", &kk, &m)
				if kk != k || !bytes.Equal(b, val(k, m)) {
					t.Errorf("load of %d gives a mixed or partial value of %d bytes: %.30q", k, len(b), b)
					return
				}
			}
		}()
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				if g == 0 {
					if _, err := d.sweep(); err != nil {
						t.Errorf("sweep: %v", err)
					}
				} else {
					d.files()
				}
			}
		}()
	}
	ok := make(chan struct{})
	go func() { wg.Wait(); close(ok) }()
	select {
	case <-ok:
	case <-time.After(60 * time.Second):
		t.Fatal("stores, loads and sweeps hang")
	}
	d.readymu.Lock()
	n := len(d.ready)
	for k, f := range d.ready {
		if _, err := os.Stat(f.path); err != nil {
			t.Errorf("key %d is indexed without its file: %v", k, err)
		}
	}
	d.readymu.Unlock()
	if n > 3 {
		t.Errorf("%d keys are indexed", n)
	}
}

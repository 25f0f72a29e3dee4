package antcache

import (
	"context"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"
)

//verif:faults

func TestVerifC30(t *testing.T) {
	verifC30open(t)
	verifC30warm(t)
	verifC30wait(t)
}

func verifC30open(t *testing.T) {
	dir := t.TempDir()
	file := filepath.Join(dir, "file")
	os.WriteFile(file, []byte("x"), 0o600)
	rel, _ := filepath.Rel(mustWdReplay(t), dir)
	for _, p := range []string{"", "x", rel, "./" + rel, dir + "/missing", file} {
		fds := openFDsReplay(dir)
		d, err := Open(p, SweepEvery(0))
		if err == nil || d != nil {
			t.Errorf("Open(%q) = %v, %v", p, d, err)
			if d != nil {
				d.Close()
			}
		}
		if n := openFDsReplay(dir); n != fds {
			t.Errorf("Open(%q) leaves %d files open", p, n-fds)
		}
	}
	for fail := 0; fail < 2; fail++ {
		fds := openFDsReplay(dir)
		tr := traceFSReplay(dir, fail)
		d, err := Open(dir, SweepEvery(0))
		tr.stop()
		if err == nil || d != nil {
			t.Errorf("Open gives %v, %v (%s)", d, err, tr)
		}
		if n := openFDsReplay(dir); n != fds {
			t.Errorf("Open leaves %d files open (%s)", n-fds, tr)
		}
	}
	// options
	var calls []int
	var stores []*Diskstore
	opt := func(i int, err error) DiskOption {
		return func(d *Diskstore) error {
			calls = append(calls, i)
			stores = append(stores, d)
			return err
		}
	}
	bad := errors.New("bad option")
	fds := openFDsReplay(dir)
	if d, err := Open(dir, SweepEvery(0), opt(1, nil), opt(2, bad), opt(3, nil)); d != nil || !errors.Is(err, bad) {
		t.Errorf("a failing option gives %v, %v", d, err)
	}
	if len(calls) != 2 || calls[0] != 1 || calls[1] != 2 {
		t.Errorf("options were applied as %v", calls)
	}
	if n := openFDsReplay(dir); n != fds {
		t.Errorf("a failing option leaves %d files open", n-fds)
	}
	calls, stores = nil, nil
	empty := t.TempDir()
	d, err := Open(empty, opt(1, nil), Maxage(1), Maxage(2), Maxsize(3), SweepEvery(0), opt(2, nil), Compress(), SweepEvery(time.Hour), opt(3, nil))
	if err != nil {
		t.Fatal(err)
	}
	if len(calls) != 3 || calls[0] != 1 || calls[1] != 2 || calls[2] != 3 || stores[0] != d || stores[2] != d {
		t.Errorf("options were applied as %v", calls)
	}
	if d.maxage != 2 || d.maxsize != 3 || !d.compress || d.ticker == nil {
		t.Errorf("options give age %v, size %v, compress %v, ticker %v", d.maxage, d.maxsize, d.compress, d.ticker)
	}
	within30Replay(t, "Close", func() {
		if err := d.Close(); err != nil {
			t.Error(err)
		}
	})
	for _, every := range []time.Duration{0, -1, time.Hour} {
		d, err := Open(empty, SweepEvery(every), SweepEvery(0), SweepEvery(every))
		if err != nil {
			t.Fatal(err)
		}
		if (d.ticker != nil) != (every > 0) {
			t.Errorf("SweepEvery(%v) has a ticker: %v", every, d.ticker != nil)
		}
		within30Replay(t, "Close", func() { d.Close() })
	}
	if n := openFDsReplay(empty); n != 0 {
		t.Errorf("%d files are open once closed", n)
	}
}

func mustWdReplay(t *testing.T) string {
	w, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	return w
}

func within30Replay(t *testing.T, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatalf("%s hangs", what)
	}
}

func verifC30warm(t *testing.T) {
	ss, _ := vseedsReplay()
	ctx := context.Background()
	names := []string{"0", "7", "18446744073709551615", "18446744073709551616", "12345", "a", "7.tmp", "123.tmp", "12a", "-1", "+1", "0x10", "1_0", "1e3", " 9", "9 ", "tmp", ".tmp", "77.", ".77", "٣", "99"}
	for _, s := range ss {
		if s != "" && s != "." && s != ".." && len(s) < 200 && !strings.ContainsAny(s, "/\x00") {
			names = append(names, s)
		}
	}
	for i := 0; i < 40; i++ {
		n := vrndReplay.Intn(len(names))
		if i == 0 {
			n = len(names)
		}
		var have []string
		for _, p := range vrndReplay.Perm(len(names))[:n] {
			have = append(have, names[p])
		}
		for j := 0; j < vrndReplay.Intn(30); j++ {
			have = append(have, strconv.Itoa(1000+j))
		}
		for _, fail := range []string{"", "readdir", "stat", "eof"} {
			warmOnceReplay(t, ctx, have, fail)
		}
	}
}

func warmOnceReplay(t *testing.T, ctx context.Context, have []string, fail string) {
	dir := t.TempDir()
	mtime := time.Now().Add(-5 * time.Hour).Truncate(time.Second)
	type ent struct {
		path string
		size int64
	}
	want := map[uint64]ent{}
	for i, n := range have {
		p := filepath.Join(dir, n)
		if err := os.WriteFile(p, []byte(strings.Repeat("x", i)), 0o600); err != nil {
			t.Fatal(err)
		}
		os.Chtimes(p, mtime, mtime)
		plain := n != ""
		for _, r := range n {
			plain = plain && '0' <= r && r <= '9'
		}
		if k, err := strconv.ParseUint(n, 10, 64); plain && err == nil && strconv.FormatUint(k, 10) == n {
			want[k] = ent{p, int64(i)}
		}
	}
	// an entry stored while the store warms up
	var meanwhile []byte
	const mk = 7
	reads, stats := 0, 0
	bad := ""
	var store *Diskstore
	ready := make(chan struct{})
	opened := false
	os.VerifHook = func(op, name, other string) error {
		switch {
		case op == "readdir" && name == dir:
			<-ready
			reads++
			if reads > 200 {
				return io.EOF
			}
			if reads <= 2 || reads%7 == 0 {
				h := os.VerifHook
				os.VerifHook = nil
				meanwhile = []byte("stored meanwhile" + strings.Repeat("!", reads))
				if err := store.Store(ctx, mk, meanwhile); err != nil {
					t.Error(err)
				}
				os.VerifHook = h
			}
			if fail == "readdir" && reads >= 2 {
				return errInjectedReplay
			}
			if fail == "eof" && reads >= 2 {
				return io.EOF
			}
		case op == "stat" && filepath.Dir(name) == dir && opened:
			stats++
			if fail == "stat" && stats == 2 {
				bad = name
				return errInjectedReplay
			}
		}
		return nil
	}
	d, err := Open(dir, SweepEvery(0))
	if err != nil {
		t.Fatal(err)
	}
	store, opened = d, true
	close(ready)
	c, cancel := context.WithTimeout(ctx, 20*time.Second)
	defer cancel()
	if err := d.Wait(c); err != nil {
		t.Fatalf("%q (%s fails): readiness is never signalled: %v after %d reads", have, fail, err, reads)
	}
	d.wg.Wait()
	os.VerifHook = nil
	if reads > 100 {
		t.Errorf("%q (%s fails): the directory was read %d times", have, fail, reads)
	}
	for k, f := range d.ready {
		if k == mk {
			continue
		}
		w, ok := want[k]
		if !ok {
			t.Errorf("%q: %d is indexed, as %s", have, k, f.path)
			continue
		}
		if f.path != w.path || f.key != k || f.size != w.size || !f.mtime.Equal(mtime) {
			t.Errorf("%q: %d is indexed as %v", have, k, f)
		}
		if w.path == bad {
			t.Errorf("%q: %d is indexed, of which nothing is known", have, k)
		}
	}
	if fail == "" || fail == "stat" {
		for k, w := range want {
			if _, ok := d.ready[k]; !ok && w.path != bad {
				t.Errorf("%q (%s fails): %d is not indexed", have, fail, k)
			}
		}
	}
	b, err := d.Load(ctx, mk)
	if string(b) != string(meanwhile) || err != nil {
		t.Errorf("%q: what was stored meanwhile is %q, %v", have, b, err)
	}
	if f := d.ready[mk]; meanwhile != nil && (f.size != int64(len(meanwhile)) || f.mtime.Equal(mtime)) {
		t.Errorf("%q: what was stored meanwhile is indexed as %v", have, f)
	}
	within30Replay(t, "Close", func() { d.Close() })
}

func verifC30wait(t *testing.T) {
	dir := t.TempDir()
	hold := make(chan struct{})
	os.VerifHook = func(op, name, other string) error {
		if op == "readdir" && name == dir {
			<-hold
		}
		return nil
	}
	d, err := Open(dir, SweepEvery(0))
	if err != nil {
		t.Fatal(err)
	}
	c, cancel := context.WithCancel(context.Background())
	got := make(chan error, 2)
	go func() { got <- d.Wait(c) }()
	select {
	case err := <-got:
		t.Errorf("Wait returns %v before the store is warm", err)
		got <- context.Canceled
	case <-time.After(50 * time.Millisecond):
	}
	cancel()
	select {
	case err := <-got:
		if !errors.Is(err, context.Canceled) {
			t.Errorf("Wait gives %v once canceled", err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("Wait does not return once canceled")
	}
	close(hold)
	if err := d.Wait(context.Background()); err != nil {
		t.Errorf("Wait gives %v", err)
	}
	d.wg.Wait()
	os.VerifHook = nil
	d.Close()
}

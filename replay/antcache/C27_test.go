package antcache

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/golang/snappy"
)

//verif:faults

func TestVerifC27(t *testing.T) {
	ss, is := vseedsReplay()
	values := [][]byte{nil, []byte("x"), []byte(strings.Repeat("the value ", 5000))}
	for _, s := range ss {
		values = append(values, []byte(s))
	}
	keys := []uint64{0, 7, 1<<64 - 1}
	for _, i := range is {
		keys = append(keys, uint64(i))
	}
	if len(values) > 8 {
		values = values[:8]
	}
	if len(keys) > 6 {
		keys = keys[:6]
	}
	for _, compress := range []bool{false, true} {
		for _, key := range keys {
			for _, v := range values {
				for _, had := range []bool{false, true} {
					for fail := -1; ; fail++ {
						if !faultStoreReplay(t, compress, key, v, had, fail) {
							break
						}
					}
				}
			}
		}
	}
}

// faultStore stores with the fail-th file operation failing; it tells
// whether there are that many.
func faultStoreReplay(t *testing.T, compress bool, key uint64, v []byte, had bool, fail int) bool {
	ctx := context.Background()
	var opts []DiskOption
	if compress {
		opts = append(opts, Compress())
	}
	d, dir := quietReplay(t, opts...)
	defer d.Close()
	name := strconv.FormatUint(key, 10)
	old := []byte("an older value")
	enc := func(b []byte) string {
		if compress {
			return string(snappy.Encode(nil, b))
		}
		return string(b)
	}
	if had {
		if err := d.Store(ctx, key, old); err != nil {
			t.Fatal(err)
		}
	}
	other := key ^ 1
	if err := d.Store(ctx, other, []byte("other")); err != nil {
		t.Fatal(err)
	}
	what := fmt.Sprintf("compress=%v key=%d value=%d bytes had=%v", compress, key, len(v), had)
	fds := openFDsReplay(dir)
	tr := traceFSReplay(dir, fail)
	tr.before = func(e fsEventReplay) { // a crash here
		b, err := os.ReadFile(filepath.Join(dir, name))
		switch {
		case err != nil:
			if had {
				t.Errorf("%s: the old value is gone before %v (%s)", what, e, tr)
			}
		case string(b) == enc(v):
		case had && string(b) == enc(old):
		default:
			t.Errorf("%s: the file has a partial value (%d bytes) before %v (%s)", what, len(b), e, tr)
		}
	}
	arg := append([]byte(nil), v...)
	err := d.Store(ctx, key, arg)
	tr.stop()
	if !bytes.Equal(arg, v) {
		t.Errorf("%s: the value was changed", what)
	}
	if fail >= len(tr.events) {
		if err != nil {
			t.Errorf("%s: %v", what, err)
		}
		return false
	}
	// the order of what happened
	synced := map[string]bool{}
	tmp := ""
	renamed, dirSynced, closed := -1, false, false
	for i, e := range tr.events {
		failed := i == fail
		switch e.op {
		case "create":
			if e.name == filepath.Join(dir, name) {
				t.Errorf("%s: the key's file is written in place", what)
			}
			tmp = e.name
			if filepath.Dir(tmp) != dir {
				t.Errorf("%s: the temporary file is in %s", what, filepath.Dir(tmp))
			}
		case "write":
			synced[e.name] = false
			if renamed >= 0 {
				t.Errorf("%s: written after it was renamed (%s)", what, tr)
			}
		case "sync":
			if e.name == dir {
				if renamed >= 0 && !failed {
					dirSynced = true
				}
			} else {
				synced[e.name] = !failed
			}
		case "close":
			if e.name == tmp {
				closed = true
			}
		case "rename":
			if e.other == filepath.Join(dir, name) {
				if !synced[e.name] {
					t.Errorf("%s: renamed before it was synced (%s)", what, tr)
				}
				if !closed {
					t.Errorf("%s: renamed before it was closed (%s)", what, tr)
				}
				if !failed {
					renamed = i
				}
			}
		}
	}
	if err == nil && (renamed < 0 || !dirSynced) {
		t.Errorf("%s: stored without a rename or a sync of the directory (%s)", what, tr)
	}
	if fail >= 0 && tr.failed.op != "remove" && err == nil {
		t.Errorf("%s: the failure was not reported (%s)", what, tr)
	}
	// the temporary file is gone and closed
	for n := range listDirReplay(t, dir) {
		if n != name && n != strconv.FormatUint(other, 10) && tr.failed.op != "remove" {
			t.Errorf("%s: %s is left (%s)", what, n, tr)
		}
	}
	if n := openFDsReplay(dir); n > fds {
		t.Errorf("%s: %d files are left open (%s)", what, n-fds, tr)
	}
	// visibility
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		b, err := d.Load(ctx, key)
		ch <- res{b, err}
	}()
	select {
	case r := <-ch:
		want, in := []byte(nil), had
		if had {
			want = old
		}
		if err == nil || renamed >= 0 && had {
			want, in = v, true
		}
		if r.err != nil || (r.b != nil) != in && len(want) > 0 || !bytes.Equal(r.b, want) {
			t.Errorf("%s: after %v, load gives %.20q, %v (%s)", what, err, r.b, r.err, tr)
		}
		_, ok := d.ready[key]
		if ok != in {
			t.Errorf("%s: after %v, the key's visibility is %v (%s)", what, err, ok, tr)
		}
	case <-time.After(10 * time.Second):
		t.Fatalf("%s: a load hangs (%s)", what, tr)
	}
	if b, err := d.Load(ctx, other); err != nil || string(b) != "other" {
		t.Errorf("%s: another key has %q, %v", what, b, err)
	}
	return true
}

package antcache

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
)

// fsEvent is one file operation.
type fsEventReplay struct{ op, name, other string }

// fsTrace records the file operations below dir, and fails the fail-th.
type fsTraceReplay struct {
	mu     sync.Mutex
	dir    string
	events []fsEventReplay
	fail   int // index of the event to fail, or -1
	err    error
	failed fsEventReplay
	before func(e fsEventReplay)
}

var errInjectedReplay = errors.New("injected failure")

func traceFSReplay(dir string, fail int) *fsTraceReplay {
	t := &fsTraceReplay{dir: dir, fail: fail, err: errInjectedReplay}
	os.VerifHook = func(op, name, other string) error {
		if name != dir && !strings.HasPrefix(name, dir+"/") {
			return nil
		}
		t.mu.Lock()
		defer t.mu.Unlock()
		e := fsEventReplay{op, name, other}
		t.events = append(t.events, e)
		if t.before != nil {
			h := os.VerifHook
			os.VerifHook = nil
			t.before(e)
			os.VerifHook = h
		}
		if len(t.events)-1 == t.fail {
			t.failed = e
			return t.err
		}
		return nil
	}
	return t
}

func (t *fsTraceReplay) stop() { os.VerifHook = nil }

func (t *fsTraceReplay) String() string {
	var s []string
	for i, e := range t.events {
		m := ""
		if i == t.fail {
			m = "(fails)"
		}
		s = append(s, fmt.Sprintf("%s %s %s%s", e.op, filepath.Base(e.name), filepath.Base(e.other), m))
	}
	return strings.Join(s, ", ")
}

func listDirReplay(t *testing.T, dir string) map[string]string {
	es, err := os.ReadDir(dir)
	if err != nil {
		t.Fatal(err)
	}
	m := map[string]string{}
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		m[e.Name()] = string(b)
	}
	return m
}

func openFDsReplay(dir string) (n int) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		l, _ := os.Readlink("/proc/self/fd/" + e.Name())
		if l == dir || strings.HasPrefix(l, dir+"/") {
			n++
		}
	}
	return
}

func quietReplay(t *testing.T, opts ...DiskOption) (*Diskstore, string) {
	dir := t.TempDir()
	d, err := Open(dir, append([]DiskOption{SweepEvery(0)}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	if err := d.Wait(context.Background()); err != nil {
		t.Fatal(err)
	}
	d.wg.Wait()
	return d, dir
}

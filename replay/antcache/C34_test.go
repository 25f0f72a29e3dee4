package antcache

import (
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
	"time"
)

//verif:race
func TestVerifC34(t *testing.T) {
	// Close waits for warm-up, then closes the directory.
	dir := t.TempDir()
	const n = 400
	for i := 0; i < n; i++ {
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprint(i)), []byte("x"), 0600); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 60; i++ {
		every := vpickReplay(0, time.Hour, time.Millisecond, 50*time.Microsecond)
		d, err := Open(dir, SweepEvery(every), Maxage(0), Maxsize(0))
		if err != nil {
			t.Fatal(err)
		}
		if i%3 == 1 {
			time.Sleep(time.Duration(i) * 20 * time.Microsecond)
		}
		if err := d.Close(); err != nil {
			t.Fatalf("interval %v: close: %v", every, err)
		}
		if len(d.ready) != n {
			t.Fatalf("interval %v: Close returned with %d of %d entries indexed", every, len(d.ready), n)
		}
		if d.dir.Close() == nil {
			t.Fatalf("interval %v: Close left the directory open", every)
		}
		select {
		case <-d.warm:
		default:
			t.Fatalf("interval %v: Close returned before warm-up ended", every)
		}
		if d.ticker != nil {
			for { // a tick that was pending
				select {
				case <-d.ticker.C:
					continue
				default:
				}
				break
			}
			if every < time.Second {
				select {
				case <-d.ticker.C:
					t.Fatalf("interval %v: the ticker runs after Close", every)
				case <-time.After(3 * every):
				}
			}
		}
	}
	// A failure to close the directory is returned.
	d, err := Open(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	<-d.warm
	d.dir.Close()
	if withinReplay(t, "Close", d.Close) == nil {
		t.Error("a failure to close the directory is not returned")
	}

	// One sweep for each tick, one after another, until Close.
	for round := 0; round < 40; round++ {
		d, err := Open(t.TempDir(), SweepEvery(0))
		if err != nil {
			t.Fatal(err)
		}
		<-d.warm
		ticks := make(chan time.Time)
		d.ticker = &time.Ticker{C: ticks}
		var started, active atomic.Int32
		release := make(chan bool)
		d.now = func() time.Time {
			started.Add(1)
			if active.Add(1) > 1 {
				t.Error("two sweeps overlap")
			}
			<-release
			active.Add(-1)
			return time.Now()
		}
		d.wg.Add(1)
		go d.sweeper()
		k := 1 + round%4
		for i := 0; i < k; i++ {
			select {
			case ticks <- time.Now():
			case <-time.After(5 * time.Second):
				t.Fatalf("tick %d was not taken", i)
			}
			for e := time.Now().Add(5 * time.Second); int(started.Load()) <= i; {
				if time.Now().After(e) {
					t.Fatalf("tick %d led to no sweep", i)
				}
				time.Sleep(20 * time.Microsecond)
			}
			if i == k-1 {
				break
			}
			if round%8 == 1 {
				select {
				case ticks <- time.Now():
					t.Fatal("a tick was taken during a sweep")
				case <-time.After(3 * time.Millisecond):
				}
			}
			release <- true
		}
		done := make(chan error, 1)
		go func() { done <- d.Close() }()
		if round%4 == 2 {
			select {
			case <-done:
				t.Fatal("Close returned during a sweep")
			case <-time.After(3 * time.Millisecond):
			}
		}
		release <- true
		withinReplay(t, "Close", func() error { return <-done })
		if s := int(started.Load()); s != k {
			t.Fatalf("%d ticks led to %d sweeps", k, s)
		}
		select {
		case ticks <- time.Now():
			t.Fatal("a tick was taken after Close")
		default:
		}
		if d.dir.Close() == nil {
			t.Fatal("Close left the directory open")
		}
	}
}

func withinReplay(t *testing.T, what string, f func() error) error {
	c := make(chan error, 1)
	go func() { c <- f() }()
	select {
	case err := <-c:
		return err
	case <-time.After(10 * time.Second):
		t.Fatalf("%s does not return", what)
		return nil
	}
}

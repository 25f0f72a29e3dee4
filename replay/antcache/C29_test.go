package antcache

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

//verif:faults

type sweepCaseReplay struct {
	ages    []time.Duration
	sizes   []int
	maxage  time.Duration
	maxsize int64
	fail    int // the removal that fails, or -1
	missing int // the entry whose file is gone already, or -1
	replace int // the entry that is stored again once the sweep looked, or -1
}

func TestVerifC29(t *testing.T) {
	h := time.Hour
	cases := []sweepCaseReplay{
		{nil, nil, h, 10, -1, -1, -1},
		{[]time.Duration{2 * h, h, 3 * h}, []int{1, 2, 3}, 90 * time.Minute, 0, -1, -1, -1},
		{[]time.Duration{2 * h, h, 3 * h}, []int{1, 2, 3}, 0, 3, -1, -1, -1},
		{[]time.Duration{2 * h, h, 3 * h}, []int{1, 2, 3}, 0, 2, -1, -1, -1},
		{[]time.Duration{2 * h, h, 3 * h}, []int{1, 2, 3}, -1, 5, -1, -1, -1},
		{[]time.Duration{2 * h, h, 3 * h}, []int{1, 2, 300}, 150 * time.Minute, 3, -1, -1, -1},
		{[]time.Duration{2 * h, h, 3 * h}, []int{5, 5, 5}, h, 5, -1, -1, -1},
		{[]time.Duration{2 * h, h, 3 * h, 4 * h}, []int{5, 5, 5, 5}, h, 5, 1, -1, -1},
		{[]time.Duration{2 * h, h, 3 * h, 4 * h}, []int{5, 5, 5, 5}, h, 5, -1, 2, -1},
		{[]time.Duration{2 * h, h, 3 * h, 4 * h}, []int{5, 5, 5, 5}, h, 0, -1, -1, 3},
		{[]time.Duration{2 * h, h, 3 * h, 4 * h}, []int{5, 5, 5, 5}, 0, 10, -1, -1, 3},
		{[]time.Duration{-2 * h, h, 3 * h}, []int{5, 5, 0}, h, 1, -1, -1, -1},
	}
	for i := 0; i < 1500; i++ {
		n := vrndReplay.Intn(7)
		u := vpickReplay(h, h, time.Second, 100*time.Millisecond, time.Microsecond, time.Nanosecond)
		c := sweepCaseReplay{fail: -1, missing: -1, replace: -1}
		total := 0
		for _, p := range vrndReplay.Perm(12)[:n] {
			c.ages = append(c.ages, time.Duration(p-1)*u)
			c.sizes = append(c.sizes, vrndReplay.Intn(6))
			total += c.sizes[len(c.sizes)-1]
		}
		c.maxage = vpickReplay(0, -u, u, 3*u, 5*u, 5*u-1, 8*u, 24*u)
		c.maxsize = int64(vpickReplay(0, -1, 1, 3, 7, total, total-1, total+1, 1<<30))
		if n > 0 {
			switch vrndReplay.Intn(5) {
			case 0:
				c.fail = vrndReplay.Intn(n)
			case 1:
				c.missing = vrndReplay.Intn(n)
			case 2:
				c.replace = vrndReplay.Intn(n)
			}
		}
		cases = append(cases, c)
	}
	for _, c := range cases {
		sweepOnceReplay(t, c)
	}
}

func sweepOnceReplay(t *testing.T, c sweepCaseReplay) {
	ctx := context.Background()
	dir := t.TempDir()
	d, err := Open(dir, SweepEvery(0), Maxage(c.maxage), Maxsize(c.maxsize))
	if err != nil {
		t.Fatal(err)
	}
	defer d.Close()
	d.Wait(ctx)
	d.wg.Wait()
	now := time.Now()
	path := func(k int) string { return filepath.Join(dir, strconv.Itoa(k)) }
	for k := range c.ages {
		if err := d.Store(ctx, uint64(k), []byte(strings.Repeat("x", c.sizes[k]))); err != nil {
			t.Fatal(err)
		}
		f := d.ready[uint64(k)]
		f.mtime = now.Add(-c.ages[k])
		d.ready[uint64(k)] = f
	}
	// what must go
	order := make([]int, len(c.ages))
	for i := range order {
		order[i] = i
	}
	sort.Slice(order, func(i, j int) bool { return c.ages[order[i]] > c.ages[order[j]] })
	gone := map[int]bool{}
	left := 0
	var rest []int
	for _, k := range order {
		if c.maxage > 0 && c.ages[k] > c.maxage {
			gone[k] = true
			continue
		}
		rest = append(rest, k)
		left += c.sizes[k]
	}
	if c.maxsize > 0 {
		for _, k := range rest {
			if int64(left) <= c.maxsize {
				break
			}
			gone[k] = true
			left -= c.sizes[k]
		}
	}
	d.now = func() time.Time {
		if k := c.replace; k >= 0 {
			c.replace = -2 - k
			if err := d.Store(ctx, uint64(k), []byte("again")); err != nil {
				t.Fatal(err)
			}
		}
		return now
	}
	if c.missing >= 0 {
		os.Remove(path(c.missing))
	}
	tr := traceFSReplay(dir, -1)
	removals := 0
	failed := ""
	hook := os.VerifHook
	os.VerifHook = func(op, name, other string) error {
		hook(op, name, other)
		if op == "remove" && filepath.Dir(name) == dir {
			removals++
			if removals-1 == c.fail {
				failed = name
				return errInjectedReplay
			}
		}
		return nil
	}
	n, err := d.sweep()
	tr.stop()
	what := fmt.Sprintf("ages %v sizes %v maxage %v maxsize %d fail %d missing %d replace %d", c.ages, c.sizes, c.maxage, c.maxsize, c.fail, c.missing, c.replace)
	if err != nil {
		t.Errorf("%s: %v", what, err)
	}
	count := 0
	for k := range c.ages {
		_, in := d.ready[uint64(k)]
		_, serr := os.Stat(path(k))
		file := serr == nil
		want := !gone[k]
		if -2-k == c.replace || path(k) == failed {
			want = true
		}
		if !want {
			count++
		}
		if in != want {
			t.Errorf("%s: entry %d is indexed: %v, want %v (%s)", what, k, in, want, tr)
		}
		if file != want && k != c.missing {
			t.Errorf("%s: entry %d has its file: %v, want %v (%s)", what, k, file, want, tr)
		}
	}
	if n != count {
		t.Errorf("%s: reports %d removed, want %d", what, n, count)
	}
	if es, _ := os.ReadDir(dir); len(es) > len(c.ages) {
		t.Errorf("%s: files appeared", what)
	}
}

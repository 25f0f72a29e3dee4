package antcache

import (
	"errors"
	"os"
	"time"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

//verif:property C28 C29
//verif:covers every store, whatever its index holds
func verif_C29_files(d *Diskstore, watch uint64, at int) {
	s := diskSpec(d, watch)
	s.onLock = func() {
		v.Assume(v.Forall(func(k uint64) bool {
			f, ok := s.entry(k)
			return v.Imp(ok, f.key == k)
		}))
	}
	v.Loop("files", func(ret []file) {
		e, ok := s.entry(watch)
		v.Inv("the entry, once it was visited", v.Imp(v.And(ok, v.Visited(watch)), v.ExistsIn(0, len(ret), func(i int) bool { return v.Same(ret[i], e) })))
		v.Inv("only it", v.ForallIn(0, len(ret), func(i int) bool {
			return v.Imp(ret[i].key == watch, v.And(ok, v.And(v.Same(ret[i], e), v.Visited(watch))))
		}))
		v.Inv("once", v.ForallIn(0, len(ret), func(i int) bool {
			return v.Imp(v.And(i != at, ret[i].key == watch), v.ForallIn(0, len(ret), func(j int) bool { return v.Imp(j == at, ret[j].key != watch) }))
		}))
		v.Inv("the lock is held", s.rheld)
		v.Inv("as taken", v.And(s.locks == 1, v.And(ok == s.wasIn, v.Imp(ok, v.Same(e, s.was)))))
	})
	ret := d.files()
	v.Ensures("C29: the index was looked at once", s.locks == 1)
	v.Ensures("C28 C29: and not changed", !s.changed)
	v.Ensures("C28: every lock taken is released", s.released())
	was, in := s.was, s.wasIn
	v.Ensures("C29: a sweep sees every entry", v.Imp(in, v.ExistsIn(0, len(ret), func(i int) bool { return v.Same(ret[i], was) })))
	v.Ensures("C29: and only entries", v.ForallIn(0, len(ret), func(i int) bool { return v.Imp(ret[i].key == watch, v.And(in, v.Same(ret[i], was))) }))
}

// snap is the i-th oldest entry that the sweep saw.
func snapSpec(i int) file {
	return file{
		key:   v.UF[uint64]("snap.key", i),
		path:  v.UF[string]("snap.path", i),
		mtime: v.UF[time.Time]("snap.mtime", i),
		size:  v.UF[int64]("snap.size", i),
	}
}

func snapPosSpec(key uint64) int { return v.UF[int]("snap.pos", key) }

// snapSum is the size of the i oldest entries.
func snapSumSpec(i int) int { return v.UF[int]("snap.sum", i) }

//verif:property C29
//verif:covers every two entries
func verif_C29_order(d *Diskstore, n, a, b int) {
	diskSpec(d, 0)
	d.now = zzm.Now
	v.Requires(v.And(v.And(0 <= a, a < n), v.And(0 <= b, b < n)))
	v.Stub("(*ant/antcache.Diskstore).files", func(on *Diskstore) []file {
		all := v.AnyFresh[[]file]()
		v.Assume(len(all) == n)
		return all
	})
	order := func(x any, less func(i, j int) bool) {
		fs := x.([]file)
		v.Assume(len(fs) == n)
		r := less(a, b)
		t := zzm.Nanos(fs[a].mtime, fs[b].mtime)
		v.Ensures("C29: older entries come first", v.And(v.Imp(t < 0, r), v.Imp(t > 0, !r)))
		v.Assume(false) // the rest is another contract's
	}
	v.Stub("sort.Slice", order)
	v.Stub("sort.SliceStable", order)
	d.sweep()
}

//verif:property C28 C29
//verif:covers every index, limits, and concurrent stores, with any removal failing
func verif_C29_sweep(d *Diskstore, watch uint64, n, e int) {
	s := diskSpec(d, watch)
	d.now = zzm.Now
	maxsize := int(d.maxsize)
	maxage := d.maxage
	now := zzm.Now()
	old := func(i int) bool { return v.And(maxage > 0, zzm.Diff(now, snapSpec(i).mtime) > maxage) }
	wanted := func(i int) bool {
		return v.Or(i < e, v.And(maxsize > 0, snapSumSpec(n)-snapSumSpec(i) > maxsize))
	}
	v.Requires(v.And(0 <= e, e <= n))
	v.Requires(v.ForallIn(0, n, func(i int) bool { return v.Imp(i < e, old(i)) }))
	v.Requires(v.ForallIn(0, n, func(i int) bool { return v.Imp(i >= e, !old(i)) }))
	v.Requires(v.ForallIn(0, n, func(i int) bool {
		return v.And(snapSpec(i).size >= 0, v.And(snapPosSpec(snapSpec(i).key) == i, keyOfSpec(baseOfSpec(snapSpec(i).path)) == snapSpec(i).key))
	}))
	v.Requires(v.ForallIn(0, n, func(i int) bool { return snapSumSpec(i+1) == snapSumSpec(i)+int(snapSpec(i).size) }))
	v.Requires(v.ForallIn(0, n+1, func(i int) bool { return v.And(0 <= snapSumSpec(i), snapSumSpec(i) <= 1<<62) }))
	pos := snapPosSpec(watch)
	v.Requires(v.ForallIn(0, n+1, func(i int) bool { return v.Imp(i <= pos, v.Imp(pos < n, snapSumSpec(i) <= snapSumSpec(pos))) }))
	seen := v.And(0 <= pos, v.And(pos < n, snapSpec(pos).key == watch))
	var all []file
	listed := false
	v.Stub("(*ant/antcache.Diskstore).files", func(on *Diskstore) []file {
		v.Assert("C29: the entries are listed once, without the lock", v.And(!listed, v.And(on == d, s.released())))
		listed = true
		all = v.AnyFresh[[]file]()
		v.Assume(len(all) == n)
		return all
	})
	order := func(x any, less func(i, j int) bool) {
		fs := x.([]file)
		v.Assert("C29: the listed entries are ordered", v.And(listed, v.And(len(fs) == n, v.Addr(fs) == v.Addr(all))))
		v.HavocRow(fs)
		v.Assume(v.ForallIn(0, n, func(i int) bool { return v.Same(fs[i], snapSpec(i)) }))
	}
	v.Stub("sort.Slice", order)
	v.Stub("sort.SliceStable", order)
	gone := 0
	tried, removed := false, false
	v.Stub("os.Remove", func(p string) error {
		i := snapPosSpec(keyOfSpec(baseOfSpec(p)))
		f, ok := s.entry(keyOfSpec(baseOfSpec(p)))
		v.Assert("C29: files are removed with the lock held", s.held)
		v.Assert("C29: only entries that were seen are removed", v.And(0 <= i, v.And(i < n, snapSpec(i).path == p)))
		v.Assert("C29: and only those that are too old or too much", wanted(i))
		v.Assert("C29: and were not replaced", v.And(ok, v.Same(f, snapSpec(i))))
		err := v.Ite(v.Any[bool](), v.Any[error](), os.ErrNotExist)
		done := v.Or(err == nil, errors.Is(err, os.ErrNotExist))
		gone = v.Ite(done, gone+1, gone)
		mine := v.And(seen, i == pos)
		tried = v.Or(tried, mine)
		removed = v.Or(removed, v.And(mine, done))
		return err
	})
	v.Loop("sweep", func(files, remove, keep []file, sum int64, k v.Iter) {
		if s.held {
			return
		}
		m := int(k)
		v.Inv("the old ones so far", v.And(len(remove) == v.Ite(m < e, m, e), v.ForallIn(0, len(remove), func(i int) bool { return v.Same(remove[i], snapSpec(i)) })))
		v.Inv("the others so far", v.And(len(keep) == v.Ite(m < e, 0, m-e), v.ForallIn(0, len(keep), func(i int) bool { return v.Same(keep[i], snapSpec(e+i)) })))
		v.Inv("apart", v.And(v.Imp(cap(remove) > 0, v.Addr(remove) != v.Addr(keep)), v.Imp(cap(keep) > 0, v.Addr(remove) != v.Addr(keep))))
		v.Inv("their size", int(sum) == v.Ite(m < e, 0, snapSumSpec(m)-snapSumSpec(e)))
	})
	v.Loop("sweep", func(remove, keep []file, sum int64, k v.Iter) {
		if s.held {
			return
		}
		m := int(k)
		v.Inv("the oldest so far", v.And(len(remove) == e+m, v.ForallIn(0, len(remove), func(i int) bool { return v.Same(remove[i], snapSpec(i)) })))
		v.Inv("all of them wanted", v.And(v.Imp(m > 0, maxsize > 0), v.ForallIn(0, len(remove), wanted)))
		v.Inv("the rest", int(sum) == snapSumSpec(n)-snapSumSpec(e+m))
	})
	v.Loop("sweep", func(remove []file, k v.Iter) {
		if !s.held {
			return
		}
		m := int(k)
		f, ok := s.entry(watch)
		v.Inv("the lock is held", v.And(s.held, s.locks == 1))
		v.Inv("tried when passed", tried == v.And(seen, v.And(pos < m, v.And(s.wasIn, v.Same(s.was, snapSpec(pos))))))
		v.Inv("removed when tried", v.Imp(removed, tried))
		v.Inv("as it was until removed", v.And(ok == v.And(s.wasIn, !removed), v.Imp(ok, v.Same(f, s.was))))
	})
	v.Loop("sweep", func(removed int, k v.Iter) {
		if !s.held {
			return
		}
		v.Inv("all counted", v.And(removed == gone, v.And(0 <= removed, removed <= int(k))))
	})
	s.leaving = func() {
		f, ok := s.entry(watch)
		fits := v.And(s.wasIn, v.And(seen, v.And(v.Same(s.was, snapSpec(pos)), wanted(pos))))
		v.Assert("C29: an entry is removed if it is too old or too much", tried == fits)
		v.Assert("C29: together with its file, and nothing else is", v.And(ok == v.And(s.wasIn, !removed), v.Imp(ok, v.Same(f, s.was))))
	}
	got, err := d.sweep()
	v.Ensures("C29: it looked once, and changed once", v.And(listed, s.locks == 1))
	v.Ensures("C29: all that were removed are reported", v.And(err == nil, got == gone))
	v.Ensures("C28 C29: every lock taken is released", s.released())
}

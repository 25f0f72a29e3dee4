package antcache

import (
	"context"
	"io"
	"io/fs"
	"os"
	"strconv"
	"time"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

//verif:property C30 C34
//verif:covers every path, options, and outcome of every step
func verif_C30_open(path string, opts []DiskOption) {
	v.Requires(v.ForallIn(0, len(opts), func(i int) bool { return opts[i] != nil }))
	all := v.SeqOf(opts)
	var d *Diskstore
	applied := 0
	var optErr error
	v.Stub("func:ant/antcache.DiskOption", func(o DiskOption, on *Diskstore) error {
		v.Assert("C30: the options are applied in order, to one store", v.And(0 <= applied, v.And(applied < all.Len(), v.And(v.Same(o, all.At(applied)), v.Or(applied == 0, on == d)))))
		v.Assert("C30: until one fails", optErr == nil)
		d = on
		applied++
		if v.Any[bool]() {
			on.ticker = v.Any[*time.Ticker]()
		}
		optErr = v.Any[error]()
		return optErr
	})
	var f *os.File
	open, isDir, statted := 0, false, false
	v.Stub("path/filepath.IsAbs", func(p string) bool { return v.UF[bool]("path.isabs", p) })
	v.Stub("os.Open", func(p string) (*os.File, error) {
		v.Assert("C30: the directory is opened once", v.And(f == nil, p == path))
		if err := v.Any[error](); err != nil {
			return nil, err
		}
		f = v.AnyFresh[*os.File]()
		v.Assume(f != nil)
		open++
		return f, nil
	})
	info := v.Any[fs.FileInfo]()
	v.Stub("(*os.File).Stat", func(g *os.File) (fs.FileInfo, error) {
		v.Assert("C30: the directory is looked at", v.And(f != nil, g == f))
		if err := v.Any[error](); err != nil {
			return nil, err
		}
		v.Assume(info != nil)
		statted = true
		isDir = v.UF[bool]("info.isdir", info)
		return info, nil
	})
	v.Stub("(io/fs.FileInfo).IsDir", func(i fs.FileInfo) bool {
		v.Assert("C30: the directory is looked at", i == info)
		return isDir
	})
	v.Stub("(*os.File).Close", func(g *os.File) error {
		v.Assert("C30: the directory is closed", v.And(f != nil, v.And(g == f, open > 0)))
		open--
		return v.Any[error]()
	})
	v.Stub("time.NewTicker", func(d time.Duration) *time.Ticker {
		t := v.AnyFresh[*time.Ticker]()
		v.Assume(t != nil)
		return t
	})
	v.Stub("func:ant/antcache.DebugFunc", func(f DebugFunc, format string, args ...any) {})
	warms, sweeps, gos := 0, 0, 0
	v.Stub("(*ant/antcache.Diskstore).warmup", func(on *Diskstore) {
		v.Assert("C30: an opened store is warmed up", v.And(on.dir == f, v.And(f != nil, on.path == path)))
		v.Assert("C34: and is counted before it starts", zzm.WaitGroupCount(&on.wg) == gos)
		warms++
	})
	v.Stub("(*ant/antcache.Diskstore).sweeper", func(on *Diskstore) {
		v.Assert("C30: a store without an interval is not swept", on.ticker != nil)
		v.Assert("C34: a sweeper is counted before it starts", zzm.WaitGroupCount(&on.wg) == gos)
		sweeps++
	})
	v.OnGo(func() { gos++ }, func() {}, func() {}, func() {
		v.Assert("C30: a goroutine warms up or sweeps", warms+sweeps == 1)
	})
	v.Loop("Open", func(k v.Iter, disk *Diskstore) {
		v.Inv("applied so far", v.And(applied == int(k), optErr == nil))
		v.Inv("to the store", v.Imp(applied > 0, d == disk))
		v.Inv("not opened", v.And(open == 0, f == nil))
		v.Inv("nothing runs", gos == 0)
		v.Inv("the path stays", disk.path == path)
		v.Inv("none is counted", zzm.WaitGroupCount(&disk.wg) == 0)
	})
	got, err := Open(path, opts...)
	v.Cover("opened or not")
	good := v.And(v.UF[bool]("path.isabs", path), v.And(f != nil, v.And(statted, isDir)))
	v.Ensures("C30: a failure leaves nothing open, and no store", v.Imp(err != nil, v.And(open == 0, v.And(got == nil, gos == 0))))
	v.Ensures("C30: an option's error is a failure", v.Imp(optErr != nil, err != nil))
	v.Ensures("C30: a relative, missing or other path is a failure", v.Imp(!good, err != nil))
	v.Ensures("C30: nothing else is", v.Imp(v.And(good, optErr == nil), err == nil))
	if err == nil {
		v.Ensures("C30: all options were applied to the store", v.And(applied == all.Len(), v.And(got != nil, v.Imp(applied > 0, got == d))))
		v.Ensures("C30: the directory is open", v.And(open == 1, v.And(got.dir == f, got.path == path)))
		v.Ensures("C30: it warms up, and is swept if there is an interval", gos == v.Ite(got.ticker == nil, 1, 2))
		v.Ensures("C34: closing waits for what was started", zzm.WaitGroupCount(&got.wg) == gos)
		v.Ensures("C34: a store with an interval is swept, another is not", gos == v.Ite(got.ticker == nil, 1, 2))
		v.Ensures("C30: it is ready to be used", v.And(got.ready != nil, v.And(got.warm != nil, got.stop != nil)))
	}
}

//verif:property C30
//verif:covers every option of the package on every store
func verif_C30_options(d *Diskstore, kind int, age, every time.Duration, size int64, debug DebugFunc) {
	v.Requires(d != nil)
	v.Stub("time.NewTicker", func(e time.Duration) *time.Ticker {
		v.Assert("C30: an interval is positive", v.And(e == every, e > 0))
		t := v.AnyFresh[*time.Ticker]()
		v.Assume(t != nil)
		return t
	})
	v.Stub("(*time.Ticker).Stop", func(t *time.Ticker) { v.Assert("C30: there is a ticker to stop", t != nil) })
	maxage, maxsize, compress, path, ticker := d.maxage, d.maxsize, d.compress, d.path, d.ticker
	var o DiskOption
	switch kind {
	case 0:
		o = Maxage(age)
	case 1:
		o = Maxsize(size)
	case 2:
		o = SweepEvery(every)
	case 3:
		o = Compress()
	default:
		o = Debug(debug)
	}
	err := o(d)
	v.Ensures("C30: an option does not fail", err == nil)
	v.Ensures("C30: it sets the age", d.maxage == v.Ite(kind == 0, age, maxage))
	v.Ensures("C30: it sets the size", d.maxsize == v.Ite(kind == 1, size, maxsize))
	v.Ensures("C30: it sets the interval", v.Ite(kind == 2, (d.ticker != nil) == (every > 0), d.ticker == ticker))
	v.Ensures("C30: it turns compression on", d.compress == v.Or(kind == 3, compress))
	v.Ensures("C30: the path stays", d.path == path)
}

//verif:property C30
//verif:covers every store that is warming up, and every context
func verif_C30_wait(d *Diskstore, ctx context.Context) {
	v.Requires(v.And(d != nil, v.And(ctx != nil, d.warm != nil)))
	v.Requires(v.Addr(d.warm) != v.Addr(zzm.CtxDone(ctx)))
	warm, ended := false, false
	v.Stub("chan.recv struct{}", func(ch <-chan struct{}) {
		w := v.Addr(ch) == v.Addr(d.warm)
		v.Assert("C30: readiness and the context are waited for", v.Or(w, ch == zzm.CtxDone(ctx)))
		warm, ended = v.Or(warm, w), v.Or(ended, !w)
	})
	cerr := v.Any[error]()
	v.Stub("(context.Context).Err", func(c context.Context) error {
		v.Assert("C30: the context is asked", c == ctx)
		e := v.Ite(ended, cerr, v.Any[error]())
		v.Assume(v.Imp(ended, e != nil))
		return e
	})
	err := d.Wait(ctx)
	v.Ensures("C30: nil only once ready", v.Imp(err == nil, warm))
	v.Ensures("C30: otherwise the context's error", v.Imp(err != nil, v.And(ended, err == cerr)))
}

func statOKSpec(path string) bool        { return v.UF[bool]("stat.ok", path) }
func statSizeSpec(path string) int64     { return v.UF[int64]("stat.size", path) }
func statTimeSpec(path string) time.Time { return v.UF[time.Time]("stat.time", path) }

// fromFile tells whether f is made of the directory's file of its name.
func fromFileSpec(dir string, f file) bool {
	n := baseOfSpec(f.path)
	return v.And(isKeySpec(n), v.And(f.key == keyOfSpec(n), v.And(f.path == v.UF[string]("filepath.Join", dir, n), v.And(statOKSpec(f.path), v.And(f.size == statSizeSpec(f.path), v.Same(f.mtime, statTimeSpec(f.path)))))))
}

//verif:property C28 C30 C34
//verif:covers every directory, with stores meanwhile, and any step failing
func verif_C30_warmup(d *Diskstore, name string, watch uint64) {
	s := diskSpec(d, watch)
	v.Requires(d.warm != nil)
	zzm.SetWaitGroup(&d.wg, v.Any[int]())
	count := zzm.WaitGroupCount(&d.wg)
	v.Assume(count > 0)
	dir := d.path
	seen := false        // the name was listed in an earlier batch
	here := -1           // where the name is in this batch
	made, place := 0, -1 // entries there are, and which of them is the name's
	listed := false
	ended := false
	mine := v.And(isKeySpec(name), v.And(keyOfSpec(name) == watch, statOKSpec(inDirSpec(dir, name))))
	v.Stub("(*os.File).Readdirnames", func(f *os.File, n int) ([]string, error) {
		v.Assert("C30: the directory is read, until an error", v.And(f == d.dir, !ended))
		v.Assert("C30: without the lock", s.released())
		err := v.Any[error]()
		if err != nil {
			ended = true
			return nil, v.Ite(v.Any[bool](), err, io.EOF)
		}
		names := v.AnyFresh[[]string]()
		q := v.SeqOf(names)
		v.Assume(v.And(len(names) >= 1, v.Imp(n > 0, len(names) <= n)))
		seen = v.Or(seen, here >= 0)
		here = v.Any[int]() // a directory has no two entries of a name
		v.Assume(v.And(-1 <= here, v.And(here < len(names), v.Imp(seen, here == -1))))
		v.Assume(v.Imp(here >= 0, q.At(here) == name))
		at := here
		v.Assume(v.ForallIn(0, len(names), func(i int) bool { return v.Imp(i != at, q.At(i) != name) }))
		ended = n <= 0
		return names, nil
	})
	v.Stub("path/filepath.Ext", func(p string) string {
		e := v.UF[string]("filepath.Ext", p)
		v.Assume(v.Imp(isKeySpec(baseOfSpec(p)), e == ""))
		return e
	})
	v.Stub("strconv.ParseUint", func(n string, base, bits int) (uint64, error) {
		v.Assert("C30: a key is a whole decimal name", v.And(base == 10, bits == 64))
		if !isKeySpec(n) {
			return 0, strconv.ErrSyntax
		}
		return keyOfSpec(n), nil
	})
	v.Stub("os.Stat", func(p string) (fs.FileInfo, error) {
		n := baseOfSpec(p)
		if !statOKSpec(p) {
			return nil, os.ErrNotExist
		}
		k := v.And(isKeySpec(n), p == inDirSpec(dir, n))
		place = v.Ite(v.And(k, n == name), made, place)
		made = v.Ite(k, made+1, made)
		i := v.UF[fs.FileInfo]("stat.info", p)
		v.Assume(v.And(i != nil, v.And(v.UF[int64]("info.size", i) == statSizeSpec(p), v.Same(v.UF[time.Time]("info.mtime", i), statTimeSpec(p)))))
		return i, nil
	})
	v.Stub("(io/fs.FileInfo).Size", func(i fs.FileInfo) int64 { return v.UF[int64]("info.size", i) })
	v.Stub("(io/fs.FileInfo).ModTime", func(i fs.FileInfo) time.Time { return v.UF[time.Time]("info.mtime", i) })
	v.Loop("warmup", func(files []file) {
		v.Inv("only files", v.ForallIn(0, len(files), func(i int) bool { return fromFileSpec(dir, files[i]) }))
		v.Inv("as many as there are", v.And(len(files) == made, v.And(-1 <= place, place < made)))
		v.Inv("this one, once it was listed", v.Imp(v.And(v.Or(seen, here >= 0), mine), place >= 0))
		v.Inv("at its place", v.ForallIn(0, len(files), func(i int) bool { return v.Imp(i == place, files[i].key == keyOfSpec(name)) }))
		v.Inv("no lock", s.released())
		v.Inv("not locked", s.locks == 0)
		v.Inv("going on", !ended)
	})
	v.Loop("warmup", func(files []file, k v.Iter) {
		v.Inv("this one, if it was listed before", v.Imp(v.And(seen, mine), place >= 0))
		v.Inv("or handled", v.Imp(v.And(mine, v.And(here >= 0, here < int(k))), place >= 0))
	})
	v.Loop("warmup", func(files []file, k v.Iter) {
		v.Inv("this one, wherever it was listed", v.Imp(v.And(v.Or(seen, here >= 0), mine), place >= 0))
		e, ok := s.entry(watch)
		v.Inv("what was there stays", v.Imp(s.wasIn, v.And(ok, v.Same(e, s.was))))
		v.Inv("only files are added", v.Imp(v.And(ok, !s.wasIn), v.And(fromFileSpec(dir, e), e.key == watch)))
		v.Inv("and all so far", v.Imp(v.And(s.held, v.And(mine, v.And(place >= 0, place < int(k)))), ok))
		v.Inv("locked", s.locks == 1)
		v.Inv("exclusively", s.held)
		v.Inv("at the end", ended)
		v.Inv("the directory stays", d.path == dir)
	})
	closes := 0
	v.On("wg", &d.wg, func() { v.Assert("C34: warm-up ends after its last use of the directory", v.And(ended, s.released())) })
	v.Stub("chan.close", func(ch chan struct{}) {
		v.Assert("C30: readiness is what is signalled", v.Addr(ch) == v.Addr(d.warm))
		v.Assert("C30: readiness is signalled once", closes == 0)
		v.Assert("C30: when the entries are indexed", v.And(s.released(), v.And(listed, ended)))
		closes++
	})
	s.leaving = func() {
		e, ok := s.entry(watch)
		listed = v.Or(listed, ended)
		v.Assert("C30: an entry stored meanwhile stays", v.Imp(s.wasIn, v.And(ok, v.Same(e, s.was))))
		v.Assert("C30: only the directory's files are indexed", v.Imp(v.And(ok, !s.wasIn), v.And(fromFileSpec(dir, e), e.key == watch)))
		v.Assert("C30: and all of them", v.Imp(v.And(v.Or(seen, here >= 0), mine), ok))
	}
	d.warmup()
	v.Ensures("C28 C30: every lock taken is released", s.released())
	v.Ensures("C30: readiness is signalled", closes == 1)
	v.Ensures("C34: the end of warm-up is reported once", zzm.WaitGroupCount(&d.wg) == count-1)
}

package antcache

import (
	"context"
	"io/fs"
	"os"
	"time"

	v "github.com/yields/ant/internal/zzv"
)

func infoOfSpec(f *os.File, n int) fs.FileInfo { return v.UF[fs.FileInfo]("file.info", f, n) }
func infoSizeSpec(i fs.FileInfo) int64         { return v.UF[int64]("info.size", i) }
func infoTimeSpec(i fs.FileInfo) time.Time     { return v.UF[time.Time]("info.mtime", i) }

//verif:property C27 C28 C29 C30
//verif:covers every key, value and directory, with any step failing
func verif_C27_store(d *Diskstore, ctx context.Context, key, watch uint64, data []byte) {
	s := diskSpec(d, watch)
	value := string(data)
	want := v.Ite(d.compress, snappyOfSpec(value), value)
	final := inDirSpec(d.path, nameOfSpec(key))

	var f *os.File
	temp := ""
	created, closed, removed, renamed, dirSynced := false, false, false, false, false
	written, synced, torn, writes := "", false, false, 0
	failing := false
	fail := func(err error) error {
		failing = v.Or(failing, err != nil)
		return err
	}
	v.Stub("os.CreateTemp", func(dir, pattern string) (*os.File, error) {
		v.Assert("C27: one temporary file is made, in the store's directory", v.And(!created, dir == d.path))
		v.Assert("C27 C30: its name is no key", v.StrToInt(v.StrReplaceAll(pattern, "*", "0")) < 0)
		if err := v.Any[error](); err != nil {
			return nil, fail(err)
		}
		f = v.AnyFresh[*os.File]()
		v.Assume(f != nil)
		temp = v.UF[string]("file.name", f)
		v.Assume(v.And(temp != final, !isKeySpec(baseOfSpec(temp))))
		created = true
		return f, nil
	})
	v.Stub("(*os.File).Write", func(g *os.File, b []byte) (int, error) {
		v.Assert("C27: only the temporary file is written", v.And(created, g == f))
		v.Assert("C27: and not after it was published", v.And(!renamed, !closed))
		n, err := v.Any[int](), v.Any[error]()
		v.Assume(v.And(0 <= n, v.And(n <= len(b), v.Imp(err == nil, n == len(b)))))
		torn = v.Or(torn, err != nil)
		written = written + string(b)
		synced = false
		writes++
		return n, fail(err)
	})
	v.Stub("(*os.File).Sync", func(g *os.File) error {
		v.Assert("C27: the file or the directory is synced", v.Or(v.And(created, g == f), g == d.dir))
		err := v.Any[error]()
		if g == d.dir {
			dirSynced = v.Or(dirSynced, v.And(renamed, err == nil))
		} else {
			v.Assert("C27: the file is synced before it is closed", !closed)
			synced = err == nil
		}
		return fail(err)
	})
	v.Stub("(*os.File).Stat", func(g *os.File) (fs.FileInfo, error) {
		v.Assert("C27: the file is asked for its size", v.And(created, v.And(g == f, !closed)))
		i, err := infoOfSpec(f, writes), v.Any[error]()
		v.Assume(i != nil)
		return v.Ite(err == nil, i, nil), fail(err)
	})
	v.Stub("(io/fs.FileInfo).Size", func(i fs.FileInfo) int64 { return infoSizeSpec(i) })
	v.Stub("(io/fs.FileInfo).ModTime", func(i fs.FileInfo) time.Time { return infoTimeSpec(i) })
	v.Stub("(*os.File).Close", func(g *os.File) error {
		v.Assert("C27: the file is closed", v.And(created, g == f))
		err := v.Any[error]()
		if closed {
			v.Assume(err != nil)
			return err
		}
		closed = true
		return fail(err)
	})
	v.Stub("os.Rename", func(from, to string) error {
		v.Assert("C27: the temporary file is renamed to the key's name", v.And(created, v.And(!renamed, v.And(from == temp, to == final))))
		v.Assert("C27: when it is complete", v.And(!torn, written == want))
		v.Assert("C27: synced", synced)
		v.Assert("C27: and closed", closed)
		v.Assert("C29: no sweep can be at work meanwhile", s.held)
		err := v.Any[error]()
		renamed = err == nil
		return fail(err)
	})
	v.Stub("os.Remove", func(p string) error {
		v.Assert("C27: only the temporary file is removed", v.And(created, p == temp))
		removed = true
		return v.Any[error]()
	})
	stored := false
	s.leaving = func() {
		e, ok := s.entry(watch)
		done := v.And(renamed, v.And(dirSynced, !failing))
		v.Assert("C27: a key becomes visible after all steps", v.Imp(s.changed, v.And(watch == key, done)))
		v.Assert("C29: a replaced file is indexed with its size and time before any sweep", v.Imp(v.And(watch == key, done),
			v.And(ok, v.And(e.path == final, v.And(e.size == infoSizeSpec(infoOfSpec(f, writes)), v.Same(e.mtime, infoTimeSpec(infoOfSpec(f, writes))))))))
		stored = v.Or(stored, v.And(watch == key, v.And(done, v.And(ok, e.path == final))))
	}
	err := d.Store(ctx, key, data)
	v.Cover("stored")
	v.Ensures("C28: every lock taken is released", s.released())
	v.Ensures("C27: any failing step is an error", v.Imp(failing, err != nil))
	v.Ensures("C27: nothing else is", v.Imp(!failing, err == nil))
	v.Ensures("C27: a stored key is visible", v.Imp(v.And(err == nil, watch == key), stored))
	v.Ensures("C27: no other key's visibility changes", v.Imp(v.Or(err != nil, watch != key), !s.changed))
	v.Ensures("C27: the temporary file is closed", v.Imp(created, closed))
	v.Ensures("C27: and removed unless it was published", v.Imp(v.And(created, !renamed), removed))
	v.Ensures("C27: success means published", v.Imp(err == nil, v.And(renamed, dirSynced)))
}

package antcache

import (
	"errors"
	"os"
	"path/filepath"

	v "github.com/yields/ant/internal/zzv"
)

var _ = filepath.Join

// keyOf is the key that a file's name denotes.
func keyOfSpec(name string) uint64 { return v.UF[uint64]("disk.key", name) }
func isKeySpec(name string) bool   { return v.UF[bool]("disk.iskey", name) }

// nameOf is the name of the key's file.
func nameOfSpec(key uint64) string {
	n := v.UF[string]("disk.name", key)
	v.Assume(v.And(isKeySpec(n), keyOfSpec(n) == key))
	return n
}

// inDir is the path of the name in the directory, which has no separators.
func inDirSpec(dir, name string) string {
	p := v.UF[string]("filepath.Join", dir, name)
	v.Assume(v.Imp(isKeySpec(name), baseOfSpec(p) == name))
	return p
}
func baseOfSpec(path string) string { return v.UF[string]("filepath.Base", path) }

func snappyOfSpec(s string) string  { return v.UF[string]("snappy.Encode", s) }
func unsnappySpec(s string) string  { return v.UF[string]("snappy.Decode", s) }
func snappyValidSpec(s string) bool { return v.UF[bool]("snappy.valid", s) }

var errSnappySpec = errors.New("corrupt")

func bytesOfSpec(s string) (b []byte) {
	b = v.AnyFresh[[]byte]()
	v.Assume(v.And(b != nil, string(b) == s))
	return
}

// diskSection is what the store's lock protects, and what the goroutine under
// verification does to it while it holds the lock.
type diskSectionSpec struct {
	d       *Diskstore
	held    bool
	rheld   bool
	others  bool // other goroutines are at work
	watch   uint64
	was     file // the watched key's entry when the lock was taken
	wasIn   bool
	locks   int
	changed bool // the watched key's entry was changed
	now     file // to this
	nowIn   bool
	onLock  func()
	leaving func() // called before the lock is released
}

// okEntry tells whether f is what the index may hold at the key.
func okEntrySpec(d *Diskstore, k uint64, f file) bool {
	n := baseOfSpec(f.path)
	return v.And(f.key == k, v.And(isKeySpec(n), v.And(keyOfSpec(n) == k, f.path == inDirSpec(d.path, n))))
}

// entry is the index entry of the key.
func (s *diskSectionSpec) entry(k uint64) (file, bool) {
	old := s.others
	s.others = true
	f, ok := s.d.ready[k]
	s.others = old
	return f, ok
}

// known assumes what the index always satisfies.
func (s *diskSectionSpec) known(k uint64) {
	f, ok := s.entry(k)
	v.Assume(v.Imp(ok, okEntrySpec(s.d, k, f)))
}

// disk makes d a store with any history, shared with other goroutines.
func diskSpec(d *Diskstore, watch uint64) *diskSectionSpec {
	v.Requires(v.And(d != nil, v.And(d.dir != nil, d.ready != nil)))
	s := &diskSectionSpec{d: d, watch: watch}
	d.debug = v.Any[DebugFunc]()
	d.path = v.Any[string]()
	dir := d.dir
	path := d.path
	enter := func() {
		s.others = true
		v.HavocMap(d.ready)
		s.others = false
		s.known(watch)
		s.was, s.wasIn = s.entry(watch)
		s.locks++
		if s.onLock != nil {
			s.onLock()
		}
	}
	leave := func() {
		f, ok := s.entry(watch)
		v.Assert("C28: what is indexed is the key's file", v.Imp(ok, okEntrySpec(d, watch, f)))
		ch := v.Or(ok != s.wasIn, v.And(ok, !v.Same(f, s.was)))
		s.now = v.Ite(ch, f, s.now)
		s.nowIn = v.Ite(ch, ok, s.nowIn)
		s.changed = v.Or(s.changed, ch)
		v.Assert("C28: the directory stays", v.And(d.path == path, d.dir == dir))
		if s.leaving != nil {
			s.leaving()
		}
	}
	v.On("lock", &d.readymu, func() {
		v.Assert("C28: the lock is not taken twice", v.And(!s.held, !s.rheld))
		s.held = true
		enter()
	})
	v.On("unlock", &d.readymu, func() {
		v.Assert("C28: the lock is held when released", s.held)
		leave()
		s.held = false
	})
	v.On("rlock", &d.readymu, func() {
		v.Assert("C28: the lock is not taken twice", v.And(!s.held, !s.rheld))
		s.rheld = true
		enter()
	})
	v.On("runlock", &d.readymu, func() {
		v.Assert("C28: the lock is held when released", s.rheld)
		leave()
		s.rheld = false
	})
	v.GuardMap("C28: the index is accessed with the lock held", d.ready,
		func() bool { return v.Or(s.held, v.Or(s.rheld, s.others)) }, func() bool { return v.Or(s.held, s.others) })
	v.Guard("C28: the index is not replaced", &d.ready, func() bool { return true }, func() bool { return false })
	v.Stub("func:ant/antcache.DebugFunc", func(f DebugFunc, format string, args ...any) {})
	v.Stub("(*ant/antcache.Diskstore).debugf", func(on *Diskstore, format string, args ...any) {})
	v.Stub("path/filepath.Join", func(elem ...string) string {
		v.Assert("the model of filepath.Join takes a directory and a name", len(elem) == 2)
		return inDirSpec(elem[0], elem[1])
	})
	v.Stub("strconv.FormatUint", func(n uint64, base int) string {
		if base == 10 {
			return nameOfSpec(n)
		}
		return v.UF[string]("strconv.FormatUint", n, base)
	})
	v.Stub("(*os.File).Name", func(f *os.File) string { return v.UF[string]("file.name", f) })
	v.Stub("github.com/golang/snappy.Encode", func(dst, src []byte) []byte {
		p := string(src)
		r := snappyOfSpec(p)
		v.Assume(v.And(snappyValidSpec(r), unsnappySpec(r) == p))
		return bytesOfSpec(r)
	})
	v.Stub("github.com/golang/snappy.Decode", func(dst, src []byte) ([]byte, error) {
		p := string(src)
		if !snappyValidSpec(p) {
			return nil, errSnappySpec
		}
		return bytesOfSpec(unsnappySpec(p)), nil
	})
	return s
}

// released tells that no lock is held.
func (s *diskSectionSpec) released() bool { return v.And(!s.held, !s.rheld) }

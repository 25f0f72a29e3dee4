package scan

import (
	"reflect"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
	"golang.org/x/net/html"
)

//verif:property C17 C18
//verif:covers every scanner history, destination and document; other goroutines scan at any time
func verif_C18_scan(dst any, src *html.Node, other reflect.Type) {
	v.Requires(src != nil)
	v.Requires(other != nil)
	s := NewScanner()
	types := s.types
	v.Assert("C18: a new scanner knows no types", len(types) == 0)
	ptr := zzm.DynType(dst)
	bad := v.Or(ptr == nil, v.Or(zzm.KindOf(ptr) != reflect.Ptr, zzm.IsNilValue(reflect.ValueOf(dst))))
	elem := zzm.ElemOf(ptr)
	v.Requires(v.Imp(!bad, !scannableSpec(ptr, false))) // proved by verif_C17_scalar
	held, rheld, others := false, false, false
	known := func(t reflect.Type) bool {
		f, ok := types[t]
		return v.Imp(ok, v.And(f != nil, v.And(scannableSpec(t, false), v.And(scansTypeSpec(f) == t, v.And(!scansSelectedSpec(f), scansAttrSpec(f) == "")))))
	}
	arbitrary := func() {
		others = true
		v.HavocMap(types)
		v.Assume(v.And(known(elem), v.And(known(other), v.Imp(ptr != nil, known(ptr)))))
		others = false
	}
	leave := func() {
		others = true
		v.Assert("C18: what is registered is the scanner of its type, which can be scanned", v.And(known(elem), known(other)))
		others = false
	}
	v.On("lock", s.mutex, func() {
		v.Assert("C18: the lock is not taken twice", !held && !rheld)
		held = true
		arbitrary()
	})
	v.On("unlock", s.mutex, func() {
		v.Assert("C18: the lock is held when released", held)
		leave()
		held = false
	})
	v.On("rlock", s.mutex, func() {
		v.Assert("C18: the lock is not taken twice", !held && !rheld)
		rheld = true
		arbitrary()
	})
	v.On("runlock", s.mutex, func() {
		v.Assert("C18: the lock is held when released", rheld)
		leave()
		rheld = false
	})
	v.GuardMap("C18: the types are accessed with the lock held", types,
		func() bool { return v.Or(held, v.Or(rheld, others)) }, func() bool { return v.Or(held, others) })
	v.Stub("ant/internal/scan.ScannerOf", func(t reflect.Type, opts Options) (ScanFunc, error) {
		v.Assert("C17: the destination's type is scanned", v.And(t == elem, v.And(opts.Selector == nil, opts.Attr == "")))
		return scannerOfSpec(t, opts)
	})
	calls := 0
	var ferr error
	v.Stub("func:ant/internal/scan.ScanFunc", func(g ScanFunc, d reflect.Value, n *html.Node) error {
		v.Assert("C18: no lock is held while scanning", v.And(!held, !rheld))
		v.Assert("C17: by a scanner of the destination's type", v.And(scansTypeSpec(g) == elem, v.And(!scansSelectedSpec(g), scansAttrSpec(g) == "")))
		v.Assert("C17: into what the destination points to", zzm.ValueID(d) == zzm.ValueID(zzm.Pointee(reflect.ValueOf(dst))))
		v.Assert("C17: from the document", n == src)
		calls++
		ferr = v.Any[error]()
		return ferr
	})
	err := s.Scan(dst, src, Options{})
	v.Cover("scanned")
	v.Ensures("C18: every lock taken is released", v.And(!held, !rheld))
	v.Ensures("C17: what is no pointer to something is an error", v.Imp(bad, v.And(err != nil, calls == 0)))
	v.Ensures("C17: so is a type that cannot be scanned", v.Imp(v.And(!bad, !scannableSpec(elem, false)), v.And(err != nil, calls == 0)))
	v.Ensures("C17: anything else is scanned, once", v.Imp(v.And(!bad, scannableSpec(elem, false)), v.And(calls == 1, err == ferr)))
}

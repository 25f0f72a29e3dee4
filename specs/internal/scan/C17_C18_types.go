package scan

import (
	"errors"
	"reflect"

	"github.com/andybalholm/cascadia"
	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
	"golang.org/x/net/html"
)

// What a scan function was made for.
func scansTypeSpec(f ScanFunc) reflect.Type  { return v.UF[reflect.Type]("scans.type", f) }
func scansSelectorSpec(f ScanFunc) string    { return v.UF[string]("scans.selector", f) }
func scansSelectedSpec(f ScanFunc) bool      { return v.UF[bool]("scans.selected", f) }
func scansAttrSpec(f ScanFunc) string        { return v.UF[string]("scans.attr", f) }
func selectorValidSpec(sel string) bool      { return v.UF[bool]("selector.valid", sel) }
func selTextSpec(s cascadia.Selector) string { return v.UF[string]("selector.text", s) }
func matchesBelowSpec(sel string, n *html.Node) v.Seq[*html.Node] {
	return v.UF[v.Seq[*html.Node]]("selector.all", sel, n)
}

// firstBelow is the first match, in document order, nil if there is none.
func firstBelowSpec(sel string, n *html.Node) *html.Node {
	r := v.UF[*html.Node]("selector.first", sel, n)
	all := matchesBelowSpec(sel, n)
	v.Assume(v.Ite(all.Len() == 0, r == nil, v.And(r != nil, r == all.At(0))))
	return r
}

var errSelectorSpec = errors.New("bad selector")

// stubSelectors gives selectors their meaning.
func stubSelectorsSpec() {
	v.Stub("github.com/andybalholm/cascadia.Compile", func(sel string) (cascadia.Selector, error) {
		if !selectorValidSpec(sel) {
			return nil, errSelectorSpec
		}
		s := v.Any[cascadia.Selector]()
		v.Assume(v.And(s != nil, selTextSpec(s) == sel))
		return s, nil
	})
	v.Stub("(github.com/andybalholm/cascadia.Selector).MatchFirst", func(s cascadia.Selector, n *html.Node) *html.Node {
		v.Assert("C17: the node to search below is not nil", n != nil)
		return firstBelowSpec(selTextSpec(s), n)
	})
	v.Stub("(github.com/andybalholm/cascadia.Selector).MatchAll", func(s cascadia.Selector, n *html.Node) []*html.Node {
		v.Assert("C17: the node to search below is not nil", n != nil)
		r := v.AnyFresh[[]*html.Node]()
		v.Assume(v.SeqOf(r).Eq(matchesBelowSpec(selTextSpec(s), n)))
		return r
	})
}

// scannable tells whether values of the type can be scanned.
func scannableSpec(t reflect.Type, selected bool) bool { return v.UF[bool]("scannable", t, selected) }

var errTypeSpec = errors.New("bad type")

// scanners is what nested types are scanned by: scan functions of their types.
func scannersSpec() {
	v.Recursive("ant/internal/scan.ScannerOf", func(t reflect.Type, opts Options) (ScanFunc, error) {
		v.Assert("C17: a nested type is not nil", t != nil)
		return scannerOfSpec(t, opts)
	})
}

func scannerOfSpec(t reflect.Type, opts Options) (ScanFunc, error) {
	if !scannableSpec(t, opts.Selector != nil) {
		return nil, errTypeSpec
	}
	f := v.Any[ScanFunc]()
	v.Assume(f != nil)
	v.Assume(v.And(scansTypeSpec(f) == t, v.And(scansSelectedSpec(f) == (opts.Selector != nil), scansAttrSpec(f) == opts.Attr)))
	v.Assume(v.Imp(opts.Selector != nil, scansSelectorSpec(f) == selTextSpec(opts.Selector)))
	return f, nil
}

// writes records what is written to values.
type writesSpec struct {
	dst   reflect.Value
	n     int
	str   string
	num   int
	whole reflect.Value // what Set was given
	kind  reflect.Kind  // of the setter
}

func (w *writesSpec) put(x reflect.Value, ok bool) {
	v.Assert("C17: only the destination is written", zzm.ValueID(x) == zzm.ValueID(w.dst))
	v.Assert("C17: by a method of its kind, which does not panic", ok)
	w.n++
}

func isKindSpec(x reflect.Value, k reflect.Kind) bool {
	t := zzm.ValueType(x)
	return v.And(t != nil, zzm.KindOf(t) == k)
}

// parts is any float64 as its bits; conversions are functions of the text.
func intOfSpec(s string) int    { return v.UF[int]("strconv.int", s) }
func uintOfSpec(s string) int   { return v.UF[int]("strconv.uint", s) }
func floatOfSpec(s string) int  { return v.UF[int]("strconv.float", s) }
func floatIDSpec(f float64) int { return v.UF[int]("float.bits", f) }

// setters stubs the writing methods.
func settersSpec(dst reflect.Value) *writesSpec {
	w := &writesSpec{dst: dst}
	v.Stub("(reflect.Value).SetString", func(x reflect.Value, s string) {
		w.put(x, isKindSpec(x, reflect.String))
		w.str = s
	})
	v.Stub("(reflect.Value).SetBytes", func(x reflect.Value, b []byte) {
		w.put(x, v.And(isKindSpec(x, reflect.Slice), zzm.KindOf(zzm.ElemOf(zzm.ValueType(x))) == reflect.Uint8))
		w.str = string(b)
	})
	v.Stub("(reflect.Value).SetInt", func(x reflect.Value, n int64) {
		k := zzm.KindOf(zzm.ValueType(x))
		w.put(x, v.And(k >= reflect.Int, k <= reflect.Int64))
		w.num = int(n)
	})
	v.Stub("(reflect.Value).SetUint", func(x reflect.Value, n uint64) {
		k := zzm.KindOf(zzm.ValueType(x))
		w.put(x, v.And(k >= reflect.Uint, k <= reflect.Uintptr))
		w.num = v.BigInt("uint64", n)
		v.Assume(w.num == int(n))
	})
	v.Stub("(reflect.Value).SetFloat", func(x reflect.Value, f float64) {
		w.put(x, v.Or(isKindSpec(x, reflect.Float32), isKindSpec(x, reflect.Float64)))
		w.num = floatIDSpec(f)
	})
	v.Stub("(reflect.Value).Set", func(x, y reflect.Value) {
		w.put(x, zzm.ValueType(x) == zzm.ValueType(y))
		w.whole = y
	})
	v.Stub("strconv.ParseFloat", func(s string, bits int) (float64, error) {
		f := v.UF[float64]("strconv.ParseFloat", s, bits)
		return f, v.Any[error]()
	})
	v.Stub("strconv.ParseUint", func(s string, base, bits int) (uint64, error) {
		return v.UF[uint64]("strconv.ParseUint", s, base, bits), v.Any[error]()
	})
	v.Stub("strconv.ParseInt", func(s string, base, bits int) (int64, error) {
		return v.UF[int64]("strconv.ParseInt", s, base, bits), v.Any[error]()
	})
	v.Stub("ant/internal/scan.Text", func(n *html.Node) string {
		return v.Ite(n == nil, "", textUFSpec(n))
	})
	v.Stub("ant/internal/scan.Attr", func(n *html.Node, key string) (string, bool) {
		return v.Ite(n == nil, "", attrUFSpec(n, key)), v.UF[bool]("attr.has", n, key)
	})
	return w
}

func textUFSpec(n *html.Node) string             { return v.UF[string]("node.text", n) }
func attrUFSpec(n *html.Node, key string) string { return v.UF[string]("attr.val", n, key) }

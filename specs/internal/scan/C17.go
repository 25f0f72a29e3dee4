package scan

import (
	"reflect"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
	"golang.org/x/net/html"
)

//verif:property C17
//verif:covers every type, options, document and destination that is not nested
func verif_C17_scalar(t reflect.Type, opts Options, dst reflect.Value, src *html.Node) {
	v.Requires(v.And(t != nil, src != nil))
	k := zzm.KindOf(t)
	bytes := t == byteslice
	v.Requires(v.And(zzm.KindOf(byteslice) == reflect.Slice, zzm.KindOf(zzm.ElemOf(byteslice)) == reflect.Uint8))
	v.Requires(zzm.ValueType(dst) == t)
	v.Requires(v.And(k != reflect.Struct, v.Or(k != reflect.Slice, bytes)))
	stubSelectorsSpec()
	w := settersSpec(dst)
	supported := v.Or(bytes, v.Or(k == reflect.String, v.Or(k == reflect.Int, v.Or(k == reflect.Uint, v.Or(k == reflect.Float32, k == reflect.Float64)))))
	f, err := ScannerOf(t, opts)
	v.Ensures("C17: a supported type is scannable", v.Imp(supported, v.And(err == nil, f != nil)))
	v.Ensures("C17: any other is an error", v.Imp(!supported, v.And(err != nil, f == nil)))
	if err != nil {
		return
	}
	n := src
	if opts.Selector != nil {
		n = firstBelowSpec(selTextSpec(opts.Selector), src)
	}
	text := ""
	if n != nil {
		text = v.Ite(opts.Attr == "", textUFSpec(n), attrUFSpec(n, opts.Attr))
	}
	ferr := f(dst, src)
	v.Cover("scanned")
	v.Ensures("C17: scanning does not fail", ferr == nil)
	v.Ensures("C17: the destination is written once", w.n == 1)
	v.Ensures("C17: the text or attribute of the first match", v.Imp(v.Or(bytes, k == reflect.String), w.str == text))
	v.Ensures("C17: converted to an integer", v.Imp(k == reflect.Int, w.num == int(v.UF[int64]("strconv.ParseInt", text, 10, 64))))
	v.Ensures("C17: converted to an unsigned integer", v.Imp(k == reflect.Uint, w.num == int(v.UF[uint64]("strconv.ParseUint", text, 10, 64))))
	v.Ensures("C17: converted to a float", v.Imp(v.Or(k == reflect.Float32, k == reflect.Float64), w.num == floatIDSpec(v.UF[float64]("strconv.ParseFloat", text, 64))))
}

//verif:property C17
//verif:covers every slice type, options, document and destination
func verif_C17_slice(t reflect.Type, opts Options, dst reflect.Value, src *html.Node, j int) {
	v.Requires(v.And(t != nil, src != nil))
	v.Requires(v.And(t != byteslice, zzm.KindOf(t) == reflect.Slice))
	v.Requires(zzm.ValueType(dst) == t)
	stubSelectorsSpec()
	scannersSpec()
	w := settersSpec(dst)
	f, err := ScannerOf(t, opts)
	ok := v.And(opts.Selector != nil, scannableSpec(zzm.ElemOf(t), false))
	v.Ensures("C17: a slice with a selector, of what can be scanned, is scannable", v.Imp(ok, v.And(err == nil, f != nil)))
	v.Ensures("C17: any other is an error", v.Imp(!ok, v.And(err != nil, f == nil)))
	if err != nil {
		return
	}
	q := matchesBelowSpec(selTextSpec(opts.Selector), src)
	v.Requires(v.ForallIn(0, q.Len(), func(i int) bool { return q.At(i) != nil }))
	v.Requires(v.And(0 <= j, j < q.Len()))
	hits := 0
	slice := v.Any[int]()
	made := 0
	v.Stub("reflect.MakeSlice", func(t reflect.Type, n, c int) reflect.Value {
		v.Assert("C17: MakeSlice is asked for slices only", v.And(zzm.KindOf(t) == reflect.Slice, v.And(0 <= n, n <= c)))
		v.Assert("C17: one slice is made", made == 0)
		made++
		r := zzm.ValueAt(slice)
		v.Assume(v.And(zzm.ValueType(r) == t, zzm.Len(r) == n))
		return r
	})
	var first error
	v.Stub("func:ant/internal/scan.ScanFunc", func(g ScanFunc, d reflect.Value, n *html.Node) error {
		i := zzm.ElementNo(d)
		v.Assert("C17: nothing is scanned after an error", first == nil)
		v.Assert("C17: an element is scanned", v.And(0 <= i, i < q.Len()))
		v.Assert("C17: of the new slice", v.And(made == 1, slice == zzm.ElementOf(d)))
		v.Assert("C17: by a scanner of its type", v.And(scansTypeSpec(g) == zzm.ElemOf(t), v.And(!scansSelectedSpec(g), scansAttrSpec(g) == opts.Attr)))
		v.Assert("C17: from the match at its place", n == q.At(i))
		hits = v.Ite(i == j, hits+1, hits)
		first = v.Any[error]()
		return first
	})
	v.Loop("scan", func(k v.Iter) {
		v.Inv("each once so far", hits == v.Ite(j < int(k), 1, 0))
		v.Inv("no error", first == nil)
		v.Inv("nothing written", w.n == 0)
	})
	ferr := f(dst, src)
	v.Cover("scanned")
	v.Ensures("C17: an element's error is returned", v.Imp(first != nil, v.And(ferr == first, w.n == 0)))
	v.Ensures("C17: nothing else fails", v.Imp(first == nil, ferr == nil))
	v.Ensures("C17: one element per match, in document order", v.Imp(ferr == nil, v.And(hits == 1, v.And(w.n == 1, v.And(zzm.ValueID(w.whole) == slice, zzm.Len(w.whole) == q.Len())))))
}

//verif:property C17
//verif:covers every slice without matches
func verif_C17_empty(t reflect.Type, opts Options, dst reflect.Value, src *html.Node) {
	v.Requires(v.And(t != nil, src != nil))
	v.Requires(v.And(t != byteslice, zzm.KindOf(t) == reflect.Slice))
	v.Requires(zzm.ValueType(dst) == t)
	v.Requires(v.And(opts.Selector != nil, scannableSpec(zzm.ElemOf(t), false)))
	stubSelectorsSpec()
	scannersSpec()
	w := settersSpec(dst)
	f, err := ScannerOf(t, opts)
	v.Assume(err == nil)
	v.Requires(matchesBelowSpec(selTextSpec(opts.Selector), src).Len() == 0)
	v.Stub("func:ant/internal/scan.ScanFunc", func(g ScanFunc, d reflect.Value, n *html.Node) error {
		v.Assert("C17: nothing is scanned", false)
		return nil
	})
	ferr := f(dst, src)
	v.Cover("scanned")
	v.Ensures("C17: no match empties the slice", v.And(ferr == nil, v.And(w.n == 1, zzm.Len(w.whole) == 0)))
}

// The tag of the i-th field: its text, its selector and its attribute.
func cssTagSpec(t reflect.Type, i int) string { return zzm.TagValue(zzm.FieldTag(t, i), "css") }

func cssSelSpec(t reflect.Type, i int) string {
	s := cssTagSpec(t, i)
	at := v.StrIndex(s, "@", 0)
	return v.Ite(at < 0, s, s[:v.Ite(at < 0, 0, at)])
}

func cssAttrSpec(t reflect.Type, i int) string {
	s := cssTagSpec(t, i)
	at := v.StrIndex(s, "@", 0)
	return v.Ite(at < 0, "", s[v.Ite(at < 0, 0, at+1):])
}

// tagged tells whether the i-th field is exported and has a tag.
func taggedSpec(t reflect.Type, i int) bool {
	s := cssTagSpec(t, i)
	return v.And(zzm.FieldPkg(t, i) == "", v.And(s != "", s != "-"))
}

// fine tells whether the i-th field, which is tagged, can be scanned.
func fineSpec(t reflect.Type, i int) bool {
	return v.And(selectorValidSpec(cssSelSpec(t, i)), scannableSpec(zzm.FieldType(t, i), true))
}

// tags is the number of tagged fields among the first n.
//
//verif:rec
func tagsSpec(t reflect.Type, n int) int {
	if n <= 0 {
		return 0
	}
	return tagsSpec(t, n-1) + v.Ite(taggedSpec(t, n-1), 1, 0)
}

//verif:property C17
//verif:covers every struct type, options, document and destination
func verif_C17_struct(t reflect.Type, opts Options, dst reflect.Value, src *html.Node, m int) {
	v.Requires(v.And(t != nil, src != nil))
	v.Requires(zzm.KindOf(t) == reflect.Struct)
	v.Requires(zzm.ValueType(dst) == t)
	num := zzm.NumFields(t)
	v.Requires(v.And(0 <= m, m < num))
	stubSelectorsSpec()
	scannersSpec()
	w := settersSpec(dst)
	v.Loop("Struct", func(j int, fields []field) {
		v.Inv("within", v.And(0 <= j, j <= num))
		v.Inv("one for each tagged field", len(fields) == tagsSpec(t, j))
		v.Inv("all are fine", v.Imp(v.And(m < j, taggedSpec(t, m)), fineSpec(t, m)))
		v.Inv("counted", v.And(tagsSpec(t, j) >= 0, v.Imp(v.And(m < j, taggedSpec(t, m)), v.And(tagsSpec(t, m) >= 0, tagsSpec(t, m) < tagsSpec(t, j)))))
		v.Inv("this field has its place", v.Imp(v.And(m < j, taggedSpec(t, m)), tagsSpec(t, m) < len(fields)))
		v.Inv("and only this field has it", v.Imp(v.And(m < j, taggedSpec(t, m)), v.ForallIn(0, len(fields), func(i int) bool { return (i == tagsSpec(t, m)) == (fields[i].index[0] == m) })))
		v.Inv("every scanner is for its field", v.ForallIn(0, len(fields), func(i int) bool {
			f := fields[i].scan
			no := fields[i].index[0]
			return v.And(v.And(len(fields[i].index) == 1, v.And(0 <= no, no < j)), v.And(f != nil, v.And(tagsSpec(t, no) == i, v.And(taggedSpec(t, no), v.And(scansTypeSpec(f) == zzm.FieldType(t, no),
				v.And(scansSelectedSpec(f), v.And(scansSelectorSpec(f) == cssSelSpec(t, no), scansAttrSpec(f) == cssAttrSpec(t, no))))))))
		}))
	})
	f, err := ScannerOf(t, opts)
	v.Ensures("C17: a struct without tags is an error", v.Imp(tagsSpec(t, num) == 0, err != nil))
	v.Ensures("C17: so is one with a field that cannot be scanned", v.Imp(v.And(taggedSpec(t, m), !fineSpec(t, m)), err != nil))
	if err != nil {
		v.Ensures("C17: an error comes without a scanner", f == nil)
		return
	}
	hits := 0
	var first error
	at := src
	if opts.Selector != nil {
		at = firstBelowSpec(selTextSpec(opts.Selector), src)
	}
	v.Stub("func:ant/internal/scan.ScanFunc", func(g ScanFunc, d reflect.Value, n *html.Node) error {
		i := zzm.FieldNo(d)
		v.Assert("C17: nothing is scanned after an error", first == nil)
		v.Assert("C17: a field of the destination is scanned", v.And(zzm.FieldOf(d) == zzm.ValueID(dst), v.And(0 <= i, i < num)))
		v.Assert("C17: only tagged exported fields are", taggedSpec(t, i))
		v.Assert("C17: by a scanner of its type", scansTypeSpec(g) == zzm.FieldType(t, i))
		v.Assert("C17: for its tag", v.And(scansSelectedSpec(g), v.And(scansSelectorSpec(g) == cssSelSpec(t, i), scansAttrSpec(g) == cssAttrSpec(t, i))))
		v.Assert("C17: below the node of the struct's own selector", v.And(n == at, n != nil))
		hits = v.Ite(i == m, hits+1, hits)
		first = v.Any[error]()
		return first
	})
	v.Loop("scan", func(k v.Iter) {
		v.Inv("each once so far", hits == v.Ite(v.And(taggedSpec(t, m), tagsSpec(t, m) < int(k)), 1, 0))
		v.Inv("no error", first == nil)
	})
	ferr := f(dst, src)
	v.Cover("scanned")
	v.Ensures("C17: the struct itself is not written", w.n == 0)
	v.Ensures("C17: a field's error is returned", v.Imp(first != nil, ferr == first))
	v.Ensures("C17: nothing else fails", v.Imp(first == nil, ferr == nil))
	v.Ensures("C17: every tagged exported field is scanned, once", v.Imp(v.And(ferr == nil, at != nil), hits == v.Ite(taggedSpec(t, m), 1, 0)))
}

package ant

import (
	"context"
	"encoding/json"
	"io"
	"reflect"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

// nextURLs are the page's URLs below a selector.
func nextURLsSpec(p *Page, sel string) v.Seq[*URL] { return v.UF[v.Seq[*URL]]("page.next", p, sel) }

// nexts is the concatenation of the URLs below the first n selectors.
//
//verif:rec
func nextsSpec(p *Page, q v.Seq[string], n int) v.Seq[*URL] {
	if n <= 0 {
		return v.EmptySeq[*URL]()
	}
	return nextsSpec(p, q, n-1).Concat(v.UF[v.Seq[*URL]]("page.next", p, q.At(n-1)))
}

//verif:property C19
//verif:covers every configured type, selectors and page, after an earlier page
func verif_C19_json(w io.Writer, t any, selectors []string, ctx context.Context, p, before *Page) {
	v.Requires(v.And(p != nil, before != nil))
	typ := zzm.DynType(t)
	if typ != nil {
		typ = v.Ite(zzm.KindOf(typ) == reflect.Ptr, zzm.ElemOf(typ), typ)
	}
	isStruct := v.And(typ != nil, zzm.KindOf(typ) == reflect.Struct)
	sels := v.SeqOf(selectors)

	var enc *json.Encoder
	v.Stub("encoding/json.NewEncoder", func(to io.Writer) *json.Encoder {
		v.Assert("C19: values are written to the writer, by one encoder", v.And(enc == nil, to == w))
		enc = v.AnyFresh[*json.Encoder]()
		v.Assume(enc != nil)
		return enc
	})
	last, made := v.Any[int](), 0 // the values made so far are numbered
	v.Stub("reflect.New", func(t reflect.Type) reflect.Value {
		v.Assert("C19: a value of the configured type is made", t == typ)
		last++
		made++
		r := zzm.ValueAt(last)
		pt := zzm.ValueType(r)
		v.Assume(v.And(pt != nil, v.And(zzm.KindOf(pt) == reflect.Ptr, v.And(zzm.ElemOf(pt) == t, !zzm.IsNilValue(r)))))
		return r
	})
	page := before
	var scanned any
	scans, encodes, all := 0, 0, 0
	var scanErr, encErr, nextErr error
	held := false
	v.Stub("(*ant.Page).Scan", func(q *Page, dst any) error {
		v.Assert("C19: the page is scanned, once", v.And(q == page, scans == 0))
		v.Assert("C19: into a fresh value", v.And(made == 1, zzm.ValueID(reflect.ValueOf(dst)) == last))
		scans++
		scanned = dst
		scanErr = v.Any[error]()
		return scanErr
	})
	v.Stub("(*encoding/json.Encoder).Encode", func(e *json.Encoder, x any) error {
		v.Assert("C19: no two encodings overlap", held)
		v.Assert("C19: the value is encoded once, after it was scanned", v.And(e == enc, v.And(scans == 1, v.And(scanErr == nil, encodes == 0))))
		id := zzm.ValueID(reflect.ValueOf(x))
		v.Assert("C19: the scanned value is encoded", v.Or(x == scanned, id == zzm.ValueID(zzm.Pointee(reflect.ValueOf(scanned)))))
		encodes++
		encErr = v.Any[error]()
		return encErr
	})
	v.Stub("(*ant.Page).Next", func(q *Page, sel string) (URLs, error) {
		v.Assert("C19: the page's URLs are asked for", q == page)
		err := v.Any[error]()
		nextErr = v.Ite(nextErr == nil, err, nextErr)
		us := v.Any[URLs]()
		v.Assume(v.Imp(err == nil, v.SeqOf(us).Eq(nextURLsSpec(q, sel))))
		return us, err
	})
	everything := v.Any[URLs]()
	v.Stub("(*ant.Page).URLs", func(q *Page) URLs {
		v.Assert("C19: the page's URLs are asked for", q == page)
		all++
		return everything
	})

	s := JSON(w, t, selectors...)
	j := s.(*jsonscraper)
	v.On("lock", &j.lock, func() {
		v.Assert("C19: the lock is not taken twice", !held)
		held = true
	})
	v.On("unlock", &j.lock, func() {
		v.Assert("C19: the lock is held when released", held)
		held = false
	})
	v.Loop("Scrape", func(k v.Iter, next URLs) {
		v.Inv("the URLs so far", v.SeqOf(next).Eq(nextsSpec(page, sels, int(k))))
		v.Inv("no error", nextErr == nil)
		v.Inv("encoded", v.And(encodes == 1, v.And(encErr == nil, v.And(scans == 1, v.And(scanErr == nil, !held)))))
	})
	again := v.Any[bool]()
	if again {
		s.Scrape(ctx, before)
		v.Ensures("C19: the lock is released", !held)
		scans, encodes, all, made = 0, 0, 0, 0
		scanErr, encErr, nextErr, scanned = nil, nil, nil, nil
	}
	page = p
	out, err := s.Scrape(ctx, p)
	v.Cover("scraped")
	v.Ensures("C19: the lock is released", !held)
	v.Ensures("C19: anything but a struct is an error", v.Imp(!isStruct, v.And(err != nil, v.And(scans == 0, encodes == 0))))
	v.Ensures("C19: a struct is scanned", v.Imp(isStruct, scans == 1))
	v.Ensures("C19: and if that succeeds, encoded", v.And(v.Imp(v.And(isStruct, scanErr == nil), encodes == 1), v.Imp(scanErr != nil, encodes == 0)))
	v.Ensures("C19: a scan failure is returned", v.Imp(scanErr != nil, err != nil))
	v.Ensures("C19: an encode failure is returned", v.Imp(encErr != nil, err != nil))
	v.Ensures("C19: no URLs with an error", v.Imp(err != nil, len(out) == 0))
	v.Ensures("C19: nothing else fails", v.Imp(v.And(isStruct, v.And(scanErr == nil, v.And(encErr == nil, nextErr == nil))), err == nil))
	v.Ensures("C19: without selectors, all of the page's URLs", v.Imp(v.And(err == nil, sels.Len() == 0), v.And(all == 1, v.SeqOf(out).Eq(v.SeqOf(everything)))))
	v.Ensures("C19: otherwise the URLs below each, in order", v.Imp(v.And(err == nil, sels.Len() > 0), v.SeqOf(out).Eq(nextsSpec(p, sels, sels.Len()))))
}

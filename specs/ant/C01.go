package ant

import (
	"context"
	"sync"

	"github.com/willf/bloom"
	v "github.com/yields/ant/internal/zzv"
)

// firstAt is the position of the first URL with the given string.
func firstAtSpec(s string) int { return v.UF[int]("first", s) }

// text is the URL's string; no URL changes (checked below), so it is a
// function of the URL.
func textSpec(u *URL) string { return v.UF[string]("text", u) }

// dedupeSpec checks what one call hands out against what it claimed; i and j
// are any two positions of the result.
func dedupeSpec(d Deduper, ctx context.Context, urls URLs, claims *v.Seq[string], known *v.GMap[string, bool], i, j int) {
	n := len(urls)
	v.Requires(v.ForallIn(0, n, func(k int) bool {
		return v.And(urls[k] != nil, v.And(0 <= firstAtSpec(textSpec(urls[k])), firstAtSpec(textSpec(urls[k])) <= k))
	}))
	v.Requires(v.And(0 <= i, i < j))
	given := v.SeqOf(urls)
	v.Stub("(*net/url.URL).String", func(u *URL) string { return textSpec(u) })
	v.Requires(v.Forall(func(s string) bool {
		return v.Imp(0 <= firstAtSpec(s), v.And(firstAtSpec(s) < n, v.And(given.At(firstAtSpec(s)) != nil, textSpec(given.At(firstAtSpec(s))) == s)))
	}))
	v.Loop("Dedupe", func(ret URLs, k v.Iter) {
		r := v.SeqOf(ret)
		v.Inv("claims are handed out", r.Len() == claims.Len())
		v.Inv("with their strings", v.Imp(i < r.Len(), v.And(r.At(i) != nil, textSpec(r.At(i)) == claims.At(i))))
		v.Inv("from the input", v.Imp(i < r.Len(), v.And(0 <= firstAtSpec(claims.At(i)), firstAtSpec(claims.At(i)) < int(k))))
		v.Inv("the first of its string", v.Imp(i < r.Len(), r.At(i) == given.At(firstAtSpec(claims.At(i)))))
		v.Inv("in order", v.Imp(j < r.Len(), firstAtSpec(claims.At(i)) < firstAtSpec(claims.At(j))))
		v.Inv("all so far are known", v.Forall(func(s string) bool {
			return v.Imp(v.And(0 <= firstAtSpec(s), firstAtSpec(s) < int(k)), known.Get(s))
		}))
		v.Inv("the input stays", v.SeqOf(urls).Eq(given))
	})
	out, err := d.Dedupe(ctx, urls)
	v.Ensures("no error", err == nil)
	v.Ensures("as many as were claimed are handed out", len(out) == claims.Len())
	v.Ensures("the caller's slice is untouched", v.SeqOf(urls).Eq(given))
	v.Ensures("every string given is known from now on", v.Imp(i < n, known.Get(textSpec(given.At(i)))))
	r := v.SeqOf(out)
	v.Ensures("those with the claimed strings", v.Imp(i < r.Len(), v.And(r.At(i) != nil, textSpec(r.At(i)) == claims.At(i))))
	v.Ensures("every URL handed out was given", v.Imp(i < r.Len(), v.And(v.And(0 <= firstAtSpec(claims.At(i)), firstAtSpec(claims.At(i)) < n), r.At(i) == given.At(firstAtSpec(claims.At(i))))))
	v.Ensures("in the given order", v.Imp(j < r.Len(), firstAtSpec(claims.At(i)) < firstAtSpec(claims.At(j))))
}

//verif:property C01
//verif:covers the map de-duplicator, with others claiming at any time
func verif_C01_map(ctx context.Context, urls URLs, i, j int) {
	d := DedupeMap()
	m := d.(*deduper).m
	claims := v.EmptySeq[string]()
	var known v.GMap[string, bool] // stored by this call, or seen stored
	// another call may store any string at any time
	see := func(s string) bool {
		exists := v.Or(known.Get(s), v.Any[bool]())
		return exists
	}
	v.Stub("(*sync.Map).LoadOrStore", func(p *sync.Map, k, x any) (any, bool) {
		s, ok := k.(string)
		v.Assert("claims go to the de-duplicator's map", v.And(p == m, ok))
		v.Assert("only given strings are stored", v.ExistsIn(0, len(urls), func(j int) bool { return textSpec(urls[j]) == s }))
		exists := see(s)
		known.Set(s, true)
		if !exists {
			claims = claims.Append(s) // nobody else ever claims it
		}
		return v.Any[any](), exists
	})
	v.Stub("(*sync.Map).Load", func(p *sync.Map, k any) (any, bool) {
		s, ok := k.(string)
		exists := see(s)
		known.Set(s, v.Or(known.Get(s), v.And(ok, exists)))
		return v.Any[any](), exists
	})
	v.Stub("(*sync.Map).Store", func(p *sync.Map, k, x any) {
		s, ok := k.(string)
		v.Assert("claims go to the de-duplicator's map", v.And(p == m, ok))
		v.Assert("only given strings are stored", v.ExistsIn(0, len(urls), func(j int) bool { return textSpec(urls[j]) == s }))
		known.Set(s, true)
	})
	v.Stub("(*sync.Map).Delete", func(p *sync.Map, k any) { v.Assert("nothing is forgotten", false) })
	dedupeSpec(d, ctx, urls, &claims, &known, i, j)
}

//verif:property C01
//verif:covers the bloom filter de-duplicator, with others claiming whenever its lock is free
func verif_C01_bloom(ctx context.Context, urls URLs, i, j int) {
	d := DedupeBF(v.Any[uint](), v.Any[uint]()).(*dedupebf)
	filter := d.filter
	claims := v.EmptySeq[string]()
	var known v.GMap[string, bool]  // added by this call, or seen added
	var absent v.GMap[string, bool] // tested in this critical section, and not there
	held := 0
	v.On("lock", &d.lock, func() {
		v.Assert("the lock is not taken twice", held == 0)
		held = 1
		absent.Clear()
	})
	v.On("unlock", &d.lock, func() {
		v.Assert("only a held lock is released", held == 1)
		held = 0
		absent.Clear()
	})
	test := func(f *bloom.BloomFilter, s string) bool {
		v.Assert("the filter is used under the lock only", v.And(held == 1, f == filter))
		is := v.Or(known.Get(s), v.And(!absent.Get(s), v.Any[bool]()))
		absent.Set(s, !is)
		known.Set(s, v.Or(is, known.Get(s)))
		return is
	}
	add := func(f *bloom.BloomFilter, s string) {
		v.Assert("the filter is used under the lock only", v.And(held == 1, f == filter))
		if absent.Get(s) {
			claims = claims.Append(s) // it was absent and is not any more
		}
		absent.Set(s, false)
		known.Set(s, true)
	}
	v.Stub("(*github.com/willf/bloom.BloomFilter).Test", func(f *bloom.BloomFilter, b []byte) bool { return test(f, string(b)) })
	v.Stub("(*github.com/willf/bloom.BloomFilter).TestString", func(f *bloom.BloomFilter, s string) bool { return test(f, s) })
	v.Stub("(*github.com/willf/bloom.BloomFilter).Add", func(f *bloom.BloomFilter, b []byte) *bloom.BloomFilter { add(f, string(b)); return f })
	v.Stub("(*github.com/willf/bloom.BloomFilter).AddString", func(f *bloom.BloomFilter, s string) *bloom.BloomFilter { add(f, s); return f })
	tadd := func(f *bloom.BloomFilter, s string) bool { is := test(f, s); add(f, s); return is }
	v.Stub("(*github.com/willf/bloom.BloomFilter).TestAndAdd", func(f *bloom.BloomFilter, b []byte) bool { return tadd(f, string(b)) })
	v.Stub("(*github.com/willf/bloom.BloomFilter).TestAndAddString", func(f *bloom.BloomFilter, s string) bool { return tadd(f, s) })
	v.Stub("(*github.com/willf/bloom.BloomFilter).ClearAll", func(f *bloom.BloomFilter) *bloom.BloomFilter {
		v.Assert("nothing is forgotten", false)
		return f
	})
	v.Loop("Dedupe", func() {
		v.Inv("the lock is held", held == 1)
	})
	v.Loop("Dedupe", func() {
		v.Inv("the lock is free", held == 0)
	})
	dedupeSpec(d, ctx, urls, &claims, &known, i, j)
	v.Ensures("the lock is released", held == 0)
}

package antcache

import (
	"net/http"
	"time"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

const centurySpec = 100 * 366 * 24 * 3600

// nearNow restricts dates to a century around now.
func nearNowSpec(t time.Time) {
	d := zzm.Nanos(zzm.Now(), t)
	v.Requires(v.And(-centurySpec*1000000000 <= d, d <= centurySpec*1000000000))
}

// varyEq tells whether the j-th nominated header is the same on both sides.
func varyEqSpec(a, b http.Header, items v.Seq[string], j int) bool {
	k := zzm.Canon(items.At(j))
	return v.Or(k == "", a.Get(k) == b.Get(k))
}

//verif:property C22
//verif:contract ant/antcache.matches
//verif:covers headers nominated by Vary
func contract_matches(req *http.Request, resp *http.Response) bool {
	v.Requires(v.And(req != nil, resp != nil))
	items := listOfSpec(req.Header.Get("Vary"))
	v.Loop("matches", func(k v.Iter) {
		v.Inv("nominated headers so far are equal", v.ForallIn(0, int(k), func(j int) bool {
			return varyEqSpec(req.Header, resp.Header, items, j)
		}))
	})
	ok := matches(req, resp)
	v.Ensures("they match exactly if all nominated headers are equal", ok == v.ForallIn(0, items.Len(), func(j int) bool {
		return varyEqSpec(req.Header, resp.Header, items, j)
	}))
	return ok
}

//verif:property C22
//verif:covers freshness under RFC 7234
func verif_C22_rfc7234(resp *http.Response) {
	req := resp.Request
	v.Requires(req != nil)
	d, hasDate := specDateSpec(resp.Header, "Date")
	exp, hasExp := specDateSpec(resp.Header, "Expires")
	nearNowSpec(d)
	nearNowSpec(exp)
	items := listOfSpec(req.Header.Get("Vary"))
	m := v.ForallIn(0, items.Len(), func(j int) bool { return varyEqSpec(req.Header, resp.Header, items, j) })
	got := rfc7234{}.fresh(resp)

	age := zzm.Nanos(zzm.Now(), d)
	life := v.Ite(hasExp, zzm.Nanos(exp, d), 0)
	n, ok := ccDurSpec(resp.Header, "max-age")
	life = v.Ite(ok, int(n), life)
	n, ok = ccDurSpec(req.Header, "max-age")
	life = v.Ite(ok, int(n), life)
	n, ok = ccDurSpec(req.Header, "min-fresh")
	age += v.Ite(ok, int(n), 0)
	n, msnum := ccDurSpec(req.Header, "max-stale")
	age -= v.Ite(msnum, int(n), 0)
	anystale := v.And(ccHasSpec(req.Header, "max-stale"), !msnum)
	reuse := v.And(v.And(!ccHasSpec(req.Header, "no-cache"), !ccHasSpec(resp.Header, "no-cache")),
		v.Or(ccHasSpec(req.Header, "only-if-cached"), v.And(hasDate, v.Or(anystale, life > age))))
	v.Ensures("differing Vary-nominated headers: not used", v.Imp(!m, got == transparent))
	v.Ensures("reused exactly when fresh", v.Imp(m, (got == fresh) == reuse))
	v.Ensures("otherwise validated", v.Imp(v.And(m, !reuse), got == stale))
}

//verif:property C22
//verif:covers freshness of the aggressive strategy
func verif_C22_aggressive(a aggressive, resp *http.Response) {
	req := resp.Request
	v.Requires(req != nil)
	d, hasDate := specDateSpec(resp.Header, "Date")
	nearNowSpec(d)
	got := a.fresh(resp)
	limit := v.Ite(int(a.age) <= 0, 24*3600*1000000000, int(a.age))
	reuse := v.And(v.And(hasDate, zzm.Nanos(zzm.Now(), d) < limit), !ccHasSpec(req.Header, "no-cache"))
	v.Ensures("reused exactly while younger than the age", (got == fresh) == reuse)
	v.Ensures("otherwise ignored", v.Imp(!reuse, got == transparent))
}

//verif:property C22
//verif:covers headers nominated by the stored response's Vary
func verif_C22_vary(resp *http.Response, name, was string) {
	// was is the header's value in the request that the response was stored for
	req := resp.Request
	v.Requires(req != nil)
	v.Requires(v.And(name != "", zzm.Canon(name) == name))
	v.Requires(v.And(resp.Header.Get("Vary") == name, req.Header.Get(name) != was))
	got := rfc7234{}.fresh(resp)
	v.Ensures("a response stored for a differing request is not used", got == transparent)
}

package antcache

import (
	"net/http"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

// storableBase is the part shared by both strategies.
func storableBaseSpec(resp *http.Response) bool {
	m, s := resp.Request.Method, resp.StatusCode
	status := v.Or(v.Or(v.Or(s == 200, s == 203), v.Or(s == 204, s == 206)),
		v.Or(v.Or(v.Or(s == 300, s == 301), v.Or(s == 404, s == 405)), v.Or(v.Or(s == 410, s == 414), s == 501)))
	_, dated := specDateSpec(resp.Header, "Date")
	return v.And(v.Or(m == "GET", m == "HEAD"), v.And(status, dated))
}

//verif:property C21
//verif:contract (ant/antcache.rfc7234).store
//verif:covers responses the RFC 7234 strategy stores
func contract_rfc7234_store(r rfc7234, resp *http.Response) bool {
	v.Requires(resp != nil && resp.Request != nil)
	ok := r.store(resp)
	d, _ := specDateSpec(resp.Header, "Date")
	e, hasExp := specDateSpec(resp.Header, "Expires")
	n, num := ccDurSpec(resp.Header, "max-age")
	life := v.Ite(num, n > 0, v.And(hasExp, zzm.Nanos(e, d) > 0))
	ns := v.Or(ccHasSpec(resp.Request.Header, "no-store"), ccHasSpec(resp.Header, "no-store"))
	v.Ensures("stored exactly when storable", ok == v.And(v.And(storableBaseSpec(resp), life), !ns))
	return ok
}

//verif:property C21
//verif:contract (ant/antcache.aggressive).store
//verif:covers responses the aggressive strategy stores
func contract_aggressive_store(a aggressive, resp *http.Response) bool {
	v.Requires(resp != nil && resp.Request != nil)
	ok := a.store(resp)
	v.Ensures("method, status and date decide", ok == storableBaseSpec(resp))
	return ok
}

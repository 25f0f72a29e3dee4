package antcache

import (
	"net/http"
	"time"

	"github.com/spaolacci/murmur3"
	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

// specItems are the first n comma-separated items, trimmed, lower-cased,
// without empty ones.
//
//verif:rec
func specItemsSpec(q v.Seq[string], n int) v.Seq[string] {
	if n <= 0 {
		return v.EmptySeq[string]()
	}
	t := zzm.TrimSpace(q.At(n - 1))
	if t == "" {
		return specItemsSpec(q, n-1)
	}
	return specItemsSpec(q, n-1).Append(zzm.ToLower(t))
}

func specKeySpec(item string) string {
	if j := v.StrIndex(item, "=", 0); j >= 0 {
		return item[:j]
	}
	return item
}

func specValSpec(item string) string {
	if j := v.StrIndex(item, "=", 0); j >= 0 {
		return item[j+1:]
	}
	return ""
}

// specHas tells whether one of the first n items has the key.
//
//verif:rec
func specHasSpec(q v.Seq[string], n int, key string) bool {
	if n <= 0 {
		return false
	}
	return specKeySpec(q.At(n-1)) == key || specHasSpec(q, n-1, key)
}

// specGet is the value of the last of the first n items with the key.
//
//verif:rec
func specGetSpec(q v.Seq[string], n int, key string) string {
	if n <= 0 {
		return ""
	}
	if specKeySpec(q.At(n-1)) == key {
		return specValSpec(q.At(n - 1))
	}
	return specGetSpec(q, n-1, key)
}

// listOf are the items of a comma-separated header value.
func listOfSpec(s string) v.Seq[string] { return listSepSpec(s, ",") }

func listSepSpec(s, sep string) v.Seq[string] {
	q := zzm.SplitSeq(s, sep)
	return specItemsSpec(q, q.Len())
}

// cc is the Cache-Control header.
func ccSpec(h http.Header) v.Seq[string] { return listOfSpec(h.Get("Cache-Control")) }

// ccHas tells whether Cache-Control has the directive.
func ccHasSpec(h http.Header, key string) bool {
	q := ccSpec(h)
	return specHasSpec(q, q.Len(), key)
}

// ccGet is the directive's value.
func ccGetSpec(h http.Header, key string) string {
	q := ccSpec(h)
	return specGetSpec(q, q.Len(), key)
}

// ccDur is the directive's duration.
func ccDurSpec(h http.Header, key string) (d time.Duration, ok bool) {
	val := ccGetSpec(h, key)
	return durOfSpec(val), v.And(ccHasSpec(h, key), zzm.IsNum(val, 10))
}

// durOf is the number of seconds, capped to 32 bits.
func durOfSpec(val string) time.Duration {
	n := zzm.NumOf(val, 10)
	n = v.Ite(n > 1<<31-1, 1<<31-1, v.Ite(n < -1<<31, -1<<31, n))
	return time.Duration(n) * time.Second
}

//verif:property C23
//verif:contract (ant/antcache.directives).duration
//verif:covers a directive's duration
func contract_duration(d directives, name string) (time.Duration, bool) {
	td, ok := d.duration(name)
	val, has := d[name]
	v.Ensures("a duration exists exactly for a present number", ok == v.And(has, zzm.IsNum(val, 10)))
	v.Ensures("the number of seconds, capped", v.Imp(ok, td == durOfSpec(val)))
	return td, ok
}

//verif:property C22
//verif:contract ant/antcache.date
//verif:covers the Date header
func contract_date(h http.Header) (time.Time, bool) {
	t, ok := date(h)
	w, has := specDateSpec(h, "Date")
	v.Ensures("there is a date exactly if the header holds one", ok == has)
	v.Ensures("the date is the header's", v.Imp(ok, t == w))
	return t, ok
}

//verif:property C22
//verif:contract ant/antcache.expires
//verif:covers the Expires header
func contract_expires(h http.Header) (time.Time, bool) {
	t, ok := expires(h)
	w, has := specDateSpec(h, "Expires")
	v.Ensures("there is an expiry exactly if the header holds one", ok == has)
	v.Ensures("the expiry is the header's", v.Imp(ok, t == w))
	return t, ok
}

// specDate is the header's date.
func specDateSpec(h http.Header, key string) (time.Time, bool) {
	s := h.Get(key)
	t, ok := zzm.ParsedTime(time.RFC1123, s)
	return t, v.And(v.And(s != "", ok), !t.IsZero())
}

//verif:property C23
//verif:contract ant/antcache.split
//verif:covers splitting into trimmed, lower-cased, non-empty items
func contract_split(str, sep string) []string {
	q := zzm.SplitSeq(str, sep)
	v.Loop("split", func(ret []string, k v.Iter) {
		v.Inv("split so far", v.SeqOf(ret).Eq(specItemsSpec(q, int(k))))
	})
	ret := split(str, sep)
	v.Ensures("the items in order, trimmed and lower-cased, without empty ones", v.SeqOf(ret).Eq(listSepSpec(str, sep)))
	return ret
}

//verif:property C23
//verif:contract ant/antcache.directivesFrom
//verif:covers Cache-Control parsing, for every directive name
func contract_directivesFrom(h http.Header, name string) directives {
	c := h.Get("Cache-Control")
	items := listOfSpec(c)
	v.Loop("directivesFrom", func(d directives, k v.Iter) {
		val, ok := d[name]
		v.Inv("keys so far", ok == specHasSpec(items, int(k), name))
		v.Inv("values so far", val == specGetSpec(items, int(k), name))
		v.Inv("none without items", (d == nil) == (k == 0))
	})
	d := directivesFrom(h)
	n := items.Len()
	val, ok := d[name]
	v.Ensures("the directives are the keys of the items", ok == specHasSpec(items, n, name))
	v.Ensures("the value is the last item's", val == specGetSpec(items, n, name))
	v.Ensures("no items, no directives", (d == nil) == (n == 0))
	v.Ensures("the header is unchanged", h.Get("Cache-Control") == c)
	return d
}

// reqKey is the key of a request: the hash of its method and URL.
func reqKeySpec(req *http.Request) uint64 {
	return murmur3.Sum64([]byte(req.Method + ":" + req.URL.String()))
}

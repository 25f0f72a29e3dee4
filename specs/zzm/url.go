package zzm

import (
	"errors"
	"net/url"

	v "github.com/yields/ant/internal/zzv"
)

// URLString is the string form of a URL.
func URLString(u *url.URL) string { return v.UF[string]("url.String", *u) }

//verif:model (*net/url.URL).String
func urlString(u *url.URL) string { return URLString(u) }

//verif:model github.com/spaolacci/murmur3.Sum64
func murmur(b []byte) uint64 { return v.UF[uint64]("murmur3", string(b)) }

// ParsedURL is the meaning of url.Parse.
func ParsedURL(s string) (url.URL, bool) {
	return v.UF[url.URL]("url.Parse", s), v.UF[bool]("url.Parse.ok", s)
}

//verif:model net/url.Parse
func urlParse(s string) (*url.URL, error) {
	u, ok := ParsedURL(s)
	if !ok {
		return nil, &url.Error{Op: "parse", URL: s, Err: errors.New("parse")}
	}
	r := new(url.URL)
	*r = u
	return r, nil
}

// Resolved is the meaning of ResolveReference.
func Resolved(base, ref url.URL) url.URL {
	r := v.UF[url.URL]("url.Resolve", base, ref)
	v.Assume(r.Scheme == v.Ite(ref.Scheme != "", ref.Scheme, base.Scheme))
	return r
}

//verif:model (*net/url.URL).ResolveReference
func urlResolve(u, ref *url.URL) *url.URL {
	r := new(url.URL)
	*r = Resolved(*u, *ref)
	return r
}

//verif:model (*net/url.URL).Parse
func urlParseRef(u *url.URL, s string) (*url.URL, error) {
	ref, err := urlParse(s)
	if err != nil {
		return nil, err
	}
	return urlResolve(u, ref), nil
}

//verif:model (*net/url.URL).IsAbs
func urlIsAbs(u *url.URL) bool { return u.Scheme != "" }

//verif:model (*net/url.URL).Port
func urlPort(u *url.URL) string { return v.UF[string]("url.Port", u.Host) }

//verif:model (*net/url.URL).Hostname
func urlHostname(u *url.URL) string { return v.UF[string]("url.Hostname", u.Host) }

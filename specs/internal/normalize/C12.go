package normalize

import (
	"net/url"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
)

// lowerHost is any lower-case host: a name without colons or an IPv6 literal,
// and a port perhaps.
func lowerHostSpec(u *url.URL, name, port string, literal, ported bool) (host string) {
	v.Requires(v.And(!v.StrContains(name, "]"), !v.StrContains(port, "]")))
	v.Requires(v.Or(literal, !v.StrContains(name, ":")))
	v.Split(literal)
	v.Split(ported)
	h := zzm.ToLower(u.Host)
	host = name
	if literal {
		host = name + "]"
	}
	want := host
	if ported {
		want = host + ":" + port
	}
	v.Requires(h == want)
	if literal {
		v.Assert("lemma: where the literal ends", v.StrIndex(h, "]", 0) == len(name))
		rest := h[len(name)+1:]
		v.Assert("lemma: what follows it", rest == v.Ite(ported, ":"+port, ""))
		if ported {
			v.Assert("lemma: a colon", v.StrIndex(rest, ":", 0) == 0)
		}
	} else {
		v.Assert("lemma: no literal", v.And(!v.StrContains(h, "]"), v.StrIndex(h, "]", 0) == -1))
		if ported {
			v.Assert("lemma: where the port begins", v.StrIndex(h, ":", 0) == len(name))
		}
	}
	if ported {
		v.Assert("lemma: the port", h[len(host)+1:] == port)
	}
	v.Assert("lemma: the name", h[:len(host)] == host)
	zzm.LowerPart(h, host)
	return host
}

//verif:property C12
//verif:covers every URL
func verif_C12_canonical(u *url.URL, name, port string, literal, ported bool) {
	v.Requires(u != nil)
	old := *u
	v.Requires(old.Host != "")
	host := lowerHostSpec(u, name, port, literal, ported)
	scheme := zzm.ToLower(old.Scheme)
	parts := zzm.SplitSeq(old.RawQuery, "&")
	zzm.SortedFacts(parts, "&")
	want := zzm.JoinSeq(zzm.Sorted(parts), "&")
	user := old.User
	r := URL(u)
	v.Cover("normalised")
	v.Ensures("C12: the URL itself is normalised", r == u)
	v.Ensures("C12: the scheme is in lower case", u.Scheme == scheme)
	def := v.And(ported, v.Or(v.And(scheme == "http", port == "80"), v.And(scheme == "https", port == "443")))
	v.Ensures("C12: the default port is dropped", v.Imp(def, u.Host == host))
	v.Ensures("C12: any other port stays", v.Imp(v.And(ported, !def), u.Host == host+":"+port))
	v.Ensures("C12: the host is in lower case", v.Imp(!ported, u.Host == host))
	v.Ensures("C12: the path is absolute without dot segments", v.And(u.Path == zzm.AbsClean(old.Path), u.RawPath == ""))
	v.Ensures("C12: the parameters are sorted", v.Imp(old.RawQuery != "", u.RawQuery == want))
	v.Ensures("C12: an empty query is dropped", v.And(v.Imp(old.RawQuery == "", u.RawQuery == ""), !u.ForceQuery))
	v.Ensures("C12: the fragment is dropped", u.Fragment == "")
	v.Ensures("C12: the user info stays", u.User == user)
	v.Ensures("C12: everything else stays", v.And(u.Opaque == old.Opaque, u.OmitHost == old.OmitHost))
}

//verif:property C12
//verif:covers normalising twice
func verif_C12_twice(u *url.URL, name, port string, literal, ported bool) {
	v.Requires(u != nil)
	old := *u
	host := lowerHostSpec(u, name, port, literal, ported)
	zzm.SortedFacts(zzm.SplitSeq(old.RawQuery, "&"), "&")
	URL(u)
	once := *u
	v.Assert("lemma: the host", v.Or(u.Host == host, v.And(ported, u.Host == host+":"+port)))
	if u.Host == host {
		v.Assert("lemma: the host's end", v.Ite(literal, v.StrIndex(host, "]", 0) == len(host)-1, !v.StrContains(host, ":") && v.StrIndex(host, "]", 0) == -1))
	}
	w := new(url.URL)
	*w = once
	URL(w)
	v.Ensures("C12: twice normalised, the host is the same", w.Host == once.Host)
	v.Ensures("C12: twice normalised, the path is the same", v.And(w.Path == once.Path, w.RawPath == once.RawPath))
	v.Ensures("C12: twice normalised, the query is the same", v.And(w.RawQuery == once.RawQuery, w.ForceQuery == once.ForceQuery))
	v.Ensures("C12: twice normalised, the scheme and user are the same", v.And(w.Scheme == once.Scheme, w.User == once.User))
	v.Ensures("C12: twice normalised, the fragment is the same", w.Fragment == once.Fragment)
}

//verif:property C12
//verif:covers every text
func verif_C12_raw(s string) {
	u, ok := zzm.ParsedURL(s)
	got, err := RawURL(s)
	if ok {
		w := new(url.URL)
		*w = u
		URL(w)
		v.Ensures("C12: a raw URL is parsed, normalised and printed", v.And(err == nil, got == zzm.URLString(w)))
	} else {
		v.Ensures("C12: what is no URL is an error", v.And(err != nil, got == ""))
	}
}

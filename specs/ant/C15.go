package ant

import (
	"io"
	"net/url"

	"github.com/yields/ant/internal/scan"
	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
	"golang.org/x/net/html"
)

func hrefOfSpec(n *html.Node) (string, bool) {
	return v.UF[string]("attr.val", n, "href"), v.UF[bool]("attr.has", n, "href")
}

// linkScheme is the scheme of the node's link once resolved, "" if none.
func linkSchemeSpec(n *html.Node, base string) string {
	s, has := hrefOfSpec(n)
	u, ok := zzm.ParsedURL(s)
	return v.Ite(v.And(has, ok), v.Ite(u.Scheme != "", u.Scheme, base), "")
}

func isLinkSpec(n *html.Node, base string) bool {
	s := linkSchemeSpec(n, base)
	return v.Or(s == "http", s == "https")
}

// links is the number of links among the first n nodes.
//
//verif:rec
func linksSpec(q v.Seq[*html.Node], base string, n int) int {
	if n <= 0 {
		return 0
	}
	return linksSpec(q, base, n-1) + v.Ite(isLinkSpec(q.At(n-1), base), 1, 0)
}

// linkIs tells whether u is the node's link resolved against the base.
func linkIsSpec(u *URL, n *html.Node, base url.URL) bool {
	s, _ := hrefOfSpec(n)
	p, _ := zzm.ParsedURL(s)
	return v.Or(v.Same(*u, zzm.Resolved(base, p)), v.And(p.Scheme != "", v.Same(*u, p)))
}

// pageStubs gives the page a parsed document or an error.
func pageStubsSpec(p *Page, body io.ReadCloser, root *html.Node, perr error, parses, drains, closes *int) {
	v.Stub("golang.org/x/net/html.Parse", func(r io.Reader) (*html.Node, error) {
		v.Assert("the body is parsed once, before it is closed", v.And(*parses == 0, v.And(*closes == 0, r == io.Reader(body))))
		*parses++
		return v.Ite(perr == nil, root, nil), perr
	})
	v.Stub("ant/internal/zzm.Drain", func(r io.Reader) (int64, error) {
		v.Assert("the body is drained after it was parsed, before it is closed", v.And(*parses == 1, v.And(*closes == 0, r == io.Reader(body))))
		*drains++
		return v.Any[int64](), v.Any[error]()
	})
	v.Stub("(io.ReadCloser).Close", func(rc io.ReadCloser) error {
		v.Assert("the body is closed once, after it was drained", v.And(*closes == 0, v.And(*drains > 0, rc == body)))
		*closes++
		return v.Any[error]()
	})
	v.Stub("ant/internal/scan.Attr", func(n *html.Node, key string) (string, bool) {
		return v.UF[string]("attr.val", n, key), v.UF[bool]("attr.has", n, key)
	})
}

//verif:property C15
//verif:covers the links of any page under any selector
func verif_C15_links(p *Page, selector string, next bool, j int, perr error) {
	v.Requires(v.And(p != nil, v.And(p.URL != nil, p.body != nil)))
	v.Requires(v.And(!zzm.OnceDone(&p.once), v.And(p.err == nil, p.root == nil)))
	body := p.body
	base := *p.URL
	v.Requires(v.Or(base.Scheme == "http", base.Scheme == "https"))
	root := v.Any[*html.Node]()
	v.Assume(root != nil)
	parses, drains, closes := 0, 0, 0
	pageStubsSpec(p, body, root, perr, &parses, &drains, &closes)
	stubSelectorsSpec()
	sel := v.Ite(next, selector, "a[href]")
	v.Requires(selectorValidSpec("a[href]"))
	q := v.Any[v.Seq[*html.Node]]()
	v.Assume(q.Eq(v.Ite(v.And(perr == nil, selectorValidSpec(sel)), matchesBelowSpec(sel, root), v.EmptySeq[*html.Node]())))
	v.Requires(v.ForallIn(0, q.Len(), func(k int) bool { return q.At(k) != nil }))
	v.Requires(v.And(0 <= j, j < q.Len()))
	at := linksSpec(q, base.Scheme, j)
	v.Loop("Page).resolve", func(ret URLs, k v.Iter) {
		r := v.SeqOf(ret)
		v.Inv("one for each link", len(ret) == linksSpec(q, base.Scheme, int(k)))
		v.Inv("this node has its place", v.Imp(v.And(j < int(k), isLinkSpec(q.At(j), base.Scheme)), v.And(0 <= at, at < len(ret))))
		v.Inv("and its link there", v.Imp(v.And(j < int(k), v.And(isLinkSpec(q.At(j), base.Scheme), v.And(0 <= at, at < len(ret)))), r.At(at) != nil && linkIsSpec(r.At(at), q.At(j), base)))
	})
	var out URLs
	var err error
	if next {
		out, err = p.Next(selector)
	} else {
		out = p.URLs()
	}
	v.Ensures("no error is invented", v.Imp(perr == nil, err == nil))
	v.Ensures("one URL for each link", len(out) == linksSpec(q, base.Scheme, q.Len()))
	v.Ensures("the page's URL stays", v.Same(*p.URL, base))
	r := v.SeqOf(out)
	if isLinkSpec(q.At(j), base.Scheme) {
		v.Ensures("every link has its place in document order", v.And(0 <= at, at < len(out)))
		v.Ensures("and is resolved against the page", v.And(r.At(at) != nil, linkIsSpec(r.At(at), q.At(j), base)))
		v.Ensures("and absolute", v.Or(r.At(at).Scheme == "http", r.At(at).Scheme == "https"))
	}
}

//verif:property C15
//verif:covers any sequence of calls on a page
func verif_C15_history(p *Page, calls int, selector string, dst any, perr error) {
	v.Requires(v.And(p != nil, v.And(p.URL != nil, p.body != nil)))
	v.Requires(v.And(!zzm.OnceDone(&p.once), v.And(p.err == nil, p.root == nil)))
	v.Requires(v.And(calls >= 0, selectorValidSpec("a[href]")))
	body := p.body
	root := v.Any[*html.Node]()
	v.Assume(root != nil)
	parses, drains, closes := 0, 0, 0
	pageStubsSpec(p, body, root, perr, &parses, &drains, &closes)
	stubSelectorsSpec()
	v.Stub("ant/internal/scan.Text", func(n *html.Node) string { return textOfSpec(n) })
	v.Stub("(*ant/internal/scan.Scanner).Scan", func(s *scan.Scanner, d any, n *html.Node, o scan.Options) error {
		v.Assert("the document is scanned", v.And(n == root, parses == 1))
		return v.Any[error]()
	})
	v.Stub("golang.org/x/net/html.Render", func(w io.Writer, n *html.Node) error {
		v.Assert("the document is rendered", v.And(n == root, parses == 1))
		return v.Any[error]()
	})
	held := 0
	v.On("lock", &p.once, func() { held = 1 })
	v.On("unlock", &p.once, func() { held = 0 })
	v.Guard("the parsed document is written by the one parse only", &p.root, func() bool { return zzm.OnceDone(&p.once) }, func() bool { return held == 1 })
	v.Guard("the parse error is written by the one parse only", &p.err, func() bool { return zzm.OnceDone(&p.once) }, func() bool { return held == 1 })
	v.Loop("verif_C15_history", func(k v.Iter) {
		v.Inv("parsed once at most", v.And(0 <= parses, parses <= 1))
		v.Inv("and then closed", v.And(closes == parses, held == 0))
		v.Inv("and drained", v.And(drains >= 0, v.Imp(closes == 1, drains > 0)))
		v.Inv("the outcome is remembered", zzm.OnceDone(&p.once) == (parses == 1))
		v.Inv("as root or error", v.Imp(parses == 1, v.And((p.err == nil) == (perr == nil), v.Imp(perr == nil, p.root == root))))
		v.Inv("nothing before", v.Imp(parses == 0, v.And(p.err == nil, p.root == nil)))
		v.Inv("the page stays", v.And(p.URL != nil, p.body == body))
	})
	for i := 0; i < calls; i++ {
		switch v.Any[int]() {
		case 0:
			d, err := p.Document()
			v.Ensures("the document or the parse error", v.And((err == nil) == (perr == nil), v.Imp(err == nil, d == root)))
		case 1:
			_, err := p.HTML()
			v.Ensures("no HTML of an unparsed page", v.Imp(perr != nil, err != nil))
		case 2:
			err := p.Scan(dst)
			v.Ensures("no scan of an unparsed page", v.Imp(perr != nil, err != nil))
		case 3:
			l := p.Query(selector)
			v.Ensures("what matches below the document", v.Imp(v.And(perr == nil, selectorValidSpec(selector)), v.SeqOf(l).Eq(matchesBelowSpec(selector, root))))
			v.Ensures("nothing matches otherwise", v.Imp(v.Or(perr != nil, !selectorValidSpec(selector)), len(l) == 0))
		}
		v.Ensures("parsed once, drained and closed", v.Imp(parses == 1, v.And(drains > 0, closes == 1)))
	}
}

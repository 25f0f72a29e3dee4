package ant

import (
	"strings"

	"github.com/yields/ant/internal/scan"
	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
	"golang.org/x/net/html"
)

// listText is the concatenation of the first n nodes' texts.
//
//verif:rec
func listTextSpec(q v.Seq[*html.Node], n int) string {
	if n <= 0 {
		return ""
	}
	return listTextSpec(q, n-1) + textOfSpec(q.At(n-1))
}

// listMatches is the concatenation of the matches below the first n nodes.
//
//verif:rec
func listMatchesSpec(sel string, q v.Seq[*html.Node], n int) v.Seq[*html.Node] {
	if n <= 0 {
		return v.EmptySeq[*html.Node]()
	}
	return listMatchesSpec(sel, q, n-1).Concat(matchesBelowSpec(sel, q.At(n-1)))
}

//verif:property C16
//verif:covers every list and selector
func verif_C16_query(l List, selector string) {
	stubSelectorsSpec()
	given := v.SeqOf(l)
	v.Loop("Query", func(ret List, k v.Iter) {
		v.Inv("the matches so far", v.SeqOf(ret).Eq(listMatchesSpec(selector, given, int(k))))
		v.Inv("the list stays", v.SeqOf(l).Eq(given))
	})
	r := l.Query(selector)
	ok := selectorValidSpec(selector)
	v.Ensures("the concatenation of the matches below each node", v.Imp(ok, v.SeqOf(r).Eq(listMatchesSpec(selector, given, len(l)))))
	v.Ensures("an invalid selector selects nothing", v.Imp(!ok, len(r) == 0))
	v.Ensures("the list is not modified", v.SeqOf(l).Eq(given))
}

//verif:property C16
//verif:covers every list, selector and position
func verif_C16_is(l List, selector string, i int) {
	stubSelectorsSpec()
	given := v.SeqOf(l)
	v.Loop("Is", func(k v.Iter) {
		v.Inv("none so far", v.ForallIn(0, int(k), func(i int) bool { return !nodeMatchesSpec(selector, given.At(i)) }))
		v.Inv("the list stays", v.SeqOf(l).Eq(given))
	})
	v.Loop("Is", func(matched bool) {
		v.Inv("not found yet", !matched)
	})
	is := l.Is(selector)
	ok := selectorValidSpec(selector)
	v.Ensures("Is if the selector is valid and some node matches", v.Imp(v.And(ok, v.And(v.And(0 <= i, i < len(l)), nodeMatchesSpec(selector, given.At(i)))), is))
	v.Ensures("and only then", v.Imp(is, v.And(ok, v.ExistsIn(0, len(l), func(i int) bool { return nodeMatchesSpec(selector, given.At(i)) }))))
	v.Ensures("the list is not modified", v.SeqOf(l).Eq(given))
}

//verif:property C16
//verif:covers every list and index
func verif_C16_at(l List, i int) {
	given := v.SeqOf(l)
	n := len(l)
	j := v.Ite(i < 0, n+i, i)
	in := v.And(0 <= j, j < n)
	r := l.At(i)
	v.Ensures("an index in range gives that node", v.Imp(in, v.And(len(r) == 1, v.SeqOf(r).At(0) == given.At(j))))
	v.Ensures("one out of range gives the empty list", v.Imp(!in, len(r) == 0))
	v.Ensures("the list is not modified", v.SeqOf(l).Eq(given))
}

//verif:property C16
//verif:covers every list
func verif_C16_text(l List) {
	v.Stub("ant/internal/scan.Text", func(n *html.Node) string { return textOfSpec(n) })
	given := v.SeqOf(l)
	v.Loop("Text", func(b strings.Builder, k v.Iter) {
		v.Inv("the texts so far", zzm.Built(&b) == listTextSpec(given, int(k)))
		v.Inv("the list stays", v.SeqOf(l).Eq(given))
	})
	s := l.Text()
	v.Ensures("the concatenation of the nodes' texts", s == listTextSpec(given, len(l)))
	v.Ensures("the list is not modified", v.SeqOf(l).Eq(given))
}

//verif:property C16
//verif:covers every list and key
func verif_C16_attr(l List, key string) {
	v.Stub("ant/internal/scan.Attr", func(n *html.Node, key string) (string, bool) {
		return v.UF[string]("attr.val", n, key), v.UF[bool]("attr.has", n, key)
	})
	given := v.SeqOf(l)
	s, ok := l.Attr(key)
	n := given.At(0)
	v.Ensures("the first node's attribute", v.Imp(len(l) > 0, v.And(s == v.UF[string]("attr.val", n, key), ok == v.UF[bool]("attr.has", n, key))))
	v.Ensures("nothing without nodes", v.Imp(len(l) == 0, v.And(s == "", !ok)))
	v.Ensures("the list is not modified", v.SeqOf(l).Eq(given))
}

//verif:property C16
//verif:covers every list and destination
func verif_C16_scan(l List, dst any) {
	given := v.SeqOf(l)
	scans := 0
	var serr error
	v.Stub("(*ant/internal/scan.Scanner).Scan", func(s *scan.Scanner, d any, n *html.Node, o scan.Options) error {
		v.Assert("only the first node is scanned, once", v.And(scans == 0, v.And(given.Len() > 0, n == given.At(0))))
		v.Assert("into the destination", v.Same(d, dst))
		v.Assert("without options", v.Same(o, scan.Options{}))
		scans++
		serr = v.Any[error]()
		return serr
	})
	err := l.Scan(dst)
	v.Ensures("the first node is scanned", v.Imp(len(l) > 0, v.And(scans == 1, err == serr)))
	v.Ensures("nothing without nodes", v.Imp(len(l) == 0, v.And(scans == 0, err == nil)))
	v.Ensures("the list is not modified", v.SeqOf(l).Eq(given))
}

package scan

import (
	"strings"

	"github.com/yields/ant/internal/zzm"
	v "github.com/yields/ant/internal/zzv"
	"golang.org/x/net/html"
)

//verif:property C16 C15
//verif:covers every node and key
func verif_C16_nodeattr(n *html.Node, key string) {
	h := v.Heap()
	v.Loop("Attr", func(k v.Iter) {
		v.Inv("not found so far", v.ForallIn(0, int(k), func(j int) bool { return n.Attr[j].Key != key }))
	})
	val, ok := Attr(n, key)
	if n == nil {
		v.Ensures("a nil node has no attributes", v.And(!ok, val == ""))
		return
	}
	v.Ensures("an attribute with the key is found", v.Imp(ok, v.ExistsIn(0, len(n.Attr), func(j int) bool {
		return v.And(n.Attr[j].Key == key, v.And(n.Attr[j].Val == val, v.ForallIn(0, j, func(m int) bool { return n.Attr[m].Key != key })))
	})))
	v.Ensures("and only if there is none it is not", v.Imp(!ok, v.And(val == "", v.ForallIn(0, len(n.Attr), func(j int) bool { return n.Attr[j].Key != key }))))
	v.Ensures("the node is not modified", v.Same(*n, v.At(h, func() html.Node { return *n })))
}

func textOfSpec(n *html.Node) string { return v.UF[string]("node.text", n) }

// kidsText is the text of the node and its following siblings.
func kidsTextSpec(n *html.Node) string { return v.UF[string]("node.kids", n) }

//verif:property C16
//verif:covers every node tree
func verif_C16_nodetext(n, other *html.Node) {
	// what the texts are: this defines them on every finite tree
	v.Requires(v.Forall(func(m *html.Node) bool {
		return v.Imp(m != nil, m != nil && textOfSpec(m) == v.Ite(m.Type == html.TextNode, m.Data, kidsTextSpec(m.FirstChild)))
	}))
	v.Requires(v.Forall(func(m *html.Node) bool {
		return v.Imp(m != nil, m != nil && kidsTextSpec(m) == v.Ite(m.Type == html.TextNode, m.Data, v.Ite(m.Type == html.ElementNode, textOfSpec(m), ""))+kidsTextSpec(m.NextSibling))
	}))
	v.Requires(v.And(textOfSpec(nil) == "", kidsTextSpec(nil) == ""))
	v.Requires(other != nil)
	h := v.Heap()
	all := textOfSpec(n)
	// by induction over the tree
	v.Recursive("ant/internal/scan.Text", func(m *html.Node) string {
		v.Assert("no node has been modified", v.Same(*other, v.At(h, func() html.Node { return *other })))
		return textOfSpec(m)
	})
	v.Loop("Text", func(b strings.Builder, n *html.Node) {
		v.Inv("what is left completes the text", zzm.Built(&b)+kidsTextSpec(n) == all)
	})
	s := Text(n)
	v.Ensures("the text is that of the text nodes below", s == all)
	v.Ensures("no node is modified", v.Same(*other, v.At(h, func() html.Node { return *other })))
}

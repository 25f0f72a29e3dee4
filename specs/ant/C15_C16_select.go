package ant

import (
	"errors"

	"github.com/andybalholm/cascadia"
	v "github.com/yields/ant/internal/zzv"
	"golang.org/x/net/html"
)

// Selectors and nodes: a selector is a function of its text; which nodes it
// matches is a function of its text and the node.

func textOfSpec(n *html.Node) string                { return v.UF[string]("node.text", n) }
func selectorValidSpec(sel string) bool             { return v.UF[bool]("selector.valid", sel) }
func nodeMatchesSpec(sel string, n *html.Node) bool { return v.UF[bool]("selector.matches", sel, n) }
func selTextSpec(s cascadia.Selector) string        { return v.UF[string]("selector.text", s) }
func matchesBelowSpec(sel string, n *html.Node) v.Seq[*html.Node] {
	return v.UF[v.Seq[*html.Node]]("selector.all", sel, n)
}

var errSelectorSpec = errors.New("bad selector")

// stubSelectors gives selectors their meaning; compiling them is C18's.
func stubSelectorsSpec() {
	v.Stub("ant/internal/selectors.Compile", func(sel string) (cascadia.Selector, error) {
		if !selectorValidSpec(sel) {
			return nil, errSelectorSpec
		}
		s := v.Any[cascadia.Selector]()
		v.Assume(v.And(s != nil, selTextSpec(s) == sel))
		return s, nil
	})
	v.Stub("(github.com/andybalholm/cascadia.Selector).MatchAll", func(s cascadia.Selector, n *html.Node) []*html.Node {
		r := v.AnyFresh[[]*html.Node]()
		v.Assume(v.SeqOf(r).Eq(matchesBelowSpec(selTextSpec(s), n)))
		return r
	})
	v.Stub("(github.com/andybalholm/cascadia.Selector).Match", func(s cascadia.Selector, n *html.Node) bool {
		return nodeMatchesSpec(selTextSpec(s), n)
	})
}

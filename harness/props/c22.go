package props

import (
	"fmt"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/collapse"
	xhtml "golang.org/x/net/html"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C22", Quick: 1000000, Thorough: 8000000, Run: collapsing,
		Rule: "a tree with at least three texts with white space and at least one element that separates or keeps"})
}

type domSets struct{ block, void, pre map[string]bool }

func set(ns ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range ns {
		m[n] = true
	}
	return m
}

// what is a block, or void, in HTML
var htmlBlocks = strings.Fields("address article aside blockquote center dd dir dl dt fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 header hgroup hr main menu nav ol section table tbody td tfoot th thead tr ul pre p div li")
var htmlVoids = strings.Fields("area base br col embed hr img input link meta param track wbr")

var collapseNames = []string{"p", "div", "li", "h2", "td", "span", "b", "a", "x-y", "br", "img", "input", "pre", "code", "section", "em", "hr"}

func collapseTree(t *pbt.T, depth int, texts *int, extra bool, leaf func(string) bool) []*xhtml.Node {
	var out []*xhtml.Node
	t.Each(0, 5, func(int) {
		k := t.Weighted(5, 5, 1, 1)
		if depth <= 0 {
			k = 0
		}
		if k >= 2 && !extra {
			k = 1
		}
		switch k {
		case 0:
			var b strings.Builder
			t.Each(1, 4, func(int) {
				b.WriteString(pbt.Pick(t, "w", "word", " ", "\n", "\t", "\r\n", "  \n ", "\u00a0", "é", "*", " x", "y ", "\u2003", "日"))
			})
			if t.Chance(1, 3000) {
				b.WriteString(strings.Repeat(b.String(), gen.Times(t, b.Len(), 30000)))
			}
			*texts++
			if n := len(out); n > 0 && out[n-1].Type == xhtml.TextNode && !extra {
				out[n-1].Data += b.String()
				return
			}
			out = append(out, &xhtml.Node{Type: xhtml.TextNode, Data: b.String()})
		case 1:
			n := &xhtml.Node{Type: xhtml.ElementNode, Data: pbt.Pick(t, collapseNames...)}
			switch t.Weighted(12, 1, 1) {
			case 1:
				n.Data = pbt.Pick(t, htmlBlocks...)
			case 2:
				n.Data = pbt.Pick(t, htmlVoids...)
			}
			if leaf(n.Data) {
				out = append(out, n)
				return
			}
			t.Span("element", func() {
				for _, c := range collapseTree(t, depth-1, texts, extra, leaf) {
					n.AppendChild(c)
				}
			})
			out = append(out, n)
			if t.Chance(1, 4000) {
				if t.Bool() {
					// one in the other
					for i := min(120, gen.Times(t, 1, 3000)); i > 0; i-- {
						p := &xhtml.Node{Type: xhtml.ElementNode, Data: n.Data}
						p.AppendChild(out[len(out)-1])
						out[len(out)-1] = p
					}
				} else {
					for i := gen.Times(t, 30, 20000); i > 0; i-- {
						out = append(out, prunedTree(n, nil))
					}
				}
			}
			if t.Chance(1, 4000) {
				if t.Bool() {
					// one in the other
					for i := min(120, gen.Times(t, 1, 3000)); i > 0; i-- {
						p := &xhtml.Node{Type: xhtml.ElementNode, Data: n.Data}
						p.AppendChild(out[len(out)-1])
						out[len(out)-1] = p
					}
				} else {
					for i := gen.Times(t, 30, 20000); i > 0; i-- {
						out = append(out, prunedTree(n, nil))
					}
				}
			}
		case 2:
			out = append(out, &xhtml.Node{Type: xhtml.CommentNode, Data: pbt.Pick(t, " c ", "", "x\n\ny")})
		case 3:
			out = append(out, &xhtml.Node{Type: xhtml.DoctypeNode, Data: "html"})
		}
	})
	return out
}

// skeleton is the tree without white space outside of preformatted elements:
// what collapsing must not change.
func skeleton(n *xhtml.Node, s domSets, b *strings.Builder) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		switch c.Type {
		case xhtml.TextNode:
			b.WriteString(strings.Map(func(r rune) rune {
				if strings.ContainsRune(" \t\r\n", r) {
					return -1
				}
				return r
			}, c.Data))
		case xhtml.CommentNode:
			fmt.Fprintf(b, "<!--%s-->", c.Data)
		case xhtml.ElementNode:
			b.WriteString("<" + c.Data + ">")
			if s.pre[c.Data] {
				verbatimTree(c, b)
			} else {
				skeleton(c, s, b)
			}
			b.WriteString("</" + c.Data + ">")
		}
	}
}

func verbatimTree(n *xhtml.Node, b *strings.Builder) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == xhtml.TextNode && c.Data == "" {
			continue
		}
		fmt.Fprintf(b, "{%d %q", c.Type, c.Data)
		verbatimTree(c, b)
		b.WriteString("}")
	}
}

// flowItem is a word, a border of a block ("B"), or something with a place of its own in a line
// ("K"), with the white space in front of it.
type flowItem struct {
	what  string
	space bool
	wide  bool // more than one blank
	loose bool // a comment or the like stands in the white space
}

func flow(n *xhtml.Node, s domSets, items *[]flowItem, pend *flowItem) {
	add := func(w string) {
		pend.what = w
		*items = append(*items, *pend)
		*pend = flowItem{}
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		switch c.Type {
		case xhtml.TextNode:
			word := ""
			for _, r := range c.Data {
				if strings.ContainsRune(" \t\r\n", r) {
					if word != "" {
						add("w:" + word)
						word = ""
					}
					pend.wide = pend.wide || pend.space || r != ' '
					pend.space = true
				} else {
					word += string(r)
				}
			}
			if word != "" {
				add("w:" + word)
			}
		case xhtml.ElementNode:
			switch {
			case s.block[c.Data] || c.Data == "br":
				add("B")
				if !s.pre[c.Data] {
					flow(c, s, items, pend)
				}
				add("B")
			case s.void[c.Data] || s.pre[c.Data] || c.Data == "code":
				add("K")
				if !s.pre[c.Data] {
					flow(c, s, items, pend)
				}
				add("K")
			default:
				flow(c, s, items, pend)
			}
		default:
			pend.loose = true
		}
	}
}

func flowOf(root *xhtml.Node, s domSets) []flowItem {
	items := []flowItem{{what: "B"}}
	p := flowItem{}
	flow(root, s, &items, &p)
	p.what = "B"
	return append(items, p)
}

func copyTree(n *xhtml.Node) *xhtml.Node {
	m := &xhtml.Node{Type: n.Type, Data: n.Data}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		m.AppendChild(copyTree(c))
	}
	return m
}

// respace replaces every run of white space by another one.
func respace(t *pbt.T, n *xhtml.Node, s domSets) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == xhtml.TextNode {
			var b strings.Builder
			in := false
			for _, r := range c.Data {
				ws := strings.ContainsRune(" \t\r\n", r)
				if !ws {
					b.WriteRune(r)
				} else if !in {
					b.WriteString(pbt.Pick(t, " ", "\n", "\t\t", "  ", "\r", "\n    \n"))
				}
				in = ws
			}
			c.Data = b.String()
		} else if !s.pre[c.Data] || c.Type != xhtml.ElementNode {
			respace(t, c, s)
		}
	}
}

func treeString(n *xhtml.Node) string {
	var b strings.Builder
	verbatimTree(n, &b)
	return b.String()
}

func collapsing(t *pbt.T) {
	texts := 0
	s := domSets{
		block: set(htmlBlocks...),
		void:  set(htmlVoids...),
		pre:   set("pre", "code"),
	}
	var funcs *collapse.DomFuncs
	in := func(m map[string]bool) func(*xhtml.Node) bool {
		return func(n *xhtml.Node) bool { return n.Type == xhtml.ElementNode && m[n.Data] }
	}
	switch t.Intn(3) {
	case 1:
		funcs = &collapse.DomFuncs{}
	case 2:
		funcs = &collapse.DomFuncs{}
		draw := func() map[string]bool {
			m := map[string]bool{}
			for _, n := range collapseNames {
				if t.Chance(1, 3) {
					m[n] = true
				}
			}
			return m
		}
		if t.Bool() {
			s.block = draw()
			funcs.IsBlockNode = in(s.block)
		}
		if t.Bool() {
			s.void = draw()
			funcs.IsVoidNode = in(s.void)
		}
		if t.Bool() {
			s.pre = draw()
			funcs.IsPreformattedNode = in(s.pre)
		}
	}
	extra := t.Chance(1, 3) // comments, doctypes and texts that touch
	root := &xhtml.Node{Type: xhtml.DocumentNode}
	if t.Bool() {
		root = &xhtml.Node{Type: xhtml.ElementNode, Data: pbt.Pick(t, "body", "body", "div", "pre", "span")}
	}
	for _, c := range collapseTree(t, 3, &texts, extra, func(n string) bool { return s.void[n] }) {
		root.AppendChild(c)
	}
	if t.Chance(1, 3) {
		// what is around the element is not touched
		outer := &xhtml.Node{Type: xhtml.ElementNode, Data: "main"}
		if root.Type == xhtml.ElementNode {
			outer.AppendChild(&xhtml.Node{Type: xhtml.TextNode, Data: "  before \n"})
			outer.AppendChild(root)
			outer.AppendChild(&xhtml.Node{Type: xhtml.TextNode, Data: "\n after  "})
		}
	}
	before := copyTree(root)
	other := copyTree(root)
	t.Note("tree", treeString(before))
	t.Note("funcs", fmt.Sprintf("%v %v", funcs != nil, s))
	collapse.Collapse(root, funcs)
	t.Note("collapsed", treeString(root))
	t.Sample(treeString(before) + " => " + treeString(root))
	if p := root.Parent; p != nil && (p.FirstChild.Data != "  before \n" || p.LastChild.Data != "\n after  " || p.FirstChild.NextSibling != root) {
		t.Fatalf("the surroundings of the element were changed: %s", treeString(p))
	}
	if root.Type == xhtml.ElementNode && s.pre[root.Data] {
		if treeString(before) != treeString(root) {
			t.Fatalf("a preformatted element was changed")
		}
		return
	}
	kinds, afterK := 0, false
	var a, b strings.Builder
	skeleton(before, s, &a)
	skeleton(root, s, &b)
	if a.String() != b.String() {
		t.Fatalf("more than white space was changed\nwant %s\ngot  %s", a.String(), b.String())
	}
	fa, fb := flowOf(before, s), flowOf(root, s)
	if len(fa) != len(fb) {
		t.Fatalf("words were joined or split: %v, %v", fa, fb)
	}
	for i := 1; i < len(fa); i++ {
		l, x, y := fa[i-1].what, fa[i], fb[i]
		if x.what != y.what {
			t.Fatalf("%q became %q", x.what, y.what)
		}
		kinds |= map[byte]int{'B': 1, 'K': 2, 'w': 4}[x.what[0]]
		if l == "B" {
			afterK = false
		}
		afterK = afterK || l == "K"
		switch {
		case l == "B" || x.what == "B":
			if y.space && !(extra && afterK) {
				t.Fatalf("white space at the border of a block, between %q and %q (%d)", l, x.what, i)
			}
		case x.space != y.space:
			t.Fatalf("white space between %q and %q: %v before, %v after (%d)", l, x.what, x.space, y.space, i)
		case y.wide && !extra && l != "K" && x.what != "K":
			t.Fatalf("more than one blank between %q and %q (%d)", l, x.what, i)
		}
	}
	if texts >= 3 && kinds == 7 {
		t.NonTrivial(treeString(before) + fmt.Sprint(s))
	}
	again := copyTree(root)
	collapse.Collapse(again, funcs)
	if !extra && treeString(again) != treeString(root) {
		t.Fatalf("collapsing again changes the tree to %s", treeString(again))
	}
	respace(t, other, s)
	collapse.Collapse(other, funcs)
	if treeString(other) != treeString(root) {
		t.Fatalf("other white space gives another result\nwant %s\ngot  %s", treeString(root), treeString(other))
	}
}

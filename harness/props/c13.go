package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	xhtml "golang.org/x/net/html"
	"golang.org/x/net/html/atom"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C13", Quick: 150000, Thorough: 4000000, Run: removal,
		Rule: "a document into which at least one removed element with content is inserted"})
}

var builtinRemoved = []string{"script", "style", "head", "link", "meta", "iframe", "noscript", "input", "textarea", "#comment"}

func cloneTree(n *xhtml.Node) *xhtml.Node {
	c := &xhtml.Node{Type: n.Type, DataAtom: n.DataAtom, Data: n.Data, Namespace: n.Namespace, Attr: append([]xhtml.Attribute{}, n.Attr...)}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		c.AppendChild(cloneTree(k))
	}
	return c
}

func allNodes(n *xhtml.Node) []*xhtml.Node {
	out := []*xhtml.Node{n}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		out = append(out, allNodes(k)...)
	}
	return out
}

func render(n *xhtml.Node) string {
	var b bytes.Buffer
	_ = xhtml.Render(&b, n)
	return b.String()
}

type tagReg struct {
	tag  string
	kind int // 0 block, 1 inline, 2 remove
	prio int
}

func removal(t *pbt.T) {
	c := AnyConfig(t)
	// registrations of the user
	var regs []tagReg
	prios := []int{converter.PriorityEarly, converter.PriorityStandard, converter.PriorityLate, 0, -5, 499, 501}
	t.Each(0, 4, func(int) {
		tag := pbt.Pick(t, "nav", "aside", "footer", "header", "form", "button", "figure", "video", "x-foo", "svg", "section", "b", "span", "h2", "a", "p", "table", "ul", "li", "td", "img", "br", "hr", "blockquote", "code", "pre", "div", "del", "select", "object")
		if t.Chance(1, 3) {
			tag = pbt.Pick(t, builtinRemoved...)
		}
		regs = append(regs, tagReg{tag, t.Weighted(1, 1, 3), pbt.Pick(t, prios...)})
	})
	build := func() *converter.Converter {
		conv := c.New()
		for _, r := range regs {
			switch r.kind {
			case 0:
				conv.Register.TagType(r.tag, converter.TagTypeBlock, r.prio)
			case 1:
				conv.Register.TagType(r.tag, converter.TagTypeInline, r.prio)
			default:
				conv.Register.TagType(r.tag, converter.TagTypeRemove, r.prio)
			}
		}
		return conv
	}
	// the decision, by priority and then by order of registration
	removed := map[string]bool{}
	tags := append([]string{}, builtinRemoved...)
	for _, r := range regs {
		tags = append(tags, r.tag)
	}
	var gone []string
	for _, tag := range tags {
		best, prio := -1, 1<<30
		for _, b := range builtinRemoved {
			if b == tag {
				best, prio = 2, converter.PriorityStandard
			}
		}
		for _, r := range regs {
			if r.tag == tag && r.prio < prio {
				best, prio = r.kind, r.prio
			}
		}
		// registered together with its renderer
		if best == 2 && !removed[tag] {
			removed[tag] = true
			gone = append(gone, tag)
		}
	}
	t.Note("registrations", regs)
	t.Note("config", c.String())
	in := gen.NewSoup(t, gen.SoupOpts{Malformed: t.Chance(1, 4), Hostile: t.Chance(1, 3), Tables: t.Chance(1, 4)}).HTML(4)
	if t.Chance(1, 3) {
		s := &gen.Style{T: t}
		in = s.Blocks(gen.New(t, gen.DocOpts{Table: true, Strike: true}).Doc(2, 3))
	}
	plain, err := xhtml.Parse(strings.NewReader(in))
	if err != nil {
		t.Discard()
	}
	// the reference has none of the removed elements
	for _, n := range allNodes(plain) {
		name := n.Data
		if n.Type == xhtml.CommentNode {
			name = "#comment"
		} else if n.Type != xhtml.ElementNode {
			continue
		}
		if removed[name] && n.Parent != nil {
			n.Parent.RemoveChild(n)
		}
	}
	full := cloneTree(plain)
	nodes := allNodes(full)
	inserted := 0
	// an element that an earlier registration classifies otherwise is kept
	kept := ""
	for _, r := range regs {
		switch r.tag {
		case "script", "style", "noscript", "iframe", "nav", "aside", "footer", "header", "form", "x-foo", "section", "svg", "meta", "link":
			if !removed[r.tag] && !removed["html"] && !removed["body"] {
				kept = r.tag
			}
		}
	}
	appended := 0
	if kept != "" {
		for _, doc := range []*xhtml.Node{plain, full} {
			for _, n := range allNodes(doc) {
				if n.Type == xhtml.ElementNode && n.Data == "body" {
					e := &xhtml.Node{Type: xhtml.ElementNode, Data: kept, DataAtom: atom.Lookup([]byte(kept))}
					e.AppendChild(&xhtml.Node{Type: xhtml.TextNode, Data: "keptcontent"})
					n.AppendChild(e)
					appended++
					break
				}
			}
		}
	}
	if appended != 2 {
		kept = "" // a frameset has no body
	}
	if len(gone) == 0 {
		t.Discard()
	}
	t.Each(1, 4, func(int) {
		name := pbt.Pick(t, gone...)
		x := &xhtml.Node{Type: xhtml.ElementNode, Data: name, DataAtom: atom.Lookup([]byte(name))}
		if name == "#comment" {
			x = &xhtml.Node{Type: xhtml.CommentNode, Data: pbt.Pick(t, "gonecomment", " gone ", "THE END", "-")}
		} else {
			x.Attr = append(x.Attr, xhtml.Attribute{Key: pbt.Pick(t, "href", "src", "alt", "title", "value", "class"), Val: "goneattr"})
			t.Each(0, 3, func(int) {
				k := &xhtml.Node{Type: xhtml.TextNode, Data: pbt.Pick(t, "gonetext", " ", "\n gone \n", "**gone**", "<b>gone</b>")}
				if t.Bool() {
					e := pbt.Pick(t, "p", "b", "div", "ul", "li", "pre", "h1", "br", "table", "td", "a", "img", "script", "title", "x-foo", "nav")
					w := &xhtml.Node{Type: xhtml.ElementNode, Data: e, DataAtom: atom.Lookup([]byte(e))}
					if e != "br" && e != "img" {
						w.AppendChild(k)
					}
					k = w
				}
				x.AppendChild(k)
			})
		}
		p := pbt.Pick(t, nodes...)
		inserted++
		switch {
		case p.Type == xhtml.TextNode && len(p.Data) > 0 && p.Parent != nil:
			// into the middle of a text
			i := t.Intn(len(p.Data) + 1)
			for i > 0 && i < len(p.Data) && p.Data[i]&0xC0 == 0x80 {
				i--
			}
			rest := &xhtml.Node{Type: xhtml.TextNode, Data: p.Data[i:]}
			p.Parent.InsertBefore(rest, p.NextSibling)
			p.Parent.InsertBefore(x, rest)
			p.Data = p.Data[:i]
		case p.Type == xhtml.ElementNode && p.Data != "html" || p == full:
			var at *xhtml.Node
			for k := p.FirstChild; k != nil; k = k.NextSibling {
				if t.Bool() {
					at = k
					break
				}
			}
			p.InsertBefore(x, at)
		default:
			inserted--
		}
	})
	if inserted == 0 {
		t.Discard()
	}
	t.Note("document", render(plain))
	t.Note("with removed elements", render(full))
	for _, g := range gone {
		t.Label(g)
	}
	if kept != "" {
		t.Label("kept")
	}
	t.NonTrivial(render(full) + fmt.Sprint(regs))
	t.Sample(fmt.Sprintf("%s regs=%v %q", c, regs, clipS(render(full), 300)))
	if t.Chance(1, 4) {
		// a part of the document on its own
		t.Label("part")
		var parts []*xhtml.Node
		for _, doc := range []*xhtml.Node{plain, full} {
			for _, n := range allNodes(doc) {
				if n.Type == xhtml.ElementNode && n.Data == "body" {
					n.Parent.RemoveChild(n)
					parts = append(parts, n)
					break
				}
			}
		}
		if len(parts) != 2 {
			t.Discard()
		}
		plain, full = parts[0], parts[1]
		t.Note("part with removed elements", render(full))
	}
	a, err1 := build().ConvertNode(plain)
	b, err2 := build().ConvertNode(full)
	if err1 != nil || err2 != nil {
		t.Fatalf("errors %v %v", err1, err2)
	}
	t.Note("without", string(a))
	t.Note("with", string(b))
	if string(a) != string(b) {
		t.Fatalf("an element that is to be removed changes the output\nwithout %q\nwith    %q", a, b)
	}
	if kept != "" && strings.Count(string(b), "keptcontent") != 1 {
		t.Fatalf("<%s> is not to be removed any more, but its content is missing: %q", kept, b)
	}
	if strings.Contains(string(b), "gone") {
		t.Fatalf("content of a removed element: %q", b)
	}
}

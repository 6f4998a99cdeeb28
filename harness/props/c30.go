package props

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C30", Quick: 40000, Thorough: 1500000, Run: composed,
		Rule: "a document with at least two containers (quote, list) and three parts that have an output"})
}

// part is a node of the composed document: a leaf holds arbitrary HTML, the others hold parts.
type part struct {
	kind  string // leaf, quote, ul, ol, div
	html  string
	start int
	kids  []*part
	items [][]*part
}

// size is the length of the HTML.
func (p *part) size() int {
	n := len(p.html)
	for _, it := range append([][]*part{p.kids}, p.items...) {
		for _, k := range it {
			n += 10 + k.size()
		}
	}
	return n
}

func fragment(src string) *html.Node {
	ns, err := html.ParseFragment(strings.NewReader(src), &html.Node{Type: html.ElementNode, Data: "div", DataAtom: atom.Div})
	if err != nil {
		return nil
	}
	div := el("div")
	for _, n := range ns {
		div.AppendChild(n)
	}
	return div
}

func el(tag string, kids ...*html.Node) *html.Node {
	n := &html.Node{Type: html.ElementNode, Data: tag, DataAtom: atom.Lookup([]byte(tag))}
	for _, k := range kids {
		n.AppendChild(k)
	}
	return n
}

func (p *part) node() *html.Node {
	switch p.kind {
	case "leaf":
		x := fragment(p.html)
		if p.start > 0 && x != nil {
			x = el("div", el("p", text(fmt.Sprintf("aa%daa", p.start))), x, el("p", text(fmt.Sprintf("zz%dzz", p.start))))
		}
		return x
	case "quote", "div":
		n := el(map[string]string{"quote": "blockquote", "div": "section"}[p.kind])
		for _, k := range p.kids {
			n.AppendChild(k.node())
		}
		return n
	}
	n := el(p.kind)
	if p.kind == "ol" && p.start != 1 {
		n.Attr = []html.Attribute{{Key: "start", Val: strconv.Itoa(p.start)}}
	}
	for _, it := range p.items {
		li := el("li")
		for _, k := range it {
			li.AppendChild(k.node())
		}
		n.AppendChild(li)
	}
	return n
}

// composed: the Markdown of a document is put together from the Markdown of its parts.
func composed(t *pbt.T) {
	c := AnyConfig(t)
	guarded := !c.NoListEnd // a list next to a list needs the comment in between
	left, words := 3+t.Intn(8), 0
	containers := 0
	leaf := func() *part {
		left--
		var src string
		switch t.Weighted(2, 1) {
		case 0:
			src = gen.NewSoup(t, gen.SoupOpts{Malformed: t.Chance(1, 3), Hostile: t.Chance(1, 3), Tables: t.Chance(1, 6), Budget: 3 + t.Intn(12)}).HTML(4)
		case 1:
			g := gen.New(t, gen.DocOpts{Table: c.Table, Strike: c.Strike})
			src = (&gen.Style{T: t}).Blocks(g.Doc(2, 3))
		}
		if strings.ContainsAny(html.UnescapeString(src), "\u0007\ufdd0") {
			t.Discard() // reserved for internal use
		}
		if guarded || t.Chance(1, 3) {
			words++
			return &part{kind: "leaf", html: src, start: words}
		}
		return &part{kind: "leaf", html: src}
	}
	var parts func(depth int) []*part
	parts = func(depth int) []*part {
		var out []*part
		for i := 1 + t.Intn(3); i > 0; i-- {
			k := 0
			if depth > 0 && left > 0 {
				k = t.Weighted(3, 3, 3, 2, 1)
			}
			if guarded && k != 0 {
				out = append(out, leaf())
			}
			switch k {
			case 0:
				out = append(out, leaf())
			case 1:
				containers++
				p := &part{kind: "quote", kids: parts(depth - 1)}
				if t.Chance(1, 150) {
					// deep inside
					t.Label("deep")
					for n := min(40, gen.Times(t, 10, 3000)); n > 0; n-- {
						p = &part{kind: "quote", kids: []*part{p}}
					}
				}
				out = append(out, p)
			case 2, 3:
				containers++
				p := &part{kind: []string{"ul", "ol"}[k-2], start: 1}
				if p.kind == "ol" {
					p.start = pbt.Pick(t, 1, 1, 0, 7, 9, 98, 999, 123456789)
				}
				for j := 1 + t.Intn(3); j > 0; j-- {
					p.items = append(p.items, parts(depth-1))
				}
				if t.Chance(1, 150) {
					t.Label("long")
					its := p.items
					most := max(2, 400000/max(100, p.size())) // the document stays below a megabyte or so
					for n := min(most, gen.Times(t, 10*len(its), 4000)); n > 0; n-- {
						p.items = append(p.items, its...)
					}
				}
				out = append(out, p)
			case 4:
				out = append(out, &part{kind: "div", kids: parts(depth - 1)})
			}
		}
		return out
	}
	ps := parts(3)
	conv := c.New()
	run := func(ns ...*html.Node) string {
		md, err := conv.ConvertNode(el("body", ns...))
		if err != nil {
			t.Fatalf("%v", err)
		}
		return string(md)
	}
	nonEmpty := 0
	var whole func(ps []*part) string
	var one func(p *part) string
	memo := map[*part]string{} // the items of a long list are the same few
	once := func(p *part) string {
		if _, ok := memo[p]; !ok {
			memo[p] = one(p)
		}
		return memo[p]
	}
	one = func(p *part) string {
		switch p.kind {
		case "leaf":
			x := p.node()
			if x == nil {
				t.Discard()
			}
			md := run(el("p", text("begin")), x, el("p", text("end")))
			md, ok1 := strings.CutPrefix(md, "begin")
			md, ok2 := strings.CutSuffix(md, "end")
			md = strings.Trim(md, "\n")
			if !ok1 || !ok2 || strings.TrimFunc(md, unicode.IsSpace) != md {
				t.Discard()
			}
			if md != "" {
				nonEmpty++
			}
			return md
		case "div":
			return whole(p.kids)
		case "quote":
			x := whole(p.kids)
			if x == "" {
				return ""
			}
			return "> " + strings.ReplaceAll(x, "\n", "\n> ")
		}
		var its []string
		for _, it := range p.items {
			if x := whole(it); x != "" {
				its = append(its, x)
			}
		}
		start := p.start
		if start+len(its)-1 > 999999999 {
			start = 1
		}
		for i := range its {
			marker := c.Bullet
			if marker == "" {
				marker = "-"
			}
			marker += " "
			if p.kind == "ol" {
				w := len(strconv.Itoa(start + len(its) - 1))
				marker = fmt.Sprintf("%0*d. ", w, start+i)
			}
			first, _, _ := strings.Cut(its[i], "\n")
			if l := strings.Join(strings.Fields(marker+first), ""); len(l) >= 3 && strings.Trim(l, l[:1]) == "" {
				t.Discard() // a rule would become one with the marker
			}
			its[i] = marker + strings.ReplaceAll(its[i], "\n", "\n"+strings.Repeat(" ", len(marker)))
		}
		return strings.Join(its, "\n")
	}
	whole = func(ps []*part) string {
		var out []string
		for _, p := range ps {
			if x := once(p); x != "" {
				out = append(out, x)
			}
		}
		return strings.Join(out, "\n\n")
	}
	want := whole(ps)
	var ns []*html.Node
	for _, p := range ps {
		ns = append(ns, p.node())
	}
	var src strings.Builder
	for _, p := range ps {
		html.Render(&src, p.node()) // another one, since the conversion changes the nodes
	}
	got := run(ns...)
	t.Note("html", src.String())
	t.Note("config", c.String())
	t.Note("markdown", got)
	if containers >= 2 && nonEmpty >= 3 {
		t.NonTrivial(src.String())
	}
	t.Sample(fmt.Sprintf("%s %q => %q", c, clipS(src.String(), 300), clipS(got, 300)))
	if got != want {
		t.Fatalf("the output is not put together from the outputs of the parts\nwant: %q\ngot:  %q", want, got)
	}
}

func text(s string) *html.Node { return &html.Node{Type: html.TextNode, Data: s} }

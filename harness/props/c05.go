package props

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/net/html"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C05", Quick: 150000, Thorough: 4000000, Run: content,
		Findings: []pbt.Finding{{Name: "LIST-STRAY-TEXT", Reproduce: func() string {
			md, _ := Config{}.New().ConvertString(`<ul><li>one</li>two</ul>`)
			if !strings.Contains(md, "onetwo") {
				return ""
			}
			return md
		}}},
		Rule: "arbitrary HTML with at least three distinct words in at least three elements; the words expected are read off the parsed HTML tree"})
}

var tokenR = regexp.MustCompile(`tq\d+zj`)

var removedTag = map[string]bool{"head": true, "script": true, "style": true, "link": true, "meta": true, "iframe": true, "noscript": true, "input": true, "textarea": true}

// tokensOf lists the words of the tree in document order: those that have to
// appear and those that must not.
func tokensOf(doc *html.Node) (keep, drop []string, tables bool, elems int) {
	var walk func(n *html.Node, gone bool)
	walk = func(n *html.Node, gone bool) {
		switch n.Type {
		case html.ElementNode:
			elems++
			gone = gone || removedTag[n.Data]
			if n.Data == "table" && !gone {
				tables = true
			}
		case html.CommentNode:
			drop = append(drop, tokenR.FindAllString(n.Data, -1)...)
		case html.TextNode:
			ts := tokenR.FindAllString(n.Data, -1)
			if gone {
				drop = append(drop, ts...)
			} else {
				keep = append(keep, ts...)
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c, gone)
		}
	}
	walk(doc, false)
	return
}

var blockLike = map[string]bool{"p": true, "div": true, "h1": true, "h2": true, "h3": true, "h4": true, "h5": true, "h6": true, "ul": true, "ol": true, "li": true, "blockquote": true, "pre": true, "section": true, "article": true, "main": true, "header": true, "footer": true, "nav": true, "aside": true, "table": true, "hr": true, "br": true, "address": true, "dl": true, "dt": true, "dd": true, "figure": true, "form": true, "fieldset": true}

var tablePart = map[string]bool{"td": true, "th": true, "tr": true, "caption": true, "thead": true, "tbody": true, "tfoot": true}

// inTable: a part of a table where a table has it.
func inTable(n *html.Node) bool {
	return tablePart[n.Data] && n.Namespace == "" && n.Parent != nil && n.Parent.Namespace == "" && (n.Parent.Data == "table" || tablePart[n.Parent.Data])
}

// apart lists the pairs of successive words that white space, a line break or
// the border of a block keeps apart.
func apart(doc *html.Node) map[string]bool {
	out := map[string]bool{}
	last, sep := "", false
	code := 0
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		border := false
		switch n.Type {
		case html.ElementNode:
			if removedTag[n.Data] {
				return
			}
			border = (blockLike[n.Data] || n.Data == "br" || inTable(n)) && code == 0
			switch n.Data {
			case "pre", "code", "kbd", "samp", "tt", "var":
				code++
				defer func() { code-- }()
			}
			// inside code only line breaks and divs start a new line
			sep = sep || border
		case html.TextNode:
			pos := 0
			for _, m := range append(tokenR.FindAllStringIndex(n.Data, -1), []int{len(n.Data), len(n.Data)}) {
				sep = sep || strings.ContainsAny(n.Data[pos:m[0]], " \n\t\r")
				if m[0] == m[1] {
					break
				}
				x := n.Data[m[0]:m[1]]
				if sep && last != "" {
					out[last+x] = true
				}
				last, sep, pos = x, false, m[1]
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
		sep = sep || border && !(n.Data == "li" && strayAfter(n))
	}
	walk(doc)
	return out
}

// strayAfter: see the finding LIST-STRAY-TEXT.
func strayAfter(li *html.Node) bool {
	for s := li.NextSibling; s != nil; s = s.NextSibling {
		switch s.Type {
		case html.TextNode:
			if strings.TrimSpace(s.Data) != "" {
				return true
			}
		case html.ElementNode:
			if s.Data == "li" {
				return false
			}
			if !removedTag[s.Data] {
				return true
			}
		}
	}
	return false
}

var gluedR = regexp.MustCompile(`(?:tq\d+zj){2,}`)

func content(t *pbt.T) {
	c := GenConfig(t)
	if t.Chance(1, 10) {
		c.NoEscape = true
	}
	if t.Chance(1, 10) {
		c.NoListEnd = true
	}
	s := gen.NewSoup(t, gen.SoupOpts{Tokens: true, Malformed: t.Chance(1, 3), Tables: t.Chance(1, 3)})
	in := s.HTML(t.Range(2, 6))
	doc, err := html.Parse(strings.NewReader(in))
	if err != nil {
		t.Discard()
	}
	keep, drop, tables, elems := tokensOf(doc)
	t.Note("html", in)
	t.Note("config", c.String())
	if len(keep) >= 3 && elems >= 6 {
		t.NonTrivial(in)
	}
	md := Convert(t, c, in)
	t.Note("markdown", md)
	t.Sample(fmt.Sprintf("%s %q => %q", c, in, md))
	got := tokenR.FindAllString(md, -1)
	count := map[string]int{}
	for _, x := range got {
		count[x]++
	}
	mirror := tables && c.Table && c.Span == "mirror"
	for _, x := range keep {
		if count[x] == 0 {
			t.Fatalf("the word %q of the document is missing", x)
		}
		if count[x] > 1 && !mirror {
			t.Fatalf("the word %q of the document appears %d times", x, count[x])
		}
	}
	for _, x := range drop {
		if count[x] > 0 {
			t.Fatalf("the word %q is inside a removed element or a comment but appears", x)
		}
	}
	sep := apart(doc)
	for _, g := range gluedR.FindAllString(md, -1) {
		ts := tokenR.FindAllString(g, -1)
		for i := 1; i < len(ts); i++ {
			if sep[ts[i-1]+ts[i]] {
				t.Fatalf("the words %q and %q are apart in the document, but glued together in the Markdown", ts[i-1], ts[i])
			}
		}
	}
	t.Label(fmt.Sprintf("tables=%v", tables && c.Table))
	if tables && c.Table {
		return // the header row, the caption and mirrored cells have a place of their own
	}
	if w, g := strings.Join(keep, " "), strings.Join(got, " "); w != g {
		t.Fatalf("the words are not in document order\nwant: %s\ngot:  %s", w, g)
	}
}

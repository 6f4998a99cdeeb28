package gen

import (
	"fmt"
	"html"
	"strings"

	"verif/harness/pbt"
)

// SoupOpts selects what arbitrary HTML may contain.
type SoupOpts struct {
	Malformed bool // stray end tags, unclosed elements, broken attributes
	Hostile   bool // text full of Markdown syntax
	Tokens    bool // every text holds a unique token
	NoTables  bool
	Tables    bool // many of them
	Budget    int
}

// Soup generates arbitrary HTML: any elements in any nesting.
type Soup struct {
	T    *pbt.T
	O    SoupOpts
	n    int
	left int
	b    strings.Builder

	pumped bool
}

func NewSoup(t *pbt.T, o SoupOpts) *Soup {
	if o.Budget == 0 {
		o.Budget = 3 + t.Intn(4+t.Size/2)
	}
	return &Soup{T: t, O: o, left: o.Budget}
}

var inlineTags = []string{"b", "strong", "em", "i", "a", "code", "span", "del", "s", "strike", "u", "sub", "sup", "kbd", "samp", "var", "tt", "mark", "small", "q", "cite", "abbr", "label", "font", "time", "bdo"}
var blockTags = []string{"p", "div", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "blockquote", "pre", "section", "article", "main", "header", "footer", "nav", "aside", "figure", "figcaption", "dl", "dt", "dd", "address", "center", "details", "summary", "form", "fieldset", "legend"}
var tableTags = []string{"table", "thead", "tbody", "tfoot", "tr", "td", "th", "caption", "colgroup"}
var removedTags = []string{"script", "style", "noscript", "iframe", "textarea", "input", "link", "meta", "head"}
var oddTags = []string{"button", "select", "option", "optgroup", "svg", "math", "template", "object", "video", "audio", "canvas", "custom-element", "title", "body", "html", "picture", "source", "map", "ruby", "rt", "noembed", "noframes", "plaintext", "xmp", "listing", "frameset", "frame", "marquee", "dialog", "menu", "slot", "output", "progress", "meter", "datalist", "hgroup", "search"}

var foreignTags = []string{"td", "th", "tr", "caption", "thead", "tbody", "a", "td", "del", "kbd", "samp", "section", "q", "title", "desc", "foreignObject", "text", "mi", "annotation-xml", "script", "style", "textarea", "noscript", "input", "button", "path"}

// HostileTexts are texts that look like Markdown.
var HostileTexts = []string{"*", "**", "_", "__", "`", "``", "```", "~", "~~", "~~~", "#", "# h", "-", "- a", "+ a", "* a", "1. a", "1)", "10. x", ">", "> q", "[", "]", "[a](b)", "![a](b)", "![", "](", "<b>", "&amp;", "&lt;", "&", "\\", "\\\\", "\\*", "|", "| a | b |", "---", "===", "***", "- - -", "* * *", "***a***", "**a", "a**", "_a_", "a_b_c", "a*b", "<!-- x -->", "<!--THE END-->", "http://a.b", "<http://a.b>", "  ", "\u00a0", "\t", "\u200b", "#hash", "a#", "~~a~~", ":---:", "\u00ad", "\u2028", "|--|", "!", "(", ")", "[x]: /u", "[^1]", "$", "^", "=", "\ufeff", "a\u0301", "👍🏽", "\u202e", "مرحبا"}

func (s *Soup) word() string {
	s.n++
	return fmt.Sprintf("%s%d", pbt.Pick(s.T, "w", "Ab", "é", "日", "x"), s.n)
}

// Token is the n-th unique token.
func Token(n int) string { return fmt.Sprintf("tq%dzj", n) }

func (s *Soup) text() {
	t := s.T
	s.left--
	if s.O.Tokens {
		s.n++
		s.b.WriteString(pbt.Pick(t, "", "", " ", "\n", " \n ") + Token(s.n) + pbt.Pick(t, "", "", " ", "\n", "  "))
		return
	}
	k := t.Weighted(5, 3, 3, 1)
	if !s.O.Hostile && (k == 2 || k == 3) {
		k = 0
	}
	switch k {
	case 0:
		s.b.WriteString(s.word())
		if t.Chance(1, 3) {
			s.b.WriteString(" " + s.word())
		}
	case 1:
		s.b.WriteString(pbt.Pick(t, " ", "\n", "\t", "  ", "\n\n", " \n ", "\r\n"))
	case 2:
		s.b.WriteString(html.EscapeString(pbt.Pick(t, HostileTexts...)))
	case 3:
		n := t.Range(1, 6)
		for i := 0; i < n; i++ {
			s.b.WriteString(html.EscapeString(string(pbt.Pick(t, []rune("*_`~#-+.)>[]()!<&\\|=1 \n\ta:\"'é\u00a0\u2003")...))))
		}
	}
}

var attrValues = []string{"", "x", "1", "a b", "/p", "http://e.x/?a=b&c=d", "#", "#f", "mailto:x@y.z", "data:image/png;base64,AA==", "javascript:void(0)", "a\nb", `q"q`, "q'q", "(x)", "[x]", "a)b", "<x>", "%", "%zz", "%20", "  y  ", "é", ":", "//h/p", "?q=a b", "\\", "http://[::1", "x y z", "language-go", "lang-js hl", "presentation", "left", "right", "center", "-3", "99999999999999999999", "2000000000", "0", "3", "2", "text-align:center", "TRUE", "*a*", "_b_", "|", "`c`", "](", "a\rb", "a\r\nb", "\x01x"}

func (s *Soup) attrs(tag string) string {
	t := s.T
	var b strings.Builder
	var names []string
	switch tag {
	case "a":
		names = []string{"href", "title"}
	case "img":
		names = []string{"src", "alt", "title"}
	case "ol":
		names = []string{"start"}
	case "td", "th":
		names = []string{"colspan", "rowspan", "align"}
	case "pre", "code":
		names = []string{"class"}
	case "table":
		names = []string{"role"}
	case "iframe", "video", "source", "input":
		names = []string{"src", "value"}
	}
	for _, n := range names {
		if !t.Chance(1, 2) {
			continue
		}
		v := pbt.Pick(t, attrValues...)
		if n == "colspan" || n == "rowspan" {
			v = pbt.Pick(t, "1", "2", "3", "0", "x", "-1", "5", " 2 ")
		}
		fmt.Fprintf(&b, ` %s="%s"`, n, strings.ReplaceAll(html.EscapeString(v), "\r", "&#13;"))
	}
	if s.O.Malformed && t.Chance(1, 12) {
		b.WriteString(pbt.Pick(t, ` x`, ` x=`, ` x='y`, ` "`, ` <`, ` =`, ` /`, "\x00"))
	}
	return b.String()
}

func (s *Soup) tag() string {
	t := s.T
	switch t.Weighted(10, 12, 3, 1, 1) {
	case 0:
		return pbt.Pick(t, inlineTags...)
	case 1:
		return pbt.Pick(t, blockTags...)
	case 2:
		if s.O.NoTables {
			return "div"
		}
		return pbt.Pick(t, tableTags...)
	case 3:
		return pbt.Pick(t, removedTags...)
	}
	return pbt.Pick(t, oddTags...)
}

func (s *Soup) nodes(depth int) {
	s.T.Each(1, 5, func(int) {
		if s.left > 0 {
			s.T.Span("node", func() {
				start, n := s.b.Len(), s.n
				s.node(depth)
				s.maybePump(start, n)
			})
		}
	})
}

func (s *Soup) node(depth int) {
	t := s.T
	if depth <= 0 {
		s.text()
		return
	}
	tables := 1
	if s.O.Tables {
		tables = 5
	}
	switch t.Weighted(5, 8, 2, tables, 1, 1) {
	case 0:
		s.text()
	case 1:
		s.left--
		n := s.tag()
		if n == "plaintext" && !t.Chance(1, 10) {
			n = "p"
		}
		s.b.WriteString("<" + n + s.attrs(n) + ">")
		s.nodes(depth - 1)
		if s.O.Malformed && t.Chance(1, 8) {
			if t.Bool() {
				s.b.WriteString("</" + s.tag() + ">")
			}
			return
		}
		s.b.WriteString("</" + n + ">")
	case 2:
		n := pbt.Pick(t, "br", "img", "hr", "br", "img", "wbr", "input", "embed")
		s.b.WriteString("<" + n + s.attrs(n) + ">")
	case 3:
		// something structured
		n := pbt.Pick(t, "ul", "ol", "table", "pre", "blockquote", "a", "ul", "table", "blockquote", "a", pbt.Pick(t, "svg", "math"))
		if s.O.Tables && n != "svg" && n != "math" && t.Chance(3, 4) {
			n = "table"
		}
		if s.O.NoTables && n == "table" {
			n = "ul"
		}
		s.left--
		s.b.WriteString("<" + n + s.attrs(n) + ">")
		switch n {
		case "ul", "ol":
			t.Each(1, 4, func(int) {
				start, k := s.b.Len(), s.n
				s.b.WriteString("<li>")
				s.nodes(depth - 1)
				s.b.WriteString("</li>")
				s.maybePump(start, k)
			})
		case "table":
			if t.Chance(1, 6) {
				s.b.WriteString("<caption>")
				s.nodes(depth - 2)
				s.b.WriteString("</caption>")
			}
			t.Each(1, 3, func(int) {
				rowStart, rowN := s.b.Len(), s.n
				s.b.WriteString("<tr>")
				t.Each(1, 3, func(int) {
					start, k := s.b.Len(), s.n
					c := pbt.Pick(t, "td", "th")
					s.b.WriteString("<" + c + s.attrs(c) + ">")
					s.nodes(depth - 2)
					s.b.WriteString("</" + c + ">")
					s.maybePump(start, k)
				})
				s.b.WriteString("</tr>")
				s.maybePump(rowStart, rowN)
			})
		case "svg", "math":
			// elements that keep their name here, without being the HTML element
			t.Each(1, 3, func(int) {
				x := pbt.Pick(t, foreignTags...)
				if s.O.NoTables {
					x = "a"
				}
				s.b.WriteString("<" + x + s.attrs(x) + ">")
				s.nodes(depth - 2)
				s.b.WriteString("</" + x + ">")
			})
		case "pre":
			s.b.WriteString("<code" + s.attrs("code") + ">")
			s.nodes(min(1, depth-1))
			s.b.WriteString("</code>")
		default:
			s.nodes(depth - 1)
		}
		s.b.WriteString("</" + n + ">")
	case 4:
		if s.O.Tokens && t.Bool() {
			s.n++
			s.b.WriteString("<!-- " + Token(s.n) + " -->")
			return
		}
		s.b.WriteString(pbt.Pick(t, "<!-- c -->", "<!---->", "<!-- > -->", "<!DOCTYPE html>", "<!--THE END-->", "<?pi?>", "<![CDATA[x]]>", "</p>", "</br>"))
	case 5:
		if s.O.Malformed {
			s.b.WriteString(pbt.Pick(t, "<", "</", "<>", "&", "&#", "&#x;", "&#0;", "&nosuch;", "<a <b>", "</div>", "</ul>", "</li>", "<p", "\x00", "\xff", "\xed\xa0\x80", "&#xf002;", "\u0007", "<td>", "<li>", "</table>", "<!--", "--", "<tr>", "]]>"))
		} else {
			s.text()
		}
	}
}

// HTML generates one input.
func (s *Soup) HTML(depth int) string {
	s.nodes(depth)
	return s.b.String()
}

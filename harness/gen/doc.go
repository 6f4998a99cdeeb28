// Package gen generates HTML inputs: documents from the model (with many
// spellings of the same document) and arbitrary HTML.
package gen

import (
	"fmt"
	"html"
	"slices"
	"strings"
	"unicode"

	"verif/harness/model"
	"verif/harness/pbt"
)

// DocOpts bounds the document generator.
type DocOpts struct {
	MaxDepth   int
	Table      bool
	Strike     bool
	IntraWord  bool // emphasis may touch letters on the outside
	NoBr       bool
	NoHR       bool
	NoImages   bool
	NoLinks    bool
	NoCode     bool
	AllLangs   bool
	NoQuote    bool
	NoEmphasis bool
}

// G carries generator state.
type G struct {
	T    *pbt.T
	O    DocOpts
	n    int
	Tags map[string]int
	left int // words until the rest is kept short
}

func New(t *pbt.T, o DocOpts) *G {
	return &G{T: t, O: o, Tags: map[string]int{}, left: 6 + t.Intn(4+t.Size)}
}

// Word returns a fresh word that occurs nowhere else in the document.
func (g *G) Word() string {
	g.n++
	g.left--
	stems := []string{"w", "alpha", "Beta", "été", "x9", "日本", "слово", "Q"}
	return fmt.Sprintf("%s%d%s", pbt.Pick(g.T, stems...), g.n, pbt.Pick(g.T, "", "z", "ß"))
}

func (g *G) count(k string) { g.Tags[k]++ }

// Words returns 1..n words separated by blanks.
func (g *G) Words(n int) string {
	s := g.Word()
	if g.T.Chance(1, 1500) {
		// a long text
		for n := g.T.Range(20, 500); n > 0; n-- {
			s += fmt.Sprintf(" l%d", g.id())
		}
	}
	for i := 1; i < n && g.T.Chance(1, 2); i++ {
		s += " " + g.Word()
	}
	return s
}

var urls = []string{"/a", "https://example.com/", "http://e.org/a/b?x=1&y=2", "#frag", "page.html", "//cdn.example/x.png", "mailto:a@b.c", "/p%20q", "?q=1", "https://example.com/ä"}

func (g *G) URL() string {
	return fmt.Sprintf("/u%d/%s", g.id(), pbt.Pick(g.T, "", "x.html", "a/b", "q?x=1"))
}
func (g *G) id() int { g.n++; return g.n }

// Inlines generates inline content. marks are the decorations already active.
func (g *G) Inlines(depth, marks int, inLink bool) []model.Run {
	var out []model.Run
	hi := 4
	if g.left <= 0 {
		hi, depth = 1, 0
	}
	g.T.Each(1, hi, func(i int) {
		if i > 0 {
			if g.O.IntraWord && g.T.Chance(1, 4) {
				// glued together
			} else {
				out = append(out, model.Run{Kind: "text", Text: " ", Marks: marks})
			}
		}
		g.T.Span("inline", func() { out = append(out, g.inline(depth, marks, inLink)...) })
	})
	return out
}

func (g *G) inline(depth, marks int, inLink bool) []model.Run {
	t := g.T
	k := t.Weighted(6, 2, 2, 2, 2, 1, 1, 1)
	text := func() []model.Run {
		return []model.Run{{Kind: "text", Text: g.Words(3), Marks: marks}}
	}
	mark := func(bit int) []model.Run {
		if depth <= 0 || marks&bit != 0 || g.O.NoEmphasis {
			return text()
		}
		return g.Inlines(depth-1, marks|bit, inLink)
	}
	switch k {
	case 1:
		g.count("strong")
		return mark(model.Strong)
	case 2:
		g.count("em")
		return mark(model.Em)
	case 3:
		if g.O.NoCode {
			return text()
		}
		g.count("code")
		c := g.Word() + pbt.Pick(t, "", "()", " + "+g.Word(), "*x*", "`y`", "<b>", "_a_", "|z", "&amp;", `\n`, "[k](v)")
		if strings.Contains(c, "|") && g.O.Table {
			c = g.Word()
		}
		return []model.Run{{Kind: "code", Text: c, Marks: marks}}
	case 4:
		if inLink || g.O.NoLinks || depth <= 0 {
			return text()
		}
		g.count("link")
		l := &model.Link{Href: g.URL(), Title: pbt.Pick(t, "", "Title", "a b", `it's`, `say "x"`)}
		nb := g.O.NoBr
		g.O.NoBr = true // see finding BR-IN-LINK
		rs := g.Inlines(depth-1, marks, true)
		if !nb && marks == 0 && t.Chance(1, 6) {
			for n := g.lines(); n > 0; n-- {
				rs = append([]model.Run{{Kind: "text", Text: g.Word()}, {Kind: "br"}}, rs...)
			}
		}
		g.O.NoBr = nb
		for i := range rs {
			rs[i].Link = l
		}
		return rs
	case 5:
		if g.O.NoImages {
			return text()
		}
		g.count("img")
		return []model.Run{{Kind: "img", Text: pbt.Pick(t, "", "alt", "an image", "pic"), Src: g.URL(), Title: pbt.Pick(t, "", "T"), Marks: marks}}
	case 6:
		if g.O.NoBr {
			return text()
		}
		g.count("br")
		rs := []model.Run{{Kind: "text", Text: g.Word(), Marks: marks}}
		for n := g.lines(); n > 0; n-- {
			rs = append(rs, model.Run{Kind: "br", Marks: marks}, model.Run{Kind: "text", Text: g.Word(), Marks: marks})
		}
		return rs
	case 7:
		if !g.O.Strike {
			return text()
		}
		g.count("del")
		return mark(model.Strike)
	}
	return text()
}

// lines is mostly 1, but there can be many lines.
func (g *G) lines() int {
	if g.T.Chance(1, 12) {
		return g.T.Range(2, 40)
	}
	return 1
}

// Blocks generates 1..n blocks.
func (g *G) Blocks(depth, n int) []model.Block {
	var out []model.Block
	if g.left <= 0 {
		n, depth = 1, 0
	}
	g.T.Each(1, n, func(int) {
		g.T.Span("block", func() { out = append(out, g.Block(depth)) })
	})
	return out
}

func (g *G) Block(depth int) model.Block {
	t := g.T
	k := t.Weighted(6, 3, 3, 3, 2, 2, 1, 2)
	if depth <= 0 && (k == 2 || k == 3 || k == 4) {
		k = 0
	}
	switch k {
	case 1:
		g.count("h")
		nb := g.O.NoBr
		g.O.NoBr = true
		b := model.Block{Kind: "h", Level: t.Range(1, 6), Runs: g.Inlines(2, 0, false)}
		g.O.NoBr = nb
		return b
	case 2, 3:
		b := model.Block{Kind: "ul"}
		if k == 3 {
			b.Kind, b.Start = "ol", pbt.Pick(t, 1, 1, 1, 2, 7, 0, 9, 10, 98, 99, 100, 999999980)
		}
		g.count(b.Kind)
		if t.Chance(1, 8) {
			n := t.Range(5, 13)
			t.Each(n, n, func(int) { b.Items = append(b.Items, g.Item(depth-1)) })
			return b
		}
		t.Each(1, 4, func(int) { b.Items = append(b.Items, g.Item(depth-1)) })
		return b
	case 4:
		if g.O.NoQuote {
			break
		}
		g.count("quote")
		return model.Block{Kind: "quote", Kids: g.Blocks(depth-1, 3)}
	case 5:
		g.count("pre")
		return g.CodeBlock()
	case 6:
		if g.O.NoHR {
			break
		}
		g.count("hr")
		return model.Block{Kind: "hr"}
	case 7:
		if g.O.Table && depth >= 0 {
			g.count("table")
			return g.Table()
		}
	}
	g.count("p")
	return model.Block{Kind: "p", Runs: g.Inlines(2, 0, false)}
}

// Item generates the blocks of a list item.
func (g *G) Item(depth int) []model.Block {
	t := g.T
	if t.Chance(1, 6) {
		return g.Blocks(depth, 3)
	}
	out := []model.Block{{Kind: "p", Runs: g.Inlines(2, 0, false)}}
	if t.Chance(1, 3) {
		out = append(out, g.Blocks(depth, 2)...)
	}
	return out
}

var codeLines = []string{"", "x := 1", "  indented", "\ttab", "*not em*", "# not a heading", "- no", "1. no", "> q", "<b>&amp;</b>", "a | b", "`tick`", "```", "~~~", "````go", "\\", "trailing  ", "&lt;", "[x](y)", "end"}

// CodeBlock generates a code block with hostile content.
func (g *G) CodeBlock() model.Block {
	t := g.T
	var ls []string
	max := 5
	if t.Chance(1, 30) {
		max = 60
	}
	t.Each(1, max, func(int) { ls = append(ls, pbt.Pick(t, codeLines...)) })
	ls[t.Intn(len(ls))] += g.Word()
	return model.Block{Kind: "code", Code: strings.Join(ls, "\n"), Lang: pbt.Pick(t, "", "", "go", "c++", "objective-c", "erlang-repl")}
}

// Table generates a regular grid with inline-only single-line cells.
func (g *G) Table() model.Block {
	t := g.T
	cols, rows := t.Range(1, 4), t.Range(0, 4)
	switch t.Weighted(30, 1, 1) {
	case 1:
		cols = t.Range(5, 20)
	case 2:
		rows = t.Range(5, 40)
	}
	b := model.Block{Kind: "table"}
	for i := 0; i < cols; i++ {
		b.Align = append(b.Align, pbt.Pick(t, "none", "none", "left", "right", "center"))
	}
	nb := g.O.NoBr
	g.O.NoBr = true
	for r := 0; r <= rows; r++ {
		var row [][]model.Run
		for c := 0; c < cols; c++ {
			if r > 0 && t.Chance(1, 6) {
				row = append(row, nil)
				continue
			}
			row = append(row, g.Inlines(1, 0, false))
		}
		b.Rows = append(b.Rows, row)
	}
	g.O.NoBr = nb
	return b
}

// ---------------------------------------------------------------- HTML

// Style decides how the same document is spelled.
type Style struct {
	T     *pbt.T
	Plain bool // no variation at all
	NoCmt bool
	// SameNest nests elements like the plain spelling.
	SameNest bool
	Strikes  []string
}

func (s *Style) chance(a, b int) bool { return !s.Plain && s.T.Chance(a, b) }
func (s *Style) pick(vs ...string) string {
	if s.Plain {
		return vs[0]
	}
	return pbt.Pick(s.T, vs...)
}

// Esc writes literal text as HTML text.
func (s *Style) Esc(x string) string {
	if s.Plain {
		return html.EscapeString(x)
	}
	var b strings.Builder
	for _, c := range x {
		switch {
		case c == '<':
			b.WriteString(s.pick("&lt;", "&#60;", "&#x3c;"))
		case c == '&':
			b.WriteString(s.pick("&amp;", "&#38;"))
		case c == '"':
			b.WriteString(s.pick("&quot;", "&#34;"))
		case c == '>':
			b.WriteString(s.pick("&gt;", ">"))
		case s.chance(1, 40):
			fmt.Fprintf(&b, "&#%d;", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

// ws is white space that has no meaning where it is put.
func (s *Style) ws() string {
	if s.Plain {
		return ""
	}
	r := s.pick("", "", "\n", " ", "\n  ", "\t", "\r\n", "\n\n\n")
	if !s.NoCmt && s.chance(1, 12) {
		r += s.pick("<!-- c -->", "<!---->", "<script>var x='<p>no</p>'</script>", "<style>p{}</style>") + s.pick("", "\n")
	}
	return r
}

func (s *Style) attrs() string {
	return s.pick("", "", "", "", ` class="c"`, ` id=x`, ` style="color:red"`, ` data-x='1 > 0'`)
}

func (s *Style) tag(names ...string) (string, string) {
	n := s.pick(names...)
	if s.chance(1, 10) {
		return "<" + strings.ToUpper(n) + s.attrs() + ">", "</" + strings.ToUpper(n) + ">"
	}
	return "<" + n + s.attrs() + ">", "</" + n + ">"
}

// text spells literal text: blanks may become longer runs of white space.
func (s *Style) text(x string) string {
	var b strings.Builder
	for i, w := range strings.Split(x, " ") {
		if i > 0 {
			b.WriteString(s.pick(" ", " ", " ", "  ", "\n", "\n\t", " \r\n "))
		}
		if r := []rune(w); len(r) > 1 && s.chance(1, 60) {
			// something that is not there at all
			n := s.T.Range(1, len(r)-1)
			b.WriteString(s.Esc(string(r[:n])))
			b.WriteString(s.nothing())
			b.WriteString(s.Esc(string(r[n:])))
			continue
		}
		b.WriteString(s.Esc(w))
	}
	return b.String()
}

// nothing is an element or comment that adds nothing to a line.
func (s *Style) nothing() string {
	r := s.pick("<span></span>", "<b></b>", "<i></i>", "<ins></ins>", "<x-y></x-y>", "<code></code>", "<img>", "<script>x</script>", "<input>", "<b><i></i></b>")
	if !s.NoCmt && s.T.Bool() {
		r = s.pick("<!-- c -->", "<!---->", "<!-- a > b -->", "<!--\n-->")
	}
	return r
}

// synonyms are the elements for each mark.
var synonyms = map[int][]string{
	model.Strong: {"strong", "b"},
	model.Em:     {"em", "i"},
	model.Strike: {"del", "s", "strike"},
}

// span puts an element in a span at times.
func (s *Style) span(o, c string) (string, string) {
	if s.chance(1, 3) {
		n := 1
		if s.chance(1, 6) {
			n = s.T.Range(2, 12)
		}
		for ; n > 0; n-- {
			o, c = "<span"+s.attrs()+">"+o, c+"</span>"
		}
	}
	return o, c
}

// split cuts runs in two at times, in the middle of a word or between two of them.
func (s *Style) split(rs []model.Run) (l, r []model.Run, ok bool) {
	if !s.chance(1, 15) {
		return nil, nil, false
	}
	k := s.T.Intn(len(rs))
	x := rs[k]
	if x.Link != nil && (k == 0 || rs[k-1].Link == x.Link) {
		return nil, nil, false
	}
	if k > 0 && s.T.Bool() {
		return rs[:k], rs[k:], true
	}
	w := []rune(x.Text)
	if x.Kind != "text" || x.Link != nil || len(w) < 2 {
		return nil, nil, false
	}
	n := s.T.Range(1, len(w)-1)
	if unicode.IsSpace(w[n-1]) || unicode.IsSpace(w[n]) {
		return nil, nil, false
	}
	a, b := x, x
	a.Text, b.Text = string(w[:n]), string(w[n:])
	l = append(append(l, rs[:k]...), a)
	r = append(append(r, b), rs[k+1:]...)
	return l, r, true
}

// Inline writes runs. Runs with common marks are put in common elements.
func (s *Style) Inline(rs []model.Run) string { return s.inl(rs, 0, nil) }

func (s *Style) inl(rs []model.Run, active int, link *model.Link) string {
	var b strings.Builder
	for i := 0; i < len(rs); {
		r := rs[i]
		// candidates: decorations of r that are not active yet
		if r.Link != nil && link == nil {
			j := i
			for j < len(rs) && rs[j].Link == r.Link {
				j++
			}
			common := -1
			for _, x := range rs[i:j] {
				common &= x.Marks
			}
			extra := common &^ active
			if extra == 0 || s.Plain || s.SameNest || s.T.Bool() {
				fmt.Fprintf(&b, `<a href="%s"`, s.Esc(r.Link.Href))
				if r.Link.Title != "" {
					fmt.Fprintf(&b, ` title="%s"`, s.Esc(r.Link.Title))
				}
				b.WriteString(s.attrs() + ">" + s.inl(rs[i:j], active, r.Link) + "</a>")
				i = j
				continue
			}
		}
		if m := r.Marks &^ active; m != 0 {
			// take the decoration reaching furthest, so that elements nest
			best, bj := 0, i
			for _, bit := range []int{model.Strong, model.Em, model.Strike} {
				if m&bit == 0 {
					continue
				}
				j := i
				for j < len(rs) && rs[j].Marks&bit != 0 && (link != nil || rs[j].Link == nil || !splitsLink(rs, i, j)) {
					j++
				}
				if j > bj {
					best, bj = bit, j
				}
			}
			o, c := s.tag(synonyms[best]...)
			if l, r, ok := s.split(rs[i:bj]); ok {
				// two elements side by side are one
				o2, c2 := s.tag(synonyms[best]...)
				o2, c2 = s.span(o2, c2)
				o, c = s.span(o, c)
				b.WriteString(o + s.inl(l, active|best, link) + c + o2 + s.inl(r, active|best, link) + c2)
			} else if s.chance(1, 25) {
				// the inner element is redundant
				o2, c2 := s.tag(synonyms[best]...)
				if !slices.ContainsFunc(rs[i:bj], func(x model.Run) bool { return x.Link != nil }) {
					// (with a span in between, the order of link and emphasis stays)
					o2, c2 = s.span(o2, c2)
				}
				b.WriteString(o + o2 + s.inl(rs[i:bj], active|best, link) + c2 + c)
			} else {
				b.WriteString(o + s.inl(rs[i:bj], active|best, link) + c)
			}
			i = bj
			continue
		}
		switch r.Kind {
		case "text":
			x := s.text(r.Text)
			if s.chance(1, 12) && !(s.SameNest && strings.TrimSpace(x) == "") {
				o, c := "<span"+s.attrs()+">", "</span>"
				if near := func(k int) bool {
					if k < 0 || k >= len(rs) {
						return active != 0
					}
					return rs[k].Marks&^r.Marks != 0
				}; !near(i-1) && !near(i+1) {
					// (see the finding INS-BOLD)
					o, c = s.tag("span", "ins", "font", "small", "u", "mark", "abbr", "x-y", "time", "sub")
				}
				x = o + x + c
				if strings.HasPrefix(o, "<span") && s.chance(1, 6) {
					n := s.T.Range(2, 12)
					x = strings.Repeat("<span>", n) + x + strings.Repeat("</span>", n)
				}
			}
			b.WriteString(x)
		case "code":
			o, c := s.tag("code", "code", "samp", "kbd", "tt", "var")
			b.WriteString(o + html.EscapeString(r.Text) + c)
		case "br":
			b.WriteString(s.pick("<br>", "<br/>", "<br />", "<BR>"))
		case "img":
			fmt.Fprintf(&b, `<img src="%s"`, s.Esc(r.Src))
			if r.Text != "" || s.chance(1, 2) {
				fmt.Fprintf(&b, ` alt="%s"`, s.Esc(r.Text))
			}
			if r.Title != "" {
				fmt.Fprintf(&b, ` title="%s"`, s.Esc(r.Title))
			}
			b.WriteString(s.pick(">", " />"))
		}
		i++
	}
	return b.String()
}

// splitsLink: would an element from i to j cut a link in two?
func splitsLink(rs []model.Run, i, j int) bool {
	l := rs[j].Link
	k := j
	for k < len(rs) && rs[k].Link == l {
		if rs[k].Marks&rs[i].Marks != rs[i].Marks {
			return true
		}
		k++
	}
	k = j
	for k > i && rs[k].Link == l {
		k--
	}
	return false
}

// Blocks writes blocks.
func (s *Style) Blocks(bs []model.Block) string {
	var b strings.Builder
	b.WriteString(s.ws())
	for i := 0; i < len(bs); {
		n := 1
		x := ""
		if s.chance(1, 10) {
			n = min(len(bs)-i, s.T.Range(1, 2))
			o, c := s.tag("div", "section", "article", "main")
			for _, y := range bs[i : i+n] {
				x += s.ws() + s.block(y)
			}
			x = o + x + s.ws() + c
		} else {
			x = s.block(bs[i])
		}
		b.WriteString(x + s.ws())
		i += n
	}
	return b.String()
}

func (s *Style) block(x model.Block) string {
	switch x.Kind {
	case "p":
		o, c := s.tag("p", "p", "p", "div")
		return o + s.pick("", "", " ", "\n") + s.Inline(x.Runs) + s.pick("", "", " ", "\n") + c
	case "h":
		o, c := s.tag(fmt.Sprintf("h%d", x.Level))
		return o + s.pick("", "", " ", "\n") + s.Inline(x.Runs) + s.pick("", "", " ", "\n") + c
	case "hr":
		return s.pick("<hr>", "<hr/>", "<hr />", "<HR>")
	case "code":
		return s.Pre(x)
	case "quote":
		o, c := s.tag("blockquote")
		return o + s.Blocks(x.Kids) + c
	case "ul", "ol":
		var b strings.Builder
		if x.Kind == "ul" {
			b.WriteString("<ul" + s.attrs() + ">")
		} else {
			b.WriteString("<ol" + s.attrs())
			if x.Start != 1 || s.chance(1, 4) {
				fmt.Fprintf(&b, s.pick(` start="%d"`, ` start=%d`, ` start='%d'`), x.Start)
			}
			b.WriteString(">")
		}
		b.WriteString(s.ws())
		for _, it := range x.Items {
			cl := "</li>"
			if s.chance(1, 8) {
				cl = ""
			}
			b.WriteString("<li" + s.attrs() + ">" + s.item(it) + cl + s.ws())
		}
		b.WriteString("</" + x.Kind + ">")
		return b.String()
	case "table":
		return s.table(x)
	}
	panic("kind " + x.Kind)
}

func (s *Style) item(bs []model.Block) string {
	if len(bs) > 0 && bs[0].Kind == "p" && !s.chance(1, 3) {
		// the first paragraph as bare text
		return s.pick("", "", " ", "\n  ") + s.Inline(bs[0].Runs) + s.pick("", "\n") + s.rest(bs[1:])
	}
	return s.Blocks(bs)
}
func (s *Style) rest(bs []model.Block) string {
	if len(bs) == 0 {
		return ""
	}
	return s.Blocks(bs)
}

// Pre writes a code block.
func (s *Style) Pre(x model.Block) string {
	lang := ""
	if x.Lang != "" {
		lang = s.pick("language-", "lang-") + x.Lang
		lang = ` class="` + s.pick("", "hljs ") + lang + s.pick("", " x") + `"`
	}
	code := html.EscapeString(x.Code)
	nl := ""
	if strings.HasPrefix(code, "\n") || s.chance(1, 3) {
		nl = "\n" // swallowed by the HTML parser when it directly follows <pre>
	}
	tail := ""
	if strings.HasSuffix(code, "\n") || s.chance(1, 3) {
		tail = "\n"
	}
	switch s.pick("pre-code", "pre", "code-on-pre") {
	case "pre":
		return "<pre" + lang + ">" + nl + code + tail + "</pre>"
	case "code-on-pre":
		if nl != "" && !s.Plain {
			return "<pre" + lang + ">" + nl + "<code>" + code + tail + "</code></pre>"
		}
		return "<pre" + lang + "><code>" + code + tail + "</code></pre>"
	}
	return "<pre><code" + lang + ">" + code + tail + "</code></pre>"
}

func (s *Style) table(x model.Block) string {
	var b strings.Builder
	b.WriteString("<table" + s.attrs() + ">" + s.ws())
	cell := func(tag string, c int, rs []model.Run) string {
		al := ""
		if x.Align[c] != "none" {
			al = fmt.Sprintf(` align="%s"`, x.Align[c])
		}
		return "<" + tag + al + ">" + s.pick("", "", " ", "\n") + s.Inline(rs) + s.pick("", " ") + "</" + tag + ">" + s.ws()
	}
	thead := s.pick("thead", "plain")
	if thead == "thead" {
		b.WriteString("<thead>" + s.ws())
	}
	b.WriteString("<tr>" + s.ws())
	for c, rs := range x.Rows[0] {
		b.WriteString(cell("th", c, rs))
	}
	b.WriteString("</tr>" + s.ws())
	if thead == "thead" {
		b.WriteString("</thead>" + s.ws())
	}
	tb := s.pick("tbody", "plain")
	if tb == "tbody" {
		b.WriteString("<tbody>" + s.ws())
	}
	for _, r := range x.Rows[1:] {
		b.WriteString("<tr>" + s.ws())
		for c, rs := range r {
			b.WriteString(cell("td", c, rs))
		}
		b.WriteString("</tr>" + s.ws())
	}
	if tb == "tbody" {
		b.WriteString("</tbody>" + s.ws())
	}
	b.WriteString("</table>")
	return b.String()
}

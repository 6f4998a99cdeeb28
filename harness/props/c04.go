package props

import (
	"fmt"
	"html"
	"strings"
	"unicode"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C04", Quick: 500000, Thorough: 2000000, Run: literal,
		Rule: "text with at least one Markdown-significant character, in a drawn context, converted in smart escape mode, read back and compared literally"})
}

var hostileRunes = []rune("*_`~#-+.)>[]()!\\|=<&:\"'1234567890 ab\u00e9\u3002\u2003$^{}/@%;,?")

var hostileWords = []string{"*", "**", "***", "_", "__", "`", "``", "```", "~", "~~", "~~~", "#", "##", "######", "#######", "-", "--", "---", "+", "1.", "1)", "12.", "123456789.", "1234567890.", ">", ">>", "[", "]", "[a]", "[a](b)", "![a](b)", "![", "](", ")", "!", "<b>", "</b>", "<", "\\", "\\\\", "\\*", "\\_", "\\#", "|", "a|b", "===", "=", "***", "- -", "* *", "foo*", "*foo", "_foo", "foo_", "snake_case", "a*b*c", "**b**", "__b__", "~~s~~", "`c`", "``c` `", "C#", "#5", "3.14", "2) x", "<!--", "-->", "http://x.y/_a_", "<http://x.y>", "[a]: /u", "[a]:", "| - |", "|-|", ":-", "a\\", "*)", "(*", "*.", ".*", "_.", "**.", "é*", "*é", "“*”", "$x$", "^", "{#id}", ":::", "\\`", "`\\`", "\\[", "[\\]", "]\\(", "![]", "[]()", "[[x]]", "1\\.", "-\\-", "&", "&&", "AT&T", "&;", "& amp;", "a\u00a0b", "#\u00a0b", "-\u00a0b", "1.\u00a0b", "*\u00a0*", "_\u2003a", "a\u3000*"}

// hostileLine draws one line of text.
func hostileLine(t *pbt.T) string {
	if t.Chance(1, 4) {
		return construct(t)
	}
	var b strings.Builder
	t.Each(1, 5, func(i int) {
		if i > 0 && t.Chance(2, 3) {
			b.WriteByte(' ')
		}
		switch t.Weighted(2, 4, 2) {
		case 0:
			b.WriteString(pbt.Pick(t, "a", "foo", "Bar baz", "7", "é", "x1"))
		case 1:
			b.WriteString(pbt.Pick(t, hostileWords...))
		case 2:
			t.Each(1, 6, func(int) { b.WriteRune(pbt.Pick(t, hostileRunes...)) })
		}
	})
	ascii := func(r rune) bool { return r < 128 && unicode.IsSpace(r) }
	return strings.TrimSpace(strings.Join(strings.FieldsFunc(b.String(), ascii), " "))
}

// construct draws a line (or the part of one) that is a whole construct of Markdown.
func construct(t *pbt.T) string {
	n := func(max int, s string) string { return strings.Repeat(s, t.Intn(max+1)) }
	word := func() string { return pbt.Pick(t, "a", "foo", "x y", "é", "7", "a*b", "b_c", "-", "#", "") }
	gap := func() string { return pbt.Pick(t, " ", "", " ", "\u00a0") }
	var s string
	switch t.Intn(14) {
	case 0: // thematic break, setext heading
		c := pbt.Pick(t, "*", "-", "_", "=", "+", "~")
		s = c
		for i := 1 + t.Intn(5); i > 0; i-- {
			s += pbt.Pick(t, "", " ", "") + c
		}
		if t.Bool() {
			s = strings.TrimSuffix(strings.Repeat(c+" ", 2+t.Intn(4)), " ")
		}
	case 1: // heading
		s = "#" + n(6, "#") + gap() + word() + gap() + n(3, "#")
	case 2, 3: // list item
		s = pbt.Pick(t, "-", "+", "*", "1.", "0)", "12.", "007)", "123456789.", "1234567890.", "999999999)") + gap() + word()
		if t.Bool() {
			s = pbt.Pick(t, "-", "+", "*", "2.", ">") + " " + s
		}
	case 4: // fence
		s = pbt.Pick(t, "```", "~~~") + n(3, pbt.Pick(t, "`", "~")) + gap() + pbt.Pick(t, "", "go", "a b", "`", "~")
	case 5: // quote
		s = ">" + n(2, ">") + gap() + word()
	case 6: // reference
		s = "[" + pbt.Pick(t, "a", "a b", "^1", "!", "") + "]" + pbt.Pick(t, ":", "", "[]", "[b]", "(", " (u)", "(u)", "(<u>)", "(u 't')") + gap() + pbt.Pick(t, "/u", "<u>", "/u \"t\"", "")
		s = pbt.Pick(t, "", "!", "a", "\\") + s
	case 7: // html
		s = pbt.Pick(t, "<a>", "<a b='c'>", "</a>", "<br/>", "<!-- c -->", "<?x?>", "<!X>", "<![CDATA[x]]>", "<a@b.c>", "<http://x>", "< a>", "<1>", "<a", "<script>", "<pre", "</p") + gap() + word()
	case 8: // table
		s = pbt.Pick(t, "|", "") + pbt.Pick(t, "-", ":-", "-:", ":-:", "---", "a") + pbt.Pick(t, "|", " | ") + pbt.Pick(t, "-", ":-", "---", "b") + pbt.Pick(t, "|", "")
	case 9, 10, 11: // emphasis, struck text
		d := pbt.Pick(t, "*", "_", "**", "__", "***", "~", "~~", "*_", "_*", "**_")
		e := pbt.Pick(t, d, d, "*", "_", "**")
		s = word() + d + pbt.Pick(t, "", "", " ", ".", "(", "\u201c") + word() + pbt.Pick(t, "", "", " ", ".", ")") + e + word()
	case 12: // code
		d := n(3, "`") + "`"
		s = word() + d + gap() + word() + pbt.Pick(t, "", "`", "``", "\\") + gap() + d + word()
	case 13: // escapes, references
		s = word() + pbt.Pick(t, "\\", "\\\\", "\\a", "\\*", "\\<", "& amp;", "&;", "&#", "&x") + word() + pbt.Pick(t, "\\", "*", "")
	}
	if t.Chance(1, 4) {
		s = word() + " " + s
	}
	ascii := func(r rune) bool { return r < 128 && unicode.IsSpace(r) }
	if s = strings.TrimSpace(strings.Join(strings.FieldsFunc(s, ascii), " ")); s == "" {
		return "*"
	}
	return s
}

type litCtx struct {
	name string
	wrap func(h string) string
	want func(rs []model.Run) []model.Block
	br   bool
}

func para(rs []model.Run) []model.Block { return []model.Block{{Kind: "p", Runs: rs}} }
func withMarks(rs []model.Run, m int) []model.Run {
	var out []model.Run
	for _, r := range rs {
		r.Marks = m
		out = append(out, r)
	}
	return out
}
func around(x model.Run) func(rs []model.Run) []model.Block {
	return func(rs []model.Run) []model.Block {
		sp := model.Run{Kind: "text", Text: " "}
		return para(append(append(append([]model.Run{}, rs...), sp, x, sp), rs...))
	}
}
func marked(m int, l *model.Link) func(rs []model.Run) []model.Block {
	return func(rs []model.Run) []model.Block {
		out := []model.Run{{Kind: "text", Text: "A "}}
		for _, r := range rs {
			r.Marks, r.Link = m, l
			out = append(out, r)
		}
		return para(append(out, model.Run{Kind: "text", Text: " Z"}))
	}
}

var litCtxs = []litCtx{
	{"p", func(h string) string { return "<p>" + h + "</p>" }, para, true},
	{"p2", func(h string) string { return "<p>Before</p><p>" + h + "</p><p>After</p>" }, func(rs []model.Run) []model.Block {
		return []model.Block{para([]model.Run{{Kind: "text", Text: "Before"}})[0], para(rs)[0], para([]model.Run{{Kind: "text", Text: "After"}})[0]}
	}, true},
	{"h2", func(h string) string { return "<h2>" + h + "</h2>" }, func(rs []model.Run) []model.Block {
		return []model.Block{{Kind: "h", Level: 2, Runs: rs}}
	}, false},
	{"li", func(h string) string { return "<ul><li>" + h + "</li><li>" + h + "</li></ul>" }, func(rs []model.Run) []model.Block {
		return []model.Block{{Kind: "ul", Items: [][]model.Block{para(rs), para(rs)}}}
	}, true},
	{"ol", func(h string) string { return "<ol><li>" + h + "</li><li><p>" + h + "</p><p>" + h + "</p></li></ol>" }, func(rs []model.Run) []model.Block {
		return []model.Block{{Kind: "ol", Start: 1, Items: [][]model.Block{para(rs), append(para(rs), para(rs)...)}}}
	}, true},
	{"quote", func(h string) string { return "<blockquote>" + h + "</blockquote>" }, func(rs []model.Run) []model.Block {
		return []model.Block{{Kind: "quote", Kids: para(rs)}}
	}, true},
	{"strong", func(h string) string { return "<p>A <strong>" + h + "</strong> Z</p>" }, marked(model.Strong, nil), false},
	{"em", func(h string) string { return "<p>A <em>" + h + "</em> Z</p>" }, marked(model.Em, nil), false},
	{"link", func(h string) string { return `<p>A <a href="/u">` + h + "</a> Z</p>" }, marked(0, &model.Link{Href: "/u"}), false},
	{"after-strong", func(h string) string { return "<p><strong>S</strong> " + h + "</p>" }, func(rs []model.Run) []model.Block {
		return para(append([]model.Run{{Kind: "text", Text: "S", Marks: model.Strong}, {Kind: "text", Text: " "}}, rs...))
	}, true},
	{"div", func(h string) string { return "Before<div>" + h + "</div>After" }, func(rs []model.Run) []model.Block {
		return []model.Block{para([]model.Run{{Kind: "text", Text: "Before"}})[0], para(rs)[0], para([]model.Run{{Kind: "text", Text: "After"}})[0]}
	}, true},
	{"del", func(h string) string { return "<p>A <del>" + h + "</del> Z</p>" }, marked(model.Strike, nil), false},
	{"strong-em", func(h string) string { return "<p>A <b><i>" + h + "</i></b> Z</p>" }, marked(model.Strong|model.Em, nil), false},
	{"em-strong", func(h string) string { return "<p>A <em>e <strong>" + h + "</strong> f</em> Z</p>" }, func(rs []model.Run) []model.Block {
		out := []model.Run{{Kind: "text", Text: "A "}, {Kind: "text", Text: "e ", Marks: model.Em}}
		for _, r := range rs {
			r.Marks = model.Em | model.Strong
			out = append(out, r)
		}
		return para(append(out, model.Run{Kind: "text", Text: " f", Marks: model.Em}, model.Run{Kind: "text", Text: " Z"}))
	}, false},
	{"link-em", func(h string) string { return `<p>A <em><a href="/u">` + h + "</a></em> Z</p>" }, marked(model.Em, &model.Link{Href: "/u"}), false},
	{"strong-first", func(h string) string { return "<p><strong>" + h + "</strong> Z</p>" }, func(rs []model.Run) []model.Block {
		return para(append(withMarks(rs, model.Strong), model.Run{Kind: "text", Text: " Z"}))
	}, false},
	{"li-strong", func(h string) string { return "<ol><li><strong>" + h + "</strong></li></ol>" }, func(rs []model.Run) []model.Block {
		return []model.Block{{Kind: "ol", Start: 1, Items: [][]model.Block{para(withMarks(rs, model.Strong))}}}
	}, false},
	{"around-code", func(h string) string { return "<p>" + h + " <code>x y</code> " + h + "</p>" }, around(model.Run{Kind: "code", Text: "x y"}), true},
	{"around-em", func(h string) string { return "<p>" + h + " <em>E</em> " + h + "</p>" }, around(model.Run{Kind: "text", Text: "E", Marks: model.Em}), true},
	{"around-img", func(h string) string { return `<p>` + h + ` <img src="/i"> ` + h + "</p>" }, around(model.Run{Kind: "img", Src: "/i"}), true},
	{"around-link", func(h string) string { return `<p>` + h + ` <a href="/u">L</a> ` + h + "</p>" }, around(model.Run{Kind: "text", Text: "L", Link: &model.Link{Href: "/u"}}), true},
	{"glued-code", func(h string) string { return "<p>" + h + "<code>x</code>" + h + "</p>" }, func(rs []model.Run) []model.Block {
		return para(append(append(append([]model.Run{}, rs...), model.Run{Kind: "code", Text: "x"}), rs...))
	}, true},
	{"glued-img", func(h string) string { return `<p>` + h + `<img src="/i">` + h + "</p>" }, func(rs []model.Run) []model.Block {
		return para(append(append(append([]model.Run{}, rs...), model.Run{Kind: "img", Src: "/i"}), rs...))
	}, true},
	{"glued-link", func(h string) string { return `<p>` + h + `<a href="/u">L</a>` + h + "</p>" }, func(rs []model.Run) []model.Block {
		return para(append(append(append([]model.Run{}, rs...), model.Run{Kind: "text", Text: "L", Link: &model.Link{Href: "/u"}}), rs...))
	}, true},
	{"h1-after", func(h string) string { return "<p>" + h + "</p><h1>" + h + "</h1><p>" + h + "</p>" }, func(rs []model.Run) []model.Block {
		return []model.Block{para(rs)[0], {Kind: "h", Level: 1, Runs: rs}, para(rs)[0]}
	}, false},
	{"h6", func(h string) string { return "<h6>" + h + "</h6>" }, func(rs []model.Run) []model.Block {
		return []model.Block{{Kind: "h", Level: 6, Runs: rs}}
	}, false},
	{"li-quote", func(h string) string {
		return "<ul><li><blockquote><p>" + h + "</p><ul><li>" + h + "</li></ul></blockquote></li></ul>"
	}, func(rs []model.Run) []model.Block {
		return []model.Block{{Kind: "ul", Items: [][]model.Block{{{Kind: "quote", Kids: []model.Block{para(rs)[0], {Kind: "ul", Items: [][]model.Block{para(rs)}}}}}}}}
	}, true},
	{"nested-li", func(h string) string { return "<ul><li>" + h + "<ol><li>" + h + "</li></ol></li></ul>" }, func(rs []model.Run) []model.Block {
		return []model.Block{{Kind: "ul", Items: [][]model.Block{{para(rs)[0], {Kind: "ol", Start: 1, Items: [][]model.Block{para(rs)}}}}}}
	}, true},
	{"li-li", func(h string) string { return "<ul><li><ul><li>" + h + "</li></ul></li></ul>" }, func(rs []model.Run) []model.Block {
		return []model.Block{{Kind: "ul", Items: [][]model.Block{{{Kind: "ul", Items: [][]model.Block{para(rs)}}}}}}
	}, true},
	{"bare", func(h string) string { return h }, para, true},
	{"dl", func(h string) string { return "<dl><dt>" + h + "</dt><dd>" + h + "</dd></dl>" }, func(rs []model.Run) []model.Block {
		return append(para(rs), para(rs)...)
	}, true},
	{"td", func(h string) string { return "<table><tr><th>H</th></tr><tr><td>" + h + "</td></tr></table>" }, nil, false},
}

func literal(t *pbt.T) {
	c := GenConfig(t)
	cx := pbt.Pick(t, litCtxs...)
	var rs []model.Run
	var h strings.Builder
	nl := 3
	if !cx.br {
		nl = 1
	}
	s := &gen.Style{T: t}
	hostile := false
	t.Each(1, nl, func(i int) {
		l := hostileLine(t)
		if l == "" {
			l = "a"
		}
		if i > 0 {
			rs = append(rs, model.Run{Kind: "br"})
			h.WriteString("<br>")
		}
		rs = append(rs, model.Run{Kind: "text", Text: l})
		hostile = hostile || strings.ContainsAny(l, "*_`~#-+.)>[]!\\|=<&")
		// the same text may be spread over several text nodes
		if t.Chance(1, 4) {
			for i, r := range strings.Split(l, " ") {
				if i > 0 {
					h.WriteString(" ")
				}
				if t.Chance(1, 3) {
					h.WriteString("<span>" + html.EscapeString(r) + "</span>")
				} else {
					h.WriteString(s.Esc(r))
				}
			}
		} else {
			h.WriteString(s.Esc(l))
		}
	})
	part := h.String()
	if t.Chance(1, 1500) {
		// a very long text
		t.Label("long")
		sep, x := " ", model.Run{Kind: "text", Text: " "}
		if cx.br && t.Bool() {
			sep, x = "<br>", model.Run{Kind: "br"}
		}
		var all []model.Run
		n := gen.Times(t, len(part), 80000)
		for i := 0; i < n; i++ {
			if i > 0 {
				all = append(all, x)
			}
			all = append(all, rs...)
		}
		rs, part = all, strings.TrimSuffix(strings.Repeat(part+sep, n), sep)
	}
	if charRef(rs) {
		t.Discard()
	}
	// goldmark never closes a strikethrough directly after an (escaped) tilde
	if cx.name == "del" && (!c.Strike || strings.HasSuffix(rs[len(rs)-1].Text, "~")) {
		t.Discard()
	}
	in := cx.wrap(part)
	t.Note("html", in)
	t.Note("config", c.String())
	t.Label(cx.name)
	if hostile {
		t.NonTrivial(in)
	}
	md := Convert(t, c, in)
	t.Note("markdown", md)
	t.Sample(fmt.Sprintf("%q => %q", in, md))
	var want []model.Block
	if cx.want != nil {
		want = cx.want(rs)
	} else if c.Table {
		want = []model.Block{{Kind: "table", Align: []string{"none"}, Rows: [][][]model.Run{{{{Kind: "text", Text: "H"}}}, {rs}}}}
	} else {
		want = para(append([]model.Run{{Kind: "text", Text: "H "}}, rs...)) // the cells side by side
	}
	got := model.String(model.ParseMarkdown(md, c.Flavor()))
	if w := model.String(want); w != got {
		t.Fatalf("the text does not read back literally\nwant:\n%sgot:\n%s", w, got)
	}
}

// charRef: text spelling a character reference is documented not to be escaped.
func charRef(rs []model.Run) bool {
	seen := map[string]bool{}
	for _, r := range rs {
		if seen[r.Text] {
			continue
		}
		seen[r.Text] = true
		for i := range r.Text {
			if r.Text[i] == '&' {
				if x := html.UnescapeString(r.Text[i:]); !strings.HasPrefix(x, "&") || len(x) != len(r.Text[i:]) && strings.Contains(r.Text[i:min(len(r.Text), i+34)], ";") {
					return true
				}
			}
		}
	}
	return false
}

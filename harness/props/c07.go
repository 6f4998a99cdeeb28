package props

import (
	"fmt"
	"html"
	"strings"
	"unicode"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C07", Quick: 120000, Thorough: 3000000, Run: codeVerbatim,
		Rule: "code with at least one character that is significant in Markdown or HTML (or more than one line), in a drawn context"})
}

var codeBits = []string{"a", "x1", " ", "  ", "    ", "`", "``", "```", "````", "`````", "~", "~~~", "~~~~", "*", "**", "_", "#", "# h", "-", "- i", "1. i", ">", "> q", "[a](b)", "![i](j)", "<b>", "</code>", "</pre>", "<br>", "<!-- c -->", "&amp;", "&", "&lt;", "&#42;", "\\", "\\\\", "\\*", "\\`", "---", "===", "***", "\"", "'", "$", "é", "日本", "👍🏽", "\u00a0", "\u2028", "\uf002", "\u200b", "func f() {", "}", "if a < b && c > d {", "<div class=\"x\">", "```go", "~~~ x", "http://a.b/_c_", "|", "a|b", ":--", "\t", "\u00ad", "=", "+", "^", "{", ".", "<!--THE END-->"}

func codeLine(t *pbt.T) string {
	var b strings.Builder
	t.Each(0, 6, func(int) { b.WriteString(pbt.Pick(t, codeBits...)) })
	return b.String()
}

// nest puts a block into drawn containers, with paragraphs before and after.
func nest(t *pbt.T, depth int, h string, bs []model.Block) (string, []model.Block) {
	n := 0
	word := func() string { n++; return fmt.Sprintf("word%d", n) }
	wp := func(w string) model.Block {
		return model.Block{Kind: "p", Runs: []model.Run{{Kind: "text", Text: w}}}
	}
	sib := func(h string, bs []model.Block) (string, []model.Block) {
		if t.Chance(1, 2) {
			w := word()
			h, bs = "<p>"+w+"</p>"+h, append([]model.Block{wp(w)}, bs...)
		}
		if t.Chance(1, 2) {
			w := word()
			h, bs = h+"<p>"+w+"</p>", append(append([]model.Block{}, bs...), wp(w))
		}
		return h, bs
	}
	h, bs = sib(h, bs)
	for i := 0; i < depth; i++ {
		switch t.Weighted(2, 2, 2, 1) {
		case 0:
			h, bs = "<ul><li>"+h+"</li></ul>", []model.Block{{Kind: "ul", Items: [][]model.Block{bs}}}
		case 1:
			st := pbt.Pick(t, 1, 9, 10, 99, 999)
			w := word()
			h = fmt.Sprintf(`<ol start="%d"><li>%s</li><li>%s</li></ol>`, st, w, h)
			bs = []model.Block{{Kind: "ol", Start: st, Items: [][]model.Block{{wp(w)}, bs}}}
		case 2:
			h, bs = "<blockquote>"+h+"</blockquote>", []model.Block{{Kind: "quote", Kids: bs}}
		case 3:
			h = pbt.Pick(t, "<div>", "<section>", "<article>") + h
		}
		h, bs = sib(h, bs)
	}
	return h, bs
}

func codeVerbatim(t *pbt.T) {
	c := GenConfig(t)
	if t.Bool() {
		inlineCode(t, c)
		return
	}
	var ls []string
	t.Each(1, 6, func(int) { ls = append(ls, codeLine(t)) })
	code := strings.Join(ls, "\n")
	if t.Chance(1, 500) {
		t.Label("long")
		switch n := gen.Times(t, len(code), 100000); t.Intn(3) {
		case 0:
			code = strings.Repeat(code+"\n", n)
			code += "end"
		case 1:
			code = "x" + strings.Repeat(strings.ReplaceAll(code, "\n", " "), n) + "x"
		case 2:
			code = strings.Repeat(pbt.Pick(t, "`", "~"), min(n, 3000)) + "\n" + code
		}
	}
	// spell it
	if code == "" {
		t.Discard() // an empty code element is documented to be dropped
	}
	var b strings.Builder
	var open []string // elements within the code, and how long they last
	var last []int
	for i, r := range code {
		if i > 3000 {
			b.WriteString(esc1(r))
			continue
		}
		if t.Chance(1, 30) && len(open) < 3 {
			tag := pbt.Pick(t, "span", "b", "em", "a href='/x'", "i", "mark", "del", "u")
			b.WriteString("<" + tag + `>`)
			open, last = append(open, strings.Fields(tag)[0]), append(last, i+t.Intn(6))
		}
		if r == '\n' && t.Chance(1, 6) && i > 0 {
			b.WriteString("<br>")
		} else if r == '\n' && t.Chance(1, 12) && i > 0 {
			// carriage returns only come as references, since the HTML parser normalises line breaks
			if i+1 < len(code) && code[i+1] != '\n' && t.Bool() {
				b.WriteString("&#13;")
			} else {
				b.WriteString(pbt.Pick(t, "&#13;\n", "&#13;&#10;"))
			}
			t.Label("cr")
		} else {
			b.WriteString(esc1(r))
		}
		for n := len(open) - 1; n >= 0 && last[n] <= i; n-- {
			b.WriteString("</" + open[n] + ">")
			open, last = open[:n], last[:n]
		}
	}
	for n := len(open) - 1; n >= 0; n-- {
		b.WriteString("</" + open[n] + ">")
	}
	body := b.String()
	lang := ""
	cls := ""
	exactLang := true
	if t.Bool() {
		lang = pbt.Pick(t, "go", "c++", "C#", "objective-c", "f90", "x_y", "a.b", "plain/text", "`x`", "~~", "c`", "日本", "a=b", "erlang-repl", "lang-x", "my-language-y")
		ws := func() string { return pbt.Pick(t, " ", "\n", "\t", "  ", " \n ") }
		cls = pbt.Pick(t, "", "hljs"+ws(), "a"+ws()+"b"+ws(), ws(), "golang-code"+ws(), "code-language-"+ws(), strings.Repeat("c"+ws(), 1+t.Intn(12))) + pbt.Pick(t, "language-", "lang-") + lang + pbt.Pick(t, "", ws()+"foo", ws())
		cls = ` class="` + html.EscapeString(cls) + `"`
		t.Label("lang")
		if strings.ContainsAny(lang, "`~") {
			exactLang = false
		}
	}
	want := model.Block{Kind: "code", Lang: lang, Code: code}
	tail := ""
	if strings.HasSuffix(code, "\n") || t.Chance(1, 3) {
		tail = "\n"
	}
	var h string
	switch t.Weighted(4, 2, 2, 1) {
	case 0:
		h = "<pre><code" + cls + ">" + body + tail + "</code></pre>"
	case 1:
		nl := pbt.Pick(t, "", "\n")
		if strings.HasPrefix(body, "\n") {
			nl = "\n"
		}
		h = "<pre" + cls + ">" + nl + body + tail + "</pre>"
	case 2:
		h = "<pre" + cls + "><code>" + body + tail + "</code></pre>"
	case 3:
		h = "<code><pre" + cls + ">\n" + body + tail + "</pre></code>"
	}
	depth := t.Count(0, 4)
	in, blocks := nest(t, depth, h, []model.Block{want})
	t.Note("html", in)
	t.Note("config", c.String())
	t.Label("block")
	t.Label(fmt.Sprintf("depth%d", depth))
	if len(ls) > 1 || strings.ContainsAny(code, "`~*_#->[<&\\|") {
		t.NonTrivial(in)
	}
	md := Convert(t, c, in)
	t.Note("markdown", fmt.Sprintf("%q", md))
	t.Sample(fmt.Sprintf("%q => %q", in, md))
	if strings.Contains(md, "\r") {
		t.Fatalf("a carriage return is a line break, which moves the rest out of the code: %q", md)
	}
	gotBlocks := model.ParseMarkdown(md, c.Flavor())
	if depth > 0 {
		// goldmark does not keep the blanks of a blank line inside a list item
		blankLines(gotBlocks)
		blankLines(blocks)
	}
	if !exactLang {
		dropLang(gotBlocks)
		dropLang(blocks)
	}
	if w, g := model.String(blocks), model.String(gotBlocks); w != g {
		t.Fatalf("the code block does not read back verbatim\nwant:\n%sgot:\n%s", w, g)
	}
}

func blankLines(bs []model.Block) {
	for i := range bs {
		ls := strings.Split(bs[i].Code, "\n")
		for j, l := range ls {
			if strings.Trim(l, " \t") == "" {
				ls[j] = ""
			}
		}
		bs[i].Code = strings.Join(ls, "\n")
		blankLines(bs[i].Kids)
		for _, it := range bs[i].Items {
			blankLines(it)
		}
	}
}

func dropLang(bs []model.Block) {
	for i := range bs {
		bs[i].Lang = ""
		dropLang(bs[i].Kids)
		for _, it := range bs[i].Items {
			dropLang(it)
		}
	}
}

func esc1(r rune) string { return html.EscapeString(string(r)) }

// inlineText is what a browser shows for white space in inline code.
func inlineText(s string) string {
	f := strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	return strings.TrimFunc(strings.Join(f, " "), unicode.IsSpace)
}

func inlineCode(t *pbt.T, c Config) {
	if t.Chance(1, 60) {
		// code of white space alone stays one, in one line
		ws := ""
		t.Each(1, 6, func(int) { ws += pbt.Pick(t, " ", "\n", "\n") })
		h := "<p>a<code>" + ws + "</code>b</p>"
		t.Note("html", h)
		t.NonTrivial(h)
		t.Label("inline-blank")
		if md, want := Convert(t, c, h), "a`"+strings.Repeat(" ", len(ws))+"`b"; md != want {
			t.Fatalf("the code of white space is %q and not %q", md, want)
		}
		return
	}
	code := codeLine(t)
	if t.Chance(1, 5) {
		code += pbt.Pick(t, "\n", "\n", "\r\n", "\r") + codeLine(t)
	}
	if t.Chance(1, 500) {
		t.Label("long")
		code = strings.Repeat(code+pbt.Pick(t, "", " "), gen.Times(t, len(code), 30000))
		if t.Bool() {
			code = strings.Repeat("`", gen.Times(t, 1, 3000)) + "x" + code
		}
	}
	esc := func(s string) string { return strings.ReplaceAll(html.EscapeString(s), "\r", "&#13;") }
	in0 := esc(code)
	want := inlineText(code)
	if want == "" {
		t.Discard()
	}
	tag := pbt.Pick(t, "code", "code", "code", "kbd", "samp", "tt", "var")
	if t.Chance(1, 6) {
		rs := []rune(code)
		k := t.Intn(len(rs) + 1)
		in0 = esc(string(rs[:k])) + "<span>" + esc(string(rs[k:])) + "</span>"
	}
	x := model.Run{Kind: "code", Text: want}
	el := "<" + tag + ">" + in0 + "</" + tag + ">"
	pre, post := pbt.Pick(t, "", "aa ", "aa", "(", "1. "), pbt.Pick(t, "", " bb", "bb", ")", ".")
	h := pre + el + post
	m := 0
	ctx := pbt.Pick(t, "p", "p", "h", "li", "link", "strong", "em", "del", "td", "quote", "td2")
	if ctx == "del" && !c.Strike || ctx[0] == 't' && !c.Table {
		ctx = "p"
	}
	var rs []model.Run
	var l *model.Link
	txt := func(s string, m int, l *model.Link) {
		if s != "" {
			rs = append(rs, model.Run{Kind: "text", Text: s, Marks: m, Link: l})
		}
	}
	t.Label("inline-" + ctx)
	t.Label("tag-" + tag)
	in := ""
	wantB := func() []model.Block { return para(rs) }
	mid := func() {
		x.Marks, x.Link = m, l
		txt(pre, m, l)
		rs = append(rs, x)
		txt(post, m, l)
	}
	switch ctx {
	case "p":
		mid()
		in = "<p>" + h + "</p>"
	case "h":
		mid()
		in = "<h3>" + h + "</h3>"
		wantB = func() []model.Block { return []model.Block{{Kind: "h", Level: 3, Runs: rs}} }
	case "li":
		mid()
		in = "<ol><li>" + h + "</li></ol>"
		wantB = func() []model.Block {
			return []model.Block{{Kind: "ol", Start: 1, Items: [][]model.Block{para(rs)}}}
		}
	case "quote":
		mid()
		in = "<blockquote><p>" + h + "</p></blockquote>"
		wantB = func() []model.Block { return []model.Block{{Kind: "quote", Kids: para(rs)}} }
	case "link":
		l = &model.Link{Href: "/u"}
		txt("s ", 0, nil)
		mid()
		txt(" e", 0, nil)
		in = `<p>s <a href="/u">` + h + "</a> e</p>"
	case "strong", "em", "del":
		m = map[string]int{"strong": model.Strong, "em": model.Em, "del": model.Strike}[ctx]
		// emphasis wrapped directly around glued punctuation is not the subject here
		pre, post = pbt.Pick(t, "", "aa "), pbt.Pick(t, "", " bb")
		h = pre + el + post
		txt("s ", 0, nil)
		mid()
		txt(" e", 0, nil)
		in = "<p>s <" + ctx + ">" + h + "</" + ctx + "> e</p>"
	case "td", "td2":
		if strings.Contains(code, `\|`) || strings.HasSuffix(pre, `\`) {
			t.Discard()
		}
		mid()
		in = "<table><tr><th>H</th><th>I</th></tr><tr><td>" + h + "</td><td>z</td></tr></table>"
		if ctx == "td2" {
			in = "<table><thead><tr><th>H</th><th>I</th></tr></thead><tbody><tr><td>" + h + "</td><td>z</td></tr></tbody></table>"
		}
		one := func(s string) []model.Run { return []model.Run{{Kind: "text", Text: s}} }
		wantB = func() []model.Block {
			return []model.Block{{Kind: "table", Align: []string{"none", "none"}, Rows: [][][]model.Run{{one("H"), one("I")}, {rs, one("z")}}}}
		}
	}
	t.Note("html", in)
	t.Note("config", c.String())
	if strings.ContainsAny(code, "`~*_#->[<&\\|\n") {
		t.NonTrivial(in)
	}
	md := Convert(t, c, in)
	t.Note("markdown", md)
	t.Sample(fmt.Sprintf("%q => %q", in, md))
	if strings.Contains(md, "\r") {
		t.Fatalf("a carriage return is a line break: %q", md)
	}
	got := model.ParseMarkdown(md, c.Flavor())
	if w, g := model.String(wantB()), model.String(got); w != g {
		t.Fatalf("the inline code does not read back verbatim\nwant:\n%sgot:\n%s", w, g)
	}
}

package props

import (
	"fmt"
	"html"
	"net/url"
	"regexp"
	"strings"
	"unicode"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C09", Quick: 150000, Thorough: 3000000, Run: linksImages,
		Rule: "a link or image whose destination, title, alt text or content has a character that is significant in Markdown"})
}

var attrBits = []string{"a", "title", " ", "x y", "\"", "'", "\"q\"", "'q'", "\\", "\\\\", "\\\"", "\\'", "(", ")", "[", "]", "[a]", "](", "*", "**b**", "_", "_i_", "`", "`c`", "<", ">", "<b>", "<!-- c -->", "http://x.y", "<http://x.y>", "!", "![", "#", "|", "~", "~~", "\n", "-", "1.", "+", "=", "$", "é", "日本", "“", "&", "& ", "\\*", "\\[", "\\]", "\\\\[", "{", "}", "^", ":", ";", ",", "?", "/", "%", "@", "a@b.c", "\u00a0", "\r", "\r\r", "\r\n", "\n\n", "\t", "\f", "\x01", "\x7f"}

func attrText(t *pbt.T) string {
	var b strings.Builder
	t.Each(0, 6, func(int) { b.WriteString(pbt.Pick(t, attrBits...)) })
	if t.Chance(1, 600) {
		t.Label("long")
		return strings.Repeat(b.String(), gen.Times(t, b.Len(), 10000))
	}
	return b.String()
}

// spaces is text with runs of white space made one blank.
func spaces(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return unicode.IsSpace(r) && r < 128 }), " ")
}

func hasCharRef(s string) bool { return charRef([]model.Run{{Kind: "text", Text: s}}) }

var pathBits = []string{"a", "b.html", "x_y", "x*y", "_i_", "**", "~", "~~", "-", "é", "%20", "%28", "%5B", "(", ")", "((", "))", "()", "[", "]", " ", "  ", "<", ">", "\"", "'", "\\", "!", "$", ",", ";", "=", "@", "&", "+", "|", "^", "`", "{", "}", "日本", "%C3%A9", "\n", "\t", ".", "..", "\\(", "\\)", "\u00a0", "\r", "\f", "\x01", "\x1f", "\x7f"}
var queryBits = []string{"a", "1", "b c", "é", "%20", "%2B", "+", "&", "=", "=", "&", "(", ")", "[", "]", "<", ">", "\"", "'", "*", "_x_", "~", "|", "\\", "/", "?", ":", "@", "!", "$", ",", "%26", "%3D", "日本", "`", "^", "{", "%C3%A9", " "}

func genURL(t *pbt.T) string {
	seg := func(bits []string, n int) string {
		var b strings.Builder
		t.Each(0, n, func(int) { b.WriteString(pbt.Pick(t, bits...)) })
		return b.String()
	}
	var u string
	switch t.Weighted(4, 2, 1, 1, 1, 1) {
	case 0:
		u = "/" + seg(pathBits, 5)
		if t.Chance(1, 150) {
			t.Label("long")
			u = strings.Repeat(u, gen.Times(t, len(u), 5000))
		}
	case 1:
		u = pbt.Pick(t, "http://e.x", "https://example.com", "https://user@h.example:8080", "ftp://f.y") + "/" + seg(pathBits, 4)
	case 2:
		u = "p" + seg(pathBits, 4)
	case 3:
		u = pbt.Pick(t, "#frag", "#", "?q=1", "//h.example/p", "page.html", "mailto:a@b.c", "tel:+1-2", "data:image/png;base64,AA==", "mailto:a@b.c?subject=Hi%20J&body=a%20b", "javascript:f(1)", "http://[::1]/x", "urn:isbn:1", "./a/../b", "../up", ".")
	case 4:
		u = "data:text/plain," + seg(pathBits, 4)
	case 5:
		u = pbt.Pick(t, "http://a b/", "%zz", "://x", "http://[x", "/%g", ":x") + seg(pathBits, 3)
	}
	if t.Chance(1, 3) && !strings.Contains(u, "?") && !strings.Contains(u, "#") && !strings.HasPrefix(u, "data:") {
		u += "?" + seg(queryBits, 6)
	}
	if t.Chance(1, 5) && !strings.Contains(u, "#") && !strings.HasPrefix(u, "data:") {
		u += "#" + pbt.Pick(t, "f", "a(b)", "x y", "é", "%20", "a_b_c")
	}
	return u
}

func unpct(s string) string {
	var b strings.Builder
	hex := func(c byte) int { return strings.IndexByte("0123456789abcdef", c|0x20) }
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			h, l := hex(s[i+1]), hex(s[i+2])
			if s[i+1] >= '0' && s[i+1] <= '9' {
				h = int(s[i+1] - '0')
			}
			if s[i+2] >= '0' && s[i+2] <= '9' {
				l = int(s[i+2] - '0')
			}
			if h >= 0 && l >= 0 {
				b.WriteByte(byte(h<<4 | l))
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

var opaqueR = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9+.-]*:[^/?]`)

// sameURL splits an address into its parts before decoding the parts.
func sameURL(s string) string {
	frag, query := "", ""
	hasQ := false
	if i := strings.IndexByte(s, '#'); i >= 0 {
		s, frag = s[:i], s[i+1:]
	}
	opaque := strings.HasPrefix(s, "data:")
	// only where the query is that of a form, a plus is a blank
	plus := !opaqueR.MatchString(s)
	if i := strings.IndexByte(s, '?'); i >= 0 && !opaque {
		s, query, hasQ = s[:i], s[i+1:], true
	}
	var parts []string
	for _, p := range strings.Split(s, "/") {
		parts = append(parts, unpct(p))
	}
	var qs []string
	if hasQ && query != "" {
		for _, kv := range strings.Split(query, "&") {
			k, v, eq := strings.Cut(kv, "=")
			dec := func(x string) string {
				if plus {
					x = strings.ReplaceAll(x, "+", " ")
				}
				return unpct(x)
			}
			e := ""
			if eq {
				e = "="
			}
			qs = append(qs, fmt.Sprintf("%q%s%q", dec(k), e, dec(v)))
		}
	}
	return fmt.Sprintf("%q ? %v # %q", parts, qs, unpct(frag))
}

// ctlEnc percent-encodes control characters.
func ctlEnc(u string) string {
	var b strings.Builder
	for _, c := range []byte(u) {
		if c < ' ' || c == 0x7f {
			fmt.Fprintf(&b, "%%%02X", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

func parses(u string) bool {
	_, err := url.Parse(ctlEnc(strings.TrimSpace(u)))
	return err == nil
}

func linksImages(t *pbt.T) {
	c := GenConfig(t)
	s := &gen.Style{T: t}
	n := 0
	word := func() string { n++; return fmt.Sprintf("w%d", n) }
	special := false
	see := func(x string) string {
		special = special || strings.ContainsAny(x, "\"'\\()[]*_`<>!#|~\n &%")
		return x
	}
	attr := func(name, v string) string {
		if v == "" && t.Bool() {
			return ""
		}
		return " " + name + `="` + strings.ReplaceAll(html.EscapeString(v), "\r", "&#13;") + `"`
	}
	nonEmptyURL := func() string {
		u := genURL(t)
		if hasCharRef(u) {
			t.Discard()
		}
		if t.Chance(1, 10) {
			u = pbt.Pick(t, " ", "\n") + u + pbt.Pick(t, "", " ", "\n")
		}
		return u
	}
	title := func() string {
		if !t.Chance(1, 2) {
			return ""
		}
		x := attrText(t)
		if hasCharRef(x) {
			t.Discard()
		}
		return see(x)
	}
	image := func() (string, model.Run) {
		src, ti := see(nonEmptyURL()), title()
		alt := ""
		if t.Chance(2, 3) {
			alt = see(attrText(t))
			if hasCharRef(alt) {
				t.Discard()
			}
		}
		t.Label("image")
		return "<img" + attr("src", src) + attr("alt", alt) + attr("title", ti) + ">", model.Run{Kind: "img", Text: alt, Src: src, Title: ti}
	}
	var h strings.Builder
	var rs []model.Run
	inTable, wrap := false, 0
	frag := func() {
		w := word()
		h.WriteString(w + " ")
		rs = append(rs, model.Run{Kind: "text", Text: w + " "})
		defer func() {
			w := word()
			h.WriteString(" " + w + " ")
			rs = append(rs, model.Run{Kind: "text", Text: " " + w + " "})
		}()
		switch t.Weighted(4, 3, 1, 1) {
		case 1:
			x, r := image()
			h.WriteString(x)
			rs = append(rs, r)
		case 2:
			// without a source there is no image
			h.WriteString(pbt.Pick(t, "<img>", `<img src="">`, `<img src=" " alt="x">`, `<img alt="foo" title="x">`))
			t.Label("no-src")
		case 3:
			t.Label("empty-href")
			w := word()
			h.WriteString(pbt.Pick(t, "<a>", `<a href="">`, `<a href=" " title="x">`, `<a name="x">`) + w + "</a>")
			r := model.Run{Kind: "text", Text: w, Link: &model.Link{}}
			if c.EmptyHref {
				r.Link = nil
			}
			rs = append(rs, r)
		case 0:
			t.Label("link")
			l := &model.Link{Href: see(nonEmptyURL()), Title: title()}
			h.WriteString("<a" + attr("href", l.Href) + attr("title", l.Title) + ">")
			var in []model.Run
			after := false
			switch t.Weighted(3, 2, 1, 1, 1, 1, 1) {
			case 0:
				w := word()
				h.WriteString(w)
				in = append(in, model.Run{Kind: "text", Text: w})
			case 1:
				w := hostileLine(t)
				if w == "" {
					w = "]"
				}
				if hasCharRef(w) {
					t.Discard()
				}
				see(w)
				h.WriteString(s.Esc(w))
				in = append(in, model.Run{Kind: "text", Text: w})
			case 2:
				x, r := image()
				h.WriteString(x)
				in = append(in, r)
			case 3:
				t.Label("empty-content")
				h.WriteString(pbt.Pick(t, "", " ", "<span></span>", "<img>", "<img> ", "<b> </b>", " <!-- c --> ", "<img> <i></i> "))
				if c.EmptyContent {
					in = nil
				} else {
					in = append(in, model.Run{Kind: "emptylink"})
				}
			case 4:
				a, b := word(), word()
				h.WriteString("<b>" + a + "</b> <code>" + b + "</code>")
				in = append(in, model.Run{Kind: "text", Text: a, Marks: model.Strong}, model.Run{Kind: "text", Text: " "}, model.Run{Kind: "code", Text: b})
			case 5:
				a, b := word(), word()
				if inTable {
					h.WriteString(a)
					in = append(in, model.Run{Kind: "text", Text: a})
					break
				}
				special = true
				br := model.Run{Kind: "br"}
				k := t.Intn(3)
				if k == 1 && wrap != 5 && wrap != 1 {
					k = 0
				}
				switch k {
				case 0:
					h.WriteString(a)
					in = append(in, model.Run{Kind: "text", Text: a})
					n := 1
					if t.Chance(1, 5) {
						n = t.Range(2, 20)
					}
					for ; n > 0; n-- {
						if t.Chance(1, 6) {
							h.WriteString("<br>")
							in = append(in, br)
						}
						h.WriteString("<br>" + pbt.Pick(t, "", " ", "\n", "\t") + b)
						in = append(in, br, model.Run{Kind: "text", Text: b})
					}
				case 1:
					h.WriteString("<div>" + a + "</div><div>" + b + "</div>")
					in = append(in, model.Run{Kind: "text", Text: a}, br, br, model.Run{Kind: "text", Text: b})
					// a link around blocks is a paragraph of its own
					rs = append(rs, model.Run{Kind: "split"})
					after = true
				case 2:
					h.WriteString("<span> " + a + " </span>\n<span>" + b + "\n</span>")
					in = append(in, model.Run{Kind: "text", Text: a + " " + b})
				}
			case 6:
				w := word()
				x, r := image()
				h.WriteString(x + " " + w)
				in = append(in, r, model.Run{Kind: "text", Text: " " + w})
			}
			h.WriteString("</a>")
			for i := range in {
				in[i].Link = l
			}
			rs = append(rs, in...)
			if after {
				rs = append(rs, model.Run{Kind: "split"})
			}
		}
	}
	wrap = t.Weighted(4, 1, 1, 1, 1, 1)
	inTable = wrap == 4 || wrap == 2
	t.Each(1, 3, func(int) { frag() })
	in := h.String()
	var want []model.Block
	switch wrap {
	case 0:
		in, want = "<p>"+in+"</p>", para(rs)
	case 1:
		in, want = "<ul><li>"+in+"</li></ul>", []model.Block{{Kind: "ul", Items: [][]model.Block{paras(rs)}}}
	case 2:
		in, want = "<h2>"+in+"</h2>", []model.Block{{Kind: "h", Level: 2, Runs: rs}}
	case 3:
		in, want = "<blockquote><p>"+in+"</p></blockquote>", []model.Block{{Kind: "quote", Kids: para(rs)}}
	case 4:
		if !c.Table {
			t.Discard()
		}
		in = "<table><tr><th>H</th></tr><tr><td>" + in + "</td></tr></table>"
		want = []model.Block{{Kind: "table", Align: []string{"none"}, Rows: [][][]model.Run{{{{Kind: "text", Text: "H"}}}, {rs}}}}
	case 5:
		in, want = "<div>"+in+"</div>", paras(rs)
	}
	t.Note("html", in)
	t.Note("config", c.String())
	if special {
		t.NonTrivial(in)
	}
	md := Convert(t, c, in)
	t.Note("markdown", fmt.Sprintf("%q", md))
	t.Sample(fmt.Sprintf("%s %q => %q", c, in, md))
	if strings.Contains(md, "\r") {
		t.Fatalf("a carriage return would end the line: %q", md)
	}
	got := model.ParseMarkdown(md, c.Flavor())
	if w, g := model.String(normLinks(want)), model.String(normLinks(got)); w != g {
		t.Fatalf("the links or images do not read back\nwant:\n%sgot:\n%s", w, g)
	}
}

func paras(rs []model.Run) []model.Block {
	var out []model.Block
	var cur []model.Run
	for _, r := range append(rs, model.Run{Kind: "split"}) {
		if r.Kind != "split" {
			cur = append(cur, r)
			continue
		}
		if len(model.NormRuns(cur)) > 0 {
			out = append(out, model.Block{Kind: "p", Runs: cur})
		}
		cur = nil
	}
	return out
}

// normLinks makes addresses comparable (percent-encoding) and white space in
// titles and alt texts one blank.
func normLinks(bs []model.Block) []model.Block {
	runs := func(rs []model.Run) []model.Run {
		var out []model.Run
		links := map[*model.Link]*model.Link{}
		for _, r := range rs {
			if r.Kind == "img" {
				r.Src, r.Title, r.Text = sameURL(strings.TrimSpace(r.Src)), spaces(r.Title), spaces(r.Text)
			}
			if r.Link != nil {
				l := links[r.Link]
				if l == nil {
					l = &model.Link{Href: sameURL(strings.TrimSpace(r.Link.Href)), Title: spaces(r.Link.Title)}
					links[r.Link] = l
				}
				r.Link = l
			}
			if k := len(out) - 1; k >= 0 && out[k].Kind == "emptylink" && r.Kind == "text" {
				// the blanks around an invisible link collapse
				if r.Text = strings.TrimLeft(r.Text, " \n"); r.Text == "" {
					continue
				}
			}
			out = append(out, r)
		}
		return out
	}
	var out []model.Block
	for _, b := range bs {
		b.Runs = runs(b.Runs)
		b.Kids = normLinks(b.Kids)
		var items [][]model.Block
		for _, it := range b.Items {
			items = append(items, normLinks(it))
		}
		b.Items = items
		var rows [][][]model.Run
		for _, r := range b.Rows {
			var row [][]model.Run
			for _, cell := range r {
				row = append(row, runs(cell))
			}
			rows = append(rows, row)
		}
		b.Rows = rows
		out = append(out, b)
	}
	return out
}

package props

import (
	"fmt"
	"html"
	"math/bits"
	"strings"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C16", Quick: 100000, Thorough: 4000000, Run: strikethroughs,
		Findings: []pbt.Finding{{Name: "STRIKE-LIST", Reproduce: func() string {
			md, _ := Config{Strike: true}.New().ConvertString("<del><ul><li>a</li></ul></del>")
			if !strings.Contains(md, "~~- a~~") {
				return ""
			}
			return md
		}}},
		Rule: "a struck element whose content is more than one word, or that touches or contains other inline elements"})
}

// struck generates inline content around and inside of struck elements.
type struck struct {
	t     *pbt.T
	n     int
	tags  int
	heavy bool
	line  bool // no line breaks
	glue  bool
	tilde bool
	merge bool // without the plugin see finding INS-BOLD
}

func (x *struck) word() string {
	x.n++
	return fmt.Sprintf("%s%d", pbt.Pick(x.t, "w", "é", "Z"), x.n)
}

// words is text without blanks at its ends.
func (x *struck) words() string {
	s := x.word()
	x.t.Each(0, 2, func(int) {
		sep := pbt.Pick(x.t, " ", " ", "  ", "\n")
		if x.tilde {
			sep = pbt.Pick(x.t, " ", " ~ ", " ~~ ", "~", " ~~~ ", " ~", "~~", " *", "~ ", " \\~", " ~~(", ")~~ ", " ~.", "!~ ", " ~~.", ".~~ ", " ~-", " \"~~", "~~\" ", " (~~", "~~) ")
		}
		s += sep + x.word()
	})
	return s
}

// seq is a sequence of pieces separated by blanks or line breaks.
func (x *struck) seq(depth, marks int, link *model.Link) (string, []model.Run) {
	var b strings.Builder
	var rs []model.Run
	blank := func() {
		s := pbt.Pick(x.t, " ", " ", "\n", "  ")
		b.WriteString(s)
		rs = append(rs, model.Run{Kind: "text", Text: " ", Marks: marks, Link: link})
	}
	if x.t.Chance(1, 8) {
		blank()
	}
	// Within two delimiters, content that starts or ends with punctuation is
	// ambiguous in Markdown itself.
	plain := bits.OnesCount(uint(marks)) >= 2
	n := x.t.Count(1, 4)
	x.t.Each(n, n, func(i int) {
		if i > 0 {
			switch {
			case !x.line && link == nil && x.t.Chance(1, 6):
				b.WriteString("<br>")
				rs = append(rs, model.Run{Kind: "br"})
				x.heavy = true
			default:
				blank()
			}
		}
		d := depth
		if plain && (i == 0 || i == n-1) {
			d = -1
		}
		h, r := x.piece(d, marks, link)
		b.WriteString(h)
		rs = append(rs, r...)
	})
	if x.t.Chance(1, 8) {
		blank()
	}
	return b.String(), rs
}

func (x *struck) piece(depth, marks int, link *model.Link) (string, []model.Run) {
	t := x.t
	k := t.Weighted(5, 6, 2, 2, 1, 1, 1, 1)
	if depth <= 0 && k < 5 || depth < 0 {
		k = 0
	}
	text := func() (string, []model.Run) {
		s := x.words()
		return html.EscapeString(s), []model.Run{{Kind: "text", Text: s, Marks: marks, Link: link}}
	}
	wrap := func(tag string, m int, l *model.Link) (string, []model.Run) {
		if marks != 0 {
			x.heavy = true
		}
		h, rs := x.seq(depth-1, marks|m, l)
		if len(rs) > 1 {
			x.heavy = true
		}
		return "<" + tag + ">" + h + "</" + strings.Fields(tag)[0] + ">", rs
	}
	switch k {
	case 1:
		x.tags++
		tag := pbt.Pick(t, "del", "s", "strike", "del", "DEL", `s class="x"`)
		if !t.Chance(1, 6) {
			return wrap(tag, model.Strike, link)
		}
		// two struck elements side by side are one
		x.heavy = true
		m := marks | model.Strike
		h1, r1 := x.seq(depth-1, m, link)
		h2, r2 := x.seq(depth-1, m, link)
		w1, w2 := x.word(), x.word()
		if t.Chance(1, 3) && marks&model.Strike == 0 {
			// with something that is not struck between them they are two
			w3 := x.word()
			mid := fmt.Sprintf(pbt.Pick(t, "%s", "<span>%s</span>", "<span><span></span>%s</span>", "<span><span>%s</span></span>", "<span>%s</span><!-- c -->"), w3)
			h := "<" + tag + ">" + h1 + " " + w1 + "</" + strings.Fields(tag)[0] + ">" + mid + "<s>" + w2 + "\n" + h2 + "</s>"
			rs := append(r1, model.Run{Kind: "text", Text: " " + w1, Marks: m, Link: link}, model.Run{Kind: "text", Text: w3, Marks: marks, Link: link}, model.Run{Kind: "text", Text: w2 + " ", Marks: m, Link: link})
			return h, append(rs, r2...)
		}
		gap := pbt.Pick(t, "", "", "<!-- c -->", "<span></span>")
		tag2 := pbt.Pick(t, "del", "s", "strike")
		h := "<" + tag + ">" + h1 + " " + w1 + "</" + strings.Fields(tag)[0] + ">" + gap + "<" + tag2 + ">" + w2 + "\n" + h2 + "</" + tag2 + ">"
		mid := model.Run{Kind: "text", Text: " " + w1 + w2 + " ", Marks: m, Link: link}
		rs := append(r1, mid)
		if x.merge && t.Chance(1, 3) {
			// ... and so are the elements in them that touch then
			mt, mm := "b", model.Strong
			if t.Bool() {
				mt, mm = "i", model.Em
			}
			m1, m2 := "<"+mt+">"+w1+"</"+mt+">", "<"+mt+">"+w2+"</"+mt+">"
			if t.Chance(1, 3) {
				m1 = "<span>" + m1 + "</span>"
			}
			h = "<" + tag + ">" + h1 + " " + m1 + "</" + strings.Fields(tag)[0] + ">" + gap + "<" + tag2 + ">" + m2 + "\n" + h2 + "</" + tag2 + ">"
			rs = append(r1, model.Run{Kind: "text", Text: " ", Marks: m, Link: link}, model.Run{Kind: "text", Text: w1 + w2, Marks: m | mm, Link: link}, model.Run{Kind: "text", Text: " ", Marks: m, Link: link})
		}
		return h, append(rs, r2...)
	case 2:
		return wrap(pbt.Pick(t, "b", "strong"), model.Strong, link)
	case 3:
		return wrap(pbt.Pick(t, "em", "i"), model.Em, link)
	case 4:
		if link != nil {
			break
		}
		l := &model.Link{Href: fmt.Sprintf("/u%d", x.n)}
		return wrap(fmt.Sprintf(`a href="%s"`, l.Href), 0, l)
	case 5:
		s := x.word()
		return "<code>" + s + "</code>", []model.Run{{Kind: "code", Text: s, Marks: marks, Link: link}}
	case 6:
		h, rs := text()
		return "<span>" + h + "</span>", rs
	case 7:
		x.n++
		src := fmt.Sprintf("/i%d", x.n)
		return `<img src="` + src + `">`, []model.Run{{Kind: "img", Src: src, Marks: marks, Link: link}}
	}
	return text()
}

// dropStrike forgets the strikethrough, as a converter without the plugin does.
func dropStrike(rs []model.Run) []model.Run {
	var out []model.Run
	for _, r := range rs {
		r.Marks &^= model.Strike
		out = append(out, r)
	}
	return out
}

func strikethroughs(t *pbt.T) {
	c := GenConfig(t)
	c.Strike = !t.Chance(1, 12)
	if c.Strike && c.StrikeD == "" {
		c.StrikeD = pbt.Pick(t, "", "~~", "~")
	}
	x := &struck{t: t, merge: c.Strike, tilde: c.Strike && t.Chance(1, 3)}
	type ctxt struct {
		name string
		wrap func(string) string
		want func([]model.Run) []model.Block
		line bool
	}
	ctxs := []ctxt{
		{"p", func(h string) string { return "<p>" + h + "</p>" }, para, false},
		{"li", func(h string) string { return "<ul><li>" + h + "</li></ul>" }, func(rs []model.Run) []model.Block {
			return []model.Block{{Kind: "ul", Items: [][]model.Block{para(rs)}}}
		}, false},
		{"quote", func(h string) string { return "<blockquote>" + h + "</blockquote>" }, func(rs []model.Run) []model.Block {
			return []model.Block{{Kind: "quote", Kids: para(rs)}}
		}, false},
		{"h3", func(h string) string { return "<h3>" + h + "</h3>" }, func(rs []model.Run) []model.Block {
			return []model.Block{{Kind: "h", Level: 3, Runs: rs}}
		}, true},
		{"p-p", func(h string) string { return "<p>" + h + "</p><p>" + h + "</p>" }, func(rs []model.Run) []model.Block {
			return append(para(rs), para(rs)...)
		}, false},
	}
	if c.Table {
		ctxs = append(ctxs, ctxt{"td", func(h string) string { return "<table><tr><th>" + h + "</th></tr></table>" }, func(rs []model.Run) []model.Block {
			return []model.Block{{Kind: "table", Align: []string{"none"}, Rows: [][][]model.Run{{rs}}}}
		}, true})
	}
	cx := pbt.Pick(t, ctxs...)
	x.line = cx.line
	h, rs := x.seq(4, 0, nil)
	if t.Chance(1, 1000) {
		t.Label("long")
		h1, rs1 := h, rs
		for n := gen.Times(t, len(h1), 20000); n > 1; n-- {
			h += " " + h1
			rs = append(append(rs, model.Run{Kind: "text", Text: " "}), rs1...)
		}
	}
	in := cx.wrap(h)
	wantRuns := rs
	if !c.Strike {
		wantRuns = dropStrike(rs)
	}
	want := cx.want(wantRuns)
	// a struck element may also hold whole paragraphs
	if !x.line && t.Chance(1, 10) && c.Strike {
		h2, rs2 := x.seq(3, model.Strike, nil)
		h3, rs3 := x.seq(3, model.Strike, nil)
		x.tags++
		x.heavy = true
		in += "<del><p>" + h2 + "</p>" + pbt.Pick(t, "", "\n") + "<p>" + h3 + "</p></del>"
		want = append(want, append(para(rs2), para(rs3)...)...)
		t.Label("blocks")
	}
	t.Label(cx.name)
	t.Note("html", in)
	t.Note("config", c.String())
	if x.tags > 0 && x.heavy {
		t.NonTrivial(in + c.String())
	}
	md := Convert(t, c, in)
	t.Note("markdown", md)
	t.Sample(fmt.Sprintf("%s %q => %q", c, in, md))
	f := c.Flavor()
	got := model.String(model.ParseMarkdown(md, f))
	if w := model.String(want); got != w {
		t.Fatalf("the struck content does not read back\nwant:\n%sgot:\n%s", w, got)
	}
	// the delimiter is what was asked for, and nothing else depends on it
	if c.Strike && !x.tilde && cx.name != "td" && c.Fence != "~~~" { // the delimiter counts for the width of a column
		d := c.StrikeD
		if d == "" {
			d = "~~"
		}
		o := c
		o.StrikeD = pbt.Pick(t, "⁑", "‡‡", "§", "~", "~~")
		t.Note("other delimiter", o.StrikeD)
		other := Convert(t, o, in)
		neutral := strings.ReplaceAll(md, d, "\x00")
		if n := strings.ReplaceAll(other, o.StrikeD, "\x00"); n != neutral {
			t.Fatalf("more than the delimiter changes\nwith %q: %q\nwith %q: %q", d, md, o.StrikeD, other)
		}
	}
}

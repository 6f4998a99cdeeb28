package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C08", Quick: 150000, Thorough: 3000000, Run: headings,
		Rule: "a document with at least one heading whose content has a Markdown-significant character, an inline element or a line break"})
}

func headings(t *pbt.T) {
	c := GenConfig(t)
	if t.Bool() {
		c.Heading = pbt.Pick(t, "atx", "setext")
	}
	g := gen.New(t, gen.DocOpts{Strike: c.Strike, NoBr: true})
	s := &gen.Style{T: t}
	rich := false
	var h strings.Builder
	var want []model.Block
	t.Each(1, 4, func(int) {
		switch t.Weighted(6, 1, 1, 1) {
		case 1:
			w := g.Word()
			h.WriteString("<p>" + w + "</p>")
			want = append(want, para([]model.Run{{Kind: "text", Text: w}})[0])
			return
		case 2:
			// a heading without content disappears
			h.WriteString(fmt.Sprintf("<h%d>%s</h%d>", 3, pbt.Pick(t, "", " ", "<span></span>", "<hr>", "\n", "<br>"), 3))
			return
		case 3:
			h.WriteString("<hr>")
			want = append(want, model.Block{Kind: "hr"})
			return
		}
		lvl := t.Range(1, 6)
		var rs []model.Run
		var x strings.Builder
		setext := c.Heading == "setext" && lvl < 3
		divs := t.Chance(1, 10)
		lines := 3
		if t.Chance(1, 20) {
			lines = 20
		}
		t.Each(1, lines, func(i int) {
			if divs {
				tag := pbt.Pick(t, "div", "p", "section")
				x.WriteString("<" + tag + ">")
				defer func() { x.WriteString("</" + tag + ">") }()
			}
			if i > 0 && divs {
				rich = true
				if setext {
					rs = append(rs, model.Run{Kind: "br"}, model.Run{Kind: "br"})
				} else {
					rs = append(rs, model.Run{Kind: "text", Text: " "})
				}
			} else if i > 0 {
				x.WriteString(pbt.Pick(t, "<br>", "<br/>"))
				rich = true
				if setext {
					rs = append(rs, model.Run{Kind: "br"})
				} else {
					rs = append(rs, model.Run{Kind: "text", Text: " "})
				}
			}
			switch t.Weighted(3, 2, 2) {
			case 0:
				l := hostileLine(t)
				if l == "" {
					l = "a"
				}
				rich = rich || strings.ContainsAny(l, "*_`~#-+.)>[]!\\|=<&")
				rs = append(rs, model.Run{Kind: "text", Text: l})
				x.WriteString(s.Esc(l))
			case 1:
				q := g.Inlines(2, 0, false)
				rich = rich || len(q) > 1
				rs = append(rs, q...)
				x.WriteString(s.Inline(q))
			case 2:
				q := g.Inlines(2, 0, false)
				rich = true
				l := hostileLine(t)
				if l == "" {
					l = "#"
				}
				q = append(q, model.Run{Kind: "text", Text: " "})
				rs = append(append(rs, q...), model.Run{Kind: "text", Text: l})
				x.WriteString(s.Inline(q) + s.Esc(l))
			}
		})
		if charRef(rs) {
			t.Discard()
		}
		if t.Chance(1, 8) {
			x.WriteString("<hr>") // a divider cannot be part of a heading
		}
		tag := fmt.Sprintf("h%d", lvl)
		open, shut := "<"+tag+">", "</"+tag+">"
		switch t.Weighted(8, 1, 1, 1) {
		case 1:
			noLink := true
			for _, r := range rs {
				noLink = noLink && r.Link == nil
			}
			if noLink && !setextLink(setext, rs) {
				// the link moves into the heading
				l := &model.Link{Href: "/u"}
				for i := range rs {
					rs[i].Link = l
				}
				open, shut = `<a href="/u">`+open, shut+"</a>"
				t.Label("inside-link")
			}
		case 2:
			open += pbt.Pick(t, " ", "\n", "<!-- c -->", "<span>")
			if strings.HasSuffix(open, "<span>") {
				shut = "</span>" + shut
			} else {
				shut = pbt.Pick(t, " ", "\n") + shut
			}
		case 3:
			open = "<div>" + open
			shut += "</div>"
		}
		h.WriteString(open + x.String() + shut)
		t.Label(tag)
		if setext {
			t.Label("setext")
		}
		want = append(want, model.Block{Kind: "h", Level: lvl, Runs: rs})
	})
	in := h.String()
	switch t.Weighted(4, 1, 1, 1) {
	case 1:
		if len(want) > 0 {
			in = "<blockquote>" + in + "</blockquote>"
			want = []model.Block{{Kind: "quote", Kids: want}}
		}
	case 2:
		if len(want) > 0 {
			in = "<ul><li>" + in + "</li></ul>"
			want = []model.Block{{Kind: "ul", Items: [][]model.Block{want}}}
		}
	case 3:
		if len(want) > 0 {
			in = `<ol start="9"><li>a</li><li>` + in + "</li></ol>"
			want = []model.Block{{Kind: "ol", Start: 9, Items: [][]model.Block{para([]model.Run{{Kind: "text", Text: "a"}}), want}}}
		}
	}
	t.Note("html", in)
	t.Note("config", c.String())
	if rich {
		t.NonTrivial(in)
	}
	md := Convert(t, c, in)
	t.Note("markdown", md)
	t.Sample(fmt.Sprintf("%s %q => %q", c, in, md))
	if w, g := model.String(want), model.String(model.ParseMarkdown(md, c.Flavor())); w != g {
		t.Fatalf("the headings do not read back\nwant:\n%sgot:\n%s", w, g)
	}
}

// setextLink: a link over several lines of a setext heading is not the subject here.
func setextLink(setext bool, rs []model.Run) bool {
	for _, r := range rs {
		if r.Kind == "br" || r.Marks != 0 {
			return true
		}
	}
	return false
}

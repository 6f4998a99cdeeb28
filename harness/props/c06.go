package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C06", Quick: 200000, Thorough: 1000000, Run: structure,
		Findings: []pbt.Finding{{Name: "BR-IN-LINK", Reproduce: func() string {
			md, _ := Config{}.New().ConvertString(`<b>q <a href="u">x<br>y</a></b>`)
			if !strings.Contains(md, "[x**  \n**y](u)**") {
				return ""
			}
			return md
		}}, {Name: "INS-BOLD", Reproduce: func() string {
			md, _ := Config{}.New().ConvertString(`<u><b>a</b></u><b>c</b>`)
			if !strings.Contains(md, "****") {
				return ""
			}
			return md
		}}},
		Rule: "documents drawn from the model"})
}

func structure(t *pbt.T) {
	c := GenConfig(t)
	if t.Chance(1, 20) {
		edges(t, c)
		return
	}
	g := gen.New(t, gen.DocOpts{Table: c.Table, Strike: c.Strike})
	doc := g.Doc(3, 5)
	s := &gen.Style{T: t}
	h := s.Blocks(doc)
	t.Note("html", h)
	t.Note("config", c.String())
	md := Convert(t, c, h)
	t.Note("markdown", md)
	got := model.String(model.ParseMarkdown(md, c.Flavor()))
	want := model.String(expect(doc, c))
	for k := range g.Tags {
		t.Label(k)
	}
	t.NonTrivial(h)
	t.Sample(fmt.Sprintf("%s %q => %q", c, h, md))
	if got != want {
		t.Fatalf("the Markdown reads as a different document\nwant:\n%sgot:\n%s", want, got)
	}
}

// expect applies to the document what the configuration is documented to change.
func expect(bs []model.Block, c Config) []model.Block {
	var out []model.Block
	for _, b := range bs {
		b.Kids = expect(b.Kids, c)
		items := b.Items
		b.Items = nil
		for _, it := range items {
			b.Items = append(b.Items, expect(it, c))
		}
		if b.Kind == "table" && c.SkipEmpty {
			rows := b.Rows
			b.Rows = rows[:1:1]
			for _, r := range rows[1:] {
				empty := true
				for _, cell := range r {
					if len(cell) > 0 {
						empty = false
					}
				}
				if !empty {
					b.Rows = append(b.Rows, r)
				}
			}
		}
		out = append(out, b)
	}
	return out
}

// edges: white space of any kind at the edges of emphasized text is part of
// the text around it, since delimiters next to white space are just text.
func edges(t *pbt.T, c Config) {
	t.Label("edges")
	space := func() string {
		s := ""
		t.Each(0, 4, func(int) { s += pbt.Pick(t, " ", "\n", "\u00a0", "\u2003", "\u3000", "\u2028", "\u1680", "\u00a0") })
		return s
	}
	var in, out strings.Builder
	n := 0
	word := func() string { n++; return fmt.Sprintf("w%d", n) }
	put := func(a, b string) { in.WriteString(a); out.WriteString(b) }
	w := word()
	put(w, w)
	t.Each(1, 3, func(int) {
		open, close := pbt.Pick(t, "<b>", "<em>", "<i><b>", "<strong>", "<b><i>"), ""
		for _, x := range strings.SplitAfter(open, ">") {
			if x != "" {
				close = "</" + x[1:] + close
			}
		}
		l, r := space(), space()
		mid := word()
		if t.Chance(1, 3) {
			mid += pbt.Pick(t, " ", "\u00a0", " \u00a0 ") + word()
		}
		if t.Chance(1, 4) {
			mid = ""
			open, close = pbt.Pick(t, "<b>", "<em>"), ""
			close = "</" + open[1:]
		}
		if mid == "" {
			put(open+l+r+close, l+r)
		} else {
			put(open+l+mid+r+close, l+open+mid+close+r)
		}
		w := word()
		put(w, w)
	})
	f := pbt.Pick(t, "<p>%s</p>", "<ul><li>%s</li></ul>", "<h2>%s</h2>", "<blockquote>%s</blockquote>", "<p><a href=\"/x\">%s</a></p>", "<table><tr><td>%s</td></tr></table>")
	a, b := fmt.Sprintf(f, in.String()), fmt.Sprintf(f, out.String())
	t.Note("html", a)
	t.Note("outside", b)
	t.Note("config", c.String())
	t.NonTrivial(a)
	ga, gb := Convert(t, c, a), Convert(t, c, b)
	if ga != gb {
		t.Fatalf("white space inside and outside of the delimiters differs\ninside  %q\noutside %q", ga, gb)
	}
}

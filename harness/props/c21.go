package props

import (
	"fmt"
	"html"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C21", Quick: 100000, Thorough: 2500000, Run: verbatim,
		Rule: "a document with at least two texts that look like Markdown"})
}

// swapWords replaces some of the words of a document by texts that look like
// Markdown, and reports which.
func swapWords(t *pbt.T, bs []model.Block, not string, rule string, swap map[string]string) []model.Block {
	hostile := func() string {
		for i := 0; i < 20; i++ {
			var s string
			if t.Bool() {
				s = pbt.Pick(t, hostileWords...)
			} else {
				t.Each(1, 6, func(int) { s += string(pbt.Pick(t, hostileRunes...)) })
			}
			// only blanks between words may change
			s = strings.Join(strings.Fields(s), "x")
			if s == "" || strings.ContainsAny(s, not) || s == rule || html.UnescapeString(s) != s {
				continue
			}
			return s
		}
		return "*"
	}
	runs := func(rs []model.Run) []model.Run {
		var out []model.Run
		for _, r := range rs {
			if r.Kind == "text" && strings.TrimSpace(r.Text) != "" {
				ws := strings.Split(r.Text, " ")
				for i, w := range ws {
					if w == "" {
						continue
					}
					if _, ok := swap[w]; !ok {
						swap[w] = ""
						if t.Chance(1, 3) {
							swap[w] = hostile()
						}
					}
					if s := swap[w]; s != "" {
						ws[i] = s
					}
				}
				r.Text = strings.Join(ws, " ")
			}
			out = append(out, r)
		}
		return out
	}
	var out []model.Block
	for _, b := range bs {
		b.Runs = runs(b.Runs)
		b.Kids = swapWords(t, b.Kids, not, rule, swap)
		var its [][]model.Block
		for _, it := range b.Items {
			its = append(its, swapWords(t, it, not, rule, swap))
		}
		b.Items = its
		var rows [][][]model.Run
		for _, row := range b.Rows {
			var cells [][]model.Run
			for _, c := range row {
				cells = append(cells, runs(c))
			}
			rows = append(rows, cells)
		}
		b.Rows = rows
		out = append(out, b)
	}
	return out
}

func verbatim(t *pbt.T) {
	c := GenConfig(t)
	c.NoEscape = false
	if c.Heading == "setext" {
		c.Heading = "atx" // the underline is as long as the text
	}
	if c.Table {
		c.Padding = pbt.Pick(t, "minimal", "none")
	}
	g := gen.New(t, gen.DocOpts{Table: c.Table, Strike: true})
	doc := g.Doc(3, 4)
	swap := map[string]string{}
	not := ""
	if c.Table {
		not = `|\` // escaped in cells, or followed by a blank at their end
	}
	doc2 := swapWords(t, doc, not, c.HR, swap)
	plain := (&gen.Style{T: t, Plain: true}).Blocks(doc)
	h := (&gen.Style{T: t, Plain: true}).Blocks(doc2)
	t.Note("html", h)
	t.Note("config", c.String())
	off := c
	off.NoEscape = true
	want := Convert(t, c, plain)
	if m := Convert(t, off, plain); m != want {
		t.Fatalf("without anything to escape, the escape modes differ\nsmart    %q\ndisabled %q", want, m)
	}
	var pairs []string
	for w, s := range swap {
		if s != "" {
			pairs = append(pairs, w, s)
		}
	}
	// words are unique, but one may be the beginning of another
	want = replaceWords(want, swap)
	got := Convert(t, off, h)
	t.Note("markdown", got)
	t.Sample(fmt.Sprintf("%s %q => %q", c, h, got))
	if len(pairs) >= 4 {
		t.NonTrivial(h + c.String())
	}
	if got != want {
		t.Fatalf("without escaping, text is not reproduced as it is\nwant %q\ngot  %q", want, got)
	}
	if t.Chance(1, 3) && c.String() == (Config{LatePlugins: c.LatePlugins}).String() {
		// smart is the default
		d := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
		m, err := d.ConvertString(h)
		if s := Convert(t, c, h); err != nil || m != s {
			t.Fatalf("the default escape mode is not smart: %v\nsmart   %q\ndefault %q", err, s, m)
		}
	}
}

// replaceWords replaces whole words (see gen.Word: letters, a number, a letter).
func replaceWords(s string, swap map[string]string) string {
	var b strings.Builder
	letter := func(r rune) bool {
		return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r >= 0x80
	}
	for len(s) > 0 {
		n := 0
		for _, r := range s {
			if !letter(r) {
				break
			}
			n += len(string(r))
		}
		if n == 0 {
			b.WriteByte(s[0])
			s = s[1:]
			continue
		}
		if x, ok := swap[s[:n]]; ok && x != "" {
			b.WriteString(strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(x)) // in both modes
		} else {
			b.WriteString(s[:n])
		}
		s = s[n:]
	}
	return b.String()
}

package props

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C24", Quick: 100000, Thorough: 2500000, Run: fixpoint,
		Rule: "a document of at least two blocks or with special characters"})
}

// fixpoint: converting the HTML that a Markdown reader makes of the output
// gives the same Markdown again.
func fixpoint(t *pbt.T) {
	c := GenConfig(t)
	c.EmptyHref, c.EmptyContent = false, false
	g := gen.New(t, gen.DocOpts{Table: c.Table, Strike: c.Strike})
	doc := g.Doc(3, 5)
	c.NoListEnd = false // lists that touch would become one
	not := ""
	if c.Strike {
		not = "~" // goldmark does not end a struck text after an escaped tilde
	}
	swap := map[string]string{}
	if t.Bool() {
		doc = swapWords(t, doc, not, "", swap)
	}
	h := (&gen.Style{T: t, SameNest: true}).Blocks(doc)
	t.Note("html", h)
	t.Note("config", c.String())
	m1 := Convert(t, c, h)
	t.Note("markdown", m1)
	h2 := model.RenderHTML(m1, c.Flavor())
	t.Note("html of the markdown", h2)
	m2 := Convert(t, c, h2)
	t.Sample(fmt.Sprintf("%s %q => %q => %q", c, h, m1, h2))
	if len(doc) > 1 || len(swap) > 0 {
		t.NonTrivial(h + c.String())
	}
	if g.Tags["img"] > 0 {
		m1, m2 = listEnd.ReplaceAllString(m1, ""), listEnd.ReplaceAllString(m2, "") // see C23
	}
	if m1 != m2 {
		t.Fatalf("converting the rendered Markdown again gives other Markdown\nfirst  %q\nsecond %q", m1, m2)
	}
}

package props

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C23", Quick: 150000, Thorough: 3000000, Run: spelling,
		Rule: "a document spelled in two ways that differ"})
}

// spelling: how a document is written in HTML makes no difference.
func spelling(t *pbt.T) {
	c := GenConfig(t)
	g := gen.New(t, gen.DocOpts{Table: c.Table, Strike: c.Strike, IntraWord: t.Chance(1, 4)})
	doc := g.Doc(3, 5)
	if g.Tags["img"] > 0 {
		// whether the comment stands in front of a paragraph with nothing
		// but an image depends on the white space after the image
		c.NoListEnd = true
	}
	plain := (&gen.Style{T: t, Plain: true}).Blocks(doc)
	h := (&gen.Style{T: t, SameNest: true}).Blocks(doc)
	t.Note("html", h)
	t.Note("plain html", plain)
	t.Note("config", c.String())
	want, got := Convert(t, c, plain), Convert(t, c, h)
	t.Sample(fmt.Sprintf("%s %q / %q => %q", c, plain, h, got))
	if plain != h {
		t.NonTrivial(h + c.String())
	}
	if got != want {
		t.Fatalf("two spellings of the same document are converted differently\nplain %q\nother %q", want, got)
	}
}

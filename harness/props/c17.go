package props

import (
	"fmt"
	"regexp"
	"strings"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C17", Quick: 80000, Thorough: 1500000, Run: optionSyntax,
		Rule: "a document in which at least two of the options matter"})
}

// The canonical configuration uses a different spelling for everything, so
// that each piece of syntax can be told from the others in the output.
var canonical = Config{Em: "*", StrongD: "__", HR: "_ _ _", Bullet: "-", Fence: "~~~", Heading: "atx", Strike: true, StrikeD: "~~"}

// a list end comment with the blank line before it, also in quotes and items
var listEnd = regexp.MustCompile(`\n[> ]*\n[> ]*<!--THE END-->`)

// respell rewrites the canonical output of a document of plain words to what
// another configuration has to give.
func respell(md string, c Config) (string, int) {
	kinds := 0
	if strings.Contains(md, "<!--THE END-->") {
		kinds++
		if c.NoListEnd {
			md = listEnd.ReplaceAllString(md, "")
		}
		md = strings.ReplaceAll(md, "<!--THE END-->", "\x01")
	}
	for _, r := range []struct{ from, tok, to string }{
		{"~~~", "\x02", c.Fence},
		{"~~", "\x03", c.StrikeD},
		{"_ _ _", "\x04", c.HR},
		{"__", "\x05", c.StrongD},
		{"*", "\x06", c.Em},
		{"-", "\x0e", c.Bullet},
	} {
		if strings.Contains(md, r.from) {
			kinds++
		}
		md = strings.ReplaceAll(md, r.from, r.tok)
	}
	return strings.NewReplacer("\x01", "<!--THE END-->", "\x02", c.Fence, "\x03", c.StrikeD, "\x04", c.HR, "\x05", c.StrongD, "\x06", c.Em, "\x0e", c.Bullet).Replace(md), kinds
}

func optionSyntax(t *pbt.T) {
	if t.Chance(1, 3) {
		sameReading(t)
		return
	}
	// documents of words: every special character of the output is syntax
	g := gen.New(t, gen.DocOpts{Strike: true, IntraWord: t.Chance(1, 3)})
	doc := plainWords(g.Doc(3, 5))
	s := &gen.Style{T: t, NoCmt: true}
	h := s.Blocks(doc)
	c := canonical
	n := 0
	vary := func(f func()) {
		if t.Bool() {
			f()
			n++
		}
	}
	vary(func() { c.Em = "_" })
	vary(func() { c.StrongD = "**" })
	vary(func() { c.HR = pbt.Pick(t, "* * *", "***", "---", "- - -", "___", "_____", "*  *  *", "-\t-\t-") })
	vary(func() { c.Bullet = pbt.Pick(t, "*", "+") })
	vary(func() { c.Fence = "```" })
	vary(func() { c.StrikeD = "~" })
	vary(func() { c.NoListEnd = true })
	if n == 0 {
		t.Discard()
	}
	// a rule in an item that starts like the list is respelled, see C11
	if hr := strings.TrimSpace(c.HR)[:1]; hr == c.Bullet {
		t.Discard()
	}
	t.Note("html", h)
	t.Note("config", c.String())
	a := Convert(t, canonical, h)
	b := Convert(t, c, h)
	t.Note("canonical", a)
	t.Note("markdown", b)
	want, kinds := respell(a, c)
	t.Sample(fmt.Sprintf("%s %q => %q", c, h, b))
	if kinds >= 2 {
		t.NonTrivial(h + c.String())
	}
	if b != want {
		t.Fatalf("the options do not change exactly what they are for\nwant %q\ngot  %q", want, b)
	}
	// what is not configured is the default
	d := Config{Em: "*", StrongD: "**", HR: "* * *", Bullet: "-", Fence: "```", Heading: "atx", Strike: true, StrikeD: "~~"}
	e := d
	x := ""
	for _, f := range []struct {
		n string
		f func()
	}{{"em", func() { e.Em = "" }}, {"strong", func() { e.StrongD = "" }}, {"hr", func() { e.HR = "" }}, {"bullet", func() { e.Bullet = "" }}, {"fence", func() { e.Fence = "" }}, {"heading", func() { e.Heading = "" }}, {"strike", func() { e.StrikeD = "" }}} {
		if t.Bool() {
			f.f()
			x += f.n + " "
		}
	}
	if m1, m2 := Convert(t, d, h), Convert(t, e, h); m1 != m2 {
		t.Fatalf("the defaults of %sare not those documented\nwant %q\ngot  %q", x, m1, m2)
	}
}

// plainWords takes everything out of a document that could look like syntax.
func plainWords(bs []model.Block) []model.Block {
	var runs func(rs []model.Run) []model.Run
	runs = func(rs []model.Run) []model.Run {
		var out []model.Run
		for _, r := range rs {
			if r.Kind == "code" {
				r.Text = "c" + strings.Map(letters, r.Text)
			}
			out = append(out, r)
		}
		return out
	}
	var out []model.Block
	for _, b := range bs {
		b.Runs = runs(b.Runs)
		b.Kids = plainWords(b.Kids)
		var its [][]model.Block
		for _, it := range b.Items {
			its = append(its, plainWords(it))
		}
		b.Items = its
		if b.Kind == "code" {
			var ls []string
			for _, l := range strings.Split(b.Code, "\n") {
				ls = append(ls, strings.Map(letters, l))
			}
			b.Code, b.Lang = strings.Join(ls, "\n"), ""
		}
		out = append(out, b)
	}
	return out
}

func letters(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == ' ' || r >= 0x80 {
		return r
	}
	return -1
}

// sameReading: two configurations of the syntax read as the same document.
func sameReading(t *pbt.T) {
	c1, c2 := GenConfig(t), GenConfig(t)
	c2.EmptyHref, c2.EmptyContent = c1.EmptyHref, c1.EmptyContent
	c1.Strike, c2.Strike = true, true
	if c1.StrikeD == "" && t.Bool() {
		c1.StrikeD = "~"
	}
	c1.Table, c2.Table = false, false
	g := gen.New(t, gen.DocOpts{Strike: true})
	doc := g.Doc(3, 5)
	s := &gen.Style{T: t}
	h := s.Blocks(doc)
	t.Note("html", h)
	t.Note("config", c1.String())
	t.Note("other config", c2.String())
	m1, m2 := Convert(t, c1, h), Convert(t, c2, h)
	t.Note("markdown", m1)
	t.Note("other markdown", m2)
	t.Sample(fmt.Sprintf("%s %s %q => %q / %q", c1, c2, h, m1, m2))
	if m1 != m2 {
		t.NonTrivial(h + c1.String() + c2.String())
	}
	r1, r2 := model.String(model.ParseMarkdown(m1, c1.Flavor())), model.String(model.ParseMarkdown(m2, c2.Flavor()))
	if r1 != r2 {
		t.Fatalf("the two configurations read differently\nfirst:\n%ssecond:\n%s", r1, r2)
	}
}

package props

import (
	"fmt"
	"strings"
	"unicode"

	xhtml "golang.org/x/net/html"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C12", Quick: 600000, Thorough: 4000000, Run: normalForm,
		Findings: []pbt.Finding{{Name: "STRIKE-BLOCKS", Reproduce: func() string {
			md, _ := Config{Strike: true}.New().ConvertString("<del><pre>a\n\n\n\nb</pre></del>")
			if !strings.Contains(md, "~~```~~") {
				return ""
			}
			return md
		}}},
		Rule: "an input with at least three block-level elements, line breaks or code blocks"})
}

func normalForm(t *pbt.T) {
	c := AnyConfig(t)
	in := ""

	if t.Bool() {

		in = gen.NewSoup(t, gen.SoupOpts{Malformed: t.Bool(), Hostile: t.Chance(1, 3), Tables: t.Chance(1, 4)}).HTML(5)
		if strings.ContainsAny(xhtml.UnescapeString(in), "\u0007\ufdd0") {
			t.Discard()
		}
	} else {
		// blocks, breaks and blanks
		var b strings.Builder
		left := 5 + t.Intn(20)
		var mk func(d int)
		mk = func(d int) {
			t.Each(1, 5, func(i int) {
				left--
				if left < 0 {
					d = 0
				}
				switch t.Weighted(5, 4, 3, 4, 2, 1) {
				case 0:
					b.WriteString(pbt.Pick(t, "w", "x y", "é", "*", " ", "\n", "\r\n", "\u00a0", "  ", "\t"))
				case 1:
					b.WriteString(pbt.Pick(t, "<br>", "<br>", "<br> ", " <br>", "<br>\n", "<br/>&nbsp;", "<hr>", "<img>", "<img src=i>"))
				case 2:
					if d > 0 {

						x := pbt.Pick(t, "b", "em", "a href=u", "span", "del", "code", "q")
						b.WriteString("<" + x + ">")
						mk(d - 1)
						b.WriteString("</" + strings.Fields(x)[0] + ">")
					}
				case 3:
					if d > 0 {
						x := pbt.Pick(t, "p", "div", "blockquote", "h1", "h3", "section", "dl")
						b.WriteString("<" + x + ">")
						mk(d - 1)
						b.WriteString("</" + x + ">")
					}
				case 4:
					if d > 0 {

						x := pbt.Pick(t, "ul", "ol")
						b.WriteString("<" + x + ">")
						t.Each(1, 3, func(int) {
							b.WriteString("<li>")
							mk(d - 1)
							b.WriteString("</li>")
						})
						b.WriteString("</" + x + ">")
					}
				case 5:
					b.WriteString("<pre>" + pbt.Pick(t, "a\n\n\n\nb", "  a", "a  \n  b  ", "\n\na", "a\n\n\n", "", "\n", "`", "a\n  \n\nb") + "</pre>")
				}
			})
		}
		mk(4)
		in = b.String()
	}
	if c.Strike && strings.Contains(in, "<pre") && insideStrike(in) {
		t.Exclude("STRIKE-BLOCKS")
	}
	t.Note("html", in)
	t.Note("config", c.String())
	if strings.Count(in, "<") >= 6 {
		t.NonTrivial(in + c.String())
	}
	md, err := c.New().ConvertString(in)
	if err != nil {
		t.Discard()
	}
	t.Note("markdown", fmt.Sprintf("%q", md))
	t.Sample(fmt.Sprintf("%s %q => %q", c, clipS(in, 200), clipS(md, 200)))
	if strings.TrimFunc(md, unicode.IsSpace) != md {
		t.Fatalf("white space around the output: %q", md)
	}
	if i := strings.IndexAny(md, "\u0007\ufdd0"); i >= 0 {
		t.Fatalf("an internal marker in the output: %q", md)
	}
	if strings.Contains(md, "\r") {
		t.Fatalf("a carriage return in the output: %q", md)
	}
	if c.NoEscape && strings.Contains(in, "<pre") {
		return // text may look like a code fence, so what is code cannot be told
	}
	out := model.WithoutCode(md, c.Flavor())
	if strings.Contains(out, "\n\n\n") {
		t.Fatalf("more than one blank line: %q", md)
	}
	ls := strings.Split(out, "\n")
	for i, l := range ls {
		if i+1 < len(ls) && strings.HasSuffix(l, "  ") && strings.Trim(ls[i+1], " \t") == "" {
			t.Fatalf("line %d: a hard line break before a blank line: %q", i, md)
		}
	}
}

// insideStrike: a code block inside a struck element.
func insideStrike(in string) bool {
	doc, err := xhtml.Parse(strings.NewReader(in))
	if err != nil {
		return false
	}
	var walk func(n *xhtml.Node, in bool) bool
	walk = func(n *xhtml.Node, in bool) bool {
		switch n.Data {
		case "del", "s", "strike":
			in = true
		case "pre":
			if in {
				return true
			}
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			if walk(k, in) {
				return true
			}
		}
		return false
	}
	return walk(doc, false)
}

package props

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C29", Quick: 100000, Thorough: 2000000, Run: kept,
		Rule: "a document with at least one kept element that has content or attributes"})
}

// keptHTML writes an element as the HTML serialization writes it.
func keptHTML(t *pbt.T, tag string, depth int) string {
	var b strings.Builder
	b.WriteString("<" + tag)
	for i := t.Intn(3); i > 0; i-- {
		k := []string{"", "id", "data-x"}[i]
		b.WriteString(" " + k + `="` + pbt.Pick(t, "", "v", "a b", "it&#39;s", "&lt;&gt;", "&#34;q&#34;", "&amp;amp;", "*x*", "[y](z)", "`", "é", `\`, "http://x.y/?a=1&amp;b=2") + `"`)
	}
	b.WriteString(">")
	last := true // after a blank or at the beginning
	t.Each(1, 4, func(i int) {
		if depth > 0 && t.Chance(1, 3) {
			b.WriteString(keptHTML(t, []string{"u", "sub", "small"}[depth], depth-1))
			last = false
			return
		}
		s := pbt.Pick(t, "word", "*", "_a_", "**b**", "`c`", "#", "- x", "1. y", "[l](u)", "&lt;b&gt;", "&amp;amp;", `\`, "a*b", "~~", "é", "!", "=", "$")
		if t.Bool() && !last && i > 0 {
			s = " " + s
		}
		b.WriteString(s)
		last = false
	})
	b.WriteString("</" + tag + ">")
	return b.String()
}

var plainWordR = regexp.MustCompile(`^\pL[\pL\d]*$`)

// kept: elements that are registered to stay HTML do so, wherever they are,
// and everything else is as if a word (or a paragraph) stood there.
func kept(t *pbt.T) {
	c := GenConfig(t)
	if t.Chance(1, 6) {
		keptInFlow(t, c)
		return
	}
	if c.Heading == "setext" {
		c.Heading = "atx" // the underline is as long as the text
	}
	if c.Table {
		c.Padding = pbt.Pick(t, "minimal", "none")
	}
	g := gen.New(t, gen.DocOpts{Table: c.Table, Strike: c.Strike})
	doc := g.Doc(3, 4)
	n := 0
	repl := map[string]string{}
	used := map[string]bool{}
	put := func(html, md string) string {
		n++
		w := fmt.Sprintf("kept%dz", n)
		repl[w] = html
		if md != "" {
			repl[w+"md"] = md
		}
		return w
	}
	var blocks func(bs []model.Block) []model.Block
	runs := func(rs []model.Run) []model.Run {
		var out []model.Run
		for _, r := range rs {
			if r.Kind == "text" && strings.TrimSpace(r.Text) != "" {
				ws := strings.Split(r.Text, " ")
				for i, w := range ws {
					if plainWordR.MatchString(w) && t.Chance(1, 12) {
						// an element without content at the edge of a word
						tag := pbt.Pick(t, "x-keep", "u", "wbr", "iframe", "video", "embed")
						used[tag] = true
						attr := pbt.Pick(t, "", ` id="a"`, ` src="/u?a=1&amp;b=_2_"`)
						el := "<" + tag + attr + "></" + tag + ">"
						if tag == "wbr" || tag == "embed" {
							el = "<" + tag + attr + "/>"
						}
						if t.Bool() {
							ws[i] += put(el, "")
						} else {
							ws[i] = put(el, "") + w
						}
					} else if w != "" && t.Chance(1, 5) {
						tag := pbt.Pick(t, "x-keep", "mark", "kbd", "u")
						used[tag] = true
						ws[i] = put(keptHTML(t, tag, 2), "")
					} else if w != "" && i > 0 && i < len(ws)-1 && t.Chance(1, 12) {
						// only the content is kept, as if there was no element
						n++
						ws[i] = fmt.Sprintf("kept%dz", n)
						repl[ws[i]] = "\x01" + w
					}
				}
				r.Text = strings.Join(ws, " ")
			}
			out = append(out, r)
		}
		return out
	}
	blocks = func(bs []model.Block) []model.Block {
		var out []model.Block
		for _, b := range bs {
			b.Runs = runs(b.Runs)
			b.Kids = blocks(b.Kids)
			var its [][]model.Block
			for _, it := range b.Items {
				its = append(its, blocks(it))
			}
			b.Items = its
			var rows [][][]model.Run
			for _, row := range b.Rows {
				var cells [][]model.Run
				for _, c := range row {
					cells = append(cells, runs(c))
				}
				rows = append(rows, cells)
			}
			b.Rows = rows
			out = append(out, b)
			if b.Kind == "p" && t.Chance(1, 4) {
				out = append(out, model.Block{Kind: "p", Runs: []model.Run{{Kind: "text", Text: put("", "")}}})
				tag := pbt.Pick(t, "x-block", "aside", "form")
				used[tag] = true
				repl[fmt.Sprintf("kept%dz", n)] = "\x00" + keptHTML(t, tag, 2)
				if t.Chance(1, 4) {
					repl[fmt.Sprintf("kept%dz", n)] = "\x02" + pbt.Pick(t, "word", "é", "wo rd", "z")
				}
			}
		}
		return out
	}
	doc = blocks(doc)
	wrapped := 0
	if t.Chance(1, 3) {
		// an element of which only the tags are kept
		i := t.Intn(len(doc))
		j := i + 1 + t.Intn(len(doc)-i)
		mark := func(s string) model.Block {
			return model.Block{Kind: "p", Runs: []model.Run{{Kind: "text", Text: s}}}
		}
		in := append([]model.Block{mark("wrapopenz")}, doc[i:j]...)
		in = append(in, mark("wrapclosez"))
		doc = append(append(append([]model.Block{}, doc[:i]...), in...), doc[j:]...)
		wrapped = 1
		c.NoListEnd = true // the tags do not separate lists
	}
	plain := (&gen.Style{T: t, Plain: true}).Blocks(doc)
	want := Convert(t, c, plain)
	h := plain
	for i := n; i > 0; i-- {
		w := fmt.Sprintf("kept%dz", i)
		x, block := strings.CutPrefix(repl[w], "\x00")
		if y, ok := strings.CutPrefix(x, "\x02"); ok {
			// a block of which only the content is kept
			if !strings.Contains(h, "<p>"+w+"</p>") {
				t.Discard()
			}
			h = strings.Replace(h, "<p>"+w+"</p>", pbt.Pick(t, "<x-pblock>"+y+"</x-pblock>", `<x-pblock id="a"><p>`+y+"</p></x-pblock>", "<x-pblock><x-pblock>"+y+"</x-pblock></x-pblock>"), 1)
			want = strings.Replace(want, w, y, 1)
			continue
		}
		if y, plain := strings.CutPrefix(x, "\x01"); plain {
			h = strings.Replace(h, w, pbt.Pick(t, "<x-plain>"+y+"</x-plain>", `<x-plain id="a"><x-plain>`+y+"</x-plain></x-plain>"), 1)
			x = y
		} else if block {
			if !strings.Contains(h, "<p>"+w+"</p>") {
				t.Discard()
			}
			h = strings.Replace(h, "<p>"+w+"</p>", x, 1)
		} else {
			h = strings.Replace(h, w, x, 1)
		}
		want = strings.Replace(want, w, x, 1)
	}
	if wrapped > 0 {
		h = strings.Replace(strings.Replace(h, "<p>wrapopenz</p>", `<x-wrap class="c">`, 1), "<p>wrapclosez</p>", "</x-wrap>", 1)
		want = strings.Replace(strings.Replace(want, "wrapopenz", "<x-wrap>", 1), "wrapclosez", "</x-wrap>", 1)
	}
	if n+wrapped == 0 {
		t.Discard()
	}
	t.Note("html", h)
	t.Note("config", c.String())
	conv := c.New()
	for tag := range used {
		tt := converter.TagTypeInline
		if tag == "x-block" || tag == "aside" || tag == "form" {
			tt = converter.TagTypeBlock
		}
		conv.Register.RendererFor(tag, tt, base.RenderAsHTML, converter.PriorityEarly)
	}
	conv.Register.RendererFor("x-plain", converter.TagTypeInline, base.RenderAsPlaintextWrapper, converter.PriorityEarly)
	conv.Register.RendererFor("x-pblock", converter.TagTypeBlock, base.RenderAsPlaintextWrapper, converter.PriorityEarly)
	conv.Register.RendererFor("x-wrap", converter.TagTypeBlock, base.RenderAsHTMLWrapper, converter.PriorityEarly)
	got, err := conv.ConvertString(h)
	if err != nil {
		t.Fatalf("conversion of a valid document failed: %v", err)
	}
	t.NonTrivial(h + c.String())
	t.Sample(fmt.Sprintf("%s %q => %q", c, h, got))
	if got != want {
		t.Fatalf("kept elements do not appear as their HTML\nwant %q\ngot  %q", want, got)
	}
}

// keptInFlow: between words, a kept element is a block or a part of the line
// as it was registered, whatever it is in HTML and whatever is around it.
func keptInFlow(t *pbt.T, c Config) {
	conv := c.New()
	conv.Register.RendererFor("x-block", converter.TagTypeBlock, base.RenderAsHTML, converter.PriorityEarly)
	conv.Register.RendererFor("mark", converter.TagTypeBlock, base.RenderAsHTML, converter.PriorityEarly)
	conv.Register.RendererFor("x-keep", converter.TagTypeInline, base.RenderAsHTML, converter.PriorityEarly)
	conv.Register.RendererFor("section", converter.TagTypeInline, base.RenderAsHTML, converter.PriorityEarly)
	conv.Register.RendererFor("x-pblock", converter.TagTypeBlock, base.RenderAsPlaintextWrapper, converter.PriorityEarly)
	conv.Register.RendererFor("article", converter.TagTypeInline, base.RenderAsPlaintextWrapper, converter.PriorityEarly)
	var in strings.Builder
	var paras []string
	line := ""
	end := func() {
		if line != "" {
			paras = append(paras, line)
		}
		line = ""
	}
	inline := func(s string) {
		if line != "" {
			line += " "
			in.WriteString(pbt.Pick(t, " ", "\n"))
		} else if t.Chance(1, 4) {
			in.WriteString(" ")
		}
		line += s
	}
	nth := 0
	t.Each(1, 6, func(int) {
		nth++
		w := fmt.Sprintf("w%d", nth)
		tag := pbt.Pick(t, "", "", "x-block", "mark", "x-keep", "section", "x-pblock", "article")
		el := "<" + tag + ">" + w + "</" + tag + ">"
		wrap := pbt.Pick(t, "%s", "%s", "<span>%s</span>", "<x-u>%s</x-u>", "<x-u><span>%s</span></x-u>")
		switch tag {
		case "":
			inline(w)
			fmt.Fprintf(&in, wrap, w)
		case "x-keep":
			inline(el)
			fmt.Fprintf(&in, wrap, el)
		case "section": // a <span> around it would become a <div>
			inline(el)
			in.WriteString(el)
		case "article":
			inline(w)
			in.WriteString(el)
		case "x-block", "mark":
			end()
			paras = append(paras, el)
			fmt.Fprintf(&in, wrap, el)
		default:
			end()
			paras = append(paras, w)
			fmt.Fprintf(&in, wrap, el)
		}
	})
	end()
	h := fmt.Sprintf(pbt.Pick(t, "<div>%s</div>", "%s", "<x-v>%s</x-v>", "<blockquote>%s</blockquote>"), in.String())
	want := strings.Join(paras, "\n\n")
	if strings.HasPrefix(h, "<blockquote>") {
		want = "> " + strings.ReplaceAll(strings.ReplaceAll(want, "\n", "\n> "), "\n> \n", "\n>\n")
	}
	t.Note("html", h)
	t.Note("config", c.String())
	t.Label("flow")
	got, err := conv.ConvertString(h)
	if err != nil {
		t.Fatalf("conversion of a valid document failed: %v", err)
	}
	t.NonTrivial(h + c.String())
	if strings.ReplaceAll(got, "\n> \n", "\n>\n") != want {
		t.Fatalf("kept elements between words do not appear as they were registered\nwant %q\ngot  %q", want, got)
	}
}

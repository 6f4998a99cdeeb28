package props

import (
	"fmt"
	"regexp"
	"slices"
	"strings"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C11", Quick: 150000, Thorough: 4000000, Run: lists,
		Rule: "a document with a list of at least two items, or two lists"})
}

type listGen struct {
	t     *pbt.T
	c     Config
	g     *gen.G
	s     *gen.Style
	left  int
	items int
	lists int
	odd   bool
}

func (l *listGen) word() []model.Run {
	return []model.Run{{Kind: "text", Text: l.g.Word()}}
}

// gap is something that stands between items without being content.
func (l *listGen) gap() string {
	return pbt.Pick(l.t, "", "", "", " ", "\n", "\n\t", "<!-- c -->", "<script>x</script>", "\n<!-- <li> -->\n", "<style>li{}</style>")
}

// between is something without output that stands between blocks.
func (l *listGen) between() string {
	if l.t.Chance(1, 3) {
		e := pbt.Pick(l.t, "<img alt='q'>", "<br>", "<blockquote></blockquote>", "<p></p>", "<div><br></div>", "<b></b>", "<span></span>", "<h2></h2>", "<code></code>", "<table></table>", "<p> <i></i></p>", "<blockquote><p></p></blockquote>", "<ul></ul>", "<ol><li></li></ol>", "<section><img></section>", "<input>", "<iframe></iframe>")
		if strings.Contains(e, "l>") {
			l.lists++ // without items, but nevertheless one
		}
		return l.gap() + e + l.gap()
	}
	return l.gap()
}

// blocks draws the content of an item: the HTML and what it means.
func (l *listGen) blocks(depth int) (string, []model.Block) {
	t := l.t
	l.left--
	if l.left < 0 {
		depth = 0
	}
	switch t.Weighted(8, 3, 2, 2, 2, 1, 1, 1) {
	case 0:
		rs := l.word()
		return l.s.Inline(rs), para(rs)
	case 1:
		rs := l.g.Inlines(2, 0, false)
		return l.s.Inline(rs), para(rs)
	case 2:
		if depth > 0 {
			rs := l.word()
			h, b := l.list(depth - 1)
			return rs[0].Text + l.gap() + h, append(para(rs), b)
		}
	case 3:
		if depth > 0 {
			h, b := l.list(depth - 1)
			return h, []model.Block{b}
		}
	case 4:
		a, b := l.word(), l.word()
		o, c := "<p>", "</p>"
		if t.Bool() {
			o, c = "<div>", "</div>"
		}
		return o + a[0].Text + c + o + b[0].Text + c, append(para(a), para(b)...)
	case 5:
		b := l.g.Block(0)
		return l.s.Blocks([]model.Block{b}), []model.Block{b}
	case 6:
		if depth > 0 {
			h1, b1 := l.list(depth - 1)
			h2, b2 := l.list(depth - 1)
			return h1 + l.between() + h2, []model.Block{b1, b2}
		}
	case 7:
		a := l.word()
		if depth > 0 {
			h, b := l.list(depth - 1)
			z := l.word()
			return a[0].Text + h + "<p>" + z[0].Text + "</p>", append(append(para(a), b), para(z)...)
		}
	}
	rs := l.word()
	return rs[0].Text, para(rs)
}

func (l *listGen) list(depth int) (string, model.Block) {
	t := l.t
	l.lists++
	b := model.Block{Kind: "ul"}
	attr := ""
	if t.Bool() {
		b.Kind, b.Start = "ol", 1
		switch t.Weighted(4, 3, 2, 1) {
		case 1:
			b.Start = pbt.Pick(t, 0, 1, 2, 5, 8, 9, 10, 95, 98, 99, 100, 996, 999, 12345, 99999999, 999999000, 999999990, 999999997, 999999998, 999999999, 1000000000, -1, -7, 99999999999)
			attr = fmt.Sprintf(` start="%d"`, b.Start)
		case 2:
			attr = pbt.Pick(t, ` start=""`, ` start="abc"`, ` start="a5"`, ` start="+"`, ` start="- 3"`, ` start="99999999999999999999"`, ` start="-99999999999999999999"`, ` start`, ` type="a"`, ` reversed`, ` start="1"`)
		case 3:
			b.Start = pbt.Pick(t, 7, 7, 0, 12, 99999999)
			attr = ` start="` + pbt.Pick(t, "00", " ", "\n\t", "+", " +", "") + fmt.Sprint(b.Start) + pbt.Pick(t, "", " ", ".", ".9", "abc", "-1") + `"`
		}
	}
	var h strings.Builder
	h.WriteString("<" + b.Kind + attr + ">" + l.gap())
	n := 4
	if t.Chance(1, 10) {
		n = pbt.Pick(t, 9, 10, 11, 12)
		if t.Chance(1, 6) {
			n = 102
		}
	}
	lo := 1
	if n > 4 {
		lo = n
	}
	t.Each(lo, n, func(i int) {
		d := depth
		if n > 20 {
			d = 0
		}
		switch t.Weighted(12, 2, 2, 1) {
		case 1:
			// an item without content does not count
			l.odd = true
			h.WriteString("<li>" + pbt.Pick(t, "", " ", "\n", "<!-- c -->", "<span> </span>", "<script>x</script>", "<p></p>", "<ul></ul>") + "</li>" + l.gap())
			b.Items = append(b.Items, nil)
			return
		case 2:
			if len(b.Items) > 0 && d > 0 {
				// what stands between the items belongs to the item before
				l.odd = true
				k := len(b.Items) - 1
				if t.Bool() {
					x, kid := l.list(d - 1)
					h.WriteString(x + l.gap())
					b.Items[k] = append(b.Items[k], kid)
				} else {
					w := l.word()
					tag := pbt.Pick(t, "p", "div", "section")
					h.WriteString("<" + tag + ">" + w[0].Text + "</" + tag + ">" + l.gap())
					b.Items[k] = append(b.Items[k], para(w)...)
				}
				return
			}
		case 3:
			if len(b.Items) == 0 && i == 0 {
				// what stands before the first item is an item of its own
				l.odd = true
				w := l.word()
				h.WriteString("<p>" + w[0].Text + "</p>" + l.gap())
				b.Items = append(b.Items, para(w))
				// the next one has to be a real item
			}
		}
		x, kids := l.blocks(d)
		shut := "</li>"
		if t.Chance(1, 8) {
			shut = ""
		}
		h.WriteString("<li>" + pbt.Pick(t, "", "", " ", "\n") + x + pbt.Pick(t, "", "", " ", "\n") + shut)
		if shut != "" {
			h.WriteString(l.gap())
		}
		b.Items = append(b.Items, kids)
	})
	all := b.Items
	b.Items = nil
	for _, it := range all {
		if len(it) > 0 {
			b.Items = append(b.Items, it)
		}
	}
	if len(b.Items) == 0 {
		w := l.word()
		h.WriteString("<li>" + w[0].Text + "</li>")
		b.Items = append(b.Items, para(w))
	}
	if b.Start < 0 || b.Start+len(b.Items)-1 > 999999999 {
		b.Start = 1 // CommonMark has no such number
	}
	l.items += len(b.Items)
	h.WriteString("</" + b.Kind + ">")
	return h.String(), b
}

var markerLine = regexp.MustCompile(`(?m)^(\d+)([.)]) `)

func lists(t *pbt.T) {
	c := GenConfig(t)
	l := &listGen{t: t, c: c, left: 4 + t.Intn(14)}
	l.g = gen.New(t, gen.DocOpts{Strike: c.Strike, NoQuote: true})
	l.s = &gen.Style{T: t}
	if t.Chance(1, 12) {
		flatList(t, c)
		return
	}
	var h strings.Builder
	var want []model.Block
	t.Each(1, 3, func(int) {
		switch t.Weighted(8, 2, 1) {
		case 0:
			x, b := l.list(3)
			if t.Chance(1, 40) {
				// deep inside of other lists
				for n := t.Range(2, 30); n > 0; n-- {
					w := l.word()
					o := model.Block{Kind: "ul", Items: [][]model.Block{append(para(w), b)}}
					attr := ""
					if t.Bool() {
						o.Kind, o.Start = "ol", pbt.Pick(t, 1, 1, 9, 50)
						attr = fmt.Sprintf(` start="%d"`, o.Start)
					}
					x = "<" + o.Kind + attr + ">" + l.gap() + "<li>" + w[0].Text + l.gap() + x + l.gap() + "</li>"
					if t.Chance(1, 4) {
						w := l.word()
						x += "<li>" + w[0].Text + "</li>" + l.gap()
						o.Items = append(o.Items, para(w))
					}
					x += "</" + o.Kind + ">"
					b = o
					l.lists++
				}
				t.Label("deep")
			}
			h.WriteString(x + l.between())
			want = append(want, b)
		case 1:
			w := l.word()
			h.WriteString("<p>" + w[0].Text + "</p>")
			want = append(want, para(w)...)
		case 2:
			h.WriteString("<hr>")
			want = append(want, model.Block{Kind: "hr"})
		}
	})
	in := h.String()
	if t.Chance(1, 6) {
		in, want = "<blockquote>"+in+"</blockquote>", []model.Block{{Kind: "quote", Kids: want}}
	}
	t.Note("html", in)
	t.Note("config", c.String())
	if l.items >= 2 || l.lists >= 2 {
		t.NonTrivial(in)
	}
	if l.odd {
		t.Label("odd")
	}
	t.Label(fmt.Sprintf("lists=%d", min(l.lists, 6)))
	md := Convert(t, c, in)
	t.Note("markdown", md)
	t.Sample(fmt.Sprintf("%s %q => %q", c, clipS(in, 300), clipS(md, 300)))
	if w, g := model.String(want), model.String(model.ParseMarkdown(md, c.Flavor())); w != g {
		t.Fatalf("the lists do not read back\nwant:\n%sgot:\n%s", w, g)
	}
	if l.lists <= 1 && strings.Contains(md, "<!--") {
		t.Fatalf("a comment in the output of a single list")
	}
}

// flatList checks the markers themselves.
func flatList(t *pbt.T, c Config) {
	c.NoListEnd = t.Chance(1, 3)
	t.Label("flat")
	n := t.Range(1, 25)
	if t.Chance(1, 40) {
		t.Label("long")
		n = gen.Times(t, 4, 8000)
	}
	start := pbt.Pick(t, 1, 0, 1, 3, 8, 9, 85, 99, 990, 999999975, 999999999)
	var h, want strings.Builder
	two := t.Chance(1, 4)
	bullet := c.Bullet
	if bullet == "" {
		bullet = "-"
	}
	ol := t.Bool()
	sizes := []int{n}
	if two {
		sizes = append(sizes, t.Range(1, 12))
	}
	start = min(start, 999999999-slices.Max(sizes)+1) // up to the last number that there is
	k := 0
	for i, n := range sizes {
		if i > 0 {
			if c.NoListEnd {
				want.WriteString("\n\n")
			} else {
				want.WriteString("\n\n<!--THE END-->\n\n")
			}
		}
		if ol {
			fmt.Fprintf(&h, `<ol start="%d">`, start)
		} else {
			h.WriteString("<ul>")
		}
		width := len(fmt.Sprint(start + n - 1))
		for j := 0; j < n; j++ {
			k++
			fmt.Fprintf(&h, "<li>w%d</li>", k)
			if j > 0 {
				want.WriteString("\n")
			}
			if ol {
				fmt.Fprintf(&want, "%0*d. w%d", width, start+j, k)
			} else {
				fmt.Fprintf(&want, "%s w%d", bullet, k)
			}
		}
		if ol {
			h.WriteString("</ol>")
		} else {
			h.WriteString("</ul>")
		}
	}
	t.Note("html", h.String())
	t.Note("config", c.String())
	t.NonTrivial(h.String() + c.String())
	if md := Convert(t, c, h.String()); md != want.String() {
		t.Fatalf("the markers are not the expected ones\nwant:\n%s\ngot:\n%s", want.String(), md)
	}
}

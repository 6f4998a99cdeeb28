package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C14", Quick: 150000, Thorough: 3000000, Run: tables,
		Rule: "a table with at least two cells, or one that has no Markdown form"})
}

// tcell is a cell: what it means and what it spans.
type tcell struct {
	runs       []model.Run
	cols, rows int
	align      string
}

type trow struct {
	cells []tcell
	hasTh bool
}

type tableGen struct {
	big      bool
	t        *pbt.T
	g        *gen.G
	s        *gen.Style
	c        Config
	fallback string // why the table has no Markdown form
	words    []string
	rows     []*trow
	captions [][]model.Run
	spans    bool
	wide     bool
	role     string
	nested   bool
	first    int  // first row of the first thead
	plain    bool // single words only
}

func (x *tableGen) gap() string {
	return pbt.Pick(x.t, "", "", "", "\n", " ", "\n\t", "<!-- c -->", "<script>s</script>")
}

// content draws the content of a cell.
func (x *tableGen) content() (string, []model.Run) {
	t := x.t
	word := func() []model.Run {
		w := x.g.Word()
		if !x.big && t.Chance(1, 1000) {
			x.big = true
			w += strings.Repeat("x", gen.Times(t, 1, 5000))
		}
		return []model.Run{{Kind: "text", Text: w}}
	}
	if x.plain {
		if t.Chance(1, 5) {
			return "", nil
		}
		r := word()
		return r[0].Text, r
	}
	switch t.Weighted(10, 6, 4, 2, 3, 2, 1) {
	case 1:
		return pbt.Pick(t, "", "", " ", "\n", "&nbsp;", "<span> </span>", "<!-- c -->", "<b></b>", "<p></p>", "<br>"), nil
	case 2:
		nb := x.g.O.NoBr
		x.g.O.NoBr = true
		rs := x.g.Inlines(1, 0, false)
		x.g.O.NoBr = nb
		return x.s.Inline(rs), rs
	case 3:
		r := word()
		tag := pbt.Pick(t, "p", "div", "section", "center")
		return "<" + tag + ">" + r[0].Text + "</" + tag + ">", r
	case 4:
		a, b := x.g.Word(), x.g.Word()
		switch t.Intn(4) {
		case 0:
			return "<code>" + a + "|" + b + "</code>", []model.Run{{Kind: "code", Text: a + "|" + b}}
		case 1:
			return "<b>" + a + "|</b> " + b, []model.Run{{Kind: "text", Text: a + "|", Marks: model.Strong}, {Kind: "text", Text: " " + b}}
		}
		y := pbt.Pick(t, "|", "||", "a|b", "|-|", ":-:", `\|`, "---|---", "- x", "1. x", "# x", "> x", `x\`, `\`, "*x*", "`")
		if t.Bool() {
			return y, []model.Run{{Kind: "text", Text: y}}
		}
		return a + " " + y + " " + b, []model.Run{{Kind: "text", Text: a + " " + y + " " + b}}
	case 5:
		// more than one line
		a, b := word(), word()
		br := model.Run{Kind: "br"}
		if x.c.Newline != "preserve" {
			x.fallback = "lines"
			return pbt.Pick(t, a[0].Text+"<br>"+b[0].Text, "<p>"+a[0].Text+"</p><p>"+b[0].Text+"</p>", a[0].Text+"<div>"+b[0].Text+"</div>", "<pre>"+a[0].Text+" "+b[0].Text+"</pre>"), append(a, b...)
		}
		if t.Bool() {
			return a[0].Text + "<br>" + b[0].Text, append(append(a, br), b...)
		}
		return "<p>" + a[0].Text + "</p><p>" + b[0].Text + "</p>", append(append(a, br), b...)
	case 6:
		if !t.Chance(1, 3) {
			break
		}
		a := word()
		x.fallback = "block"
		if t.Chance(1, 8) {
			x.nested = true
			return "<table><tr><td>" + a[0].Text + "</td></tr></table>", a
		}
		return fmt.Sprintf(pbt.Pick(t, "<ul><li>%s</li></ul>", "<ol><li>%s</li></ol>", "<h3>%s</h3>", "<blockquote>%s</blockquote>", "%s<hr>", "<h6>%s</h6>", "<div><ul><li>%s</ul></div>"), a[0].Text), a
	}
	r := word()
	return r[0].Text, r
}

func (x *tableGen) row(thead bool) string {
	t := x.t
	r := &trow{}
	var b strings.Builder
	b.WriteString("<tr>" + x.gap())
	th := pbt.Pick(t, 0, 0, 0, 1, 2)
	if thead || len(x.rows) == 0 {
		th = pbt.Pick(t, 2, 2, 0, 1)
	}
	hi := 4
	if !x.big && t.Chance(1, 1000) {
		x.big = true
		hi = gen.Times(t, 10, 3000)
	}
	cell := func(int) {
		h, rs := x.content()
		c := tcell{runs: rs, cols: 1, rows: 1}
		tag := "td"
		if th == 2 || th == 1 && t.Bool() {
			tag = "th"
			r.hasTh = true
		}
		attr := ""
		if t.Chance(1, 3) {
			c.align = pbt.Pick(t, "left", "right", "center", "justify", "")
			w := c.align
			switch t.Weighted(8, 1, 1) {
			case 1:
				w = strings.ToUpper(w)
			case 2:
				w = strings.ToUpper(w[:min(1, len(w))]) + w[min(1, len(w)):]
			}
			attr += ` align="` + w + `"`
		}
		num := func(k string) int {
			switch t.Weighted(8, 1) {
			case 1:
				v := pbt.Pick(t, "", "-1", "x", "1.5", "1", "0", " 1", "1px", "x2", "- 2", "--2")
				if k == "rowspan" && v == "0" {
					v = "1" // means up to the end of the section in HTML
				}
				attr += fmt.Sprintf(` %s="%s"`, k, v)
				return 1
			}
			n := pbt.Pick(t, 2, 2, 3, 4)
			if k == "rowspan" && t.Chance(1, 6) {
				n = pbt.Pick(t, 5, 7)
			}
			if k == "rowspan" && !x.wide && !x.big && t.Chance(1, 400) {
				n = pbt.Pick(t, 300, 999, 1000, 1001, 2000000000)
				x.wide = true
			}
			if k == "colspan" && !x.wide && t.Chance(1, 400) {
				n = pbt.Pick(t, 999, 1000, 1001, 2000000000)
				x.wide = true
			}
			v := fmt.Sprint(n)
			if t.Chance(1, 8) {
				v = pbt.Pick(t, " ", "\n", "+", "0", "") + v + pbt.Pick(t, " ", "px", ".7", ";", "%", "")
			}
			attr += fmt.Sprintf(` %s="%s"`, k, v)
			x.spans = true
			return min(n, 1000)
		}
		if t.Chance(1, 6) {
			c.cols = num("colspan")
		}
		if t.Chance(1, 6) && c.cols < 10 {
			c.rows = num("rowspan")
		}
		r.cells = append(r.cells, c)
		shut := "</" + tag + ">"
		if t.Chance(1, 10) {
			shut = ""
		}
		b.WriteString("<" + tag + attr + ">" + pbt.Pick(t, "", "", " ", "\n") + h + pbt.Pick(t, "", "", " ", "\n") + shut + x.gap())
	}
	if hi > 4 {
		for i := 0; i < hi; i++ {
			cell(i)
		}
	} else {
		t.Each(0, hi, cell)
	}
	b.WriteString("</tr>" + x.gap())
	x.rows = append(x.rows, r)
	return b.String()
}

// table draws a table.
func (x *tableGen) table() string {
	t := x.t
	var b strings.Builder
	b.WriteString("<table")
	if t.Chance(1, 8) {
		x.role = pbt.Pick(t, "presentation", "presentation", "grid", "none")
		b.WriteString(` role="` + x.role + `"`)
		if x.role == "presentation" && !x.c.Presentation {
			x.fallback = "presentation"
		}
	}
	b.WriteString(">" + x.gap())
	capt := func() {
		rs := []model.Run{{Kind: "text", Text: x.g.Word()}}
		h := rs[0].Text
		switch t.Intn(6) {
		case 0:
			h = pbt.Pick(t, "x", "7", "é", "日", "|", "a|b", "| a | b |")
			rs = []model.Run{{Kind: "text", Text: h}}
		case 1:
			nb := x.g.O.NoBr
			x.g.O.NoBr = true
			rs = x.g.Inlines(1, 0, false)
			x.g.O.NoBr = nb
			h = x.s.Inline(rs)
		}
		x.captions = append(x.captions, rs)
		b.WriteString("<caption>" + pbt.Pick(t, "", " ", "\n") + h + "</caption>" + x.gap())
	}
	if t.Chance(1, 6) {
		capt()
	}
	if t.Chance(1, 10) {
		b.WriteString("<colgroup><col><col></colgroup>")
	}
	seen := false
	x.first = -1
	t.Each(1, 3, func(i int) {
		n := len(x.rows)
		sec := pbt.Pick(t, "", "tbody", "thead", "tfoot")
		if i == 0 {
			sec = pbt.Pick(t, "", "thead", "tbody", "tfoot")
		}
		if sec != "" {
			b.WriteString("<" + sec + ">" + x.gap())
		}
		t.Each(0, 3, func(int) { b.WriteString(x.row(sec == "thead")) })
		if !x.big && t.Chance(1, 400) {
			x.big = true
			for n := gen.Times(t, 10, 3000); n > 0; n-- {
				b.WriteString(x.row(sec == "thead"))
			}
		}
		if sec != "" {
			b.WriteString("</" + sec + ">" + x.gap())
		}
		if sec == "thead" && !seen {
			seen = true
			if len(x.rows) > n {
				x.first = n
			}
		}
	})
	if t.Chance(1, 12) {
		capt()
	}
	b.WriteString("</table>")
	return b.String()
}

// headerRow is the first row of the first thead that matters, or the row of the first th.
func (x *tableGen) headerRow(firstThead int) *trow {
	if firstThead >= 0 {
		return x.rows[firstThead]
	}
	for _, r := range x.rows {
		if r.hasTh {
			return r
		}
	}
	return nil
}

// grid lays the cells out: the first row of the result is the header.
func (x *tableGen) grid(header *trow) (rows [][][]model.Run, align []string) {
	order := []*trow{header}
	for _, r := range x.rows {
		if r != header {
			order = append(order, r)
		}
	}
	type pos struct{ y, x int }
	at := map[pos][]model.Run{}
	taken := map[pos]bool{}
	width, height := 0, len(order)
	for y, r := range order {
		col := 0
		if r == nil {
			continue
		}
		for _, c := range r.cells {
			for taken[pos{y, col}] {
				col++
			}
			for dy := 0; dy < c.rows; dy++ {
				for dx := 0; dx < c.cols; dx++ {
					p := pos{y + dy, col + dx}
					if taken[p] {
						continue
					}
					taken[p] = true
					width, height = max(width, p.x+1), max(height, p.y+1)
					if dy == 0 && dx == 0 || x.c.Span == "mirror" {
						at[p] = c.runs
					}
				}
			}
			col++
		}
	}
	for y := 0; y < height; y++ {
		// as wide as its last cell
		n := 0
		for i := 0; i < width; i++ {
			if taken[pos{y, i}] {
				n = i + 1
			}
		}
		row := make([][]model.Run, n)
		for i := range row {
			row[i] = at[pos{y, i}]
		}
		rows = append(rows, row)
	}
	if x.c.SkipEmpty {
		kept := rows[:1:1]
		for _, r := range rows[1:] {
			if !emptyRow(r) {
				kept = append(kept, r)
			}
		}
		rows = kept
		if len(rows) == 1 && emptyRow(rows[0]) {
			return nil, nil
		}
	}
	if x.c.Promote && emptyRow(rows[0]) {
		rows = rows[1:]
	}
	// columns may have gone together with their rows
	width = 0
	for _, r := range rows {
		width = max(width, len(r))
	}
	for y := range rows {
		for len(rows[y]) < width {
			rows[y] = append(rows[y], nil)
		}
	}
	first := header
	if first == nil && len(x.rows) > 0 {
		first = x.rows[0]
	}
	for i := 0; i < width; i++ {
		align = append(align, "none")
	}
	i := 0
	if first != nil {
		for _, c := range first.cells {
			for k := 0; k < c.cols && i < width; k++ {
				switch c.align {
				case "left", "right", "center":
					align[i] = c.align
				}
				i++
			}
		}
	}
	return rows, align
}

func emptyRow(r [][]model.Run) bool {
	for _, c := range r {
		if len(c) > 0 {
			return false
		}
	}
	return true
}

// brs turns the "<br />" of a cell into a line break.
func brs(bs []model.Block) []model.Block {
	for i := range bs {
		brs(bs[i].Kids)
		for _, it := range bs[i].Items {
			brs(it)
		}
		for _, r := range bs[i].Rows {
			for _, c := range r {
				for k := range c {
					if k > 0 && c[k].Kind == "rawhtml" && c[k-1].Kind == "br" {
						c[k] = model.Run{Kind: "text"}
						c[k-1], c[k] = c[k], c[k-1] // how many there are does not matter
						continue
					}
					if c[k].Kind == "rawhtml" && c[k].Text == "<br />" {
						c[k] = model.Run{Kind: "br"}
					}
				}
			}
		}
	}
	return bs
}

func hasTable(bs []model.Block) bool {
	for _, b := range bs {
		if b.Kind == "table" || hasTable(b.Kids) {
			return true
		}
		for _, it := range b.Items {
			if hasTable(it) {
				return true
			}
		}
	}
	return false
}

func tables(t *pbt.T) {
	c := GenConfig(t)
	if !c.Table {
		c.Table = true
		c.Span = pbt.Pick(t, "", "mirror")
	}
	x := &tableGen{t: t, c: c, g: gen.New(t, gen.DocOpts{Strike: c.Strike}), s: &gen.Style{T: t}}
	x.plain = t.Chance(1, 3)
	in := x.table()
	blocks := x.expect()
	// around the table
	pre, post := "", ""
	if t.Chance(1, 3) {
		w := x.g.Word()
		pre = pbt.Pick(t, "<p>"+w+"</p>", w, "<table><tr><th>"+w+"</th></tr></table>")
		k := para([]model.Run{{Kind: "text", Text: w}})
		if strings.HasPrefix(pre, "<table") {
			k = []model.Block{{Kind: "table", Align: []string{"none"}, Rows: [][][]model.Run{{k[0].Runs}}}}
		}
		blocks = append(k, blocks...)
	}
	if t.Chance(1, 3) {
		w := x.g.Word()
		post = pbt.Pick(t, "<p>"+w+"</p>", w, "<h2>"+w+"</h2>")
		k := para([]model.Run{{Kind: "text", Text: w}})
		if strings.HasPrefix(post, "<h2") {
			k[0].Kind, k[0].Level = "h", 2
		}
		blocks = append(blocks, k...)
	}
	in = pre + in + post
	switch t.Weighted(10, 2, 2, 2, 1) {
	case 1:
		if len(blocks) == 0 {
			break
		}
		in, blocks = "<blockquote>"+in+"</blockquote>", []model.Block{{Kind: "quote", Kids: blocks}}
	case 2:
		w := x.g.Word()
		blocks = append(para([]model.Run{{Kind: "text", Text: w}}), blocks...)
		in, blocks = "<ul><li><p>"+w+"</p>"+in+"</li></ul>", []model.Block{{Kind: "ul", Items: [][]model.Block{blocks}}}
	case 3:
		in = "<div>" + in + "</div>"
	case 4:
		if pre == "" && post == "" {
			w := pbt.Pick(t, "b", "strong", "em", "i", "del", "s", "strike", "a href=u", "b><span", "a href=u><div")
			x.fallback = "parent"
			in = "<" + w + ">" + in + "</" + strings.Fields(strings.Split(w, ">")[0])[0] + ">"
		}
	}
	t.Note("html", in)
	t.Note("config", c.String())
	cells := 0
	for _, r := range x.rows {
		cells += len(r.cells)
	}
	if cells >= 2 || x.fallback != "" {
		t.NonTrivial(in + c.String())
	}
	if x.spans {
		t.Label("spans")
	}
	md := Convert(t, c, in)
	t.Note("markdown", md)
	t.Sample(fmt.Sprintf("%s %q => %q", c, clipS(in, 300), clipS(md, 300)))
	got := brs(model.ParseMarkdown(md, c.Flavor()))
	if x.fallback != "" {
		t.Label("fallback:" + x.fallback)
		if x.nested || strings.HasPrefix(pre, "<table") {
			return
		}
		if hasTable(got) {
			t.Fatalf("a table that has no Markdown form (%s) became one", x.fallback)
		}
		if !strings.Contains(in, "|") && strings.Contains(md, "|") {
			t.Fatalf("a table that has no Markdown form (%s) is written as one", x.fallback)
		}
		// the words are those of C05
		return
	}
	if w, g := model.String(blocks), model.String(got); w != g {
		t.Fatalf("the table does not read back\nwant:\n%sgot:\n%s", w, g)
	}
}

// expect is the meaning of the drawn table.
func (x *tableGen) expect() []model.Block {
	var out []model.Block
	rows, align := [][][]model.Run(nil), []string(nil)
	rows, align = x.grid(x.headerRow(x.first))
	if len(rows) > 0 && len(rows[0]) > 0 {
		out = append(out, model.Block{Kind: "table", Align: align, Rows: rows})
	} else if x.fallback == "" {
		x.fallback = "empty"
	}
	for _, rs := range x.captions {
		out = append(out, model.Block{Kind: "p", Runs: rs})
	}
	return out
}

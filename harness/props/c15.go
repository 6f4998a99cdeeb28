package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C15", Quick: 100000, Thorough: 2000000, Run: tableOptions,
		Rule: "a table with at least two cells compared under at least two settings of an option"})
}

// cellsOf splits the lines of a table into the raw text of the cells.
func cellsOf(t *pbt.T, md string) [][]string {
	if ls := strings.Split(md, "\n"); len(ls) < 2 || strings.Trim(ls[1], "|:-") != "" || !strings.Contains(ls[1], "-") {
		return nil
	}
	var out [][]string
	for _, l := range strings.Split(md, "\n") {
		if !strings.HasPrefix(l, "|") || !strings.HasSuffix(l, "|") || len(l) < 2 {
			return nil
		}
		var row []string
		cur := 1
		for i := 1; i < len(l); i++ {
			if l[i] == '|' && l[i-1] != '\\' {
				row = append(row, l[cur:i])
				cur = i + 1
			}
		}
		if cur != len(l) {
			t.Fatalf("a table row that does not end with a pipe: %q", l)
		}
		out = append(out, row)
	}
	if len(out) < 2 {
		return nil
	}
	for _, r := range out {
		if len(r) != len(out[0]) {
			t.Fatalf("rows of different length:\n%s", md)
		}
	}
	for _, d := range out[1] {
		if len(d) < 3 || strings.Trim(d[1:len(d)-1], "-") != "" || !strings.Contains(":-", d[:1]) || !strings.Contains(":-", d[len(d)-1:]) {
			t.Fatalf("the second line is no delimiter row:\n%s", md)
		}
	}
	return out
}

// plainCells are the trimmed cells, without the delimiter row and without empty columns at the end.
func plainCells(c [][]string) string {
	var out []string
	for i, r := range c {
		if i == 1 {
			continue
		}
		var row []string
		for _, x := range r {
			row = append(row, strings.TrimSpace(x))
		}
		for len(row) > 0 && row[len(row)-1] == "" {
			row = row[:len(row)-1]
		}
		out = append(out, strings.Join(row, "\x01"))
	}
	return strings.Join(out, "\n")
}

func layout(t *pbt.T, mode, md string, c [][]string) {
	for j := range c[0] {
		w := 1
		for i, r := range c {
			if i != 1 {
				w = max(w, utf8.RuneCountInString(strings.TrimSpace(r[j])))
			}
		}
		for i, r := range c {
			x := strings.TrimSpace(r[j])
			want := ""
			switch {
			case i == 1 && mode == "aligned":
				want = r[j][:1] + strings.Repeat("-", w) + r[j][len(r[j])-1:]
			case i == 1:
				want = r[j][:1] + "-" + r[j][len(r[j])-1:]
			case mode == "aligned":
				want = " " + x + strings.Repeat(" ", w-utf8.RuneCountInString(x)) + " "
			case mode == "minimal":
				want = " " + x + " "
			case strings.HasSuffix(x, `\`):
				want = x + " " // or the backslash would escape the pipe
			default:
				want = x
			}
			if r[j] != want {
				t.Fatalf("cell padding %q: the cell is %q and not %q:\n%s", mode, r[j], want, md)
			}
		}
	}
}

// cellLines: with the newlines preserved, a cell is the output of its content
// in one line, with a line break element in place of every newline.
func cellLines(t *pbt.T) {
	c := GenConfig(t)
	c.Table, c.Newline, c.Padding, c.SkipEmpty = true, "preserve", pbt.Pick(t, "minimal", "none"), false
	c.Promote = false
	n := 0
	word := func() string {
		n++
		return fmt.Sprintf("%s%d", pbt.Pick(t, "a", "bc", "é", "日本", "x y"), n)
	}
	piece := func() string {
		switch t.Intn(9) {
		case 0:
			return word() + "<br>" + word()
		case 1:
			return "<p>" + word() + "</p>"
		case 2:
			return "<div>" + word() + pbt.Pick(t, "", "<br>", "<br><br>") + "</div>"
		case 3:
			var b strings.Builder
			for k := t.Range(1, 5); k > 0; k-- {
				b.WriteString(pbt.Pick(t, "", " ", "  ", "*", "<b>") + word() + pbt.Pick(t, "\n", "\n", "\n\n", "\r\n"))
				if t.Chance(1, 20) {
					b.WriteString("\n\n\n")
				}
			}
			return "<pre>" + pbt.Pick(t, "", "<code>", `<code class="language-go">`) + strings.ReplaceAll(b.String(), "<b>", "&lt;b&gt;") + "</pre>"
		case 4:
			return "<b>" + word() + pbt.Pick(t, " ", "<br>") + word() + "</b>"
		case 5:
			return `<a href="/u">` + word() + pbt.Pick(t, " ", "<br>") + word() + "</a>"
		case 6:
			return "<code>" + word() + "\n" + word() + "</code>"
		}
		return word()
	}
	var b strings.Builder
	b.WriteString("<table><tr><th>h1</th><th>h2</th></tr>")
	var want [][]string
	breaks := 0
	for i := t.Range(1, 3); i > 0; i-- {
		b.WriteString("<tr>")
		var row []string
		for j := 0; j < 2; j++ {
			h := ""
			for k := t.Range(0, 4); k > 0; k-- {
				h += piece() + pbt.Pick(t, " ", "\n", " ")
			}
			b.WriteString("<td>" + h + "</td>")
			w := Convert(t, c, h)
			breaks += strings.Count(w, "\n")
			row = append(row, strings.ReplaceAll(w, "\n", "<br />"))
		}
		want = append(want, row)
		b.WriteString("</tr>")
	}
	in := b.String() + "</table>"
	t.Note("html", in)
	t.Note("config", c.String())
	t.Label("lines")
	if breaks > 1 {
		t.NonTrivial(in + c.String())
	}
	md := Convert(t, c, in)
	t.Note("markdown", md)
	t.Sample(fmt.Sprintf("%s %q => %q", c, clipS(in, 300), clipS(md, 200)))
	got := cellsOf(t, md)
	if len(got) != 2+len(want) {
		t.Fatalf("%d lines and not %d:\n%s", len(got), 2+len(want), md)
	}
	for i, row := range want {
		for j, w := range row {
			if g := strings.Trim(got[i+2][j], " "); g != strings.Trim(w, " ") {
				t.Fatalf("row %d, cell %d is\n%q\nbut its content alone gives\n%q", i, j, g, w)
			}
		}
	}
}

func tableOptions(t *pbt.T) {
	if t.Chance(1, 8) {
		cellLines(t)
		return
	}
	c := Config{Table: true}
	if t.Chance(1, 4) {
		c = GenConfig(t)
		c.Table = true
		c.Span, c.Newline, c.SkipEmpty, c.Promote, c.Presentation = "", "", false, false, false
	}
	c.Padding = "none"
	c.Span = pbt.Pick(t, "", "empty", "mirror")
	c.Newline = pbt.Pick(t, "", "skip", "preserve")
	x := &tableGen{t: t, c: c, g: gen.New(t, gen.DocOpts{Strike: c.Strike}), s: &gen.Style{T: t}}
	x.plain = t.Chance(1, 4)
	in := x.table()
	cells := 0
	for _, r := range x.rows {
		cells += len(r.cells)
	}
	if x.wide || cells == 0 {
		t.Discard()
	}
	if x.nested {
		t.Discard()
	}
	if len(x.captions) > 0 {
		// it follows the table
		t.Discard()
	}
	t.Note("html", in)
	t.Note("config", c.String())
	if cells >= 2 {
		t.NonTrivial(in + c.String())
	}
	conv := func(c Config) string { return Convert(t, c, in) }
	md := conv(c)
	t.Note("markdown", md)
	t.Sample(fmt.Sprintf("%s %q => %q", c, clipS(in, 300), clipS(md, 200)))
	base := cellsOf(t, md)
	switch k := t.Intn(7); k {
	case 0, 1:
		t.Label("padding")
		first := ""
		for i, mode := range []string{"none", "minimal", "aligned"} {
			d := c
			d.Padding = mode
			m := conv(d)
			t.Note(mode, m)
			got := cellsOf(t, m)
			if got == nil {
				if base != nil || m != md {
					t.Fatalf("the padding changes more than the table:\n%s\n%s", md, m)
				}
				continue
			}
			layout(t, mode, m, got)
			if p := plainCells(got); i == 0 {
				first = p
			} else if p != first {
				t.Fatalf("the padding changes the content of the cells:\n%s\n%s", md, m)
			}
			if mode == "aligned" {
				d.Padding = ""
				if n := conv(d); n != m {
					t.Fatalf("the default padding is not \"aligned\":\n%s\n%s", m, n)
				}
			}
		}
	case 2:
		t.Label("skip")
		d := c
		d.SkipEmpty = true
		m := conv(d)
		t.Note("skipping", m)
		if base == nil {
			return
		}
		var want [][]string
		body := 0
		for i, r := range base {
			if i > 1 && strings.TrimSpace(strings.Join(r, "")) == "" {
				continue
			}
			if i > 1 {
				body++
			}
			want = append(want, r)
		}
		got := cellsOf(t, m)
		if body == 0 && strings.TrimSpace(strings.Join(base[0], "")) == "" {
			if got != nil || strings.Trim(m, " \u00a0\\\n") != "" {
				t.Fatalf("the table is empty but not skipped: %q", m)
			}
			return
		}
		if got == nil || plainCells(got) != plainCells(want) {
			t.Fatalf("skipping empty rows changes more than that:\n%s\n%s", md, m)
		}
	case 3:
		t.Label("promote")
		d := c
		d.Promote = true
		m := conv(d)
		t.Note("promoting", m)
		if base == nil {
			if m != md {
				t.Fatalf("promotion without a table:\n%s\n%s", md, m)
			}
			return
		}
		if strings.TrimSpace(strings.Join(base[0], "")) != "" {
			if m != md {
				t.Fatalf("promotion although there is a header:\n%s\n%s", md, m)
			}
			return
		}
		got := cellsOf(t, m)
		if plainCells(base) == strings.Repeat("\n", len(base)-2) && len(base) > 2 {
			return // nothing in the table at all
		}
		if len(base) == 2 {
			if got != nil {
				t.Fatalf("a header without rows: %q", m)
			}
			return
		}
		want := append([][]string{base[2], base[1]}, base[3:]...)
		if got == nil || plainCells(got) != plainCells(want) {
			t.Fatalf("the first row is not promoted:\n%s\n%s", md, m)
		}
	case 4:
		t.Label("presentation")
		if strings.Contains(in, " role=") {
			t.Discard()
		}
		plain := md
		in = strings.Replace(in, "<table", `<table role="`+pbt.Pick(t, "presentation", "grid", "none", "table", "")+`"`, 1)
		role := strings.Contains(in, `role="presentation"`)
		m := conv(c)
		d := c
		d.Presentation = true
		n := conv(d)
		t.Note("with the option", n)
		if n != plain {
			t.Fatalf("a role changes the table although presentation tables are converted:\n%s\n%s", plain, n)
		}
		if !role && m != plain {
			t.Fatalf("the role is not \"presentation\" but the table is different:\n%s\n%s", plain, m)
		}
		if role && cellsOf(t, m) != nil && !x.hostile() {
			t.Fatalf("a presentation table is converted: %s", m)
		}
	case 6:
		t.Label("span")
		d := c
		d.Span = "mirror"
		m := conv(d)
		d.Span = "empty"
		n := conv(d)
		d.Span = ""
		if o := conv(d); o != n {
			t.Fatalf("spans are not left empty by default:\n%s\n%s", n, o)
		}
		t.Note("mirror", m)
		t.Note("empty", n)
		a, b := cellsOf(t, n), cellsOf(t, m)
		if !x.spans && m != n {
			t.Fatalf("nothing spans, but the option matters:\n%s\n%s", n, m)
		}
		if a == nil || b == nil {
			if m != n {
				t.Fatalf("only one of them is a table:\n%s\n%s", n, m)
			}
			return
		}
		if len(a) != len(b) || len(a[0]) != len(b[0]) {
			t.Fatalf("mirroring changes the size of the table:\n%s\n%s", n, m)
		}
		for i := range a {
			for j, y := range a[i] {
				if y != "" && b[i][j] != y {
					t.Fatalf("mirroring changes a cell that has content: %q %q", y, b[i][j])
				}
				found := y != "" || b[i][j] == ""
				for i2 := 0; i2 <= i; i2++ {
					for j2 := 0; j2 <= j; j2++ {
						found = found || a[i2][j2] == b[i][j]
					}
				}
				if !found {
					t.Fatalf("a mirrored cell differs from the ones to its left and above: %q", b[i][j])
				}
			}
		}
	case 5:
		t.Label("newline")
		d := c
		d.Newline = "preserve"
		m := conv(d)
		d.Newline = "skip"
		n := conv(d)
		d.Newline = ""
		if o := conv(d); o != n {
			t.Fatalf("the default is not to skip:\n%s\n%s", n, o)
		}
		t.Note("preserve", m)
		t.Note("skip", n)
		if a := cellsOf(t, n); a != nil {
			if m != n {
				t.Fatalf("no cell has a line break, but the option matters:\n%s\n%s", n, m)
			}
			return
		}
		a := cellsOf(t, m)
		if a != nil && !strings.Contains(m, "<br />") {
			t.Fatalf("the table without line breaks is skipped: %s", m)
		}
		if a == nil && m != n {
			t.Fatalf("not a table in both settings, yet different:\n%s\n%s", n, m)
		}
	}
}

// hostile: the text of a cell may itself look like a table.
func (x *tableGen) hostile() bool { return !x.plain }

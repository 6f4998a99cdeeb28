package gen

import (
	"regexp"
	"strconv"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Times draws how often something of the given weight is repeated, so that the
// whole stays below max. The sizes lie on both sides of the usual limits of
// buffers, counters and fixed arrays.
func Times(t *pbt.T, weight, max int) int {
	n := pbt.Pick(t, 9, 12, 17, 33, 40, 65, 101, 130, 257, 300, 513, 1001, 1025, 4097, 10001, 70000) + t.Intn(4)
	return min(n, 1+max/(weight+1))
}

// Doc draws blocks, and now and then one part of them is made much longer,
// wider or deeper than the others.
func (g *G) Doc(depth, n int) []model.Block {
	bs := g.Blocks(depth, n)
	if g.T.Chance(1, 250) {
		g.T.Span("pump", func() { bs = g.Pump(bs) })
	}
	return bs
}

func weight(b model.Block) int {
	w := 1 + len(b.Code)/20
	for _, r := range b.Runs {
		w += 1 + len(r.Text)/10
	}
	for _, k := range b.Kids {
		w += weight(k)
	}
	for _, it := range b.Items {
		for _, k := range it {
			w += weight(k)
		}
	}
	for _, r := range b.Rows {
		for _, c := range r {
			w += 1 + len(c)
		}
	}
	return w
}

// Pump repeats a part of the document.
func (g *G) Pump(bs []model.Block) []model.Block {
	t := g.T
	g.count("pumped")
	i := t.Intn(len(bs))
	b := bs[i]
	// go down to a part of it
	for t.Chance(1, 2) {
		switch {
		case b.Kind == "quote":
			b.Kids = g.Pump(b.Kids)
			return replaced(bs, i, b)
		case b.Kind == "ul" || b.Kind == "ol":
			j := t.Intn(len(b.Items))
			items := append([][]model.Block{}, b.Items...)
			items[j] = g.Pump(items[j])
			b.Items = items
			return replaced(bs, i, b)
		}
	}
	w := weight(b)
	k := t.Weighted(4, 1, 1)
	if g.O.NoQuote && k == 2 {
		k = 0
	}
	switch {
	case k == 1:
		// the block many times
		var out []model.Block
		out = append(out, bs[:i]...)
		for n := Times(t, w, 3000); n > 0; n-- {
			out = append(out, b)
		}
		return append(out, bs[i+1:]...)
	case k == 2:
		// the block deep inside
		for n := min(40, Times(t, w, 1000)); n > 0; n-- {
			switch t.Weighted(3, 2, 1) {
			case 0:
				b = model.Block{Kind: "quote", Kids: []model.Block{b}}
			case 1:
				b = model.Block{Kind: "ul", Items: [][]model.Block{{b}}}
			case 2:
				b = model.Block{Kind: "ol", Start: 1, Items: [][]model.Block{{b}}}
			}
		}
	case b.Kind == "ul" || b.Kind == "ol":
		n := Times(t, w, 3000)
		var items [][]model.Block
		for ; n > 0; n-- {
			items = append(items, b.Items...)
		}
		b.Items = items
		b.Start = min(b.Start, 999999999-len(items))
	case b.Kind == "quote":
		n := Times(t, w, 3000)
		var kids []model.Block
		for ; n > 0; n-- {
			kids = append(kids, b.Kids...)
		}
		b.Kids = kids
	case b.Kind == "table":
		rows := append([][][]model.Run{}, b.Rows...)
		if len(rows) > 1 && t.Bool() {
			for n := Times(t, w, 3000); n > 1; n-- {
				rows = append(rows, b.Rows[1:]...)
			}
		} else {
			n := Times(t, w, 1500)
			for y, r := range rows {
				var row [][]model.Run
				for k := n; k > 0; k-- {
					row = append(row, r...)
				}
				rows[y] = row
			}
			var al []string
			for ; n > 0; n-- {
				al = append(al, b.Align...)
			}
			b.Align = al
		}
		b.Rows = rows
	case b.Kind == "code":
		n := Times(t, len(b.Code), 150000)
		switch t.Intn(3) {
		case 0:
			b.Code = strings.TrimSuffix(strings.Repeat(b.Code+"\n", n), "\n")
		case 1:
			b.Code = "x" + strings.Repeat(strings.ReplaceAll(b.Code, "\n", " "), n) + "x"
		case 2:
			b.Code = strings.Repeat(pbt.Pick(t, "`", "~"), min(n, 3000)) + "\n" + b.Code
		}
	case len(b.Runs) > 0:
		b.Runs = g.pumpRuns(b.Runs, b.Kind == "p" && !g.O.NoBr)
	}
	return replaced(bs, i, b)
}

func (g *G) pumpRuns(rs []model.Run, br bool) []model.Run {
	t := g.T
	sep := model.Run{Kind: "text", Text: " "}
	if br && t.Chance(1, 3) {
		sep = model.Run{Kind: "br"}
	}
	w := 0
	for _, r := range rs {
		w += 12 + len(r.Text)
	}
	var out []model.Run
	for n := Times(t, w, 70000); n > 0; n-- {
		if len(out) > 0 {
			out = append(out, sep)
		}
		out = append(out, rs...)
	}
	return out
}

func replaced(bs []model.Block, i int, b model.Block) []model.Block {
	out := append([]model.Block{}, bs...)
	out[i] = b
	return out
}

var tokenRE = regexp.MustCompile(`tq(\d+)zj`)

// maybePump repeats now and then what was written since the given position.
func (s *Soup) maybePump(start, n int) {
	if !s.pumped && s.T.Chance(1, 1500) {
		s.pumped = true
		s.pump(start, n)
	}
}

// pump repeats what was written since the given position, with fresh tokens.
func (s *Soup) pump(start, n int) {
	all := s.b.String()
	part := all[start:]
	if part == "" {
		return
	}
	d := s.n - n
	var b strings.Builder
	b.WriteString(all[:start])
	for i, k := 0, Times(s.T, len(part), 70000); i < k; i++ {
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(tokenRE.ReplaceAllStringFunc(part, func(x string) string {
			id, _ := strconv.Atoi(x[2 : len(x)-2])
			return Token(id + i*d)
		}))
		s.n = n + (i+1)*d
	}
	s.b.Reset()
	s.b.WriteString(b.String())
}

// Package model holds the document model that generated documents and parsed
// Markdown are compared in, and the independent Markdown reader (goldmark)
// used as the oracle.
package model

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Mark bits of a run.
const (
	Strong = 1 << iota
	Em
	Strike
)

// Link is the target of a link.
type Link struct{ Href, Title string }

// Run is a piece of inline content.
type Run struct {
	Kind  string // text, code, br, img
	Text  string // text, code; alt of an image
	Marks int
	Link  *Link
	Src   string // img
	Title string // img
}

// Block is a block of the document.
type Block struct {
	Kind  string // p, h, ul, ol, quote, code, hr, table
	Level int    // h
	Start int    // ol
	Runs  []Run  // p, h
	Kids  []Block
	Items [][]Block // ul, ol
	Code  string
	Lang  string
	Rows  [][][]Run // table; Rows[0] is the header
	Align []string
}

func sameLink(a, b *Link) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

// NormRuns canonicalises inline content: adjacent texts with the same
// decoration are merged, runs of blanks collapse to one, blanks at the edges
// and around hard breaks go, and a blank keeps its decoration only if its two
// neighbours are decorated alike (so it does not matter on which side of a
// delimiter it stands).
func NormRuns(in []Run) []Run {
	type cell struct {
		r     Run
		space bool
	}
	var cs []cell
	for _, r := range in {
		if r.Kind != "text" {
			cs = append(cs, cell{r: r})
			continue
		}
		cur := ""
		flush := func() {
			if cur != "" {
				x := r
				x.Text = cur
				cs = append(cs, cell{r: x})
				cur = ""
			}
		}
		for _, c := range r.Text {
			if c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f' {
				flush()
				if len(cs) == 0 || !cs[len(cs)-1].space {
					x := r
					x.Text = " "
					cs = append(cs, cell{r: x, space: true})
				} else {
					// two blanks collapse; the decoration is what both have
					p := &cs[len(cs)-1].r
					p.Marks &= r.Marks
					if !sameLink(p.Link, r.Link) {
						p.Link = nil
					}
				}
				continue
			}
			cur += string(c)
		}
		flush()
	}
	// trim
	var ds []cell
	for i, c := range cs {
		if c.space {
			if len(ds) == 0 || ds[len(ds)-1].r.Kind == "br" {
				continue
			}
			if i+1 >= len(cs) || cs[i+1].r.Kind == "br" {
				continue
			}
			p, n := cs[i-1].r, cs[i+1].r
			if p.Marks != n.Marks || !sameLink(p.Link, n.Link) {
				c.r.Marks, c.r.Link = 0, nil
			}
		}
		if c.r.Kind == "br" {
			c.r.Marks, c.r.Link = 0, nil
		}
		ds = append(ds, c)
	}
	for len(ds) > 0 && ds[len(ds)-1].r.Kind == "br" {
		ds = ds[:len(ds)-1]
	}
	for len(ds) > 0 && ds[0].r.Kind == "br" {
		ds = ds[1:]
	}
	var out []Run
	for _, c := range ds {
		if n := len(out); n > 0 && out[n-1].Kind == "text" && c.r.Kind == "text" && out[n-1].Marks == c.r.Marks && sameLink(out[n-1].Link, c.r.Link) {
			out[n-1].Text += c.r.Text
			continue
		}
		out = append(out, c.r)
	}
	return out
}

func runString(r Run) string {
	var b strings.Builder
	switch r.Kind {
	case "text":
		b.WriteString(strconv.Quote(r.Text))
	case "code":
		b.WriteString("code" + strconv.Quote(r.Text))
	case "br":
		return "<br>"
	case "img":
		fmt.Fprintf(&b, "img(%q %q %q)", r.Text, r.Src, r.Title)
	default:
		b.WriteString(r.Kind + strconv.Quote(r.Text))
	}
	if r.Marks&Strong != 0 {
		b.WriteString("+strong")
	}
	if r.Marks&Em != 0 {
		b.WriteString("+em")
	}
	if r.Marks&Strike != 0 {
		b.WriteString("+del")
	}
	if r.Link != nil {
		fmt.Fprintf(&b, "+link(%q %q)", r.Link.Href, r.Link.Title)
	}
	return b.String()
}

// RunsString prints canonical inline content.
func RunsString(rs []Run) string {
	var out []string
	for _, r := range NormRuns(rs) {
		out = append(out, runString(r))
	}
	return strings.Join(out, " ")
}

// String prints blocks canonically; two documents are equal iff their strings are.
func String(bs []Block) string {
	var b strings.Builder
	write(&b, bs, "")
	return b.String()
}

func write(b *strings.Builder, bs []Block, ind string) {
	for _, x := range bs {
		switch x.Kind {
		case "p":
			fmt.Fprintf(b, "%sp: %s\n", ind, RunsString(x.Runs))
		case "h":
			fmt.Fprintf(b, "%sh%d: %s\n", ind, x.Level, RunsString(x.Runs))
		case "code":
			fmt.Fprintf(b, "%scode lang=%q %q\n", ind, x.Lang, x.Code)
		case "hr":
			fmt.Fprintf(b, "%shr\n", ind)
		case "quote":
			fmt.Fprintf(b, "%squote\n", ind)
			write(b, x.Kids, ind+"  ")
		case "ul", "ol":
			fmt.Fprintf(b, "%s%s", ind, x.Kind)
			if x.Kind == "ol" {
				fmt.Fprintf(b, " start=%d", x.Start)
			}
			b.WriteString("\n")
			for _, it := range x.Items {
				fmt.Fprintf(b, "%s li\n", ind)
				write(b, it, ind+"   ")
			}
		case "table":
			fmt.Fprintf(b, "%stable align=%v\n", ind, x.Align)
			for _, r := range x.Rows {
				fmt.Fprintf(b, "%s  |", ind)
				for _, c := range r {
					b.WriteString(" " + RunsString(c) + " |")
				}
				b.WriteString("\n")
			}
		default:
			fmt.Fprintf(b, "%s%s %q\n", ind, x.Kind, x.Code)
		}
	}
}

// PlainText concatenates the words of a document (for content comparisons).
func PlainText(bs []Block) string {
	var b strings.Builder
	var wr func([]Run)
	wr = func(rs []Run) {
		for _, r := range rs {
			b.WriteString(r.Text)
			if r.Kind == "br" {
				b.WriteString(" ")
			}
		}
		b.WriteString(" ")
	}
	var wb func([]Block)
	wb = func(bs []Block) {
		for _, x := range bs {
			wr(x.Runs)
			b.WriteString(x.Code + " ")
			wb(x.Kids)
			for _, it := range x.Items {
				wb(it)
			}
			for _, r := range x.Rows {
				for _, c := range r {
					wr(c)
				}
			}
		}
	}
	wb(bs)
	return strings.Join(strings.Fields(b.String()), " ")
}

// Kinds lists the block kinds present (sorted, unique).
func Kinds(bs []Block) []string {
	m := map[string]bool{}
	var wb func([]Block)
	wb = func(bs []Block) {
		for _, x := range bs {
			m[x.Kind] = true
			wb(x.Kids)
			for _, it := range x.Items {
				wb(it)
			}
		}
	}
	wb(bs)
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

package model

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/yuin/goldmark"
	"github.com/yuin/goldmark/ast"
	"github.com/yuin/goldmark/extension"
	extast "github.com/yuin/goldmark/extension/ast"
	rhtml "github.com/yuin/goldmark/renderer/html"
	"github.com/yuin/goldmark/text"
	"github.com/yuin/goldmark/util"
	"golang.org/x/net/html"
)

// Flavor selects the reader: CommonMark with or without the GFM table and strikethrough extensions.
type Flavor struct{ Table, Strike bool }

// OracleCrash reports that the Markdown reader itself crashed; the case decides nothing.
type OracleCrash struct{ Cause any }

func (OracleCrash) DecidesNothing() {}

func guard() {
	if r := recover(); r != nil {
		panic(OracleCrash{r})
	}
}

// ParseMarkdown reads Markdown into the model with goldmark.
func ParseMarkdown(md string, f Flavor) []Block {
	defer guard()
	src := []byte(md)
	m := readers[f]
	doc := m.Parser().Parse(text.NewReader(src))
	p := &mdReader{src: src}
	return p.blocks(doc)
}

var readers = map[Flavor]goldmark.Markdown{}

func init() {
	for _, a := range []bool{false, true} {
		for _, b := range []bool{false, true} {
			f := Flavor{a, b}
			readers[f] = goldmark.New(goldmark.WithExtensions(exts(f)...))
			// comments that end lists are kept
			writers[f] = goldmark.New(goldmark.WithExtensions(exts(f, extension.WithTableCellAlignMethod(extension.TableCellAlignAttribute))...), goldmark.WithRendererOptions(rhtml.WithUnsafe()))
		}
	}
}

// RenderHTML lets goldmark write the Markdown as HTML.
func RenderHTML(md string, f Flavor) string {
	defer guard()
	var b bytes.Buffer
	if err := writers[f].Convert([]byte(md), &b); err != nil {
		panic(OracleCrash{err})
	}
	return b.String()
}

var writers = map[Flavor]goldmark.Markdown{}

func exts(f Flavor, o ...extension.TableOption) []goldmark.Extender {
	var ex []goldmark.Extender
	if f.Table {
		ex = append(ex, extension.NewTable(o...))
	}
	if f.Strike {
		ex = append(ex, extension.Strikethrough)
	}
	return ex
}

type mdReader struct{ src []byte }

func (p *mdReader) lines(n ast.Node) string {
	var b bytes.Buffer
	for i := 0; i < n.Lines().Len(); i++ {
		s := n.Lines().At(i)
		b.Write(s.Value(p.src))
	}
	return b.String()
}

func (p *mdReader) blocks(n ast.Node) []Block {
	var out []Block
	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
		switch x := c.(type) {
		case *ast.Paragraph, *ast.TextBlock:
			out = append(out, Block{Kind: "p", Runs: p.inlines(c, 0, nil)})
		case *ast.Heading:
			out = append(out, Block{Kind: "h", Level: x.Level, Runs: p.inlines(c, 0, nil)})
		case *ast.ThematicBreak:
			out = append(out, Block{Kind: "hr"})
		case *ast.FencedCodeBlock:
			info := ""
			if x.Info != nil {
				info = string(x.Info.Segment.Value(p.src))
			}
			out = append(out, Block{Kind: "code", Lang: info, Code: strings.TrimSuffix(p.lines(c), "\n")})
		case *ast.CodeBlock:
			out = append(out, Block{Kind: "indented-code", Code: p.lines(c)})
		case *ast.Blockquote:
			out = append(out, Block{Kind: "quote", Kids: p.blocks(c)})
		case *ast.List:
			b := Block{Kind: "ul"}
			if x.IsOrdered() {
				b.Kind, b.Start = "ol", x.Start
			}
			for li := c.FirstChild(); li != nil; li = li.NextSibling() {
				b.Items = append(b.Items, p.blocks(li))
			}
			out = append(out, b)
		case *ast.HTMLBlock:
			raw := p.lines(c)
			if x.HasClosure() {
				raw += string(x.ClosureLine.Value(p.src))
			}
			if strings.TrimSpace(raw) == "<!--THE END-->" {
				continue
			}
			out = append(out, Block{Kind: "htmlblock", Code: raw})
		case *extast.Table:
			b := Block{Kind: "table"}
			for _, a := range x.Alignments {
				b.Align = append(b.Align, a.String())
			}
			for r := c.FirstChild(); r != nil; r = r.NextSibling() {
				var row [][]Run
				for cell := r.FirstChild(); cell != nil; cell = cell.NextSibling() {
					row = append(row, p.inlines(cell, 0, nil))
				}
				b.Rows = append(b.Rows, row)
			}
			out = append(out, b)
		case *ast.LinkReferenceDefinition:
			out = append(out, Block{Kind: "linkref", Code: fmt.Sprint(x)})
		default:
			out = append(out, Block{Kind: "unknown:" + c.Kind().String()})
		}
	}
	return out
}

// unescape resolves what goldmark's renderer resolves in text: backslash
// escapes and character references.
func unescape(b []byte) string {
	var out bytes.Buffer
	for i := 0; i < len(b); {
		c := b[i]
		if c == '\\' && i+1 < len(b) && util.IsPunct(b[i+1]) {
			out.WriteByte(b[i+1])
			i += 2
			continue
		}
		if c == '&' {
			if n, s := entity(b[i:]); n > 0 {
				out.WriteString(s)
				i += n
				continue
			}
		}
		out.WriteByte(c)
		i++
	}
	return strings.ReplaceAll(out.String(), "\x00", "\ufffd")
}

func entity(b []byte) (int, string) {
	j := bytes.IndexByte(b, ';')
	if j < 2 || j > 40 {
		return 0, ""
	}
	name := string(b[1:j])
	if name[0] == '#' {
		num, base := name[1:], 10
		if len(num) > 0 && (num[0] == 'x' || num[0] == 'X') {
			num, base = num[1:], 16
			if len(num) > 6 {
				return 0, ""
			}
		} else if len(num) > 7 {
			return 0, ""
		}
		v, err := strconv.ParseUint(num, base, 32)
		if err != nil {
			return 0, ""
		}
		if v == 0 || v > 0x10ffff || (v >= 0xd800 && v < 0xe000) {
			return j + 1, "\ufffd"
		}
		return j + 1, string(rune(v))
	}
	for i := 0; i < len(name); i++ {
		c := name[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return 0, ""
		}
	}
	if s := html.UnescapeString(string(b[:j+1])); s != string(b[:j+1]) && !strings.HasSuffix(s, ";") {
		return j + 1, s
	}
	return 0, ""
}

func (p *mdReader) inlines(n ast.Node, marks int, link *Link) []Run {
	var out []Run
	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
		switch x := c.(type) {
		case *ast.Text:
			v := x.Segment.Value(p.src)
			s := string(v)
			if !x.IsRaw() {
				s = unescape(v)
			}
			out = append(out, Run{Kind: "text", Text: s, Marks: marks, Link: link})
			if x.HardLineBreak() {
				out = append(out, Run{Kind: "br", Marks: marks, Link: link})
			} else if x.SoftLineBreak() {
				out = append(out, Run{Kind: "text", Text: "\n", Marks: marks, Link: link})
			}
		case *ast.String:
			out = append(out, Run{Kind: "text", Text: string(x.Value), Marks: marks, Link: link})
		case *ast.CodeSpan:
			var b bytes.Buffer
			for t := c.FirstChild(); t != nil; t = t.NextSibling() {
				switch y := t.(type) {
				case *ast.Text:
					v := y.Segment.Value(p.src)
					if bytes.HasSuffix(v, []byte("\n")) {
						b.Write(v[:len(v)-1])
						b.WriteByte(' ')
					} else {
						b.Write(v)
					}
				case *ast.String:
					b.Write(y.Value)
				}
			}
			out = append(out, Run{Kind: "code", Text: b.String(), Marks: marks, Link: link})
		case *ast.Emphasis:
			m := marks | Em
			if x.Level == 2 {
				m = marks | Strong
			}
			out = append(out, p.inlines(c, m, link)...)
		case *extast.Strikethrough:
			out = append(out, p.inlines(c, marks|Strike, link)...)
		case *ast.Link:
			l := &Link{Href: destination(x.Destination), Title: unescape(x.Title)}
			kids := p.inlines(c, marks, l)
			if len(kids) == 0 {
				kids = []Run{{Kind: "emptylink", Marks: marks, Link: l}}
			}
			out = append(out, kids...)
		case *ast.Image:
			alt := ""
			for _, r := range p.inlines(c, 0, nil) {
				if r.Kind == "br" {
					alt += "\n"
				}
				alt += r.Text
			}
			out = append(out, Run{Kind: "img", Text: alt, Src: destination(x.Destination), Title: unescape(x.Title), Marks: marks, Link: link})
		case *ast.AutoLink:
			out = append(out, Run{Kind: "autolink", Text: string(x.URL(p.src)), Marks: marks, Link: link})
		case *ast.RawHTML:
			var b bytes.Buffer
			for i := 0; i < x.Segments.Len(); i++ {
				s := x.Segments.At(i)
				b.Write(s.Value(p.src))
			}
			out = append(out, Run{Kind: "rawhtml", Text: b.String(), Marks: marks, Link: link})
		default:
			out = append(out, Run{Kind: "unknown:" + c.Kind().String(), Marks: marks, Link: link})
		}
	}
	return out
}

// WithoutCode blanks out the content of code blocks: every byte in one that is
// not part of the line's container prefix becomes an "x".
func WithoutCode(md string, f Flavor) string {
	defer guard()
	src := []byte(md)
	doc := readers[f].Parser().Parse(text.NewReader(src))
	out := append([]byte{}, src...)
	_ = ast.Walk(doc, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		if !entering {
			return ast.WalkContinue, nil
		}
		switch n.(type) {
		case *ast.FencedCodeBlock, *ast.CodeBlock:
			l := n.Lines()
			if l.Len() > 0 {
				for i := l.At(0).Start; i < l.At(l.Len()-1).Stop; i++ {
					out[i] = 'x'
				}
			}
		}
		return ast.WalkContinue, nil
	})
	return string(out)
}

// destination reads the address of a link or image. goldmark accepts a few
// characters that CommonMark does not allow there.
func destination(b []byte) string {
	for _, c := range b {
		if c < ' ' || c == 0x7f {
			return "not a destination: " + unescape(b)
		}
	}
	return unescape(b)
}

package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	xhtml "golang.org/x/net/html"
	"golang.org/x/net/html/atom"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C02", Quick: 40000, Thorough: 1200000, Run: history,
		Rule: "a history of at least three conversions on one converter, with at least two different documents"})
}

var errReader = errors.New("the reader broke")

// pieces hands out the input in drawn pieces and may fail at the end.
type pieces struct {
	s    string
	cuts []int
	zero bool
	eofd bool // the last piece comes together with io.EOF
	fail error
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.zero {
		p.zero = false
		return 0, nil
	}
	if p.s == "" {
		if p.fail != nil {
			return 0, p.fail
		}
		return 0, io.EOF
	}
	n := len(p.s)
	if len(p.cuts) > 0 {
		n, p.cuts = min(n, p.cuts[0]), p.cuts[1:]
		p.zero = n%3 == 0
	}
	n = copy(b, p.s[:n])
	p.s = p.s[n:]
	if p.s == "" && p.eofd && p.fail == nil {
		return n, io.EOF
	}
	return n, nil
}

func drawPieces(t *pbt.T, s string) *pieces {
	p := &pieces{s: s, eofd: t.Bool()}
	t.Each(0, 12, func(int) { p.cuts = append(p.cuts, pbt.Pick(t, 1, 2, 3, 5, 7, 64, 4095, 4096)) })
	return p
}

func history(t *pbt.T) {
	c := AnyConfig(t)
	def := t.Chance(1, 3)
	if def {
		c = Config{}
	}
	t.Note("config", c.String())
	mk := c.New
	if !def {
		switch t.Weighted(16, 2, 1) {
		case 1:
			t.Note("config", "own renderers only")
			mk = bareConverter
		case 2:
			t.Note("config", "a plugin that cannot be initialised")
			how := t.Intn(3)
			mk = func() *converter.Converter { return brokenConverter(how) }
		}
	}
	conv := mk()
	var docs []string
	t.Each(1, 4, func(int) {
		var h string
		switch t.Weighted(3, 2, 1, 1) {
		case 0:
			h = gen.NewSoup(t, gen.SoupOpts{Malformed: t.Bool(), Hostile: t.Bool(), Tables: t.Bool()}).HTML(4)
		case 1:
			s := &gen.Style{T: t}
			h = s.Blocks(gen.New(t, gen.DocOpts{Table: true, Strike: true}).Doc(2, 3))
		case 2:
			h = pbt.Pick(t, `<a href="p">x</a>`, `<img src="/a?b=c">`, `<a href="../x">y</a><a href="http://abs.io/z">w</a>`, "<ol start=5><li>a<li>b</ol>", "<ul><li>a</ul><ul><li>b</ul>", "<p>a\r\nb\rc</p>", "<pre>a\r\nb\r</pre>", "<table><tr><td>a\r\nb")
		case 3:
			h = strings.Repeat(pbt.Pick(t, "<p>word</p>", "x ", "<b>", "<ul><li>y", "&amp;"), pbt.Pick(t, 1, 20, 60, 300)) + "z"
		}
		if strings.Count(h, "<") > 1400 {
			h = h[:4000]
		}
		if t.Chance(1, 2500) {
			// more than the usual buffers hold
			t.Label("large")
			h += "<p>" + strings.Repeat(pbt.Pick(t, "word ", "<!-- nothing -->", "&amp;"), pbt.Pick(t, 1<<14, 1<<18)) + "<p>end"
		}
		docs = append(docs, h)
		t.Note(fmt.Sprintf("doc%d", len(docs)-1), clipS(h, 500))
	})
	domains := []string{"", "", "example.com", "https://b.example/dir/"}
	type key struct {
		doc    string
		domain string
	}
	want := map[key]string{}
	wantErr := map[key]string{}
	// the reference: one fresh converter per conversion
	ref := func(d, dom string) (string, string) {
		k := key{d, dom}
		if _, ok := want[k]; !ok {
			var o []converter.ConvertOptionFunc
			if dom != "" {
				o = append(o, converter.WithDomain(dom))
			}
			s, err := mk().ConvertString(d, o...)
			want[k], wantErr[k] = s, fmt.Sprint(err)
		}
		return want[k], wantErr[k]
	}
	type kept struct {
		step int
		got  []byte
		want string
	}
	var keep []kept
	var ops []string
	used := map[string]bool{}
	for _, d := range docs {
		for _, dom := range domains[1:] {
			ref(d, dom)
		}
	}
	step := 0
	t.Each(3, 14, func(int) {
		step++
		d := pbt.Pick(t, docs...)
		dom := pbt.Pick(t, domains...)
		used[d] = true
		var o []converter.ConvertOptionFunc
		if dom != "" || t.Bool() {
			o = append(o, converter.WithDomain(dom))
		}
		if t.Chance(1, 5) {
			o = append(o, converter.WithContext(context.WithValue(context.Background(), "k", step)))
		}
		w, we := ref(d, dom)
		var got []byte
		var err error
		op := pbt.Pick(t, "string", "reader", "node", "node in a tree", "failing reader", "package string", "package reader", "package node", "other converter", "invalid")
		if !def && strings.HasPrefix(op, "package") {
			op = "string"
		}
		ops = append(ops, op)
		t.Note(fmt.Sprintf("step%d", step), fmt.Sprintf("%s doc=%q domain=%q", op, clipS(d, 60), dom))
		var doc *xhtml.Node
		if strings.HasSuffix(op, "node") {
			var perr error
			if doc, perr = xhtml.Parse(strings.NewReader(d)); perr != nil {
				return
			}
		}
		switch op {
		case "string", "package string":
			f := conv.ConvertString
			if op != "string" {
				f = htmltomarkdown.ConvertString
			}
			var s string
			s, err = f(d, o...)
			got = []byte(s)
		case "reader":
			got, err = conv.ConvertReader(drawPieces(t, d), o...)
		case "package reader":
			got, err = htmltomarkdown.ConvertReader(drawPieces(t, d), o...)
		case "node":
			got, err = conv.ConvertNode(doc, o...)
		case "node in a tree":
			// what is around the node stays as it is
			var outer *xhtml.Node
			outer, doc = inATree(t, d)
			if doc == nil {
				return
			}
			lone, loneErr := mk().ConvertNode(cloneTree(doc), o...)
			w, we = string(lone), fmt.Sprint(loneErr)
			hole := &xhtml.Node{Type: xhtml.CommentNode, Data: "hole"}
			around := func() string {
				parent, next := doc.Parent, doc.NextSibling
				if parent == nil {
					return "the node has no parent any more"
				}
				parent.RemoveChild(doc)
				parent.InsertBefore(hole, next)
				s := treeText(outer)
				parent.RemoveChild(hole)
				parent.InsertBefore(doc, next)
				return s
			}
			before := around()
			got, err = conv.ConvertNode(doc, o...)
			if after := around(); after != before {
				t.Fatalf("step %d: converting a node changed the tree around it\nbefore %q\nafter  %q", step, before, after)
			}
		case "package node":
			got, err = htmltomarkdown.ConvertNode(doc, o...)
		case "other converter":
			// another converter, used in between, has no influence
			oc := c
			oc.NoListEnd, oc.Table, oc.NoEscape, oc.Strike = !c.NoListEnd, !c.Table, !c.NoEscape, !c.Strike
			_, _ = oc.New().ConvertString(d)
			return
		case "invalid":
			// a converter that cannot be used has no influence either
			_, e := converter.NewConverter().ConvertString(d)
			if e == nil {
				t.Fatalf("step %d: a converter without plugins converted %q", step, d)
			}
			return
		case "failing reader":
			p := drawPieces(t, d[:t.Intn(len(d)+1)])
			p.fail = errReader
			if t.Bool() {
				p.fail = pbt.Pick(t, fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress)
			}
			_, perr := xhtml.Parse(strings.NewReader(p.s))
			var b []byte
			f := conv.ConvertReader
			if def && t.Bool() {
				f = htmltomarkdown.ConvertReader
			}
			b, e := f(p, o...)
			if e == nil {
				t.Fatalf("step %d: the reader failed with %v, but the conversion succeeded with %q", step, p.fail, b)
			}
			if perr == nil && !errors.Is(e, p.fail) {
				t.Fatalf("step %d: the reader failed with %v, but the conversion reports %v", step, p.fail, e)
			}
			if len(b) != 0 {
				t.Fatalf("step %d: output %q in spite of the error %v", step, b, e)
			}
			return
		}
		if fmt.Sprint(err) != we {
			t.Fatalf("step %d (%s): error %v, with a fresh converter %v", step, op, err, we)
		}
		if err != nil {
			if len(got) != 0 {
				t.Fatalf("step %d: output %q in spite of the error %v", step, got, err)
			}
			return
		}
		if string(got) != w {
			t.Fatalf("step %d (%s): the result differs from that of a fresh converter's ConvertString\nwant %q\ngot  %q", step, op, w, got)
		}
		if t.Chance(1, 4) {
			// the result belongs to the caller
			w2 := bytes.Repeat([]byte("#"), len(got))
			copy(got, w2)
			w = string(w2)
		}
		keep = append(keep, kept{step, got, w})
	})
	for _, k := range keep {
		if string(k.got) != k.want {
			t.Fatalf("the result of step %d changed later: %q became %q", k.step, k.want, k.got)
		}
	}
	if len(keep) >= 3 && len(used) >= 2 {
		t.NonTrivial(strings.Join(docs, "\x00") + strings.Join(ops, ","))
	}
	t.Sample(fmt.Sprintf("%s ops=%v docs=%q", c, ops, clipS(strings.Join(docs, " || "), 300)))
}

// bareConverter has no plugin, so that nothing touches the output of its renderers.
func bareConverter() *converter.Converter {
	conv := converter.NewConverter()
	conv.Register.RendererFor("p", converter.TagTypeBlock, func(ctx converter.Context, w converter.Writer, n *xhtml.Node) converter.RenderStatus {
		w.WriteString("{")
		ctx.RenderChildNodes(ctx, w, n)
		w.WriteString("}")
		return converter.RenderSuccess
	}, converter.PriorityStandard)
	conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *xhtml.Node) converter.RenderStatus {
		if n.Type == xhtml.TextNode {
			w.WriteString(n.Data)
			return converter.RenderSuccess
		}
		if n.Data == "a" {
			for _, a := range n.Attr {
				w.WriteString("(" + ctx.AssembleAbsoluteURL(ctx, "a", a.Val) + ")")
			}
		}
		ctx.RenderChildNodes(ctx, w, n)
		return converter.RenderSuccess
	}, converter.PriorityLate)
	return conv
}

type brokenPlugin struct{}

func (brokenPlugin) Name() string { return "broken" }

func (brokenPlugin) Init(*converter.Converter) error { return errors.New("cannot be initialised") }

func brokenConverter(how int) *converter.Converter {
	cm := commonmark.NewCommonmarkPlugin()
	plugins := []converter.Plugin{base.NewBasePlugin(), cm}
	switch how {
	case 0:
		plugins = append(plugins, brokenPlugin{})
	case 1:
		plugins[1] = commonmark.NewCommonmarkPlugin(commonmark.WithStrongDelimiter("x"))
	case 2:
		plugins = append([]converter.Plugin{brokenPlugin{}}, plugins...)
	}
	return converter.NewConverter(converter.WithPlugins(plugins...))
}

// inATree is an element with the content of the document, between other elements.
func inATree(t *pbt.T, d string) (outer, inner *xhtml.Node) {
	outer, err := xhtml.Parse(strings.NewReader(d))
	if err != nil {
		return nil, nil
	}
	var body *xhtml.Node
	for n := range outer.Descendants() {
		if n.Type == xhtml.ElementNode && n.Data == "body" && n.Namespace == "" {
			body = n
			break
		}
	}
	if body == nil || body.FirstChild == nil {
		return nil, nil
	}
	tag := pbt.Pick(t, "div", "div", "section", "span", "b", "em", "kbd")
	inner = &xhtml.Node{Type: xhtml.ElementNode, Data: tag, DataAtom: atom.Lookup([]byte(tag))}
	for c := body.FirstChild; c != nil; c = body.FirstChild {
		body.RemoveChild(c)
		inner.AppendChild(c)
	}
	add := func(h string) {
		ns, _ := xhtml.ParseFragment(strings.NewReader(h), &xhtml.Node{Type: xhtml.ElementNode, Data: "body", DataAtom: atom.Body})
		for _, n := range ns {
			body.AppendChild(n)
		}
	}
	around := []string{"", "text", " text ", "<p>a</p>", "<ul><li>a</li></ul>", "<ul><li>a</li></ul><ol><li>b</li></ol>", "<p>t<b><code>c</code></b>u</p>", "<code></code>", "<b>x</b><b>y</b>", "<b>x</b> ", " ", "<script>s</script><!-- c -->", "<pre>a</pre>", "<table><tr><td>a</table>"}
	add(pbt.Pick(t, around...))
	body.AppendChild(inner)
	add(pbt.Pick(t, around...))
	return outer, inner
}

// treeText shows all nodes below n.
func treeText(n *xhtml.Node) string {
	var b strings.Builder
	var walk func(*xhtml.Node)
	walk = func(n *xhtml.Node) {
		fmt.Fprintf(&b, "(%d %q %q", n.Type, n.Data, n.Attr)
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
		b.WriteString(")")
	}
	walk(n)
	return b.String()
}

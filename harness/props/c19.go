package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	xhtml "golang.org/x/net/html"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C19", Quick: 200000, Thorough: 2000000, Run: registry,
		Rule: "a history with at least three registrations and a conversion in which at least two of them matter"})
}

// reg is a registered handler: who it is, and what it does.
type reg struct {
	kind, id, prio int
	tag            string
	act            int
	typ            int
	char           rune
}

func (r reg) String() string {
	return fmt.Sprintf("%s#%d(prio=%d tag=%s act=%d type=%d char=%q)", [...]string{"pre", "renderer", "rendererFor", "text", "post", "unescaper", "escapedChar", "tagType"}[r.kind], r.id, r.prio, r.tag, r.act, r.typ, r.char)
}

// regModel is what the converter is expected to be.
type regModel struct {
	regs  []reg
	noEsc bool
	log   []string
}

// sorted returns the handlers of a kind in the order they are to be asked.
func (m *regModel) sorted(kinds ...int) []reg {
	var out []reg
	for _, r := range m.regs {
		for _, k := range kinds {
			if r.kind == k {
				out = append(out, r)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].prio < out[j].prio })
	return out
}

const (
	kPre = iota
	kRenderer
	kRendererFor
	kText
	kPost
	kUnEscaper
	kEscapedChar
	kTagType
)

var regTags = []string{"x-a", "x-b", "p", "b", "div"}

func (m *regModel) tagType(tag string) int {
	best, prio := -1, 1<<30
	for _, r := range m.regs {
		if (r.kind == kTagType || r.kind == kRendererFor) && r.tag == tag && r.prio < prio {
			best, prio = r.typ, r.prio
		}
	}
	if best < 0 {
		switch tag {
		case "p", "div":
			return 0
		}
		return 1
	}
	return best
}

// mark is what the escaping puts before a character of interest.
func (m *regModel) escape(s string) string {
	if m.noEsc {
		return s
	}
	var b strings.Builder
	for _, c := range s {
		if c == 0 {
			c = '\ufffd'
		}
		for _, r := range m.regs {
			if r.kind == kEscapedChar && r.char == c {
				b.WriteString("\x07")
				break
			}
		}
		b.WriteRune(c)
	}
	return b.String()
}

func (m *regModel) unescape(s string) string {
	if m.noEsc {
		return s
	}
	var b strings.Builder
	next := 0 // until here the first handler that decided has it settled
	for i := 0; i < len(s); i++ {
		if s[i] != 7 {
			b.WriteByte(s[i])
			continue
		}
		if i < next || i+1 >= len(s) {
			continue
		}
		for _, r := range m.sorted(kUnEscaper) {
			// each knows one character; some decide against
			if v := unEscaperAct(r, s[i+1:]); v != -1 {
				b.WriteByte('\\')
				next = i + v
				break
			}
		}
	}
	return b.String()
}

func unEscaperAct(r reg, next string) int {
	if r.act != 1 && strings.HasPrefix(next, string(r.char)) {
		return []int{1, 0, 2, 5}[r.act] // how far it is settled
	}
	return -1
}

// decide is what a render handler does with an element: "" means it declines.
func decide(r reg, tag string) string {
	if r.kind == kRendererFor && r.tag != tag {
		return ""
	}
	switch r.act {
	case 0: // handles its tag
		if r.tag == tag {
			return "wrap"
		}
	case 1: // never handles anything
		return ""
	case 2: // handles its tag without the content
		if r.tag == tag {
			return "drop"
		}
	case 3: // only looks
		if r.tag == tag {
			return "look"
		}
	case 4: // hands its content on twice
		if r.tag == tag {
			return "twice"
		}
	}
	return ""
}

func (m *regModel) render(n *xhtml.Node, b *strings.Builder) {
	if n.Type == xhtml.TextNode {
		s := n.Data
		for _, r := range m.sorted(kText) {
			s = m.text(r, s)
		}
		b.WriteString(s)
		return
	}
	tag := n.Data
	if n.Type == xhtml.DocumentNode {
		tag = "#document"
	}
	kids := func() {
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			m.render(k, b)
		}
	}
	for _, r := range m.sorted(kRenderer, kRendererFor) {
		switch decide(r, tag) {
		case "wrap":
			m.log = append(m.log, fmt.Sprintf("r%d %s", r.id, tag))
			fmt.Fprintf(b, "(%d", r.id)
			kids()
			b.WriteString(")")
			return
		case "drop":
			m.log = append(m.log, fmt.Sprintf("r%d %s", r.id, tag))
			fmt.Fprintf(b, "(%d)", r.id)
			return
		case "twice":
			m.log = append(m.log, fmt.Sprintf("r%d %s", r.id, tag))
			kids()
			kids()
			return
		case "look":
			m.log = append(m.log, fmt.Sprintf("l%d %s %s", r.id, tag, [...]string{"block", "inline", "remove"}[m.tagType(tag)]))
		}
	}
	block := m.tagType(tag) == 0 && tag != "#document"
	if block {
		b.WriteString("\n\n")
	}
	kids()
	if block {
		b.WriteString("\n\n")
	}
}

func (m *regModel) text(r reg, s string) string {
	switch r.act {
	case 0:
		return fmt.Sprintf("t%d:%s", r.id, s)
	case 1:
		return m.escape(s)
	case 2:
		return strings.ReplaceAll(s, "w", "v")
	}
	return s + "!"
}

func (m *regModel) post(r reg, s string) string {
	switch r.act {
	case 0:
		return fmt.Sprintf("%s[p%d]", s, r.id)
	case 1:
		return m.unescape(s)
	case 2:
		return strings.TrimSpace(s)
	case 4:
		return ""
	}
	return strings.ReplaceAll(s, "\n", "/")
}

func preAct(r reg, doc *xhtml.Node) {
	for _, n := range allNodes(doc) {
		if n.Type != xhtml.ElementNode || n.Data != r.tag || n.Parent == nil {
			continue
		}
		switch r.act {
		case 0:
			n.Attr = append(n.Attr, xhtml.Attribute{Key: "seen", Val: fmt.Sprint(r.id)})
			n.AppendChild(&xhtml.Node{Type: xhtml.TextNode, Data: fmt.Sprintf("<%d>", r.id)})
		case 1:
			n.Data = "x-b"
		case 2:
			n.Parent.RemoveChild(n)
		default:
			n.Parent.InsertBefore(&xhtml.Node{Type: xhtml.TextNode, Data: fmt.Sprintf("{%d}", r.id)}, n)
		}
	}
}

// apply registers r with the converter under test.
func (r reg) apply(conv *converter.Converter, log *[]string) {
	render := func(ctx converter.Context, w converter.Writer, n *xhtml.Node) converter.RenderStatus {
		tag := n.Data
		if n.Type == xhtml.DocumentNode {
			tag = "#document"
		}
		switch decide(r, tag) {
		case "wrap":
			*log = append(*log, fmt.Sprintf("r%d %s", r.id, tag))
			fmt.Fprintf(w, "(%d", r.id)
			ctx.RenderChildNodes(ctx, w, n)
			w.WriteString(")")
			return converter.RenderSuccess
		case "drop":
			*log = append(*log, fmt.Sprintf("r%d %s", r.id, tag))
			fmt.Fprintf(w, "(%d)", r.id)
			return converter.RenderSuccess
		case "twice":
			*log = append(*log, fmt.Sprintf("r%d %s", r.id, tag))
			ctx.RenderChildNodes(ctx, w, n)
			for k := n.FirstChild; k != nil; k = k.NextSibling {
				ctx.RenderNodes(ctx, w, k)
			}
			return converter.RenderSuccess
		case "look":
			typ, _ := ctx.GetTagType(tag)
			if tag[0] == 'x' && typ == "" {
				typ = converter.TagTypeInline // not known
			}
			*log = append(*log, fmt.Sprintf("l%d %s %s", r.id, tag, typ))
		}
		return converter.RenderTryNext
	}
	switch r.kind {
	case kPre:
		conv.Register.PreRenderer(func(_ converter.Context, doc *xhtml.Node) { preAct(r, doc) }, r.prio)
	case kRenderer:
		conv.Register.Renderer(render, r.prio)
	case kRendererFor:
		switch r.typ {
		case 2:
			conv.Register.RendererFor(r.tag, converter.TagTypeRemove, render, r.prio)
		case 0:
			conv.Register.RendererFor(r.tag, converter.TagTypeBlock, render, r.prio)
		default:
			conv.Register.RendererFor(r.tag, converter.TagTypeInline, render, r.prio)
		}
	case kText:
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
			if r.act == 1 {
				return string(ctx.EscapeContent([]byte(s)))
			}
			return (&regModel{}).text(r, s)
		}, r.prio)
	case kPost:
		conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
			if r.act == 1 {
				return ctx.UnEscapeContent(b)
			}
			if r.act == 4 && r.typ == 0 {
				return nil
			}
			return []byte((&regModel{}).post(r, string(b)))
		}, r.prio)
	case kUnEscaper:
		conv.Register.UnEscaper(func(b []byte, i int) int { return unEscaperAct(r, string(b[i:])) }, r.prio)
	case kEscapedChar:
		var chars []rune
		for i := range r.id % 3 * 12 { // others that do not occur
			chars = append(chars, 'А'+rune(i))
		}
		conv.Register.EscapedChar(append(append(chars, r.char), '§')...)
	case kTagType:
		if r.typ == 0 {
			conv.Register.TagType(r.tag, converter.TagTypeBlock, r.prio)
		} else if r.typ == 2 {
			conv.Register.TagType(r.tag, converter.TagTypeRemove, r.prio)
		} else {
			conv.Register.TagType(r.tag, converter.TagTypeInline, r.prio)
		}
	}
}

// regPlugin registers some of the handlers as a plugin.
type regPlugin struct {
	name string
	regs []reg
	log  *[]string
	init int
	err  error
}

func (p *regPlugin) Name() string { return p.name }
func (p *regPlugin) Init(conv *converter.Converter) error {
	p.init++
	for _, r := range p.regs {
		r.apply(conv, p.log)
	}
	return p.err
}

func registry(t *pbt.T) {
	m := &regModel{noEsc: t.Chance(1, 6)}
	var log []string
	mode := converter.EscapeModeSmart
	if m.noEsc {
		mode = converter.EscapeModeDisabled
	}
	draw := func() reg {
		r := reg{kind: t.Weighted(2, 4, 3, 3, 3, 3, 3, 2), id: len(m.regs) + 1, prio: pbt.Pick(t, converter.PriorityStandard, converter.PriorityStandard, converter.PriorityEarly, converter.PriorityLate, 0, -1, 499, 501, 1001), tag: pbt.Pick(t, regTags...), act: t.Intn(4), typ: t.Weighted(3, 3, 1)}
		switch r.kind {
		case kRenderer, kRendererFor:
			r.act = t.Intn(5)
		case kUnEscaper:
			r.act = t.Weighted(3, 1, 2, 2)
			r.char = pbt.Pick(t, '*', '_', '%', '€')
		case kPost:
			r.act = t.Weighted(4, 4, 3, 4, 1)
		case kEscapedChar:
			r.char = pbt.Pick(t, '*', '_', '%', '€')
		}
		m.regs = append(m.regs, r)
		return r
	}
	// a renderer is needed for anything to be converted
	first := reg{kind: kRenderer, act: 1, prio: 10000}
	conv := converter.NewConverter(converter.WithEscapeMode(mode))
	if t.Chance(1, 4) {
		if md, err := conv.ConvertString("<p>x</p>"); err == nil || md != "" {
			t.Fatalf("a converter without renderers converts: %q %v", md, err)
		}
	}
	first.apply(conv, &log)
	m.regs = append(m.regs, first)
	regs, convs := 0, 0
	t.Each(1, 4, func(int) {
		t.Each(0, 6, func(int) {
			regs++
			if t.Chance(1, 4) {
				p := &regPlugin{name: pbt.Pick(t, "one", "two"), log: &log}
				t.Each(1, 3, func(int) { p.regs = append(p.regs, draw()) })
				conv.Register.Plugin(p)
				if p.init != 1 {
					t.Fatalf("the plugin was initialised %d times", p.init)
				}
				t.Note(fmt.Sprintf("%02d plugin", regs), p.regs)
				return
			}
			r := draw()
			r.apply(conv, &log)
			t.Note(fmt.Sprintf("%02d", regs), r)
		})
		// a document
		var b strings.Builder
		var mk func(d int)
		mk = func(d int) {
			t.Each(1, 3, func(int) {
				if d > 0 && t.Chance(2, 3) {
					tag := pbt.Pick(t, "x-a", "x-b", "b", "div")
					b.WriteString("<" + tag + ">")
					mk(d - 1)
					b.WriteString("</" + tag + ">")
					return
				}
				b.WriteString(pbt.Pick(t, "w", "w*", "_", "a%b", "€", "€€w", " ", "*_*", "é", "<p>w</p>"))
			})
		}
		mk(3)
		in := b.String()
		convs++
		doc, err := xhtml.Parse(strings.NewReader(in))
		if err != nil {
			t.Discard()
		}
		log, m.log = nil, nil
		got, err := conv.ConvertString(in)
		if err != nil {
			t.Fatalf("error %v", err)
		}
		for _, r := range m.sorted(kPre) {
			preAct(r, doc)
		}
		var w strings.Builder
		m.render(doc, &w)
		want := w.String()
		for _, r := range m.sorted(kPost) {
			want = m.post(r, want)
		}
		t.Note(fmt.Sprintf("%02d convert", regs), in)
		t.Note("want", fmt.Sprintf("%q", want))
		t.Note("got", fmt.Sprintf("%q", got))
		t.Sample(fmt.Sprintf("%v %q => %q", m.regs, clipS(in, 100), clipS(got, 200)))
		if regs >= 3 && len(m.log) >= 2 {
			t.NonTrivial(fmt.Sprint(m.regs, in))
		}
		if got != want {
			t.Fatalf("the handlers do not act in the order of their priority and registration\nwant %q\ngot  %q", want, got)
		}
		if a, b := fmt.Sprint(m.log), fmt.Sprint(log); a != b {
			t.Fatalf("the renderers were asked in another order\nwant %s\ngot  %s", a, b)
		}
	})
	t.Label(fmt.Sprintf("conversions=%d", convs))
}

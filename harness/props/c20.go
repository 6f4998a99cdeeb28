package props

import (
	"context"
	"encoding/hex"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	xhtml "golang.org/x/net/html"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C20", Quick: 100000, Thorough: 2500000, Run: contextAndState,
		Rule: "at least three reads of state or context values, at least one of them after a write"})
}

// cnode is an instruction or a piece of structure of the document.
type cnode struct {
	tag, k, v string
	kids      []*cnode
}

type keyType struct{ k string }

func (n *cnode) html(b *strings.Builder) {
	if n.tag == "text" {
		b.WriteString(n.v)
		return
	}
	b.WriteString("<" + n.tag)
	if n.k != "" {
		b.WriteString(` k="` + n.k + `"`)
	}
	if n.v != "" {
		b.WriteString(` v="` + n.v + `"`)
	}
	if n.tag == "a" {
		b.WriteString(` href="/x"`)
	}
	b.WriteString(">")
	for _, c := range n.kids {
		c.html(b)
	}
	b.WriteString("</" + n.tag + ">")
}

func htmlOf(ns []*cnode) string {
	var b strings.Builder
	for _, n := range ns {
		n.html(&b)
	}
	return b.String()
}

type cgen struct {
	t     *pbt.T
	reads int
	wrote bool
	after bool
	left  int
}

func (g *cgen) key() string { return pbt.Pick(g.t, "a", "b", "c") }

func (g *cgen) inline(depth int, link bool) *cnode {
	t := g.t
	g.left--
	read := func() { g.reads++; g.after = g.after || g.wrote }
	k := t.Intn(18)
	if depth <= 0 && k >= 9 {
		k -= 9
	}
	switch k {
	case 0:
		return &cnode{tag: "text", v: pbt.Pick(t, "w", " w ", " word")}
	case 1, 2:
		g.wrote = true
		if t.Chance(1, 5) {
			return &cnode{tag: pbt.Pick(t, "x-del", "x-null"), k: g.key()}
		}
		return &cnode{tag: "x-set", k: g.key(), v: strconv.Itoa(t.Intn(100))}
	case 3, 4:
		g.wrote = true
		return &cnode{tag: "x-add", k: g.key(), v: strconv.Itoa(1 + t.Intn(9))}
	case 5:
		read()
		return &cnode{tag: "x-get", k: g.key()}
	case 6:
		read()
		return &cnode{tag: "x-str", k: g.key()}
	case 7:
		read()
		return &cnode{tag: "x-val", k: g.key()}
	case 8:
		if t.Bool() {
			return &cnode{tag: "text", v: " val" + g.key() + " "}
		}
		return &cnode{tag: pbt.Pick(t, "x-domain", "x-url", "x-err"), v: pbt.Pick(t, "/p", "q?a=1", "http://abs.example/", "#f", "../r")}
	case 9:
		g.wrote = true
		return &cnode{tag: "x-text", k: g.key(), v: pbt.Pick(t, "s", "tt", "u7")}
	case 10, 11, 12:
		return &cnode{tag: "x-with", k: g.key(), v: strconv.Itoa(t.Intn(100)), kids: g.inlines(depth-1, link)}
	case 13:
		return &cnode{tag: pbt.Pick(t, "x-twice", "x-buf"), kids: g.inlines(depth-1, link)}
	case 14:
		if t.Bool() {
			// instructions only: elements that touch would be merged
			r := &cnode{tag: "x-reverse"}
			t.Each(2, 4, func(int) {
				if c := g.inline(0, link); c.tag != "text" {
					r.kids = append(r.kids, c)
				}
			})
			return r
		}
		return &cnode{tag: "x-nested", v: pbt.Pick(t, "", "", "ctx", "ctx", "https://in.example/"), k: pbt.Pick(t, "", "ctx"), kids: g.inlines(depth-1, link)}
	case 15:
		if !link {
			return &cnode{tag: "a", kids: g.inlines(depth-1, true)}
		}
	}
	return &cnode{tag: pbt.Pick(t, "b", "em", "span", "code-x"), kids: g.inlines(depth-1, link)}
}

func (g *cgen) inlines(depth int, link bool) []*cnode {
	var out []*cnode
	g.t.Each(1, 4, func(i int) {
		if i > 0 && g.left < 0 {
			return
		}
		out = append(out, g.inline(depth, link))
	})
	if depth == 3 && g.t.Chance(1, 400) {
		g.t.Label("many")
		n := gen.Times(g.t, 10, 3000)
		if g.t.Bool() {
			// many keys
			for _, tag := range []string{"x-set", "x-add", "x-get"} {
				for i := 0; i < n; i++ {
					out = append(out, &cnode{tag: tag, k: fmt.Sprintf("k%d", i), v: "7"}, &cnode{tag: "text", v: " w "})
				}
			}
		} else {
			// many values, one below the other
			c := &cnode{tag: "x-val", k: g.key()}
			for i := min(60, n); i > 0; i-- {
				k := fmt.Sprintf("k%d", g.t.Intn(8))
				c = &cnode{tag: "x-with", k: k, v: strconv.Itoa(i), kids: []*cnode{{tag: "x-val", k: k}, {tag: "text", v: " w "}, c, {tag: "text", v: " w "}, {tag: "x-val", k: fmt.Sprintf("k%d", g.t.Intn(8))}}}
			}
			out = append(out, c)
		}
		g.wrote, g.after, g.reads = true, true, g.reads+3
	}
	return out
}

func (g *cgen) blocks(depth int) []*cnode {
	var out []*cnode
	t := g.t
	t.Each(1, 4, func(i int) {
		if i > 0 && g.left < 0 {
			return
		}
		k := t.Intn(8)
		if depth <= 0 && k >= 3 {
			k = 0
		}
		word := &cnode{tag: "text", v: "w "}
		switch k {
		case 3:
			out = append(out, &cnode{tag: pbt.Pick(t, "div", "blockquote", "section"), kids: g.blocks(depth - 1)})
		case 4, 5:
			l := &cnode{tag: pbt.Pick(t, "ul", "ol")}
			t.Each(1, 3, func(int) {
				l.kids = append(l.kids, &cnode{tag: "li", kids: append([]*cnode{word}, g.blocks(depth-1)...)})
			})
			out = append(out, l)
		case 6:
			out = append(out, &cnode{tag: pbt.Pick(t, "h1", "h2", "h3"), kids: append([]*cnode{word}, g.inlines(2, false)...)})
		case 7:
			out = append(out, &cnode{tag: "x-with", k: g.key(), v: strconv.Itoa(t.Intn(100)), kids: g.blocks(depth - 1)})
		default:
			out = append(out, &cnode{tag: "div", kids: g.inlines(3, false)})
		}
	})
	return out
}

// interp is the reference: it walks through the document once, in order.
type interp struct {
	out    []string
	state  map[string]any
	domain string
	err    bool
	base   map[string]string
}

func (m *interp) emit(kind, v string) { m.out = append(m.out, token(kind, v)) }

func token(kind, v string) string { return "Z" + kind + hex.EncodeToString([]byte(v)) + "Z" }

func (m *interp) run(ns []*cnode, vals map[string]string) {
	for _, n := range ns {
		switch n.tag {
		case "text":
			for _, w := range strings.Fields(n.v) {
				if strings.HasPrefix(w, "val") {
					m.emit("x", vals[w[3:]])
				}
			}
		case "x-set":
			v, _ := strconv.Atoi(n.v)
			m.state[n.k] = v
		case "x-del", "x-null":
			delete(m.state, n.k)
		case "x-text":
			m.state[n.k] = n.v
		case "x-add":
			v, _ := strconv.Atoi(n.v)
			old, ok := m.state[n.k].(int)
			if !ok && m.state[n.k] != nil {
				old = 0
			}
			m.state[n.k] = old + v
		case "x-get":
			v, _ := m.state[n.k].(int)
			m.emit("g", strconv.Itoa(v))
		case "x-str":
			v, _ := m.state[n.k].(string)
			m.emit("s", v)
		case "x-val":
			m.emit("v", vals[n.k])
		case "x-domain":
			m.emit("d", m.domain)
		case "x-url":
			m.emit("u", urlInLink(n.v, m.domain))
		case "x-err":
			m.emit("e", fmt.Sprint(m.err))
		case "x-with":
			sub := map[string]string{}
			for k, v := range vals {
				sub[k] = v
			}
			sub[n.k] = n.v
			m.run(n.kids, sub)
		case "x-twice":
			m.run(n.kids, vals)
			m.run(n.kids, vals)
		case "x-reverse":
			for i := len(n.kids) - 1; i >= 0; i-- {
				m.run(n.kids[i:i+1], vals)
			}
		case "x-nested":
			// a conversion of its own, which may have been given the context
			sub, subVals := &interp{state: map[string]any{}}, map[string]string{}
			if n.v != "ctx" {
				sub.domain = n.v
			}
			if n.k == "ctx" || n.v == "ctx" {
				subVals, sub.err = vals, m.err
			}
			sub.doc(n.kids, subVals)
			m.out = append(m.out, sub.out...)
		default:
			m.run(n.kids, vals)
		}
	}
}

// doc is a whole conversion with the handlers before and after.
func (m *interp) doc(ns []*cnode, vals map[string]string) {
	m.state["a"] = 1000 // by the pre-renderer
	m.run(ns, vals)
	v, _ := m.state["b"].(int)
	m.emit("p", strconv.Itoa(v)+"/"+vals["c"])
}

var urlMemo sync.Map

// urlInLink is the URL that the link of an ordinary document gets.
func urlInLink(raw, domain string) string {
	k := raw + "\x00" + domain
	if v, ok := urlMemo.Load(k); ok {
		return v.(string)
	}
	s, err := Config{}.New().ConvertString(`<a href="`+raw+`">x</a>`, converter.WithDomain(domain))
	if err != nil {
		panic(err)
	}
	s = strings.TrimSuffix(strings.TrimPrefix(s, "[x]("), ")")
	urlMemo.Store(k, s)
	return s
}

var tokenRe = regexp.MustCompile(`Z[a-z][0-9a-f]*Z`)

// stateConverter understands the instructions.
func stateConverter(register string) *converter.Converter {
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
	attr := func(n *xhtml.Node, k string) string {
		for _, a := range n.Attr {
			if a.Key == k {
				return a.Val
			}
		}
		return ""
	}
	val := func(ctx context.Context, k string) string {
		s, _ := ctx.Value(keyType{k}).(string)
		return s
	}
	handle := func(ctx converter.Context, w converter.Writer, n *xhtml.Node) converter.RenderStatus {
		k, v := attr(n, "k"), attr(n, "v")
		num, _ := strconv.Atoi(v)
		switch n.Data {
		case "x-set":
			converter.SetState(ctx, k, num)
		case "x-text":
			converter.SetState(ctx, k, v)
		case "x-del":
			converter.UpdateState(ctx, k, func(any) any { return nil })
		case "x-null":
			converter.SetState[any](ctx, k, nil)
		case "x-add":
			if _, isText := converter.GetState[any](ctx, k).(string); isText {
				converter.SetState(ctx, k, 0) // else there is a warning on the console
			}
			converter.UpdateState(ctx, k, func(old int) int { return old + num })
		case "x-get":
			w.WriteString(token("g", strconv.Itoa(converter.GetState[int](ctx, k))))
		case "x-str":
			w.WriteString(token("s", converter.GetState[string](ctx, k)))
		case "x-val":
			w.WriteString(token("v", val(ctx, k)))
		case "x-domain":
			w.WriteString(token("d", converter.GetDomain(ctx)))
		case "x-url":
			w.WriteString(token("u", ctx.AssembleAbsoluteURL(ctx, "a", v)))
		case "x-err":
			w.WriteString(token("e", fmt.Sprint(ctx.Err() != nil)))
		case "x-with":
			ctx.RenderChildNodes(ctx.WithValue(keyType{k}, v), w, n)
		case "x-twice":
			ctx.RenderChildNodes(ctx, w, n)
			ctx.RenderChildNodes(ctx, w, n)
		case "x-buf":
			var b strings.Builder
			ctx.RenderChildNodes(ctx, &b, n)
			w.WriteString(b.String())
		case "x-reverse":
			for c := n.LastChild; c != nil; c = c.PrevSibling {
				ctx.RenderNodes(ctx, w, c)
			}
		case "x-nested":
			var b strings.Builder
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				_ = xhtml.Render(&b, c)
			}
			var o []converter.ConvertOptionFunc
			if k == "ctx" || v == "ctx" {
				o = append(o, converter.WithContext(ctx))
			}
			if v != "" && v != "ctx" {
				o = append(o, converter.WithDomain(v))
			}
			md, err := conv.ConvertString(b.String(), o...)
			if err != nil {
				md = err.Error()
			}
			w.WriteString(" " + md + " ")
		default:
			return converter.RenderTryNext
		}
		return converter.RenderSuccess
	}
	names := []string{"x-set", "x-text", "x-del", "x-null", "x-add", "x-get", "x-str", "x-val", "x-domain", "x-url", "x-err", "x-with", "x-twice", "x-buf", "x-reverse", "x-nested"}
	if register == "each" {
		for _, n := range names {
			conv.Register.RendererFor(n, converter.TagTypeInline, handle, converter.PriorityStandard)
		}
	} else {
		for _, n := range names {
			conv.Register.TagType(n, converter.TagTypeInline, converter.PriorityEarly)
		}
		conv.Register.Renderer(handle, converter.PriorityEarly)
	}
	conv.Register.PreRenderer(func(ctx converter.Context, _ *xhtml.Node) { converter.SetState(ctx, "a", 1000) }, converter.PriorityStandard)
	conv.Register.PostRenderer(func(ctx converter.Context, out []byte) []byte {
		return append(out, " "+token("p", strconv.Itoa(converter.GetState[int](ctx, "b"))+"/"+val(ctx, "c"))...)
	}, converter.PriorityLate)
	conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
		for _, k := range []string{"a", "b", "c"} {
			s = strings.ReplaceAll(s, "val"+k, token("x", val(ctx, k)))
		}
		return s
	}, converter.PriorityStandard)
	return conv
}

func contextAndState(t *pbt.T) {
	register := pbt.Pick(t, "each", "all")
	conv := stateConverter(register)
	type job struct {
		h, domain string
		vals      map[string]string
		cancelled bool
		want      []string
		got       string
		err       error
	}
	var jobs []*job
	g := &cgen{t: t}
	t.Each(1, 3, func(i int) {
		g.left = 6 + t.Intn(4+t.Size)
		ns := g.blocks(2)
		j := &job{h: htmlOf(ns), vals: map[string]string{}}
		j.domain = pbt.Pick(t, "", "", "https://d.example/x/", "e.example")
		for _, k := range []string{"a", "b", "c"} {
			if t.Chance(1, 3) {
				j.vals[k] = "ctx" + k
			}
		}
		j.cancelled = t.Chance(1, 6)
		m := &interp{state: map[string]any{}, domain: j.domain, err: j.cancelled}
		m.doc(ns, j.vals)
		j.want = m.out
		jobs = append(jobs, j)
		t.Note(fmt.Sprintf("html%d", i), j.h)
		t.Note(fmt.Sprintf("setup%d", i), fmt.Sprintf("domain=%q values=%v cancelled=%v", j.domain, j.vals, j.cancelled))
	})
	run := func(j *job) {
		ctx := context.Context(context.Background())
		for k, v := range j.vals {
			ctx = context.WithValue(ctx, keyType{k}, v)
		}
		if j.cancelled {
			c, f := context.WithCancel(ctx)
			f()
			ctx = c
		}
		var o []converter.ConvertOptionFunc
		if len(j.vals) > 0 || j.cancelled {
			o = append(o, converter.WithContext(ctx))
		}
		if j.domain != "" {
			o = append(o, converter.WithDomain(j.domain))
		}
		if len(o) == 2 && len(j.h)%2 == 0 {
			o[0], o[1] = o[1], o[0]
		}
		// an option that is given again replaces the earlier one
		if len(o) > 0 && len(j.h)%3 == 0 {
			if len(j.vals) > 0 || j.cancelled {
				o = append([]converter.ConvertOptionFunc{converter.WithContext(context.WithValue(context.Background(), keyType{"b"}, "stale"))}, o...)
			}
			if j.domain != "" {
				o = append([]converter.ConvertOptionFunc{converter.WithDomain("https://stale.example")}, o...)
			}
		}
		j.got, j.err = conv.ConvertString(j.h, o...)
	}
	parallel := len(jobs) > 1 && t.Bool()
	t.Note("parallel", parallel)
	if parallel {
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			go func() { defer wg.Done(); run(j) }()
		}
		wg.Wait()
	} else {
		for _, j := range jobs {
			run(j)
		}
	}
	t.Sample(fmt.Sprintf("%s parallel=%v %q => %q", register, parallel, jobs[0].h, jobs[0].got))
	if g.reads >= 3 && g.after {
		t.NonTrivial(fmt.Sprint(jobs[0].h, len(jobs), jobs[0].domain, jobs[0].vals))
	}
	for i, j := range jobs {
		if j.err != nil {
			t.Fatalf("conversion %d: %v", i, j.err)
		}
		got := tokenRe.FindAllString(j.got, -1)
		if strings.Join(got, " ") != strings.Join(j.want, " ") {
			t.Fatalf("conversion %d: what the handlers saw differs\nwant %s\ngot  %s\nmarkdown %q", i, readable(j.want), readable(got), j.got)
		}
	}
}

func readable(ts []string) string {
	var out []string
	for _, t := range ts {
		b, _ := hex.DecodeString(t[2 : len(t)-1])
		out = append(out, t[1:2]+":"+string(b))
	}
	return strings.Join(out, " ")
}

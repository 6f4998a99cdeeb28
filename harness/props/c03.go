package props

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	xhtml "golang.org/x/net/html"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C03", Quick: 8000, Thorough: 150000, Run: concurrency, NoMemLimit: true, Concurrent: true,
		Rule:        "at least two goroutines with at least two conversions in total, one of them on the shared converter",
		Assumptions: []string{"schedules are those the Go scheduler produces on this machine under the race detector (with drawn yields and start orders), not all interleavings"}})
}

// xMark is what the late renderer for <x-late> writes.
const xMark = "xlatewritten"

type cop struct {
	kind   int
	doc    int
	domain string
	yields int
}

func concurrency(t *pbt.T) {
	c := AnyConfig(t)
	shared := c.New()
	t.Note("config", c.String())
	if t.Chance(1, 2) {
		// renderers that are looked up but decline
		shared.Register.RendererFor("q", converter.TagTypeInline, func(converter.Context, converter.Writer, *xhtml.Node) converter.RenderStatus {
			return converter.RenderTryNext
		}, converter.PriorityEarly)
	}
	rich := `<h1>T <a href="p">x</a></h1><ol start="7"><li>a<ul><li>b*c</li></ul></li><li>_d_</li></ol><ul><li>e</li></ul><ul><li>f</li></ul><blockquote><p>q <b>b</b> <i>i</i> <del>s</del></p></blockquote><pre><code class="language-go">x := 1</code></pre><table><caption>c</caption><tr><th align="right">h</th><th colspan="2">k</th></tr><tr><td rowspan="2">1|2</td><td>3</td></tr></table><img src="i.png" alt="a" title="t"><hr><script>x</script><p>1. y <code>z</code></p>`
	docs := []string{rich + "<x-late>before</x-late>"}
	t.Each(1, 3, func(int) {
		h := ""
		if t.Bool() {
			h = gen.NewSoup(t, gen.SoupOpts{Malformed: t.Bool(), Hostile: true, Tables: t.Bool()}).HTML(4)
		} else {
			s := &gen.Style{T: t}
			h = s.Blocks(gen.New(t, gen.DocOpts{Table: true, Strike: true}).Doc(2, 3))
		}
		docs = append(docs, h)
		t.Note(fmt.Sprintf("doc%d", len(docs)-1), h)
	})
	domains := []string{"", "example.com", "https://b.example/dir/"}
	type key struct {
		doc    int
		domain string
		def    bool
	}
	want := map[key]string{}
	for i, d := range docs {
		for _, dom := range domains {
			for _, def := range []bool{false, true} {
				cc := c
				if def {
					cc = Config{}
				}
				conv := cc.New()
				s, err := conv.ConvertString(d, converter.WithDomain(dom))
				if err != nil {
					t.Discard()
				}
				want[key{i, dom, def}] = s
			}
		}
	}
	lateConv := c.New()
	late := func(conv *converter.Converter) {
		conv.Register.RendererFor("x-late", converter.TagTypeInline, func(_ converter.Context, w converter.Writer, _ *xhtml.Node) converter.RenderStatus {
			w.WriteString(xMark)
			return converter.RenderSuccess
		}, converter.PriorityStandard)
	}
	late(lateConv)
	wantLate := map[string]string{}
	for _, dom := range domains {
		wantLate[dom], _ = lateConv.ConvertString(docs[0], converter.WithDomain(dom))
	}
	var plans [][]cop
	total, onShared := 0, 0
	t.Each(2, 6, func(int) {
		var p []cop
		t.Each(1, 6, func(int) {
			o := cop{kind: t.Weighted(6, 3, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1), doc: t.Intn(len(docs)), domain: pbt.Pick(t, domains...), yields: t.Intn(4)}
			if o.kind <= 4 {
				total++
			}
			if o.kind <= 2 {
				onShared++
			}
			p = append(p, o)
		})
		plans = append(plans, p)
	})
	t.Note("plans", plans)
	if total >= 2 && onShared >= 1 {
		t.NonTrivial(fmt.Sprint(plans, docs[1:]))
	}
	t.Sample(fmt.Sprintf("%s goroutines=%d plans=%v", c, len(plans), plans))
	var lateDone atomic.Bool  // the registration of the late renderer has returned
	var lateBegun atomic.Bool // it may have begun
	var mu sync.Mutex
	problem := ""
	fail := func(f string, a ...any) {
		mu.Lock()
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	check := func(what string, o cop, def, isShared, doneBefore bool, got string, err error) {
		if err != nil {
			fail("%s: %v", what, err)
			return
		}
		w := want[key{o.doc, o.domain, def}]
		if got == w {
			if isShared && doneBefore && o.doc == 0 && w != wantLate[o.domain] {
				fail("%s, begun after the registration had returned, does not use the renderer: %q", what, got)
			}
			return
		}
		if isShared && o.doc == 0 && got == wantLate[o.domain] {
			if !lateBegun.Load() {
				fail("%s uses a renderer that is not registered: %q", what, got)
			}
			return
		}
		fail("%s of document %d gives a different result while others run\nalone      %q\nconcurrent %q", what, o.doc, w, got)
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g, plan := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range plan {
				for range o.yields {
					runtime.Gosched()
				}
				done := lateDone.Load()
				opt := converter.WithDomain(o.domain)
				d := docs[o.doc]
				what := fmt.Sprintf("goroutine %d, op %d", g, o.kind)
				switch o.kind {
				case 0:
					s, err := shared.ConvertString(d, opt)
					check(what, o, false, true, done, s, err)
				case 1:
					b, err := shared.ConvertReader(bytes.NewReader([]byte(d)), opt)
					check(what, o, false, true, done, string(b), err)
				case 2:
					doc, err := xhtml.Parse(strings.NewReader(d))
					if err != nil {
						continue
					}
					b, err := shared.ConvertNode(doc, opt)
					check(what, o, false, true, done, string(b), err)
				case 3:
					s, err := htmltomarkdown.ConvertString(d, opt)
					check(what, o, true, false, false, s, err)
				case 4:
					s, err := c.New().ConvertString(d, opt)
					check(what, o, false, false, false, s, err)
				case 5:
					lateBegun.Store(true)
					late(shared)
					lateDone.Store(true)
				case 6:
					shared.Register.PreRenderer(func(converter.Context, *xhtml.Node) {}, o.doc*300)
				case 7:
					shared.Register.Renderer(func(converter.Context, converter.Writer, *xhtml.Node) converter.RenderStatus {
						return converter.RenderTryNext
					}, o.doc*300)
				case 8:
					shared.Register.PostRenderer(func(_ converter.Context, b []byte) []byte { return b }, o.doc*300)
				case 9:
					shared.Register.TextTransformer(func(_ converter.Context, s string) string { return s }, o.doc*300)
				case 10:
					shared.Register.EscapedChar('*', '_')
				case 11:
					shared.Register.UnEscaper(func([]byte, int) int { return -1 }, o.doc*300)
				case 12:
					shared.Register.TagType("x-unused", converter.TagTypeBlock, o.doc*300)
					shared.Register.TagType("span", converter.TagTypeInline, o.doc*300)
				case 13:
					// a plugin that is already there, or one that does nothing
					if o.doc == 0 && c.Table {
						shared.Register.Plugin(c.tablePlugin())
					} else if o.doc == 1 && c.Strike {
						shared.Register.Plugin(c.strikePlugin())
					} else {
						shared.Register.Plugin(noopPlugin{})
					}
				}
			}
		}()
	}
	finished := make(chan struct{})
	go func() {
		select {
		case <-finished:
		case <-time.After(150 * time.Second):
			buf := make([]byte, 1<<16)
			fmt.Fprintf(os.Stderr, "NO PROGRESS: the goroutines did not finish within 150 s\n%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		}
	}()
	close(start)
	wg.Wait()
	close(finished)
	if problem != "" {
		t.Fatalf("%s", problem)
	}
}

type noopPlugin struct{}

func (noopPlugin) Name() string                    { return "noop" }
func (noopPlugin) Init(*converter.Converter) error { return nil }

package props

import (
	"bytes"
	"fmt"
	"html"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	xhtml "golang.org/x/net/html"
	"golang.org/x/net/html/atom"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C01", Quick: 250000, Thorough: 3000000, Run: totality,
		Rule:        "an input with at least two elements, or a mutated, repeated or deeply nested one",
		Assumptions: []string{"an input that golang.org/x/net/html refuses to parse (nesting beyond 512) may be answered with an error"}})
}

// AnyConfig draws from all configurations, the lossy ones included.
func AnyConfig(t *pbt.T) Config {
	c := GenConfig(t)
	c.NoEscape = t.Chance(1, 4)
	c.NoListEnd = t.Chance(1, 4)
	return c
}

// threadCPU is the CPU time of the calling thread; the caller has locked it.
func threadCPU() time.Duration {
	var ru syscall.Rusage
	const rusageThread = 1
	_ = syscall.Getrusage(rusageThread, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var repeatBits = []string{"<a href=x>", "<a>", "</a>", "<b>", "</b>", "<em>", "<i>", "<strong>", "<p>", "</p>", "<ul>", "<li>", "</li>", "<ol>", "</ul>", "<blockquote>", "</blockquote>", "<table>", "<tr>", "<td>", "</table>", "<caption>", "<h1>", "<h2>", "</h1>", "<pre>", "</pre>", "<code>", "</code>", "<br>", "<hr>", "<img src=x>", "<img>", "<div>", "</div>", "<span>", "<object>", "<button>", "<svg>", "<select>", "<option>", "<del>", "x", " ", "\n", "*", "_", "`", "```", "~", "~~~", "[", "]", "](", "!", "#", "-", "- ", "1.", "1. ", ">", "\\", "|", "=", "<", "&", "&lt;", "&gt;", "&#10;", "<!--", "-->", "<!-- -->", "word ", "\u00a0", "é", "<dl>", "<dd>", "<figure>", "<kbd>", "</kbd>", "(", ")", "<textarea>", "<script>", "$", ":", "|-|", "<title>"}

var elementNames = strings.Fields("a abbr acronym address applet area article aside audio b base basefont bdi bdo big blink blockquote body br button canvas caption center cite code col colgroup data datalist dd del details dfn dialog dir div dl dt em embed fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 head header hgroup hr html i iframe image img input ins kbd keygen label legend li link listing main map mark marquee math menu menuitem meta meter nav nobr noembed noframes noscript object ol optgroup option output p param picture plaintext portal pre progress q rb rp rt rtc ruby s samp script search section select slot small source spacer span strike strong style sub summary sup svg table tbody td template textarea tfoot th thead time title tr track tt u ul var video wbr xmp x-y foo")

var mutationBits = []string{"<", ">", "</", "/>", "\"", "'", "=", "&", ";", "&#", "\x00", "\xff", "\xc3", "\u0007", "\uf002", "\ufdd0", "\U000fffff", "<!--", "-->", "<![CDATA[", "]]>", "<!", "<?", "\r", "\f", "\v", "\t", "\u2028", "\ufeff", "\u200b", "\n", "<table>", "<td>", "<li>", "<p>", "</p>", "<template>", "<svg>", "<math>", "<plaintext>", "<frameset>", "<body>", "</body>", "</html>", "<a>", "<br", "<img", "<select>", "<button>", "<isindex>", "<textarea>", "<title>", "<script>", "</script>", "<noscript>", "<li", "<h1"}

func mutate(t *pbt.T, s string) string {
	b := []byte(s)
	t.Each(1, 4, func(int) {
		pos := func() int { return t.Intn(len(b) + 1) }
		switch t.Weighted(3, 2, 2, 1, 1) {
		case 0:
			p := pos()
			m := pbt.Pick(t, mutationBits...)
			b = append(b[:p:p], append([]byte(m), b[p:]...)...)
		case 1:
			p, q := pos(), pos()
			if p > q {
				p, q = q, p
			}
			q = min(q, p+12)
			b = append(b[:p:p], b[q:]...)
		case 2:
			p, q, r := pos(), pos(), pos()
			if p > q {
				p, q = q, p
			}
			q = min(q, p+40)
			b = append(b[:r:r], append(append([]byte{}, b[p:q]...), b[r:]...)...)
		case 3:
			b = b[:pos()]
		case 4:
			if len(b) > 0 {
				b[t.Intn(len(b))] = byte(t.Intn(256))
			}
		}
	})
	return string(b)
}

// tree builds an arbitrary node tree, also one no parser would build.
func tree(t *pbt.T) *xhtml.Node {
	left := 3 + t.Intn(12)
	names := []string{"p", "b", "em", "a", "ul", "ol", "li", "table", "tr", "td", "th", "caption", "thead", "tbody", "pre", "code", "h1", "h3", "blockquote", "br", "hr", "img", "div", "span", "script", "style", "textarea", "iframe", "kbd", "del", "html", "body", "head", "#text", "#document", "", "xx", "A", "LI", "noscript", "i", "strong", "input"}
	var mk func(depth int) *xhtml.Node
	mk = func(depth int) *xhtml.Node {
		left--
		n := &xhtml.Node{}
		switch t.Weighted(8, 4, 1, 1) {
		case 0:
			n.Type = xhtml.ElementNode
			n.Data = pbt.Pick(t, names...)
			if t.Chance(3, 4) {
				n.DataAtom = atom.Lookup([]byte(n.Data))
			} else if t.Chance(1, 4) {
				n.DataAtom = atom.Lookup([]byte(pbt.Pick(t, names...)))
			}
			if t.Chance(1, 8) {
				n.Namespace = pbt.Pick(t, "svg", "math", "x")
			}
			t.Each(0, 3, func(int) {
				n.Attr = append(n.Attr, xhtml.Attribute{Namespace: pbt.Pick(t, "", "", "x"), Key: pbt.Pick(t, "href", "src", "alt", "title", "start", "class", "colspan", "rowspan", "align", "role", ""), Val: pbt.Pick(t, "", "1", "3", "-2", "x", "/p", "\n", "language-a", "presentation", "center", "99999999999999999999", "2000000000", "9", "\xff", " ", "http://[", "`", "]")})
			})
		case 1:
			n.Type = xhtml.TextNode
			n.Data = pbt.Pick(t, "", " ", "\n", "x", "*", " y ", "a\nb", "\u00a0", "# h", "- i", "1. n", "```", "|", "<b>", "\\", "\r\n")
		case 2:
			n.Type = xhtml.CommentNode
			n.Data = pbt.Pick(t, "", "c", "-->", "THE END", "\n")
		case 3:
			n.Type = pbt.Pick(t, xhtml.DocumentNode, xhtml.DoctypeNode, xhtml.RawNode, xhtml.ErrorNode)
			n.Data = pbt.Pick(t, "", "html", "x", "<b>")
		}
		if depth > 0 && (n.Type == xhtml.ElementNode || n.Type == xhtml.DocumentNode) {
			t.Each(0, 4, func(int) {
				if left > 0 {
					t.Span("node", func() { n.AppendChild(mk(depth - 1)) })
				}
			})
		}
		return n
	}
	root := mk(5)
	if t.Chance(1, 3) {
		// the tree to convert may be a part of a larger one
		for root.FirstChild != nil && t.Bool() {
			root = root.FirstChild
		}
	}
	return root
}

func showTree(n *xhtml.Node) string {
	var b strings.Builder
	var walk func(n *xhtml.Node, ind string)
	walk = func(n *xhtml.Node, ind string) {
		fmt.Fprintf(&b, "%s%d %q %v %q %q\n", ind, n.Type, n.Data, n.DataAtom, n.Namespace, n.Attr)
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c, ind+"  ")
		}
	}
	walk(n, "")
	return b.String()
}

func totality(t *pbt.T) {
	c := AnyConfig(t)
	t.Note("config", c.String())
	var opts []converter.ConvertOptionFunc
	if t.Chance(1, 4) {
		d := pbt.Pick(t, "example.com", "https://example.com/a/b", "", " ", "://", "%zz", "http://[", "mailto:x", "/", "\x00")
		opts = append(opts, converter.WithDomain(d))
		t.Note("domain", d)
	}
	in := ""
	limit := 5 * time.Second
	kind := t.Weighted(12, 6, 4, 3, 2)
	if kind == 3 && !t.Chance(1, 8) {
		kind = 1
	}
	switch kind {
	case 0:
		t.Label("soup")
		in = gen.NewSoup(t, gen.SoupOpts{Malformed: t.Bool(), Hostile: t.Bool(), Tables: t.Chance(1, 4)}).HTML(6)
	case 1:
		t.Label("mutated")
		in = mutate(t, gen.NewSoup(t, gen.SoupOpts{Malformed: true, Hostile: true}).HTML(4))
	case 2:
		t.Label("bits")
		var b strings.Builder
		t.Each(1, 30, func(int) { b.WriteString(pbt.Pick(t, repeatBits...)) })
		in = b.String()
	case 3:
		t.Label("repeated")
		limit = 25 * time.Second
		var unit, tail strings.Builder
		if t.Bool() {
			// elements of all kinds inside of each other
			t.Each(1, 2, func(int) {
				unit.WriteString("<" + pbt.Pick(t, elementNames...) + pbt.Pick(t, ">", ">", ` id="a">`))
			})
			if t.Chance(1, 3) {
				unit.WriteString(pbt.Pick(t, "x", " ", "\n", "<br>", "<hr>", "<!-- c -->"))
			}
		} else {
			t.Each(1, 5, func(int) { unit.WriteString(pbt.Pick(t, repeatBits...)) })
		}
		t.Each(0, 3, func(int) { tail.WriteString(pbt.Pick(t, repeatBits...)) })
		n := pbt.Pick(t, 3, 40, 200, 480, 1500)
		in = strings.Repeat(unit.String(), min(n, 12000/unit.Len())) + tail.String()
	case 4:
		t.Label("tree")
	}
	entry := pbt.Pick(t, "string", "reader", "node")
	if kind == 4 {
		entry = "node"
	}
	var doc *xhtml.Node
	var parseErr error
	if kind == 4 {
		doc = tree(t)
		t.Note("tree", showTree(doc))
		t.NonTrivial(showTree(doc))
	} else {
		t.Note("html", in)
		doc, parseErr = xhtml.Parse(strings.NewReader(in))
		if strings.Count(in, "<") >= 2 || kind != 0 {
			t.NonTrivial(in)
		}
		t.Sample(fmt.Sprintf("%s %s %q", c, entry, clipS(in, 300)))
	}
	t.Label(entry)
	runtime.LockOSThread()
	cpu := threadCPU()
	var out string
	var err error
	switch entry {
	case "string":
		out, err = c.New().ConvertString(in, opts...)
	case "reader":
		var b []byte
		b, err = c.New().ConvertReader(bytes.NewReader([]byte(in)), opts...)
		out = string(b)
	case "node":
		if parseErr != nil {
			t.Discard()
		}
		var b []byte
		b, err = c.New().ConvertNode(doc, opts...)
		out = string(b)
	}
	cpu = threadCPU() - cpu
	runtime.UnlockOSThread()
	if entry != "node" && (err != nil) != (parseErr != nil) {
		t.Fatalf("error %v; the parser says %v", err, parseErr)
	}
	if entry == "node" && err != nil {
		t.Fatalf("error %v", err)
	}
	if cpu > limit {
		t.Fatalf("took %v of CPU time for %d bytes of input", cpu, len(in))
	}
	if kind != 4 && utf8.ValidString(in) && utf8.ValidString(html.UnescapeString(in)) && !utf8.ValidString(out) {
		t.Fatalf("the output of valid UTF-8 is not: %q", out)
	}
	if kind != 3 && len(out) > 4000+60*(len(in)+1000) {
		t.Fatalf("%d bytes of output for %d bytes of input", len(out), len(in))
	}
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

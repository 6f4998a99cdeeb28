package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	xhtml "golang.org/x/net/html"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C18", Quick: 120000, Thorough: 3000000, Run: optionValues,
		Rule: "a setup with at least two options or plugins that are not the default"})
}

// refusal is one reason why a setup has to be refused.
type refusal struct {
	why     string
	matches func(error) bool
}

type ownPlugin struct {
	name string
	err  error
	init *int
}

func (p *ownPlugin) Name() string { return p.name }
func (p *ownPlugin) Init(*converter.Converter) error {
	*p.init++
	return p.err
}

// near draws a valid value or one that is close to it.
func near(t *pbt.T, valid ...string) string {
	v := pbt.Pick(t, valid...)
	if t.Chance(3, 4) {
		return v
	}
	switch t.Intn(9) {
	case 0:
		return v + v
	case 1:
		return v[:len(v)-1]
	case 2:
		return v + " "
	case 3:
		return " " + v
	case 4:
		return strings.ToUpper(v)
	case 5:
		return v + pbt.Pick(t, "*", "_", "-", "~", "`", "+", "=", "x", "\n", "é")
	case 6:
		return pbt.Pick(t, "*", "_", "-", "~", "`", "+", "=", "x", "•", "é") + v[1:]
	case 7:
		return pbt.Pick(t, "*", "_", "**", "__", "-", "+", "```", "~~~", "atx", "setext", "empty", "mirror", "skip", "preserve", "aligned", "minimal", "none", "true", " ", "\x00")
	default:
		var b strings.Builder
		t.Each(1, 5, func(int) { b.WriteString(pbt.Pick(t, "*", "_", "-", " ", "\t", "+", "`", "~", "a")) })
		return b.String()
	}
}

func oneOf(v string, valid ...string) bool {
	for _, x := range valid {
		if x == v {
			return true
		}
	}
	return v == ""
}

// validRule is the definition of a thematic break in the specification of
// CommonMark (without the indentation).
func validRule(v string) bool {
	if v == "" {
		return true
	}
	n, c := 0, rune(0)
	for _, r := range v {
		switch {
		case r == ' ' || r == '\t':
		case (r == '*' || r == '-' || r == '_') && (c == 0 || c == r):
			c = r
			n++
		default:
			return false
		}
	}
	return n >= 3
}

func optionValues(t *pbt.T) {
	var c Config
	var reasons []refusal
	interesting := 0
	badKey := func(key, val string) {
		reasons = append(reasons, refusal{key + "=" + val, func(err error) bool {
			var e *commonmark.ValidateConfigError
			return errors.As(err, &e) && e.Key == key && e.Value == val &&
				strings.Contains(err.Error(), key) && strings.Contains(err.Error(), fmt.Sprintf("%q", val))
		}})
	}
	var groups [][]commonmark.OptionFunc
	opt := func(key string, set *string, ok func(string) bool, with func(string) commonmark.OptionFunc, draw func() string) {
		if !t.Chance(1, 4) {
			return
		}
		interesting++
		var os []commonmark.OptionFunc
		if t.Chance(1, 5) {
			os = append(os, with(draw())) // the later one counts
		}
		v := draw()
		if t.Chance(1, 8) {
			v = ""
		}
		groups = append(groups, append(os, with(v)))
		*set = v
		if !ok(v) {
			badKey(key, v)
		}
	}
	sel := func(vs ...string) (func(string) bool, func() string) {
		return func(v string) bool { return oneOf(v, vs...) }, func() string { return near(t, vs...) }
	}
	ok, draw := sel("*", "_")
	opt("EmDelimiter", &c.Em, ok, commonmark.WithEmDelimiter, draw)
	ok, draw = sel("**", "__")
	opt("StrongDelimiter", &c.StrongD, ok, commonmark.WithStrongDelimiter, draw)
	opt("HorizontalRule", &c.HR, validRule, commonmark.WithHorizontalRule, func() string {
		v := near(t, "***", "---", "___", "* * *", "-  -\t-", "__________", "- - - -")
		return strings.Trim(v, " \t")
	})
	ok, draw = sel("-", "+", "*")
	opt("BulletListMarker", &c.Bullet, ok, commonmark.WithBulletListMarker, draw)
	ok, draw = sel("```", "~~~")
	opt("CodeBlockFence", &c.Fence, ok, commonmark.WithCodeBlockFence, draw)
	ok, draw = sel("atx", "setext")
	opt("HeadingStyle", &c.Heading, ok, func(v string) commonmark.OptionFunc {
		return stringly(commonmark.WithHeadingStyle, v)
	}, draw)
	ok, draw = sel("render", "skip")
	var emptyHref, emptyContent string
	opt("LinkEmptyHrefBehavior", &emptyHref, ok, func(v string) commonmark.OptionFunc {
		return stringly(commonmark.WithLinkEmptyHrefBehavior, v)
	}, draw)
	opt("LinkEmptyContentBehavior", &emptyContent, ok, func(v string) commonmark.OptionFunc {
		return stringly(commonmark.WithLinkEmptyContentBehavior, v)
	}, draw)
	c.EmptyHref, c.EmptyContent = emptyHref == "skip", emptyContent == "skip"
	if t.Chance(1, 4) {
		c.NoListEnd = t.Bool()
		groups = append(groups, []commonmark.OptionFunc{commonmark.WithListEndComment(!c.NoListEnd)})
	}
	// options of different kinds may come in any order
	for i := len(groups) - 1; i > 0; i-- {
		j := i - t.Intn(i+1)
		groups[i], groups[j] = groups[j], groups[i]
	}
	var cm []commonmark.OptionFunc
	for _, g := range groups {
		cm = append(cm, g...)
	}

	var plugins []converter.Plugin
	var names []string
	add := func(n string, p converter.Plugin) { plugins, names = append(plugins, p), append(names, n) }
	hasBase, hasCM := !t.Chance(1, 12), !t.Chance(1, 12)
	cmReasons := reasons
	reasons = nil
	if hasBase {
		add("base", base.NewBasePlugin())
	}
	if hasCM {
		add("commonmark", commonmark.NewCommonmarkPlugin(cm...))
		reasons = append(reasons, cmReasons...)
	}
	if t.Chance(1, 3) {
		interesting++
		c.Strike = true
		if t.Bool() {
			c.StrikeD = pbt.Pick(t, "~~", "~", "", "==")
			add("strikethrough", strikethrough.NewStrikethroughPlugin(strikethrough.WithDelimiter(c.StrikeD)))
		} else {
			add("strikethrough", strikethrough.NewStrikethroughPlugin())
		}
	}
	if t.Chance(1, 3) {
		c.Table = true
		interesting++
		opts := listOf(table.WithSkipEmptyRows(false))
		topt := func(what string, set *string, valid []string, with func()) {
			if !t.Bool() {
				return
			}
			interesting++
			v := near(t, valid...)
			if t.Chance(1, 8) {
				v = ""
			}
			*set = v
			with()
			if !oneOf(v, valid...) {
				reasons = append(reasons, refusal{what + "=" + v, func(err error) bool {
					return strings.Contains(err.Error(), what) && strings.Contains(err.Error(), fmt.Sprintf("%q", v)) && strings.Contains(err.Error(), "table")
				}})
			}
		}
		topt("span cell behavior", &c.Span, []string{"empty", "mirror"}, func() { opts = append(opts, table.WithSpanCellBehavior(table.SpanCellBehavior(c.Span))) })
		topt("newline behavior", &c.Newline, []string{"skip", "preserve"}, func() { opts = append(opts, table.WithNewlineBehavior(table.NewlineBehavior(c.Newline))) })
		topt("cell padding behavior", &c.Padding, []string{"aligned", "minimal", "none"}, func() { opts = append(opts, table.WithCellPaddingBehavior(table.CellPaddingBehavior(c.Padding))) })
		flag := func(set *bool, with func(bool)) {
			if t.Chance(1, 3) {
				interesting++
				*set = t.Bool()
				with(*set)
			}
		}
		flag(&c.SkipEmpty, func(v bool) { opts = append(opts, table.WithSkipEmptyRows(v)) })
		flag(&c.Promote, func(v bool) { opts = append(opts, table.WithHeaderPromotion(v)) })
		flag(&c.Presentation, func(v bool) { opts = append(opts, table.WithPresentationTables(v)) })
		if n := len(opts) - 1; t.Bool() && !c.SkipEmpty {
			opts[0], opts[n] = opts[n], opts[0]
		}
		add("table", table.NewTablePlugin(opts...))
	}
	inits := map[string]*int{}
	if t.Chance(1, 4) {
		interesting++
		n := pbt.Pick(t, "mine", "", "x")
		k := new(int)
		own := &ownPlugin{name: n, init: k}
		if t.Bool() {
			own.err = fmt.Errorf("no: %w", errReader)
			if n != "" {
				reasons = append(reasons, refusal{"own plugin failed", func(err error) bool { return errors.Is(err, errReader) && strings.Contains(err.Error(), n) }})
			}
		}
		if n == "" {
			reasons = append(reasons, refusal{"no name", func(err error) bool { return strings.Contains(err.Error(), "no name") }})
		} else {
			inits[n] = k
		}
		add(n, own)
	}
	// the order of the plugins and the moment they are registered are free
	if len(plugins) > 1 && t.Bool() {
		i, j := t.Intn(len(plugins)), t.Intn(len(plugins))
		plugins[i], plugins[j] = plugins[j], plugins[i]
		names[i], names[j] = names[j], names[i]
	}
	late := len(plugins)
	if t.Chance(1, 3) && late > 0 {
		late = t.Intn(late + 1)
	}
	conv := converter.NewConverter(converter.WithPlugins(plugins[:late]...))
	if late < len(plugins) && t.Bool() {
		// conversions in between do not matter
		_, _ = conv.ConvertString("<p>x</p>")
	}
	for _, p := range plugins[late:] {
		conv.Register.Plugin(p)
	}
	if hasCM && !hasBase {
		reasons = append(reasons, refusal{"base missing", func(err error) bool {
			return strings.Contains(err.Error(), "base") && strings.Contains(err.Error(), "commonmark")
		}})
	}
	if !hasCM && !c.Strike && !c.Table {
		reasons = append(reasons, refusal{"no renderers", func(err error) bool {
			return strings.Contains(err.Error(), "render")
		}})
	}
	t.Note("config", c.String())
	t.Note("plugins", strings.Join(names, " "))
	t.Note("late", len(plugins)-late)
	var why []string
	for _, r := range reasons {
		why = append(why, r.why)
	}
	t.Note("refuse", strings.Join(why, "; "))
	if interesting >= 2 {
		t.NonTrivial(fmt.Sprint(c, names, late))
	}
	h, want := probeDoc(t, c)
	t.Note("html", h)
	t.Sample(fmt.Sprintf("%s plugins=%v late=%d refuse=%v", c, names, len(plugins)-late, why))
	for n, k := range inits {
		if *k != 1 {
			t.Fatalf("plugin %q: Init was called %d times", n, *k)
		}
	}
	for i := 0; i < 3; i++ {
		var got []byte
		var err error
		switch pbt.Pick(t, "string", "reader", "node") {
		case "string":
			var s string
			s, err = conv.ConvertString(h)
			got = []byte(s)
		case "reader":
			got, err = conv.ConvertReader(strings.NewReader(h))
		default:
			n, e := xhtml.Parse(strings.NewReader(h))
			if e != nil {
				t.Fatalf("%v", e)
			}
			got, err = conv.ConvertNode(n)
		}
		if len(reasons) == 0 {
			if err != nil {
				t.Fatalf("a valid setup was refused: %v", err)
			}
			if hasCM && hasBase && string(got) != want {
				t.Fatalf("the options are not in force\nwant %q\ngot  %q", want, got)
			}
			continue
		}
		if err == nil {
			t.Fatalf("the setup has to be refused (%s), but the result is %q", strings.Join(why, "; "), got)
		}
		if len(got) != 0 {
			t.Fatalf("output %q in spite of the error %v", got, err)
		}
		found := false
		for _, r := range reasons {
			found = found || r.matches(err)
		}
		if !found {
			t.Fatalf("the error %q names none of the reasons: %s", err, strings.Join(why, "; "))
		}
	}
}

// probeDoc is a document that shows which options are in force, and its Markdown.
func probeDoc(t *pbt.T, c Config) (string, string) {
	or := func(v, d string) string {
		if v == "" {
			return d
		}
		return v
	}
	em, strong, fence, bullet := or(c.Em, "*"), or(c.StrongD, "**"), or(c.Fence, "```"), or(c.Bullet, "-")
	var h, md []string
	add := func(a, b string) { h, md = append(h, a), append(md, b) }
	t.Each(1, 6, func(i int) {
		if i > 0 {
			add("<p>then</p>", "then")
		}
		switch t.Intn(12) {
		case 8:
			s := "x [c]() y"
			if c.EmptyHref {
				s = "x c y"
			}
			add(`<p>x <a href="">c</a> y</p>`, s)
		case 9:
			s := "x[](/u) y"
			if c.EmptyContent {
				s = "x y"
			}
			add(`<p>x<a href="/u"></a> y</p>`, s)
		case 10:
			if !c.Table {
				add("<p>p</p>", "p")
				return
			}
			head, line := "|  |\n", "|--|\n"
			cell := func(s string) string { return "| " + s + " |\n" }
			switch or(c.Padding, "aligned") {
			case "minimal":
				line = "|---|\n"
			case "none":
				head, line = "||\n", "|---|\n"
				cell = func(s string) string { return "|" + s + "|\n" }
			}
			rows := head + line + cell("a1") // the header is empty
			if c.Promote {
				rows = cell("a1") + line
			}
			if or(c.Padding, "aligned") == "aligned" {
				rows = strings.ReplaceAll(rows, "|  |", "|    |")
				rows = strings.ReplaceAll(rows, "|--|", "|----|")
			}
			if !c.SkipEmpty {
				rows += map[string]string{"aligned": "|    |\n", "minimal": "|  |\n", "none": "||\n"}[or(c.Padding, "aligned")]
			}
			rows += cell("b2")
			add("<table><tr><td>a1</td></tr><tr><td> </td></tr><tr><td>b2</td></tr></table>", strings.TrimSuffix(rows, "\n"))
		case 11:
			if !c.Table || c.Presentation {
				add("<p>p</p>", "p")
				return
			}
			add(`<table role="presentation"><tr><td>a1</td></tr><tr><td>b2</td></tr></table>`, "a1\n\nb2")
		case 0:
			add("<p>a <em>b</em> <b>c</b></p>", "a "+em+"b"+em+" "+strong+"c"+strong)
		case 1:
			add("<hr>", or(c.HR, "* * *"))
		case 2:
			end := "\n\n<!--THE END-->"
			if c.NoListEnd {
				end = ""
			}
			add("<ul><li>x</li><li>y</li></ul><ul><li>z</li></ul>", bullet+" x\n"+bullet+" y"+end+"\n\n"+bullet+" z")
		case 3:
			add("<pre><code>k</code></pre>", fence+"\nk\n"+fence)
		case 4:
			n := t.Range(1, 3)
			s := strings.Repeat("#", n) + " Heading"
			if c.Heading == "setext" && n == 1 {
				s = "Heading\n======="
			} else if c.Heading == "setext" && n == 2 {
				s = "Heading\n-------"
			}
			add(fmt.Sprintf("<h%d>Heading</h%d>", n, n), s)
		case 5:
			d := ""
			if c.Strike {
				d = or(c.StrikeD, "~~")
			}
			add("<p>s <del>d</del> e</p>", "s "+d+"d"+d+" e")
		case 6:
			if !c.Table {
				add("<p>p</p>", "p")
				return
			}
			sp := " "
			if c.Span == "mirror" {
				sp = "d"
			}
			row := map[string]string{
				"aligned": "| ab | c |\n|----|---|\n| d  | " + sp + " |",
				"minimal": "| ab | c |\n|---|---|\n| d | " + strings.TrimSpace(sp) + " |",
				"none":    "|ab|c|\n|---|---|\n|d|" + strings.TrimSpace(sp) + "|",
			}[or(c.Padding, "aligned")]
			add("<table><tr><th>ab</th><th>c</th></tr><tr><td colspan=2>d</td></tr></table>", row)
		case 7:
			if c.Newline != "preserve" {
				add("<p>p</p>", "p")
				return
			}
			row := map[string]string{
				"aligned": "| abcdefghijkl |\n|--------------|\n| d  <br />e   |",
				"minimal": "| abcdefghijkl |\n|---|\n| d  <br />e |",
				"none":    "|abcdefghijkl|\n|---|\n|d  <br />e|",
			}[or(c.Padding, "aligned")]
			add("<table><tr><th>abcdefghijkl</th></tr><tr><td>d<br>e</td></tr></table>", row)
		}
	})
	return strings.Join(h, ""), strings.Join(md, "\n\n")
}

// stringly calls an option with a value of its unexported string type.
func stringly[S ~string, O any](with func(S) O, v string) O { return with(S(v)) }

func listOf[O any](o ...O) []O { return o }

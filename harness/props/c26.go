package props

import (
	"fmt"
	"strings"

	"golang.org/x/net/html"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C26", Quick: 80000, Thorough: 2000000, Run: cliSelect,
		Rule: "a document of at least four elements and a selector that matches some but not all of them"})
}

// A selector as this check understands it.
type compound struct {
	tag, class, id string
	attr, op, val  string
	pseudo         string
	not            *compound
}

type complexSel struct {
	parts []compound
	combs []byte // between the parts: ' ', '>', '+', '~'
}

func (c compound) String() string {
	s := c.tag
	if c.id != "" {
		s += "#" + c.id
	}
	if c.class != "" {
		s += "." + c.class
	}
	if c.attr != "" {
		if c.op == "" {
			s += "[" + c.attr + "]"
		} else {
			s += "[" + c.attr + c.op + `"` + c.val + `"]`
		}
	}
	if c.pseudo != "" {
		s += ":" + c.pseudo
	}
	if c.not != nil {
		s += ":not(" + c.not.String() + ")"
	}
	if s == "" {
		return "*"
	}
	return s
}

func (c complexSel) String() string {
	s := c.parts[0].String()
	for i, p := range c.parts[1:] {
		switch c.combs[i] {
		case ' ':
			s += " "
		default:
			s += " " + string(c.combs[i]) + " "
		}
		s += p.String()
	}
	return s
}

func attrOf(n *html.Node, k string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == k {
			return a.Val, true
		}
	}
	return "", false
}

func elementSiblings(n *html.Node, dir int) []*html.Node {
	var out []*html.Node
	for s := n; s != nil; {
		if dir < 0 {
			s = s.PrevSibling
		} else {
			s = s.NextSibling
		}
		if s != nil && s.Type == html.ElementNode {
			out = append(out, s)
		}
	}
	return out
}

func sameName(ns []*html.Node, name string) int {
	k := 0
	for _, n := range ns {
		if n.Data == name {
			k++
		}
	}
	return k
}

func (c compound) match(n *html.Node) bool {
	if n.Type != html.ElementNode {
		return false
	}
	if c.tag != "" && n.Data != c.tag {
		return false
	}
	if id, _ := attrOf(n, "id"); c.id != "" && id != c.id {
		return false
	}
	if c.class != "" {
		v, _ := attrOf(n, "class")
		ok := false
		for _, x := range strings.Fields(v) {
			ok = ok || x == c.class
		}
		if !ok {
			return false
		}
	}
	if c.attr != "" {
		v, ok := attrOf(n, c.attr)
		switch c.op {
		case "=":
			ok = ok && v == c.val
		case "^=":
			ok = ok && strings.HasPrefix(v, c.val)
		case "$=":
			ok = ok && strings.HasSuffix(v, c.val)
		case "*=":
			ok = ok && strings.Contains(v, c.val)
		}
		if !ok {
			return false
		}
	}
	before, after := elementSiblings(n, -1), elementSiblings(n, 1)
	switch c.pseudo {
	case "first-child":
		if len(before) > 0 {
			return false
		}
	case "last-child":
		if len(after) > 0 {
			return false
		}
	case "only-child":
		if len(after)+len(before) > 0 {
			return false
		}
	case "nth-child(2)":
		if len(before) != 1 {
			return false
		}
	case "nth-child(odd)":
		if len(before)%2 != 0 {
			return false
		}
	case "nth-last-child(2)":
		if len(after) != 1 {
			return false
		}
	case "first-of-type":
		if sameName(before, n.Data) > 0 {
			return false
		}
	case "last-of-type":
		if sameName(after, n.Data) > 0 {
			return false
		}
	}
	return c.not == nil || !c.not.match(n)
}

func (c complexSel) match(n *html.Node) bool {
	last := len(c.parts) - 1
	if !c.parts[last].match(n) {
		return false
	}
	if last == 0 {
		return true
	}
	rest := complexSel{c.parts[:last], c.combs[:last-1]}
	switch c.combs[last-1] {
	case ' ':
		for p := n.Parent; p != nil; p = p.Parent {
			if rest.match(p) {
				return true
			}
		}
	case '>':
		return n.Parent != nil && rest.match(n.Parent)
	case '+':
		b := elementSiblings(n, -1)
		return len(b) > 0 && rest.match(b[0])
	case '~':
		for _, s := range elementSiblings(n, -1) {
			if rest.match(s) {
				return true
			}
		}
	}
	return false
}

type selGroup []complexSel

func (g selGroup) match(n *html.Node) bool {
	for _, c := range g {
		if c.match(n) {
			return true
		}
	}
	return false
}

var selTags = []string{"p", "div", "b", "a", "ul", "li", "h2", "span", "section", "em", "blockquote", "table", "td", "code", "x-y"}

func genCompound(t *pbt.T, simple bool) compound {
	var c compound
	switch t.Weighted(4, 3, 1, 2, 1) {
	case 0:
		c.tag = pbt.Pick(t, selTags...)
	case 1:
		c.class = pbt.Pick(t, "ad", "x", "main", "Ad", "x-Y_1")
	case 2:
		c.id = pbt.Pick(t, "i1", "i2", "i3", "I1")
	case 3:
		c.attr = pbt.Pick(t, "title", "data-k", "href", "hidden")
		c.op = pbt.Pick(t, "", "=", "^=", "$=", "*=")
		c.val = pbt.Pick(t, "one", "on", "e", "two", "One", "a b", "it's")
	case 4:
		c.tag = pbt.Pick(t, selTags...)
		c.class = pbt.Pick(t, "ad", "x", "main", "Ad", "x-Y_1")
	}
	if simple {
		return c
	}
	if t.Chance(1, 4) {
		c.pseudo = pbt.Pick(t, "first-child", "last-child", "only-child", "nth-child(2)", "nth-child(odd)", "nth-last-child(2)", "first-of-type", "last-of-type")
	}
	if t.Chance(1, 6) {
		n := genCompound(t, true)
		c.not = &n
	}
	return c
}

func genSelector(t *pbt.T, simple bool) complexSel {
	c := complexSel{parts: []compound{genCompound(t, simple)}}
	for !simple && len(c.parts) < 3 && t.Chance(1, 3) {
		c.combs = append(c.combs, pbt.Pick(t, byte(' '), '>', '+', '~'))
		c.parts = append(c.parts, genCompound(t, false))
	}
	return c
}

// selDoc writes a document of elements that the selectors distinguish.
func selDoc(t *pbt.T, depth int, n *int) string {
	var b strings.Builder
	t.Each(0, 5, func(int) {
		if depth <= 0 || t.Chance(1, 3) {
			*n++
			fmt.Fprintf(&b, "%s%s%s", pbt.Pick(t, "", " "), gen.Token(*n), pbt.Pick(t, "", " ", "\n"))
			return
		}
		tag := pbt.Pick(t, selTags...)
		b.WriteString("<" + tag)
		if t.Chance(1, 3) {
			b.WriteString(` class="` + pbt.Pick(t, "ad", "x", "ad x", "main", " x  main ", "adx", "Ad", "x-Y_1 ad", "X\nad\tmain") + `"`)
		}
		if t.Chance(1, 8) {
			b.WriteString(` id="` + pbt.Pick(t, "i1", "i2", "i3", "I1") + `"`)
		}
		if t.Chance(1, 4) {
			b.WriteString(" " + pbt.Pick(t, `title="one"`, `title="two"`, `data-k="one two"`, `href="/one"`, `hidden`, `data-k=""`, `title="One"`, `data-k="a b c"`, `title="it's"`))
		}
		b.WriteString(">" + selDoc(t, depth-1, n) + "</" + tag + ">")
		if t.Chance(1, 1500) {
			t.Label("many")
			for i := min(300, gen.Times(t, 10, 3000)); i > 0; i-- {
				*n++
				fmt.Fprintf(&b, "<%s class=ad>%s</%[1]s> ", tag, gen.Token(*n))
			}
		}
		if t.Chance(1, 12) {
			b.WriteString("<!-- c -->")
		}
	})
	return b.String()
}

func prunedTree(n *html.Node, drop map[*html.Node]bool) *html.Node {
	c := &html.Node{Type: n.Type, Data: n.Data, DataAtom: n.DataAtom, Namespace: n.Namespace, Attr: append([]html.Attribute(nil), n.Attr...)}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		if !drop[k] {
			c.AppendChild(prunedTree(k, drop))
		}
	}
	return c
}

func cliSelect(t *pbt.T) {
	n := 0
	in := selDoc(t, 4, &n)
	if t.Chance(1, 4) {
		in = `<html><head><title class="x">head</title></head><body class="` + pbt.Pick(t, "main", "ad", "") + `">` + in + "</body></html>"
	}
	c := cliConfig(t)
	var include, exclude selGroup
	switch t.Intn(3) {
	case 0:
		t.Each(1, 3, func(int) { exclude = append(exclude, genSelector(t, false)) })
	case 1:
		t.Each(1, 3, func(int) { include = append(include, genSelector(t, false)) })
	case 2:
		// both: what the excluded elements are in does not matter then
		t.Each(1, 2, func(int) { include = append(include, genSelector(t, false)) })
		t.Each(1, 2, func(int) { exclude = append(exclude, genSelector(t, true)) })
	}
	fs := cliFlags(t, c, "")
	group := func(name string, g selGroup) {
		// one flag or several
		cur := ""
		for i, s := range g {
			if cur != "" {
				if t.Bool() {
					cur += pbt.Pick(t, ",", ", ", " , ") + s.String()
					continue
				}
				fs = append(fs, spellFlag(t, name, cur))
			}
			cur = s.String()
			_ = i
		}
		if cur != "" {
			fs = append(fs, spellFlag(t, name, cur))
		}
	}
	group("include-selector", include)
	group("exclude-selector", exclude)
	shuffle(t, fs)
	args := flat(fs)
	t.Note("html", in)
	t.Note("arguments", args)

	doc, err := html.Parse(strings.NewReader(in))
	must(err)
	var elements, hits int
	drop := map[*html.Node]bool{}
	root := &html.Node{Type: html.DocumentNode}
	var tops []*html.Node
	var walk func(n *html.Node, inside bool)
	walk = func(n *html.Node, inside bool) {
		if n.Type == html.ElementNode {
			elements++
			inc := len(include) > 0 && include.match(n)
			exc := exclude.match(n)
			if inc || exc {
				hits++
			}
			drop[n] = exc
			if inc && !inside {
				tops = append(tops, n)
				inside = true
			}
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			walk(k, inside)
		}
	}
	walk(doc, len(include) == 0)
	if len(include) == 0 {
		root = prunedTree(doc, drop)
	}
	for _, n := range tops {
		if !drop[n] {
			root.AppendChild(prunedTree(n, drop))
		}
	}
	if elements >= 7 && hits > 0 && hits < elements {
		t.NonTrivial(in + strings.Join(args, " "))
	}
	md, err := c.New().ConvertNode(root)
	if err != nil {
		t.Fatalf("cannot convert the expected document: %v", err)
	}
	r := cli(in, args...)
	t.Sample(fmt.Sprintf("%q %q => %q", args, in, r.stdout))
	if len(tops) > 1 {
		t.Label("several included")
	}
	r.wantOK(t, string(md)+"\n")

	if t.Chance(1, 20) {
		t.Label("invalid selector")
		bad := pbt.Pick(t, "", " ", "?", "p[", "p[x", ":nosuchpseudo", "p >", ",", "p,,a", "..a", "#", "(", "p:not(", "[=x]", ">p", "p]")
		name := pbt.Pick(t, "include-selector", "exclude-selector")
		args = append(args, spellFlag(t, name, bad)...)
		cli(in, args...).wantErr(t, name, "selector")
	}
}

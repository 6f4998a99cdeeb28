package props

import (
	"fmt"
	"html"
	"strings"
	"verif/harness/gen"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"

	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Property{ID: "C10", Quick: 200000, Thorough: 4000000, Run: urlResolution,
		Findings: []pbt.Finding{{Name: "ENCODED-SLASH", Reproduce: func() string {
			md, _ := Config{}.New().ConvertString(`<img src="/é/x%2Fy">`)
			if strings.Contains(md, "%2F") {
				return ""
			}
			return md
		}}},
		Rule: "a document with a relative reference converted with a base address, or an absolute one that has to stay"})
}

// refParts is an address split as in RFC 3986, appendix B (without decoding anything).
type refParts struct {
	scheme, auth, path, query, frag string
	hasAuth, hasQuery, hasFrag      bool
}

func splitRef(s string) (r refParts) {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		r.frag, r.hasFrag, s = s[i+1:], true, s[:i]
	}
	if i := strings.IndexByte(s, '?'); i >= 0 {
		r.query, r.hasQuery, s = s[i+1:], true, s[:i]
	}
	if i := strings.IndexAny(s, ":/"); i > 0 && s[i] == ':' {
		r.scheme, s = s[:i], s[i+1:]
	}
	if strings.HasPrefix(s, "//") {
		r.hasAuth, s = true, s[2:]
		if i := strings.IndexByte(s, '/'); i >= 0 {
			r.auth, s = s[:i], s[i:]
		} else {
			r.auth, s = s, ""
		}
	}
	r.path = s
	return
}

// dots removes the dot segments (RFC 3986, 5.2.4).
func dots(p string) string {
	var out []string
	segs := strings.Split(p, "/")
	for i, s := range segs {
		last := i == len(segs)-1
		switch s {
		case ".":
			if last {
				out = append(out, "")
			}
		case "..":
			if len(out) > 1 {
				out = out[:len(out)-1]
			}
			if last {
				out = append(out, "")
			}
		default:
			out = append(out, s)
		}
	}
	return strings.Join(out, "/")
}

// resolve is RFC 3986, 5.2.2 for a base with an authority.
func resolve(base, ref string) string {
	b, r := splitRef(base), splitRef(ref)
	var t refParts
	switch {
	case r.scheme != "":
		t = r
		if r.hasAuth {
			t.path = dots(r.path)
		}
	case r.hasAuth:
		t = r
		t.scheme, t.path = b.scheme, dots(r.path)
	case r.path == "":
		t = b
		if r.hasQuery {
			t.query, t.hasQuery = r.query, true
		}
	case strings.HasPrefix(r.path, "/"):
		t = b
		t.path, t.query, t.hasQuery = dots(r.path), r.query, r.hasQuery
	default:
		t = b
		dir := "/"
		if i := strings.LastIndexByte(b.path, '/'); i >= 0 {
			dir = b.path[:i+1]
		}
		t.path, t.query, t.hasQuery = dots(dir+r.path), r.query, r.hasQuery
	}
	t.frag, t.hasFrag = r.frag, r.hasFrag
	s := ""
	if t.scheme != "" {
		s += t.scheme + ":"
	}
	if t.hasAuth {
		s += "//" + t.auth
	}
	s += t.path
	if t.hasQuery {
		s += "?" + t.query
	}
	if t.hasFrag {
		s += "#" + t.frag
	}
	return s
}

func urlResolution(t *pbt.T) {
	c := Config{}
	if t.Chance(1, 4) {
		c = GenConfig(t)
	}
	seg := func() string {
		return pbt.Pick(t, "a", "b.html", "g", "x_y", "é", "%20", "a b", "a(b)", ".a", "..g", "g..", "a;x=1", "a:b", "日本", "x%2Fy", "*")
	}
	path := func(lo, hi int) string {
		var ss []string
		t.Each(lo, hi, func(int) {
			if t.Chance(1, 3) {
				ss = append(ss, pbt.Pick(t, "..", "."))
			} else {
				ss = append(ss, seg())
			}
		})
		p := strings.Join(ss, "/")
		if p != "" && t.Chance(1, 4) {
			p += "/"
		}
		return p
	}
	query := func() string {
		if t.Chance(1, 3) {
			var b strings.Builder
			t.Each(0, 7, func(int) {
				b.WriteString(pbt.Pick(t, "a", "b", "=", "=", "&", "&", "1", "é", "%20", "%26", "%3D", "%25", "%2B", "+", " ", "/", "?", ":", "@", "(", ")", "*", "_", "'", ",", "!", "$", "~", "日"))
			})
			return strings.TrimSpace(b.String())
		}
		return pbt.Pick(t, "x=1", "b=2&a=1", "q", "q=", "q=a+b", "q=%20x", "a=1&a=2", "u=http://h/?z", "q=a b", "z=1&y=2&x=3&b", "q=(x)", "é=ü", "q=a%26b", "k=v=w")
	}
	// the base
	base, domain := "", ""
	kind := t.Weighted(4, 2, 1, 1, 1)
	switch kind {
	case 0:
		base = pbt.Pick(t, "http", "https", "https", "ftp") + "://" + pbt.Pick(t, "example.com", "www.e.org:8080", "127.0.0.1", "[::1]:80", "u@h.io", "sub.a-b.co.uk")
		if t.Bool() {
			p := ""
			t.Each(0, 3, func(int) { p += "/" + pbt.Pick(t, "a", "dir", "p.html", "x%20y") })
			base += p + pbt.Pick(t, "", "/")
		}
		if t.Chance(1, 6) {
			base += "?bq=1"
		}
		if t.Chance(1, 6) {
			base += "#bf"
		}
		domain = base
	case 1:
		domain = pbt.Pick(t, "example.com", "www.e.org", "localhost:3000", "e.org/dir/page", "e.org/dir/", "127.0.0.1", "sub.e.org?x=1")
		base = "http://" + domain
	case 2:
		domain = pbt.Pick(t, "//e.org", "//e.org/dir/x")
		base = domain
	case 3:
		// nothing to resolve against
	case 4:
		domain = pbt.Pick(t, " ", "/only/path", "%zz")
	}
	ref := func() string {
		var r string
		switch t.Weighted(4, 3, 2, 2, 2, 2, 1) {
		case 0:
			r = path(1, 4)
			// RFC 3986, 4.2: a first segment with a colon would be a scheme
			if i := strings.IndexAny(r, ":/"); i >= 0 && r[i] == ':' {
				r = "./" + r
			}
			if t.Chance(1, 300) {
				t.Label("long")
				s := seg() + "/"
				r = strings.TrimSuffix(r, "/") + "/" + strings.Repeat(s, gen.Times(t, len(s), 4000))
			}
		case 1:
			r = "/" + path(0, 4)
		case 2:
			r = pbt.Pick(t, "http", "https", "ftp") + "://" + pbt.Pick(t, "abs.io", "abs.io:1") + "/" + path(0, 3)
		case 3:
			return "#" + pbt.Pick(t, "f", "", "a-b", "x(y)", "é")
		case 4:
			return "?" + query()
		case 5:
			if t.Chance(1, 3) {
				return pbt.Pick(t, "mailto:a+b@c.d?", "sms:+1?", "data:text/plain,a+b?", "xmpp:a@b?", "geo:1,2?") + query()
			}
			return pbt.Pick(t, "data:,a b[c](d)<e>", "data:image/svg+xml,%3Csvg%3E#f", "javascript:f(a?b+c:d)", "news:a.b", "mailto:a@b.c", "tel:+1-2-3", "data:image/png;base64,iVBORw0KGgo=", "mailto:a@b.c?subject=x%20y", "javascript:f()", "data:text/plain,a/../b", "urn:isbn:123", "sms:+1?body=hi")
		case 6:
			r = "//" + pbt.Pick(t, "cdn.io", "cdn.io:9") + "/" + path(0, 3)
		}
		if strings.Contains(r, "//") && strings.Index(r, "//") > 6 {
			t.Discard()
		}
		if t.Chance(1, 4) {
			r += "?" + query()
		}
		if t.Chance(1, 300) {
			t.Label("long")
			q := "&" + query()
			for n := gen.Times(t, len(q), 5000); n > 0; n-- {
				r += q
			}
			if !strings.Contains(r, "?") {
				r = strings.Replace(r, "&", "?", 1)
			}
		}
		if t.Chance(1, 5) {
			r += "#" + pbt.Pick(t, "f", "top", "a_b", "")
		}
		if strings.Contains(r, "%2F") && strings.ContainsAny(r, "é日( *") {
			t.Exclude("ENCODED-SLASH")
		}
		return r
	}
	var h strings.Builder
	var rs []model.Run
	var refs []string
	t.Each(1, 4, func(i int) {
		r := ref()
		refs = append(refs, r)
		want := r
		if base != "" && r != "#" && !strings.HasPrefix(r, "data:") {
			want = resolve(base, r)
		}
		sp := ""
		if t.Chance(1, 10) {
			sp = pbt.Pick(t, " ", "\n", "\t")
		}
		w := fmt.Sprintf("w%d", i)
		if t.Bool() {
			fmt.Fprintf(&h, `<a href="%s%s%s">%s</a> `, sp, html.EscapeString(r), sp, w)
			rs = append(rs, model.Run{Kind: "text", Text: w, Link: &model.Link{Href: want}}, model.Run{Kind: "text", Text: " "})
		} else {
			fmt.Fprintf(&h, `<img src="%s%s%s" alt="%s"> `, sp, html.EscapeString(r), sp, w)
			rs = append(rs, model.Run{Kind: "img", Text: w, Src: want}, model.Run{Kind: "text", Text: " "})
		}
	})
	in, want := "<p>"+h.String()+"</p>", para(rs)
	if t.Chance(1, 5) {
		in, want = "<ul><li>"+h.String()+"</li></ul>", []model.Block{{Kind: "ul", Items: [][]model.Block{para(rs)}}}
	}
	t.Note("html", in)
	t.Note("domain", domain)
	t.Note("config", c.String())
	t.Label(fmt.Sprintf("base%d", kind))
	t.NonTrivial(domain + "|" + strings.Join(refs, "|"))
	var md string
	if domain == "" && t.Bool() {
		md = Convert(t, c, in)
	} else {
		md = Convert(t, c, in, converter.WithDomain(domain))
	}
	t.Note("markdown", md)
	t.Sample(fmt.Sprintf("domain=%q %q => %q", domain, in, md))
	got := model.ParseMarkdown(md, c.Flavor())
	if w, g := model.String(normLinks(want)), model.String(normLinks(got)); w != g {
		t.Fatalf("an address is not the one it refers to\nwant:\n%sgot:\n%s", w, g)
	}
}

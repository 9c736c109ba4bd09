package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// C06: links and media of the article point to where they pointed in the page.

func init() {
	register(&Prop{
		ID: "C06",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{}
			c.URI = g.pageURI()
			s := g.solidPage(func(int) []*N {
				var l []*N
				for i := g.n(3); i >= 0; i-- {
					l = append(l, g.pointing())
				}
				return l
			})
			c.Page = s.page
			k := 0
			for _, n := range s.box.all("a", "img", "source", "video", "audio", "picture", "figure") {
				k++
				n.set("data-k", fmt.Sprint(k))
				for g.n(4) == 0 {
					g.inert(n)
				}
				if g.n(5) == 0 && !n.is("img", "figure", "picture") { // no lazy images
					n.with(pick(g, "type", "sizes", "rel", "name", "preload", "alt"), pick(g, "video/mp4", "x", "nofollow", "none", ""))
				}
				if n.is("source", "video") && g.n(4) == 0 {
					if !n.has("src") {
						n.set("src", g.reference())
					}
					if !n.has("srcset") {
						n.set("srcset", g.srcset())
					}
				}
				if g.n(8) == 0 { // in any order
					g.rotate(n)
				}
			}
			if g.n(2) == 0 {
				b := el("base").with("href", g.baseRef())
				if g.n(6) == 0 {
					b.with("target", "_blank")
				}
				if g.n(6) == 0 {
					s.head.add(el("base").with("target", "_top"))
				}
				s.head.add(b)
				if g.n(6) == 0 {
					s.head.add(el("base").with("href", "http://second.example/"))
				}
				if g.n(10) == 0 {
					s.head.add(el("base"))
				}
			}
			if g.n(4) == 0 {
				c.Opt.Keep = true
			}
			return c
		},
		New: newPageCase, Check: checkC06, Shrink: shrinkPage,
		Quick: 40000, Thorough: 600000,
		Rule: "articles with links, images, source sets, pictures, videos and audios whose references come from the grammar of RFC 3986 (dot segments, empty parts, queries, fragments, other schemes and hosts, blanks around them) or are not URIs at all, on pages with any URI and base element; every element found again in the article (by a unique attribute) must have the references an independent implementation of RFC 3986 resolves. Non-trivial: three or more references were found again of which one is relative.",
		Assume: []string{
			"the first base element of a page with a href decides, as in the original",
			"references keep to the characters RFC 3986 allows, how others are escaped is not specified; paths have no empty segments, which net/url resolves in its own way next to dot segments",
		},
	})
}

func (g *G) host() string {
	return pick(g, "h.example", "other.example", "h.example:8080", "a.b.c.example", "[::1]", "1.2.3.4", "u@h.example", "u:p@h.example:1")
}

func (g *G) segment() string {
	return pick(g, "a", "b", "dir", "page.html", "x-y_z~1", "%20", "%C3%A9", "a;b=1", "a,b", "@", "a:b", "$&+=", "!*'()", "...", ".a", "a.", "1.jpg", "..a", "Paris,%20Texas", "a,%20b", "a%2Cb", "x%2Fy", "a+b", "%7Ex", "a%3Fb", "index.php", "(1)")
}

func (g *G) path(rel bool) string {
	var b strings.Builder
	for i := g.between(0, 4); i > 0; i-- {
		switch g.n(6) {
		case 0:
			b.WriteString("../")
		case 1:
			b.WriteString("./")
		case 2:
			b.WriteString("a/")
		default:
			b.WriteString(g.segment() + "/")
		}
	}
	b.WriteString(pick(g, "", "", "x", "page.html", "img.jpg", "..", ".", g.segment()))
	s := b.String()
	if rel {
		s = strings.TrimLeft(s, "/")
		if i := strings.IndexByte(s, ':'); i >= 0 && !strings.Contains(s[:i], "/") {
			s = "./" + s
		}
	}
	return s
}

func (g *G) tailOf() string {
	s := ""
	if g.n(4) == 0 {
		s += "?" + pick(g, "", "a=b", "a=b&c=d", "q=/../x", "?", "a%20b", "x:y@z", "u=http://x.example/,%20y", "a=1;b=2", "a=1&b[]=2")
	}
	if g.n(4) == 0 {
		s += "#" + pick(g, "", "top", "a/b?c", "%20", "x:y")
	}
	return s
}

// reference draws a URI reference of RFC 3986, or something that is none.
func (g *G) reference() string {
	switch g.n(16) {
	case 0, 1, 2, 3:
		return g.path(true) + g.tailOf()
	case 4, 5:
		return "/" + strings.TrimLeft(g.path(false), "/") + g.tailOf()
	case 6, 7:
		return pick(g, "http", "https", "HTTP", "ftp") + "://" + strings.ReplaceAll(g.host(), "other", pick(g, "other", "OTHER")) + pick(g, "", "/"+strings.TrimLeft(g.path(false), "/")) + g.tailOf()
	case 8:
		return "//" + g.host() + pick(g, "", "/", "/"+strings.TrimLeft(g.path(false), "/")) + g.tailOf()
	case 9:
		return "#" + pick(g, "", "top", "a/b", "x?y", "!")
	case 10:
		return "?" + pick(g, "", "a=b", "x#y")
	case 11:
		return pick(g, "mailto:a@b.example", "tel:+123", "urn:isbn:123", "about:blank", "MAILTO:a@b.example?subject=x", "sms:1", "data:image/png;base64,iVBORw0KGgo=", "ftp:x", "http:g")
	case 12:
		return pick(g, "http://[::1", "%zz", "a%2", "http://h:x1/", "http://%41:8080:1/", ":x", "a\x7fb")
	case 13:
		return pick(g, " ", "\n", "\t ", "  ") + g.path(true) + g.tailOf() + pick(g, "", " ", "\n")
	default:
		return g.path(true)
	}
}

// baseOf: net/url does not inherit an empty query, so a base has none; nor an empty fragment.
var rEmptyQuery = regexp.MustCompile(`\?+(#|$)`)

func baseOf(s string) string {
	return rEmptyQuery.ReplaceAllString(strings.TrimSuffix(s, "#"), "$1")
}

func (g *G) pageURI() string { return baseOf(g.pageURI0()) }
func (g *G) baseRef() string { return baseOf(g.baseRef0()) }

func (g *G) pageURI0() string {
	switch g.n(5) {
	case 0:
		return docURI
	case 1:
		return "http://" + g.host()
	default:
		return pick(g, "http", "https", "file", "ftp") + "://" + g.host() + "/" + strings.TrimLeft(pick(g, "", "x", "dir/", "dir/page.html", "a/b/c/d", "a/b/"), "") + g.tailOf()
	}
}

func (g *G) baseRef0() string {
	switch g.n(6) {
	case 0:
		return "http://base.example/b/"
	case 1:
		return "/root/"
	case 2:
		return pick(g, "sub/", "../up/", "x.html", "?q", "#f", "//cdn.example/p", "http://base.example")
	default:
		s := g.reference()
		for baseOf(s) == "" || !validRef(s) || strings.Contains(s, "[") || strings.TrimSpace(s) != s || strings.Contains(s, "OTHER") || splitURI(s).hasScheme && !splitURI(s).hasAuth {
			s = pick(g, "http://base.example/b/", "/r", "../", "y/z")
		}
		return s
	}
}

func validRef(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c <= ' ' || c >= 0x7f {
			return false
		}
		if c == '%' && (i+2 >= len(s) || !isHex(s[i+1]) || !isHex(s[i+2])) {
			return false
		}
	}
	u := splitURI(s)
	if !u.hasScheme && strings.Contains(strings.SplitN(u.path, "/", 2)[0], ":") {
		return false
	}
	if u.hasAuth {
		h := u.authority
		if i := strings.LastIndexByte(h, '@'); i >= 0 {
			h = h[i+1:]
		}
		if strings.HasPrefix(h, "[") {
			i := strings.IndexByte(h, ']')
			if i < 0 {
				return false
			}
			h = h[i+1:]
		}
		if i := strings.IndexByte(h, ':'); i >= 0 {
			for _, c := range h[i+1:] {
				if c < '0' || c > '9' {
					return false
				}
			}
		}
	}
	return true
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// expectRef is what a reference must be in the article.
func expectRef(base, uri, ref string) string {
	t := strings.TrimSpace(ref)
	if strings.HasPrefix(t, "#") && base == uri {
		return t
	}
	if !validRef(t) {
		return t
	}
	return absolute(base, uri, ref)
}

func (g *G) srcset() string {
	var l []string
	n := g.between(1, 3)
	desc := n > 1 || g.bool()
	for i := 0; i < n; i++ {
		u := g.reference()
		for u == "" || !validRef(u) || strings.HasSuffix(u, ",") || strings.HasPrefix(u, ",") || strings.HasPrefix(u, "data:") {
			u = pick(g, "i.jpg", "/j.png", "../k.webp", "http://other.example/l.gif", "a,b.jpg")
		}
		if desc {
			u += pick(g, " ", "  ", "\n") + pick(g, "1x", "2x", "1.5x", "100w", "640w")
		}
		l = append(l, u)
	}
	if !desc {
		return l[0]
	}
	return pick(g, "", "", "\n ") + strings.Join(l, pick(g, ", ", ",", " , ", ",\n ")) + pick(g, "", "", " ")
}

// rotate changes the order of the attributes.
func (g *G) rotate(n *N) {
	if len(n.At) > 1 {
		i := g.between(1, len(n.At)-1)
		n.At = append(append([]A{}, n.At[i:]...), n.At[:i]...)
	}
}

// pointing is something with references, maybe inside of other elements.
func (g *G) pointing() *N {
	e := g.pointing0()
	if g.n(4) == 0 {
		switch g.n(8) {
		case 0:
			return el("blockquote", e)
		case 1:
			return el("section", e)
		case 2:
			return el("table", el("caption", tx(g.word())), el("tr", el("td", e), el("td", tx(g.word()))))
		case 3:
			return el("ol", el("li", e))
		case 4:
			return el("dl", el("dt", tx(g.word())), el("dd", e))
		case 5:
			return el("details", el("summary", tx(g.word())), e)
		case 6:
			return el("ins", e)
		default:
			return el("main", el("section", e))
		}
	}
	return e
}

func (g *G) pointing0() *N {
	t := func() *N { return tx(g.textOf(g.between(60, 140), 10)) }
	img := func() *N {
		i := el("img").with("src", g.reference())
		if i.attr("src") == "" {
			i.set("src", "i.jpg")
		}
		if strings.HasPrefix(i.attr("src"), "data:") {
			return i
		}
		if g.n(3) == 0 {
			i.with("srcset", g.srcset())
		}
		return i
	}
	switch g.n(10) {
	case 9:
		return pick(g, el("h3", tx(g.word()), el("a", tx(g.word())).with("href", g.reference())), el("p", t(), el("svg", el("a", el("text", tx(g.word()))).with("href", g.reference()))), el("p", t(), el("object", img())), el("pre", tx(g.word()), el("code", el("a", tx(g.word())).with("href", g.reference()))))
	case 0, 1, 2:
		a := el("a", tx(g.word())).with("href", g.reference())
		if g.n(4) == 0 {
			a = el("a", img()).with("href", g.reference())
		}
		return el("p", t(), a, t())
	case 3:
		return el("p", t(), img(), t())
	case 4:
		return el("figure", img(), el("figcaption", t()))
	case 5:
		return el("p", t(), el("picture", el("source").with("srcset", g.srcset()), el("source").with("srcset", g.srcset()).with("media", "x"), img()), t())
	case 6:
		v := el("video", el("source").with("src", g.reference()))
		if g.bool() {
			v.with("src", g.reference())
		}
		if g.bool() {
			v.with("poster", g.reference())
		}
		return el("p", t(), v, t())
	case 7:
		return el("p", t(), el("audio", el("source").with("src", g.reference())).with("src", g.reference()), t())
	default:
		return el("ul", el("li", t(), el("a", tx(g.word())).with("href", g.reference())), el("li", t()))
	}
}

func checkC06(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	if !c.wellFormed() || !validRef(c.URI) {
		return nil
	}
	res, err := parsePage(c.Page.String(), c.URI, c.Opt)
	if err != nil {
		o.Class("no article")
		return nil
	}
	tree, err := parseX(res.HTMLContent)
	if err != nil {
		return fmt.Errorf("the content is not well-formed: %w\n%s", err, clip(res.HTMLContent, 1000))
	}
	src := map[string]*N{}
	for _, n := range c.Page.all("*") {
		if k := n.attr("data-k"); k != "" {
			src[k] = n
		}
	}
	base := pageBase(c.Page, c.URI)
	same := len(c.Page.all("base")) > 0 && resolve(base, "") == resolve(c.URI, "")
	found, rel := 0, false
	for _, n := range tree.all("*") {
		s := src[n.attr("data-k")]
		if s == nil {
			continue
		}
		for _, k := range []string{"href", "src", "poster", "srcset"} {
			v, had := s.lookup(k)
			got, has := n.lookup(k)
			if had != has {
				return fmt.Errorf("attribute %s: %s became %s", k, brief(s), brief(n))
			}
			if !had {
				continue
			}
			want := v
			switch {
			case v == "":
			case k == "srcset":
				p := srcsetParts(v)
				for i := 1; i < len(p); i += 2 {
					p[i] = expectRef(base, c.URI, p[i])
				}
				want = strings.Join(p, "")
				// blanks do not matter
				want, got = squeeze(want), squeeze(got)
			default:
				want = expectRef(base, c.URI, v)
			}
			if got != want && same && strings.Contains(v, "#") {
				o.Class("the base is another spelling of the page")
				continue
			}
			if got != want {
				return fmt.Errorf("%s %q of %s with base %q (page %q): expected %q, found %q", k, v, s.Tag, base, c.URI, want, got)
			}
			found++
			rel = rel || !splitURI(v).hasScheme && v != ""
			o.Class(s.Tag + " " + k)
		}
	}
	o.ClassIf(base != c.URI, "with base element")
	if found >= 3 && rel {
		o.NonTrivial()
	}
	return nil
}

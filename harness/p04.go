package main

import (
	"fmt"
	"strings"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
	"pgregory.net/rapid"
)

// C04: the article is inert.

type inertCase struct {
	Kind string
	HTML Raw
	Page *N `json:",omitempty"`
	Opt  Opt
	URI  string
}

var inertBanned = map[string]bool{"script": true, "noscript": true, "style": true, "link": true, "input": true, "textarea": true, "select": true, "button": true, "footer": true, "aside": true, "h1": true, "font": true}

func init() {
	register(&Prop{
		ID: "C04",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &inertCase{URI: docURI}
			switch g.n(8) {
			case 0, 1:
				var s string
				c.Kind, s = g.anySource()
				c.HTML = Raw(s)
			case 2:
				c.Kind = "soup in an article"
				var b strings.Builder
				b.WriteString("<html><body><div>")
				for i := g.between(3, 5); i > 0; i-- {
					b.WriteString(g.prose().String() + g.soup(g.between(1, 14)))
				}
				c.HTML = Raw(b.String() + "</div></body></html>")
			case 4:
				c.Kind = "hostile article"
				var b strings.Builder
				b.WriteString("<html><body><div>")
				for i := g.between(3, 5); i > 0; i-- {
					b.WriteString(g.prose().String())
					if h := g.hostile(); g.bool() {
						b.WriteString("<p>" + g.textOf(90, 10) + h + g.textOf(30, 10) + "</p>")
					} else {
						b.WriteString(h)
					}
				}
				c.HTML = Raw(b.String() + "</div></body></html>")
			case 3:
				c.Kind, c.Page = "page", g.page(pick(g, 15, 30))
			default:
				c.Kind = "article"
				c.Page = g.solidPage(func(int) []*N {
					var l []*N
					for i := g.n(3); i > 0; i-- {
						l = append(l, g.active(2))
					}
					return l
				}).page
			}
			c.Opt = g.options()
			return c
		},
		New:   func() Case { return &inertCase{} },
		Check: checkC04,
		Shrink: func(cc Case) []func() Case {
			c := cc.(*inertCase)
			var out []func() Case
			if c.Page != nil {
				for _, f := range c.Page.smaller() {
					out = append(out, func() Case { d := *c; d.Page = f(); return &d })
				}
			}
			s := string(c.HTML)
			for n := len(s) / 2; n > 0; n /= 2 {
				for i := 0; i+n <= len(s); i += n {
					out = append(out, func() Case { d := *c; d.HTML = Raw(s[:i] + s[i+n:]); return &d })
				}
			}
			for _, o := range c.Opt.smaller() {
				out = append(out, func() Case { d := *c; d.Opt = o; return &d })
			}
			return out
		},
		Setup: loadSeeds,
		Quick: 40000, Thorough: 1000000,
		Rule:   "pages and articles full of scripts, styles, form controls, javascript: links in every spelling, presentational attributes, at every level, inside SVG, tables, lists and noscript, well-formed or tag soup, and hostile pieces that turn into one of them if what is inside is removed, decoded or written wrongly (split tags, escaped tags, raw text, CDATA, comments, attributes, prefixes); the article must have none of them when a browser's parser reads it, and on well-formed pages the text of neutralised links must be there. Non-trivial: the source has at least one of them and an article was found.",
		Assume: []string{"golang.org/x/net/html parses the article as a browser does"},
	})
}

// jsHref spells a javascript: URI.
func (g *G) jsHref() string {
	s := []byte("javascript:")
	var b strings.Builder
	b.WriteString(pick(g, "", "", " ", "\n", "\t ", "\x01"))
	for i, c := range s {
		if g.n(6) == 0 && c >= 'a' && c <= 'z' {
			c -= 32
		}
		b.WriteByte(c)
		if i < len(s)-1 && g.n(12) == 0 {
			b.WriteString(pick(g, "\t", "\n", "\r"))
		}
	}
	return b.String() + pick(g, "", "void(0)", "alert('1')", "//x", "%20")
}

// active is something that must not be in an article, or contains it.
func (g *G) active(depth int) *N {
	if depth > 0 && g.n(4) == 0 { // inside of anything
		e := el(from(g, tAny))
		if g.bool() {
			e.add(pick(g, tx(g.textOf(g.between(60, 160), 10)), el("p", tx(g.textOf(g.between(60, 160), 10)))))
		}
		e.add(g.active(depth - 1))
		if g.n(3) == 0 {
			e.add(tx(g.textOf(g.between(60, 160), 10)))
		}
		if g.n(4) == 0 {
			g.attrs(e)
		}
		return e
	}
	switch g.n(16) {
	case 0:
		return el("script", tx("var "+g.word()+";")).with("type", pick(g, "text/javascript", "module", "text/template"))
	case 1:
		return g.attrs(el("style", tx("."+g.word()+" {}")))
	case 2:
		return el("noscript", el("p", tx(g.word())))
	case 3:
		return g.attrs(pick(g, el("link").with("rel", "stylesheet").with("href", "x.css"), el("link"), el("input").with("type", pick(g, "text", "image", "hidden", "checkbox")), el("textarea", tx(g.word())), el("select", el("option", tx(g.word()))), el("button", tx(g.word()))))
	case 4:
		return g.attrs(el(pick(g, "footer", "aside"), el("p", tx(g.textOf(g.between(10, 120), 10)))))
	case 5:
		return g.attrs(el("h1", tx(g.textOf(g.between(10, 40), 0))))
	case 6:
		return g.attrs(el("font", tx(g.textOf(g.between(10, 40), 0))).with("color", "red"))
	case 7, 8, 9:
		a := el("a").with("href", g.jsHref())
		for g.n(3) == 0 {
			g.inert(a)
		}
		if g.n(4) == 0 {
			a.set(pick(g, "class", "id", "rel", "role", "name", "type", "lang", "dir"), pick(g, "content", "x", "nofollow", "button", "ltr"))
		}
		switch g.n(5) {
		case 0:
			a.add(el("b", tx(g.word())), tx(g.word()))
		case 1:
			a.add(el("img").with("src", "http://h.example/1.jpg"))
		case 2:
			a.add(tx(g.word()), el("i", tx(g.word())), el("span", tx(g.word())))
		default:
			a.add(tx(g.word()))
		}
		return el("p", tx(g.textOf(g.between(60, 120), 10)), a, tx(g.textOf(g.between(60, 120), 10)))
	case 10, 11:
		e := el(pick(g, "p", "div", "blockquote", "pre", "section", "p", "hr", from(g, tAny)), tx(g.textOf(g.between(60, 160), 10)))
		for i := g.between(1, 3); i > 0; i-- {
			e.set(from(g, aPresentational), pick(g, "1", "left", "color: red", "#fff"))
		}
		if g.bool() {
			e.set(pick(g, "width", "height"), "10")
		}
		return e
	case 12:
		t := el("table", el("thead", el("tr", el("th", tx(g.word())).with("width", "1"))))
		for i := 0; i < 3; i++ {
			t.add(el("tr", el("td", tx(g.textOf(20, 0))).with("height", "3").with("valign", "top"), el("td", tx(g.textOf(20, 0)))).with("bgcolor", "x"))
		}
		return t.with("border", "1").with("width", "100%").with("cellpadding", "2")
	case 13:
		s := el("svg", el(pick(g, "title", "desc", "g", "text"), tx(g.word()), el(pick(g, "script", "style", "b"), tx(g.word()))), el("path").with("style", "fill:red").with("d", "M0"))
		return el(pick(g, "p", "div", "figure"), tx(g.textOf(g.between(60, 120), 10)), s)
	default:
		if depth <= 0 {
			return g.prose()
		}
		e := el(pick(g, "div", "section", "blockquote", "ul", "p", "span", "td"))
		if e.Tag == "ul" {
			e.add(el("li", g.active(depth-1), tx(g.textOf(g.between(40, 90), 10))))
			return e
		}
		e.add(el(pick(g, "p", "div"), tx(g.textOf(g.between(60, 160), 10))), g.active(depth-1), g.active(depth-1))
		if e.Tag == "td" {
			e = el("table", el("tr", e))
		}
		return e
	}
}

func checkC04(cc Case, o *Obs) error {
	c := cc.(*inertCase)
	o.Class(c.Kind)
	src := string(c.HTML)
	if c.Page != nil {
		c.Page.link()
		for _, n := range c.Page.all(rawTags...) {
			foreign := false
			for _, a := range n.ancestors() {
				foreign = foreign || a.is("svg", "math")
			}
			if len(n.elems()) > 0 && !foreign {
				return nil // no markup; only a case made smaller has it
			}
		}
		src = c.Page.String()
	}
	res, err := parsePage(src, c.URI, c.Opt)
	if err != nil {
		o.Class("no article")
		return nil
	}
	low := strings.ToLower(src)
	for _, s := range []string{"<script", "<style", "<input", "<font", "<h1", "script:", "<aside", "<button", "style=", "valign", "border="} {
		if strings.Contains(low, s) {
			o.NonTrivial()
			break
		}
	}
	nodes, err := html.ParseFragment(strings.NewReader(res.HTMLContent), &html.Node{Type: html.ElementNode, Data: "div", DataAtom: atom.Div})
	if err != nil {
		return nil // the parser gives up on very deep trees
	}
	for _, n := range nodes {
		if err := inert(n, false); err != nil {
			return fmt.Errorf("%w in %s", err, clip(res.HTMLContent, 1500))
		}
	}
	if c.Page == nil {
		return nil
	}
	// The text of the links that were neutralised is where it would be without them.
	pc := &pageCase{Page: c.Page, Opt: c.Opt, URI: c.URI}
	b, skip, err := pc.both(o)
	if skip || err != nil || b.want == nil {
		return err
	}
	have, want := idSet(res.TextContent), idSet(b.want.text())
	for _, a := range c.Page.all("a") {
		if jsURI(a.attr("href")) {
			for _, w := range ids(a.text()) {
				if want[w] != have[w] {
					return fmt.Errorf("word %d of the link %s: expected %v, found %v in %s", w, brief(a), want[w], have[w], clip(res.HTMLContent, 1500))
				}
				o.ClassIf(have[w], "text of a link kept")
			}
			if len(a.all("img")) > 0 && len(b.want.all("img")) != len(b.got.all("img")) {
				return fmt.Errorf("%d images expected, found %d in %s", len(b.want.all("img")), len(b.got.all("img")), clip(res.HTMLContent, 1500))
			}
		}
	}
	return nil
}

func inert(n *html.Node, svg bool) error {
	if n.Type == html.ElementNode {
		if inertBanned[n.Data] {
			return fmt.Errorf("element %s", n.Data)
		}
		svg = svg || n.Data == "svg"
		for _, a := range n.Attr {
			if n.Data == "a" && a.Key == "href" && a.Namespace == "" && jsURI(a.Val) {
				return fmt.Errorf("link to %q", a.Val)
			}
			if svg {
				continue
			}
			if oneOf(a.Key, aPresentational) {
				return fmt.Errorf("attribute %s of %s", a.Key, n.Data)
			}
			if (a.Key == "width" || a.Key == "height") && oneOf(n.Data, []string{"table", "th", "td", "hr", "pre"}) {
				return fmt.Errorf("attribute %s of %s", a.Key, n.Data)
			}
		}
	}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		if err := inert(k, svg); err != nil {
			return err
		}
	}
	return nil
}

package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C25: author and description from the text.

func init() {
	register(&Prop{
		ID: "C25",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			s := g.solidPage(func(int) []*N {
				if g.n(4) > 0 {
					return nil
				}
				return []*N{g.bylinePlace(g.bylineLike())}
			})
			for i := g.n(3); i > 0; i-- { // before the article and first in it
				e := g.bylinePlace(g.bylineLike())
				if g.bool() {
					s.box.Kids = append([]*N{e}, s.box.Kids...)
				} else {
					s.body.Kids = append([]*N{e}, s.body.Kids...)
				}
			}
			if g.n(3) == 0 { // what the first paragraph is
				s.box.Kids = append([]*N{g.opening()}, s.box.Kids...)
			}
			if g.n(6) == 0 {
				s.head.add(el("meta").with("name", pick(g, "author", "dc.creator", "keywords", "authors")).with("content", pick(g, "Meta Author", "", " ", " M. A. ")))
			}
			if g.n(6) == 0 {
				s.head.add(el("meta").with("name", pick(g, "description", "og:description", "keywords")).with("content", pick(g, "Meta description.", "", " ")))
			}
			c.Page = s.page
			if g.n(4) == 0 {
				c.Opt = g.options()
			}
			return c
		},
		New: newPageCase, Check: checkC25, Shrink: shrinkPage,
		Quick: 60000, Thorough: 1000000,
		Rule:   "articles with any number of elements marked as bylines by rel, itemprop, class or id in every spelling, near misses, empty, blank, of lengths around the limit of 100 characters (in any script), hidden, inside of each other, of boilerplate or of other elements, before and in the article, and with openings of every kind (headings, containers, empty or nested paragraphs, line breaks), with and without metadata; the author must be that of the metadata or the trimmed text of the first valid byline, which is then not in an article found at the first attempt, and the description that of the metadata or the trimmed text of the first paragraph of the article. Non-trivial: a byline element was chosen, or the description comes from the text.",
		Assume: []string{"what the first paragraph of the article is is decided by the content of the result"},
	})
}

func (g *G) bylineText() *N {
	var s string
	switch g.n(10) {
	case 0:
		s = pick(g, "", " ", "\n\t ")
	case 1, 2:
		s = g.textOf(pick(g, 97, 98, 99, 100, 101, 102), 5)
	case 3:
		s = strings.Repeat(pick(g, "é", "漢", "ж"), pick(g, 33, 49, 50, 98, 99, 100))
	case 4:
		s = g.textOf(g.between(110, 260), 10)
	case 5:
		s = pick(g, "x", "7z")
	default:
		s = "By " + g.textOf(g.between(4, 40), 5)
	}
	return tx(pick(g, "", "", " ", "\n  ") + s + pick(g, "", "", " ", " \n"))
}

func (g *G) bylineLike() *N {
	e := el(pick(g, "p", "div", "span", "a", "address", "section", "b", "h3", "li", "td", "time"))
	if e.is("li", "td") {
		e.Tag = "p"
	}
	switch g.n(12) {
	case 0, 1, 2, 3:
		e.set("class", strings.TrimSpace(pick(g, "", "x ", "my-")+g.caseOf(from(g, wByline))+pick(g, "", "-name", " top", "s")))
	case 4, 5:
		e.set("id", g.caseOf(from(g, wByline))+pick(g, "", "-1"))
	case 6:
		e.set("rel", pick(g, "author", "author", "nofollow", "author nofollow", "Author", "me"))
	case 7, 8:
		e.set("itemprop", pick(g, "author", "author name", "name", "coauthor", "Author", "auth or"))
	case 9:
		e.set(pick(g, "class", "id"), g.near(from(g, wByline)))
	case 10:
		e.set("class", from(g, wByline))
		if g.bool() {
			g.hide(e)
		} else {
			g.pretend(e)
		}
	default:
		e.set("class", from(g, wByline)+" "+pick(g, from(g, wUnlikely), "share", "content", from(g, wNegative)))
	}
	switch g.n(6) {
	case 0:
		e.add(g.bylineText(), el(pick(g, "b", "span", "a"), tx(g.word())))
	case 1:
		in := el(pick(g, "span", "b", "a"), g.bylineText())
		if g.bool() {
			in.with(pick(g, "class", "itemprop"), "author")
		}
		e.add(in)
	case 2:
		if g.bool() {
			e.add(el("img").with("src", "http://h.example/a.jpg"))
		}
		e.add(g.bylineText())
	default:
		e.add(g.bylineText())
	}
	return e
}

func (g *G) caseOf(s string) string {
	switch g.n(5) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func (g *G) bylinePlace(e *N) *N {
	t := func() *N { return tx(g.textOf(g.between(40, 140), 8)) }
	switch g.n(9) {
	case 0, 1, 2:
		return e
	case 3:
		return el("div", e)
	case 4:
		return el("p", t(), e, t())
	case 5:
		return el("div", e, el("p", t()))
	case 6:
		return el("div", e).with("class", g.className())
	case 7:
		return el("header", el("h2", t()), e)
	default:
		return el(pick(g, "aside", "footer", "nav", "section", "form"), e, tx(g.word()))
	}
}

func (g *G) opening() *N {
	t := func(a, b int) *N {
		return tx(pick(g, "", "", " ", "\n") + g.textOf(g.between(a, b), 8) + pick(g, "", " "))
	}
	switch g.n(10) {
	case 0:
		return el("h2", t(10, 40))
	case 1:
		return el("div", t(30, 120))
	case 2:
		return el("p", pick(g, tx(""), tx("  "), el("br"), el("img").with("src", "http://h.example/1.jpg")))
	case 3:
		return el("div", t(30, 90), el("br"), el("br"), t(30, 90))
	case 4:
		return el("blockquote", el("p", t(20, 90)))
	case 5:
		return el("p", el("b", t(10, 50)), t(20, 60), el("a", tx(g.word())).with("href", "http://h.example/x"))
	case 6:
		return el("ul", el("li", el("p", t(20, 90))), el("li", t(20, 60)))
	case 7:
		return el("table", el("tr", el("td", t(20, 90))))
	case 8:
		return el("div", el("p", t(20, 90)))
	default:
		return el("p", t(2, 60))
	}
}

func checkC25(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	b, err := c.articleOf(o)
	if b == nil {
		return err
	}
	want := b.meta.Byline
	if want == "" {
		want = b.ref.byline
	}
	if b.res.Byline != want {
		return fmt.Errorf("author %q, expected %q", b.res.Byline, want)
	}
	if b.meta.Byline == "" && b.ref.byline != "" {
		o.NonTrivial()
		o.Class("author from the text")
	}
	// the byline that was chosen is not in the article
	// (texts cut within a number could come together as another word)
	cut := false
	c.Page.walk(func(n *N) bool {
		cut = cut || n.isText() && n.Text != "" && n.Text[0] >= '0' && n.Text[0] <= '9'
		return true
	})
	if b.ref.byline != "" && b.ref.passes == 1 && !cut {
		have := idSet(b.res.TextContent)
		for _, w := range ids(b.ref.byline) {
			if have[w] && strings.Count(c.Page.text(), fmt.Sprintf("%dz", w)) == 1 {
				return fmt.Errorf("word %d of the byline %q is in the article %s", w, b.ref.byline, clip(b.res.HTMLContent, 1500))
			}
		}
	}
	// the others are, as far as the model says
	c.Page.link()
	have, model := idSet(b.res.TextContent), idSet(b.want.text())
	for _, n := range c.Page.all("*") {
		name := n.attr("class") + " " + n.attr("id")
		if hasAny(name, wByline) || n.has("rel") || n.has("itemprop") {
			for _, w := range ids(n.text()) {
				if have[w] != model[w] {
					return fmt.Errorf("word %d of %s: expected %v, found %v in %s", w, brief(n), model[w], have[w], clip(b.res.HTMLContent, 1500))
				}
			}
		}
	}
	ex := b.meta.Excerpt
	if ex == "" {
		if ps := b.got.all("p"); len(ps) > 0 {
			ex = strings.TrimSpace(ps[0].text())
		}
		o.ClassIf(ex != "", "description from the text")
		if ex != "" {
			o.NonTrivial()
		}
	}
	if b.res.Excerpt != ex {
		return fmt.Errorf("description %q, expected %q", b.res.Excerpt, ex)
	}
	return nil
}

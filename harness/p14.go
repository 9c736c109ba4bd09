package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C14: the article is made of the text of the page, in order, once, and the body of an
// unmistakable article is complete.

type faithfulCase struct {
	pageCase
	Prose [][]int // the words of the paragraphs that must be there
	Flat  bool    // all the words must be there
}

func init() {
	register(&Prop{
		ID: "C14",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &faithfulCase{}
			c.URI = docURI
			g.exotic = g.n(3) == 0
			if g.n(3) == 0 {
				c.Page = g.page(pick(g, 15, 30, 60))
			} else if g.n(6) == 0 {
				c.Page = g.richPage()
			} else if g.n(5) == 0 {
				c.Flat = true
				c.Page = g.flatPage()
			} else {
				s := g.solidPage(func(int) []*N {
					if g.n(3) > 0 {
						return nil
					}
					return []*N{g.harmless()}
				})
				c.Page = s.page
				for _, p := range s.box.Kids {
					if p.Tag == "p" && len(p.At) == 0 {
						c.Prose = append(c.Prose, ids(p.text()))
					}
				}
			}
			if !c.Flat && g.n(3) == 0 {
				g.sprinkle(c.Page.all("body")[0])
			}
			c.Opt = g.options()
			return c
		},
		New: func() Case { return &faithfulCase{} }, Check: checkC14,
		Shrink: func(cc Case) []func() Case {
			c := cc.(*faithfulCase)
			var out []func() Case
			if c.Prose == nil && !c.Flat {
				for _, f := range c.Page.smaller() {
					out = append(out, func() Case { d := *c; d.Page = f(); return &d })
				}
			}
			for _, o := range c.Opt.smaller() {
				out = append(out, func() Case { d := *c; d.Opt = o; return &d })
			}
			return out
		},
		Quick: 40000, Thorough: 1000000,
		Rule: "pages where every word is unique, with nested containers, line breaks, tables, lists, links, escaped and exotic characters, under options that force retries; the words of the article must be a subsequence of those of the page without repetition, every text of it must be a piece of the text of the page, and all the words of the paragraphs of an unmistakable article must be there. Non-trivial: the article has 20 or more words and is not the whole page.",
	})
}

// flatPage has nothing but texts, inline elements and paragraphs in its body, which is
// the article as a whole.
func (g *G) flatPage() *N {
	body := el("body")
	tags := [][]string{{"p", "b", "#"}, {"p"}, {"b", "#"}, {"#"}, {"p", "#"}}[g.n(5)]
	for i := g.between(1, 9); i > 0; i-- {
		t := g.textNode(g.textOf(g.between(3, 200), 10))
		switch tag := from(g, tags); tag {
		case "p":
			body.add(el("p", t))
		case "b":
			body.add(el(pick(g, "b", "i", "span", "em", "code", "strong", "q"), t))
		default:
			if k := len(body.Kids); k > 0 && body.Kids[k-1].isText() {
				body.add(el("br"))
			}
			body.add(t)
		}
		if g.n(4) == 0 {
			body.add(pick(g, tx("\n"), el("br"), el("hr"), tx(" ")))
		}
	}
	return el("html", el("head", el("title", tx("Quite an ordinary page title of some words"))), body)
}

// sprinkle puts single characters between the elements of containers.
func (g *G) sprinkle(n *N) {
	var kids []*N
	text := false
	box := n.Tag == "div" || n.Tag == "section" || n.Tag == "article" || n.Tag == "main" || n.Tag == "body" || n.Tag == "blockquote"
	for _, k := range n.Kids {
		if box && !text && !k.isText() && g.n(6) == 0 {
			kids = append(kids, tx(pick(g, "7", "x", "\u2022", "&", "*", "\u00b7", "|")))
		}
		text = k.isText()
		kids = append(kids, k)
		if !text {
			g.sprinkle(k)
		}
	}
	if box && !text && g.n(8) == 0 {
		kids = append(kids, tx(pick(g, "7", "x", "|")))
	}
	n.Kids = kids
}

// harmless is something that belongs into an article.
func (g *G) harmless() *N {
	switch g.n(8) {
	case 0:
		return el("h2", tx(g.textOf(g.between(10, 30), 0)))
	case 1:
		return el("blockquote", g.prose())
	case 2:
		u := el("ul")
		for i := g.between(2, 4); i > 0; i-- {
			u.add(el("li", tx(g.textOf(g.between(40, 90), 10))))
		}
		return u
	case 3:
		p := g.prose()
		p.Kids = append(p.Kids, el("b", tx(g.word())), tx(" "+g.textOf(60, 10)), el("a", tx(g.word())).with("href", "http://h.example/"))
		return p
	case 4:
		return el("div", tx(g.textOf(g.between(100, 200), 10)), el("br"), el("br"), tx(g.textOf(g.between(100, 200), 10)))
	case 5:
		return el("figure", el("img").with("src", "http://h.example/1.jpg"), el("figcaption", tx(g.textOf(30, 0))))
	case 6:
		return el("pre", el("code", tx(g.textOf(80, 0))))
	default:
		return el("div", g.prose(), g.prose())
	}
}

func checkC14(cc Case, o *Obs) error {
	c := cc.(*faithfulCase)
	if !c.wellFormed() {
		return nil
	}
	res, err := parsePage(c.Page.String(), c.URI, c.Opt)
	if err != nil {
		if c.Prose != nil || c.Flat && len(ids(c.Page.text())) > 0 {
			return fmt.Errorf("no article: %v", err)
		}
		o.Class("no article")
		return nil
	}
	source := c.Page.text()
	once := map[int]bool{}
	for _, w := range ids(source) {
		if once[w] {
			o.Class("words repeated in the page")
			return nil
		}
		once[w] = true
	}
	got, all := ids(res.TextContent), ids(source)
	seen := map[int]bool{}
	for _, w := range got {
		if seen[w] {
			return fmt.Errorf("word %d twice in %s", w, clip(res.HTMLContent, 1500))
		}
		seen[w] = true
	}
	if w, ok := subsequence(got, all); !ok {
		return fmt.Errorf("word %d is invented or out of order in %s", w, clip(res.HTMLContent, 1500))
	}
	// The same for every character that is not blank.
	rest := []rune(flatText(source))
	for i, ch := range []rune(flatText(res.TextContent)) {
		j := 0
		for j < len(rest) && rest[j] != ch {
			j++
		}
		if j == len(rest) {
			return fmt.Errorf("character %d (%q) of the text is invented or out of order: %s", i, ch, clip(res.HTMLContent, 1500))
		}
		rest = rest[j+1:]
	}
	if c.Flat {
		o.Class("flat page")
		for _, w := range ids(source[strings.Index(source, "some words"):]) {
			if !seen[w] {
				return fmt.Errorf("word %d of a page that is nothing but text is missing in %s", w, clip(res.HTMLContent, 2500))
			}
		}
	}
	for _, p := range c.Prose {
		for _, w := range p {
			if !seen[w] {
				return fmt.Errorf("word %d of a paragraph is missing in %s", w, clip(res.HTMLContent, 2500))
			}
		}
	}
	if len(got) >= 20 && len(got) < len(all) {
		o.NonTrivial()
	}
	if !c.Flat {
		// What else is in the container of the article.
		b, skip, err := c.both(o)
		if skip || err != nil || b.want == nil {
			return err
		}
		for _, w := range ids(b.want.text()) {
			if !seen[w] {
				return fmt.Errorf("word %d of the article is missing in %s", w, clip(res.HTMLContent, 2500))
			}
		}
		if a, b := flatText(res.TextContent), flatText(b.want.text()); a != b {
			return fmt.Errorf("the text of the article is\n%s\nexpected\n%s", clip(a, 1500), clip(b, 1500))
		}
	}
	o.ClassIf(c.Prose != nil, "unmistakable article")
	return nil
}

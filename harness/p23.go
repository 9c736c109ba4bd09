package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C23: boilerplate and its look-alikes.

func init() {
	register(&Prop{
		ID: "C23",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			title := g.textOf(g.between(20, 60), 0)
			if g.n(5) == 0 { // other scripts
				title = g.foreign(g.between(3, 8))
			}
			s := g.solidPage(func(int) []*N {
				var l []*N
				for i := g.n(3); i > 0; i-- {
					switch g.n(6) {
					case 0:
						l = append(l, g.titleHeading(title))
					case 1:
						l = append(l, g.sharing())
					default:
						l = append(l, g.boiler(2))
					}
				}
				return l
			})
			s.head.Kids[0].Kids[0].Text = title
			if g.n(5) == 0 {
				s.box.Kids = append([]*N{g.titleHeading(title)}, s.box.Kids...)
			}
			if g.n(5) == 0 { // beside the article
				s.body.add(g.boiler(2))
			}
			c.Page = s.page
			if g.n(4) == 0 {
				c.Opt = g.options()
			}
			return c
		},
		New: newPageCase, Check: checkC23, Shrink: shrinkPage,
		Quick: 60000, Thorough: 1000000,
		Rule: "articles with and among elements of every kind named (class, id, in any case, alone, inside of longer names, among other names) or given roles from the vocabulary of boilerplate, from that of its exceptions, from both, or with near misses, in tables and code at various depths, as links, with sharing elements of lengths around the limit, and with headings that repeat the title wholly, mostly or hardly; when the first attempt is the result, no word of an element that the naming rules condemn is in the article, and of all decorated elements exactly the words the model keeps are. Non-trivial: condemned words, and look-alikes that were kept.",
	})
}

func (g *G) near(w string) string {
	r := []rune(w)
	i := g.n(len(r))
	switch g.n(3) {
	case 0:
		r = append(r[:i], r[i+1:]...)
	case 1:
		r[i] = 'q'
	default:
		r = append(r[:i], append([]rune{'-'}, r[i:]...)...)
	}
	return string(r)
}

func (g *G) boilerName() string {
	var l []string
	one := func() string {
		switch g.n(12) {
		case 0, 1, 2, 3, 4:
			return g.decor(from(g, wUnlikely))
		case 5:
			return g.near(from(g, wUnlikely))
		case 6, 7:
			return g.decor(from(g, wMaybe))
		case 8:
			return g.near(from(g, wMaybe))
		case 9:
			return from(g, wUnlikely) + pick(g, "-", "_", "") + from(g, wMaybe)
		case 10:
			return pick(g, "x", "row", "text", "entry", "print", "hentry")
		default:
			return g.decor(from(g, wPositive))
		}
	}
	l = append(l, one())
	for g.n(3) == 0 {
		l = append(l, one())
	}
	return strings.Join(l, " ")
}

func (g *G) boiler(depth int) *N {
	t := func(a, b int) *N { return tx(g.textOf(g.between(a, b), 8)) }
	mark := func(n *N) *N {
		switch g.n(9) {
		case 0, 1, 2, 3:
			n.set("class", g.boilerName())
		case 4:
			n.set("id", g.boilerName())
		case 5:
			n.set("class", g.boilerName())
			n.set("id", g.boilerName())
		case 6:
			n.set("role", pick(g, from(g, wRoles), from(g, wRoles), "main", "menuitem", "Navigation", "navigation main", "article", "", "dialog "))
		case 7:
			n.set("role", pick(g, from(g, wRoles), from(g, wRoles), "main", "article", "banner"))
			n.set(pick(g, "class", "id"), g.boilerName())
		default:
			n.set("role", "dialog")
			n.set("aria-modal", pick(g, "true", "true", "false", ""))
			switch g.n(6) {
			case 0:
				n.Tag = "dialog"
				n.unset("role")
			case 1:
				n.set("role", pick(g, "alertdialog", "Dialog", "main", ""))
			case 2:
				n.set("aria-modal", pick(g, "True", "1", "truex", " true"))
			}
		}
		return n
	}
	switch g.n(12) {
	case 0, 1, 2:
		return mark(el(pick(g, "p", "div", "section", "header", "h3", "blockquote", "pre", "article"), t(20, 200)))
	case 3:
		return el("p", t(40, 120), mark(el(pick(g, "span", "b", "em", "a", "code", "i"), t(5, 40))), t(40, 120))
	case 4:
		return mark(el("ul", el("li", t(10, 60)), el("li", t(10, 60))))
	case 5:
		return el("ul", mark(el("li", t(10, 60))), el("li", t(10, 60)))
	case 6: // in a table, at some depth
		in := mark(el(pick(g, "span", "p", "div"), t(10, 60)))
		for i := g.n(3); i > 0; i-- {
			in = el(pick(g, "div", "b", "section"), in)
		}
		row := el("tr", el("td", in), el("td", t(10, 60)))
		if g.n(3) == 0 {
			mark(row)
		}
		tb := el("table", el("caption", t(5, 20)), el("tbody", row, el("tr", el("td", t(10, 40)), el("td", t(10, 40)))))
		if g.n(4) == 0 {
			mark(tb)
		}
		return tb
	case 7: // in code
		in := mark(el(pick(g, "span", "b"), t(10, 60)))
		for i := g.n(5); i > 0; i-- {
			in = el(pick(g, "i", "b", "span"), in)
		}
		return el("p", t(30, 90), el("code", in, t(5, 20)), t(30, 90))
	case 8:
		f := el("figure", el("img").with("src", "http://h.example/1.jpg"), mark(el("figcaption", t(10, 60))))
		return f
	case 9:
		return mark(el("div", el("p", t(30, 160)), el("p", t(30, 160))))
	default:
		if depth == 0 {
			return mark(el("p", t(20, 200)))
		}
		e := el(pick(g, "div", "section", "div"), g.boiler(depth-1), el("p", t(80, 160)))
		if g.bool() {
			mark(e)
		}
		return e
	}
}

func (g *G) sharing() *N {
	name := pick(g, "share", "Share", "SHARE-bar", "my_share", "share_x", "sharedaddy", "x-sharedaddy", "post-share top", "x share y", "shared", "shareholder", "myshare", "shares", "sharedaddyx", "_share_", "sharé", "2share", "share2")
	l := pick(g, 20, 100, 300, 480, 498, 499, 500, 501, 520, 700)
	var e *N
	switch g.n(5) {
	case 0:
		e = el("p", tx(g.textOf(l, 10)))
	case 4: // characters that are not bytes
		f := strings.Repeat(pick(g, "日本語 ", "été ", "мир "), l/8)
		e = el("div", el("p", tx(g.textOf(l-len([]rune(f)), 10)+" ")), el("p", tx(strings.TrimSpace(f))))
	case 1:
		h := l / 2
		e = el("div", el("p", tx(g.textOf(h, 10))), el("p", tx(g.textOf(l-h, 10))))
	case 2:
		h := l / 2
		e = el("section", el("p", tx(g.textOf(h, 10)+" ")), el("p", tx(g.textOf(l-h-1, 10))))
	default:
		in := el(pick(g, "span", "b"), tx(g.textOf(min(l, 90), 10))).with(pick(g, "class", "id"), name)
		return el("p", tx(g.textOf(100, 10)), in, tx(g.textOf(100, 10)))
	}
	e.set(pick(g, "class", "class", "id"), name)
	return e
}

// foreign is a text with few or no Latin letters.
func (g *G) foreign(n int) string {
	var l []string
	for i := 0; i < n; i++ {
		if g.n(12) == 0 {
			l = append(l, g.word())
		} else {
			l = append(l, pick(g, "日本語", "текст", "ελλάς", "नमस्ते", "été", "новости", "мира", "東京", "día", "über", "–", "의"))
		}
	}
	return strings.Join(l, " ")
}

// titleHeading repeats the title, more or less.
func (g *G) titleHeading(title string) *N {
	f := strings.Fields(title)
	switch g.n(8) {
	case 0, 1, 2:
	case 3:
		f = f[:len(f)-1]
	case 4:
		f = append(append([]string{}, f...), g.word())
	case 5:
		for i := g.between(1, 3); i > 0; i-- {
			f = append(append([]string{}, f...), g.word())
		}
	case 6:
		f = strings.Fields(g.foreign(g.between(1, 6)))
	default:
		f = append([]string{}, f...)
		for i := range f {
			if g.n(3) == 0 {
				f[i] = g.word()
			}
		}
	}
	s := strings.Join(f, pick(g, " ", " ", "-", ", "))
	if g.n(4) == 0 {
		s = strings.ToUpper(s)
	}
	h := el(pick(g, "h1", "h2", "h2", "h1", "h3", "p"))
	if g.n(4) == 0 {
		h.add(el(pick(g, "span", "a", "b"), tx(s)))
	} else {
		h.add(tx(pick(g, "", " ") + s))
	}
	return h
}

// condemned by name or role: not in an article that is long enough without it.
func condemned(n *N) bool {
	if oneOf(n.attr("role"), wRoles) {
		return true
	}
	name := n.attr("class") + " " + n.attr("id")
	if !hasAny(name, wUnlikely) || hasAny(name, wMaybe) || n.is("a", "body", "html") {
		return false
	}
	for _, a := range n.ancestors() {
		if a.is("table", "code") {
			return false // at whatever distance, to be on the safe side
		}
	}
	return true
}

func checkC23(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	b, err := c.articleOf(o)
	if b == nil {
		return err
	}
	c.Page.link()
	have, want := lowerIDs(b.res.TextContent), lowerIDs(b.want.text())
	bad, good := 0, 0
	for _, n := range c.Page.all("*") {
		if n.is("html", "head", "title", "body") {
			continue
		}
		deco := n.has("class") || n.has("id") || n.has("role") || n.is("h1", "h2", "h3")
		cond := condemned(n)
		if !deco && !cond {
			continue
		}
		for _, w := range ids(strings.ToLower(n.text())) {
			if b.ref.passes == 1 && cond {
				bad++
				if have[w] && !headingWord(c.Page, w) {
					return fmt.Errorf("word %d of the boilerplate %s is in the article %s", w, brief(n), clip(b.res.HTMLContent, 1500))
				}
			}
			if have[w] != want[w] {
				return fmt.Errorf("word %d of %s: expected %v, found %v in %s", w, brief(n), want[w], have[w], clip(b.res.HTMLContent, 1500))
			}
			if !cond && want[w] && !n.is("h1", "h2", "h3") && strings.TrimSpace(n.attr("class")+n.attr("id")+n.attr("role")) != "" {
				good++
			}
		}
	}
	// words of the title may occur several times
	for _, t := range c.Page.all("title") {
		for w := range lowerIDs(t.text()) {
			if x, y := count(ids(strings.ToLower(b.res.TextContent)), w), count(ids(strings.ToLower(b.want.text())), w); x != y {
				return fmt.Errorf("word %d of the title occurs %d times, expected %d, in %s", w, x, y, clip(b.res.HTMLContent, 1500))
			}
		}
	}
	got, exp := flatText(b.res.TextContent), flatText(b.want.text())
	for _, h := range c.Page.all("h1", "h2", "h3") {
		if s := flatText(h.text()); s != "" {
			if x, y := strings.Count(got, s), strings.Count(exp, s); x != y {
				return fmt.Errorf("the heading %q occurs %d times, expected %d, in %s", s, x, y, clip(b.res.HTMLContent, 1500))
			}
		}
	}
	o.Class(fmt.Sprintf("passes=%d", b.ref.passes))
	o.ClassIf(bad > 0, "condemned")
	o.ClassIf(good > 0, "look-alike kept")
	for _, k := range []string{"walk:titleheader", "share", "walk:role", "walk:modal", "walk:unlikely"} {
		o.ClassIf(b.ref.probes[k] > 0, k)
	}
	if bad > 0 && good > 0 {
		o.NonTrivial()
	}
	return nil
}

func lowerIDs(s string) map[int]bool { return idSet(strings.ToLower(s)) }

// headingWord: words of the title occur more than once.
func headingWord(page *N, w int) bool {
	for _, t := range page.all("title") {
		if lowerIDs(t.text())[w] {
			return true
		}
	}
	return false
}

func count(l []int, w int) int {
	n := 0
	for _, x := range l {
		if x == w {
			n++
		}
	}
	return n
}

package main

import (
	"fmt"
	"strings"
)

// Generators around the boundaries of the decisions the algorithm takes.

// judged is something in an article the cleaning has to decide about.
func (g *G) judged(depth int) *N {
	e := el(pick(g, "div", "div", "div", "div", "ul", "ul", "ol", "table", "form", "fieldset", "section"))
	switch g.n(8) {
	case 0:
		e.with("class", g.decor(from(g, wPositive)))
	case 1:
		e.with("class", g.decor(from(g, wPositive))).with("id", g.decor(from(g, wPositive)))
	case 2:
		e.with("class", pick(g, g.decor(from(g, wNegative)), "hid", "hid x", "x hid", "hide", "xhid", "orchid y", "x hid y"))
	case 3:
		e.with("class", g.decor(from(g, wNegative))).with("id", g.decor(from(g, wPositive)))
	}
	var kids []*N
	put := func(l ...*N) { kids = append(kids, l...) }
	txt := func(l int) *N { return tx(g.textOf(l, 0)) }
	par := func(l int) *N { return el("p", txt(l)) }
	img := func() *N { return el("img").with("src", "http://h.example/i/1.jpg") }
	input := func() *N { return el("input").with("type", pick(g, "text", "hidden", "radio")) }
	a := func(l int) *N {
		return el("a", txt(l)).with("href", pick(g, "http://h.example/p", "http://h.example/p", "#x", "#", "http://h.example/p#x"))
	}
	items := 0 // as how many children the content is spread
	switch g.n(12) {
	case 0: // commas
		k := g.between(8, 11)
		put(el("p", tx(g.commas(k)+g.textOf(20, 0))))
		switch g.n(4) {
		case 0:
			put(img(), img(), img())
		case 1:
			put(a(40))
		case 2:
			put(input())
		}
	case 1: // images
		for i := g.n(4); i > 0; i-- {
			put(par(pick(g, 20, 40, 80)))
		}
		for i := g.n(6); i > 0; i-- {
			put(img())
		}
	case 2: // items
		ul := el(pick(g, "ul", "ol"))
		for i := pick(g, 99, 100, 101, 102, 103, 104); i > 0; i-- {
			ul.add(el("li", tx(pick(g, "ab", "cd"))))
		}
		put(ul)
		for i := g.n(5); i > 0; i-- {
			put(par(30))
		}
		put(par(pick(g, 5, 60)))
	case 3: // inputs
		for i := g.n(11); i > 0; i-- {
			put(par(pick(g, 26, 40)))
		}
		for i := g.n(5); i > 0; i-- {
			put(input())
		}
	case 4: // short texts, headings, images
		if g.n(2) == 0 {
			put(el("span", txt(g.between(22, 27))))
		} else {
			h := pick(g, 10, 18, 19, 20, 21)
			put(el(pick(g, "h1", "h2", "h3", "h4", "h5", "h6"), txt(h)), el("span", txt(pick(g, 1, 2, 3))))
		}
		for i := g.n(5); i > 0; i-- {
			put(img())
		}
		if g.n(2) == 0 {
			put(el("div", el("p")))
		}
	case 5: // links
		put(a(g.between(18, 22)), par(80))
	case 6:
		put(a(g.between(48, 52)), par(50))
	case 7: // embeds
		l := g.between(72, 78)
		put(par(l))
		for i := g.n(3); i > 0; i-- {
			put(g.embed())
		}
	case 8: // mostly a list
		l := g.between(87, 93)
		ul := el(pick(g, "ul", "ol"), el("li", a(l)))
		put(ul, el("span", txt(100-l)))
		switch g.n(3) {
		case 0:
			put(img(), img())
		case 1:
			put(input())
		}
	case 9: // a list of images
		ul := el(pick(g, "ul", "ol"))
		for i := g.between(2, 5); i > 0; i-- {
			li := el("li", img())
			switch g.n(10) {
			case 0:
				li.add(el("span", txt(5)))
			case 1:
				li = el("li", txt(9))
			case 2:
				li = el("li", el("b", img()))
			}
			ul.add(li)
		}
		if e.Tag == "ul" || e.Tag == "ol" {
			kids = ul.Kids
			items = -1
		} else {
			put(ul)
		}
	case 10: // more than one kind of trouble, or none
		for i := g.between(1, 4); i > 0; i-- {
			put(pick(g, par(g.size()), img(), a(pick(g, 5, 20, 40)), input(), g.embed(), el("div", par(30)), el("h3", txt(12))))
		}
	case 11:
		if depth > 0 {
			for i := g.between(1, 2); i > 0; i-- {
				put(g.judged(depth - 1))
			}
			put(par(pick(g, 10, 60, 120)))
		} else {
			put(par(g.size()))
		}
	}
	if items == 0 && g.n(4) == 0 {
		kids = append(kids, el("p", txt(pick(g, 30, 100, 200))))
	}
	switch {
	case items < 0:
		e.add(kids...)
	case e.Tag == "table":
		tr := el("tr")
		for _, k := range kids {
			tr.add(el(pick(g, "td", "td", "td", "td", "td", "th"), k))
		}
		e.add(tr)
		if g.n(3) == 0 {
			e.with("role", "presentation")
		}
	case e.Tag == "ul" || e.Tag == "ol":
		for _, k := range kids {
			e.add(el("li", k))
		}
	default:
		e.add(kids...)
	}
	return g.wrapped(e)
}

// judgedWith is such a thing with something in it, in up to four places.
func (g *G) judgedWith(f func() *N) *N {
	e := g.judged(1)
	e.link()
	var in []*N
	e.walk(func(n *N) bool {
		if n.is("div", "section", "li", "td", "p", "span", "form", "fieldset", "code", "figure") {
			in = append(in, n)
		}
		return true
	})
	if len(in) == 0 {
		return el("div", e, f())
	}
	for i := g.between(0, 3); i >= 0; i-- {
		n := from(g, in)
		k := g.n(len(n.Kids) + 1)
		n.Kids = append(n.Kids[:k:k], append([]*N{f()}, n.Kids[k:]...)...)
	}
	return e
}

// wrapped puts something deep in something that protects it up to some depth.
func (g *G) wrapped(e *N) *N {
	if g.n(3) > 0 {
		return e
	}
	for i := g.n(6); i > 0; i-- {
		e = el(pick(g, "div", "section", "span", "div", "section", "span", from(g, tAny)), e)
		if g.n(6) == 0 {
			e.add(el("p", tx(g.textOf(40, 0))))
		}
	}
	switch g.n(5) {
	case 0:
		return el("figure", e)
	case 1:
		return el("code", e)
	case 2:
		return el("table", el("tr", el("td", e))).with("summary", pick(g, "s", ""))
	case 3:
		return el("table", el("tr", el("td", e))).with("role", "presentation")
	}
	return e
}

func (g *G) judgedPage() *N {
	s := g.solidPage(func(i int) []*N {
		if i > 2 {
			return nil
		}
		return []*N{g.judged(2)}
	})
	return s.page
}

// rivalsPage has several candidates of about the same weight.
func (g *G) rivalsPage() *N {
	body := el("body")
	box := el(pick(g, "div", "section", "main", "article"))
	at := box
	one := func() *N {
		b := el(pick(g, "div", "div", from(g, tContainers)))
		for i := g.between(1, 3); i > 0; i-- {
			k := g.between(0, 4)
			p := el("p", tx(g.commas(k)+g.textOf(pick(g, 30, 90, 130, 210), 0)))
			switch g.n(8) {
			case 0:
				p = el("div", p)
			case 1:
				p.add(el("a", tx(g.textOf(20, 0))).with("href", pick(g, "#a", "http://h.example/p")))
			}
			b.add(p)
		}
		if g.n(4) == 0 {
			b.with("class", pick(g, "x", "c1", "content", "widget", "post"))
		}
		for i := g.n(3); i > 0; i-- {
			b = el(pick(g, "div", "section"), b)
		}
		return b
	}
	for i := g.between(2, 8); i > 0; i-- {
		at.add(one())
		switch g.n(6) {
		case 0:
			n := el(pick(g, "div", "section"))
			at.add(n)
			at = n
		case 1:
			at = box
		}
	}
	for i := g.n(4); i > 0; i-- {
		box = el(pick(g, "div", "section", "div"), box)
		if g.n(2) == 0 {
			box.add(one())
		}
		if g.n(5) == 0 {
			box.with("class", pick(g, "content", "widget", "x"))
		}
	}
	body.add(box)
	for i := g.n(3); i > 0; i-- {
		body.add(one())
	}
	return el("html", el("head", el("title", tx("Some rivals"))), body)
}

// joinPage has a clear article and siblings that may belong to it.
func (g *G) joinPage() *N {
	cls := pick(g, "", "x", "c1 k9", "content", "story")
	withClass := func(n *N) *N {
		if cls != "" && g.n(2) == 0 {
			n.with("class", cls)
		} else if cls != "" && g.n(5) == 0 { // nearly the same
			n.with("class", pick(g, strings.ToUpper(cls), cls+" ", " "+cls, cls+" y", "y "+cls, strings.ToUpper(cls[:1])+cls[1:], cls[1:], cls+"s"))
		} else if g.n(5) == 0 {
			n.with("class", pick(g, "x", "c1", "content"))
		}
		return n
	}
	top := el(pick(g, "div", "div", from(g, tContainers)))
	if cls != "" {
		top.with("class", cls)
	}
	for i := g.between(2, 5); i > 0; i-- {
		top.add(el("p", tx(g.textOf(g.between(60, 300), pick(g, 0, 10, 20))+".")))
	}
	sibling := func() *N {
		switch g.n(7) {
		case 0, 1: // a paragraph
			l := pick(g, 5, 40, 78, 79, 80, 81, 82, 120)
			s := g.textOf(l, 0)
			s = strings.ReplaceAll(s, ".", "o")
			switch g.n(5) {
			case 0:
				s = s[:len(s)-1] + "."
			case 1:
				if len(s) > 10 {
					s = s[:3] + ". " + s[5:]
				}
			case 2:
				if len(s) > 10 {
					s = s[:3] + "." + s[4:]
				}
			}
			p := el("p", tx(s))
			switch g.n(4) {
			case 0:
				p.add(el("a", tx(g.textOf(pick(g, 1, l/4, l/3, l/3+1, l/2), 0))).with("href", "http://h.example/p"))
			case 1:
				p.add(el("a", tx(g.textOf(pick(g, 1, l/4, l/3, l/3+1, l/2), 0))).with("href", "#f"))
			}
			return withClass(p)
		case 2, 3, 4: // something with a score
			e := el(pick(g, "div", "section", "article", "aside", from(g, tContainers)))
			for i := g.between(1, 2); i > 0; i-- {
				e.add(el("p", tx(g.commas(g.between(0, 7))+g.textOf(pick(g, 30, 110, 210), 0))))
			}
			return withClass(e)
		case 5:
			return withClass(el(pick(g, "div", "section", "article"), el("div", el("p", tx(g.commas(g.between(4, 14))+g.textOf(60, 0))))))
		}
		return g.noise()
	}
	box := el(pick(g, "div", "section", "main", "tr"))
	for i := g.n(4); i > 0; i-- {
		box.add(sibling())
	}
	box.add(top)
	for i := g.n(4); i > 0; i-- {
		box.add(sibling())
	}
	if g.n(2) == 0 {
		box = el("div", box)
	}
	return el("html", el("head", el("title", tx("Some siblings"))), el("body", box))
}

// titledPage has headings that say more or less what the title says.
func (g *G) titledPage() *N {
	var words []string
	for i := g.between(3, 8); i > 0; i-- {
		words = append(words, g.word())
	}
	heading := func() *N {
		var w []string
		for _, x := range words {
			switch g.n(10) {
			case 0:
			case 1:
				w = append(w, g.word())
			case 2:
				w = append(w, strings.ToUpper(x))
			default:
				w = append(w, x)
			}
		}
		if g.n(3) == 0 {
			for i := g.between(1, 4); i > 0; i-- {
				w = append(w, g.word())
			}
		}
		h := el(pick(g, "h1", "h2", "h1", "h2", "h3", "p"), tx(strings.Join(w, pick(g, " ", " ", ", ", " - ", "  "))))
		if g.n(4) == 0 {
			h = el("div", h)
		}
		return h
	}
	s := g.solidPage(func(i int) []*N {
		if g.n(2) == 0 {
			return []*N{heading()}
		}
		return nil
	})
	for i := g.n(3); i > 0; i-- {
		s.body.Kids = append([]*N{heading()}, s.body.Kids...)
	}
	s.head.Kids[0] = el("title", tx(strings.Join(words, " ")))
	return s.page
}

// fewWords is a page with hardly any text, of which several passes make different things.
func (g *G) thinPage() *N {
	body := el("body")
	for i := g.between(1, 4); i > 0; i-- {
		e := el(pick(g, "div", "section", "p", "article", "table"))
		in := e
		if e.Tag == "table" {
			in = el("td")
			e.add(el("tr", in))
		}
		switch g.n(5) {
		case 0:
			e.with("class", g.decor(from(g, wUnlikely)))
		case 1:
			e.with("class", g.decor(from(g, wNegative)))
		case 2:
			e.with("role", from(g, wRoles))
		case 3:
			e.with("class", g.className())
		}
		for j := g.between(0, 2); j > 0; j-- {
			in.add(pick(g, el("p", g.text()), g.link(), g.text(), g.judged(0), g.image(), el("br"), el("div", g.text())))
		}
		body.add(e)
	}
	return el("html", el("head", el("title", tx(fmt.Sprintf("Thin %d", g.n(10))))), body)
}

// boundaryPage is one of the pages above.
func (g *G) boundaryPage() *N {
	switch g.n(8) {
	case 0, 1, 2:
		return g.judgedPage()
	case 3, 4:
		return g.joinPage()
	case 5:
		return g.rivalsPage()
	case 6:
		return g.titledPage()
	}
	return g.thinPage()
}

// commas is a text with k commas.
func (g *G) commas(k int) string {
	sep := pick(g, "ab, ", "ab, ", "ab,", "ab ,", "ab ,\n", ", ")
	s := ""
	for ; k > 0; k-- {
		if g.n(6) == 0 {
			s += pick(g, "ab, ", "ab,", ",", "a,\n")
		} else {
			s += sep
		}
	}
	return s
}

package main

import (
	"fmt"
	"math"
	"strings"
	"unicode"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// C13: the quick answer to "is there something to read".

type readerableCase struct {
	Kind    string
	Page    *N  `json:",omitempty"`
	HTML    Raw `json:",omitempty"`
	MinLen  *int
	MinSc   *float64
	Checker string // "": the default
}

func init() {
	register(&Prop{
		ID: "C13",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			g.exotic = g.n(3) == 0
			c := &readerableCase{}
			if g.n(2) == 0 {
				c.MinLen = ptr(pick(g, 0, 1, 20, 50, 100, 140, 200, -5))
			}
			if g.n(2) == 0 {
				c.MinSc = ptr(pick(g, 0, 1, 2, 3, 5, 10, 20, 30, -1, 0.5))
			}
			c.Checker = pick(g, "", "", "", "", "data", "all", "none", "default")
			switch g.n(10) {
			case 0:
				var s string
				c.Kind, s = g.anySource()
				c.HTML = Raw(s)
			case 1:
				c.Kind, c.Page = "page", g.page(pick(g, 15, 40))
			case 2:
				c.Kind = "soup"
				var b strings.Builder
				for i := g.between(1, 5); i > 0; i-- {
					b.WriteString(g.soup(g.between(0, 8)) + g.readable(c).String())
				}
				c.HTML = Raw(b.String())
			default:
				c.Kind = "targeted"
				body := el("body")
				for i := g.between(1, 5); i > 0; i-- {
					body.add(g.readable(c))
				}
				c.Page = el("html", el("head", el("title", tx("t"))), body)
			}
			return c
		},
		New:   func() Case { return &readerableCase{} },
		Check: checkC13,
		Shrink: func(cc Case) []func() Case {
			c := cc.(*readerableCase)
			var out []func() Case
			if c.Page != nil {
				for _, f := range c.Page.smaller() {
					out = append(out, func() Case { d := *c; d.Page = f(); return &d })
				}
			}
			return out
		},
		Setup: loadSeeds,
		Quick: 200000, Thorough: 1500000,
		Rule:   "pages, soup and targeted pages of paragraphs, preformatted texts, articles and containers with line breaks, of lengths at and around the minimum and such that the score ends exactly at, just below and just above its limit, hidden or not in every spelling, with suspicious names or not, inside and outside of list items, nested, under default and random limits and custom visibility functions; the answer must be that of an independent evaluation of the rule over the tree a browser's parser builds. Non-trivial: at least one block counts and at least one does not, or the score is within 5 of its limit.",
		Assume: []string{"golang.org/x/net/html builds the tree a browser would build", "a score that equals the limit only up to rounding is not judged"},
	})
}

// readable is a block that may count, of a telling length.
func (g *G) readable(c *readerableCase) *N {
	minLen, minSc := 140, 20.0
	if c.MinLen != nil {
		minLen = *c.MinLen
	}
	if c.MinSc != nil {
		minSc = *c.MinSc
	}
	m := int(max(minSc, 0))
	var l int
	switch g.n(6) {
	case 0:
		l = minLen + g.between(-2, 2)
	case 1:
		l = minLen + m*m + g.between(-1, 1)
	case 2: // perfect squares add up exactly
		k := g.between(0, max(m, 1))
		l = minLen + k*k
	case 3: // half of what is needed
		k := (m + 1) / 2
		l = minLen + k*k + g.between(-1, 1)
	case 4:
		l = g.between(1, 60)
	default:
		l = minLen + g.between(0, 300)
	}
	l = max(l, 0)
	t := func(l int) *N { return g.textNode(g.textOf(l, 5)) }
	var e, mark *N
	switch g.n(14) {
	case 0, 1, 2:
		e = el("p", t(l))
	case 3:
		e = el("pre", t(l))
	case 4:
		e = el("article", t(l))
	case 5:
		e = el("article", el("p", t(l)), el("p", t(g.between(1, 200))))
	case 6, 7:
		k := g.n(l + 1)
		e = el("div", t(k), el("br"), t(l-k))
		if g.bool() {
			e.add(el("br"), el("br"))
		}
	case 8:
		e = el("div", el("span", t(l), el("br")))
	case 9, 10:
		mark = el(pick(g, "p", "pre", "article", "p"), t(l))
		if g.n(3) == 0 {
			mark = el("div", t(l), el("br"))
		}
		in := mark
		for g.n(3) == 0 {
			in = el(pick(g, "div", "section", "blockquote"), in)
		}
		e = el(pick(g, "ul", "ol"), el("li", in))
	case 11:
		e = el("div", g.readable(c), el("br"))
	case 12:
		e = el("section", t(l))
		switch g.n(4) {
		case 0: // line breaks of one around those of another
			e = el("div", t(g.n(l+1)), el("br"), el("div", t(g.n(l+1)), el("br")), el("br"), t(l/2))
		case 1:
			e = el(from(g, tAny), g.readable(c))
		case 2:
			e = el("ul", el("li", t(3)), el("p", t(l)))
		}
	default:
		e = el("div", el("p", t(l)))
		mark = e.Kids[0]
	}
	if mark == nil {
		mark = e
	}
	switch g.n(9) {
	case 0:
		g.hide(mark)
	case 1:
		g.pretend(mark)
	case 2, 3:
		mark.set(pick(g, "class", "id"), g.className())
		if g.n(3) == 0 {
			mark.set(pick(g, "class", "id"), g.className())
		}
	case 4: // blanks do not count
		mark.Kids = append([]*N{g.ws()}, mark.Kids...)
		mark.add(g.ws())
	}
	if g.n(5) == 0 {
		mark.set("data-no", "1")
	}
	return e
}

func checkC13(cc Case, o *Obs) error {
	c := cc.(*readerableCase)
	o.Class(c.Kind)
	src := string(c.HTML)
	if c.Page != nil {
		src = c.Page.String()
	}
	minLen, minSc := 140, 20.0
	var opts []readability.Option
	if c.MinLen != nil {
		minLen = *c.MinLen
		opts = append(opts, readability.MinContentLength(minLen))
	}
	if c.MinSc != nil {
		minSc = *c.MinSc
		opts = append(opts, readability.MinScore(minSc))
	}
	attrOf := func(n *html.Node, k string) (string, bool) {
		for _, a := range n.Attr {
			if a.Key == k {
				return a.Val, true
			}
		}
		return "", false
	}
	visible := func(n *html.Node) bool {
		e := el(n.Data)
		for _, a := range n.Attr {
			if !e.has(a.Key) {
				e.with(a.Key, a.Val)
			}
		}
		return refVisible(e)
	}
	switch c.Checker {
	case "data":
		visible = func(n *html.Node) bool { _, no := attrOf(n, "data-no"); return !no }
		opts = append(opts, readability.VisibilityChecker(visible))
	case "all":
		visible = func(n *html.Node) bool { return true }
		opts = append(opts, readability.VisibilityChecker(visible))
	case "none":
		visible = func(n *html.Node) bool { return false }
		opts = append(opts, readability.VisibilityChecker(visible))
	}
	o.ClassIf(c.Checker != "", "checker "+c.Checker)
	got := readability.IsProbablyReaderable(src, opts...)

	doc, err := html.Parse(strings.NewReader(src))
	if err != nil {
		return nil
	}
	var text func(n *html.Node, b *strings.Builder)
	text = func(n *html.Node, b *strings.Builder) {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			text(k, b)
		}
	}
	score, counted, skipped, exact := 0.0, 0, 0, true
	var walk func(n *html.Node, inItem bool, depth int)
	walk = func(n *html.Node, inItem bool, depth int) {
		if n.Type == html.ElementNode {
			block := n.Data == "p" || n.Data == "pre" || n.Data == "article"
			if n.Data == "div" {
				for k := n.FirstChild; k != nil; k = k.NextSibling {
					if k.Type == html.ElementNode && k.Data == "br" {
						block = true
					}
				}
			}
			if block {
				cl, _ := attrOf(n, "class")
				id, _ := attrOf(n, "id")
				name := cl + " " + id
				var b strings.Builder
				text(n, &b)
				l := chars(strings.TrimFunc(b.String(), unicode.IsSpace))
				if visible(n) && !(hasAny(name, wUnlikely) && !hasAny(name, wMaybe)) && !(n.Data == "p" && inItem) && l >= minLen {
					counted++
					s := math.Sqrt(float64(l - minLen))
					exact = exact && s == math.Trunc(s)
					score += s
				} else {
					skipped++
				}
			}
			inItem = inItem || n.Data == "li"
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			walk(k, inItem, depth+1)
		}
	}
	walk(doc, false, 0)
	if !exact && math.Abs(score-minSc) < 1e-6 {
		o.Class("skipped, rounding decides")
		return nil
	}
	want := counted > 0 && score > minSc
	if counted > 0 && skipped > 0 || counted > 0 && math.Abs(score-minSc) < 5 {
		o.NonTrivial()
	}
	o.ClassIf(exact && counted > 0 && score == minSc, "exactly at the limit")
	o.Class(fmt.Sprintf("answer %v", want))
	if got != want {
		return fmt.Errorf("answer %v, expected %v (%d blocks count, score %v, limit %v, minimum length %d)", got, want, counted, score, minSc, minLen)
	}
	return nil
}

package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C05: what a reader cannot see is not in the article; what only looks hidden is.

func init() {
	register(&Prop{
		ID: "C05",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			if g.n(4) == 0 {
				c.Page = g.page(pick(g, 15, 30, 50))
				for _, n := range c.Page.all("*") {
					if !n.is("html", "head", "title", "body") && g.n(8) == 0 {
						g.hide(n)
					}
				}
			} else {
				c.Page = g.solidPage(func(int) []*N {
					var l []*N
					for i := g.n(3); i > 0; i-- {
						l = append(l, g.maybeHidden(2))
					}
					return l
				}).page
			}
			c.Opt = g.options()
			return c
		},
		New: newPageCase, Check: checkC05, Shrink: shrinkPage,
		Quick: 50000, Thorough: 1000000,
		Rule:   "articles with hidden elements (hidden attribute, display:none or visibility:hidden in every spelling, aria-hidden) and elements that merely look alike (other values, other properties, later declarations, fallback images) of every kind at every level, under thresholds that force every retry; no word of a hidden element may be in the article, and the words of all others must be there exactly when the model of the algorithm says so. Non-trivial: the page has both hidden words and look-alikes and an article.",
		Assume: []string{"styles given by style sheets are not considered, nor are the hidden marks of the html and body elements"},
	})
}

// hide marks an element as hidden.
func (g *G) hide(n *N) {
	if g.n(4) == 0 {
		g.inert(n)
	}
	switch g.n(8) {
	case 0:
		n.set("hidden", pick(g, "", "hidden", "true", "until-found", "false"))
	case 1:
		n.set("aria-hidden", "true")
		if strings.Contains(n.attr("class"), "fallback-image") {
			n.unset("class")
		}
		if g.n(3) == 0 {
			n.set("class", pick(g, "fallback", "image-fallback", "Fallback-Image", "fallback image", "fallback_image", "fallback-img", "allback-image", "image"))
		}
	case 2, 3, 4:
		n.set("style", g.styleAround(g.cssSpell("display", "none"), "display"))
	default:
		n.set("style", g.styleAround(g.cssSpell("visibility", "hidden"), "visibility"))
	}
}

// styleAround puts a declaration among others that do not change it.
func (g *G) styleAround(d, prop string) string {
	other := func() string {
		return pick(g, "color: red", "margin:0", "", "width", "overflow:hidden", "background: url(x)", "background: url(http://h.example/x.png)", "font: 12px/1.5 serif", "position: absolute; top: 0", "x"+prop+":visible", prop+"-x:block")
	}
	s := d
	for g.n(2) == 0 {
		if g.bool() {
			s = other() + pick(g, ";", "; ", " ; ") + s
		} else {
			s = s + pick(g, ";", "; ", " ; ") + other()
		}
	}
	if g.n(5) == 0 { // an earlier declaration that is overridden
		v := map[string]string{"display": "block", "visibility": "visible"}[prop]
		s = prop + ":" + v + ";" + s
	}
	return s + pick(g, "", ";", " ")
}

// pretend gives an element a mark that looks like hiding and is not.
func (g *G) pretend(n *N) {
	switch g.n(11) {
	case 9:
		if g.bool() {
			n.set("style", g.styleAround(g.cssSpell("display", pick(g, "flex", "grid", "block", "nope", "inline-block")), "display"))
		} else {
			n.set("style", g.styleAround(g.cssSpell("visibility", pick(g, "vissen", "visible", "collapse", "initial")), "visibility"))
		}
	case 0:
		n.set("aria-hidden", pick(g, "false", "", "TRUE?", "no", "TRUE", "True", " true", "1", "yes", "truex"))
	case 1:
		n.set("aria-hidden", "true")
		n.set("class", pick(g, "fallback-image", "x fallback-image", "mwe-math-fallback-image-inline"))
	case 2:
		n.set("style", pick(g, "display:block", "display: inline", "display:", "display", "visibility:visible", "visibility: collapse", "visibility"))
	case 3:
		n.set("style", pick(g, "overflow:hidden", "xdisplay:none", "display-x:none", "-webkit-visibility:hidden", "backface-visibility:hidden", "color:none;text-decoration:none", "content:'display:none'"))
	case 4:
		n.set("style", "display:none; display:"+pick(g, "block", "inline", "flex", "var(--d)", "inherit", "revert", "initial"))
	case 5:
		n.set("style", "visibility:hidden;visibility:"+pick(g, "visible", "var(--v)", "inherit", "initial"))
	case 6:
		n.set("style", "display:block !important; display:none")
	case 7:
		n.set(pick(g, "data-hidden", "hidden-x", "title", "alt"), "hidden")
	case 8:
		n.set(pick(g, "data-style", "data-aria-hidden"), "display:none")
	default:
		n.set("class", pick(g, "none", "invisible-not", "x"))
	}
}

// maybeHidden is a piece of an article, hidden or not.
func (g *G) maybeHidden(depth int) *N {
	t := func() *N { return tx(g.textOf(g.between(10, 140), 10)) }
	var e, in *N
	switch g.n(16) {
	case 14:
		in = el(from(g, tAny), t())
		e = in
	case 15:
		in = el(from(g, tAny), t(), el("p", t()))
		e = el(from(g, tAny), t(), in)
	case 0, 1, 2:
		e = el("p", t())
		in = e
	case 3:
		in = el("p", t())
		e = el("div", in)
	case 4:
		in = el(pick(g, "span", "b", "a", "em", "code", "font"), t())
		e = el("p", t(), in, t())
	case 5:
		in = el("li", t())
		e = el("ul", el("li", t()), in, el("li", t()))
	case 6:
		in = pick(g, el("td", t()), el("tr", el("td", t()), el("td", t())))
		row := in
		if in.Tag == "td" {
			row = el("tr", el("td", t()), in)
		}
		e = el("table", el("thead", el("tr", el("th", t()))), row)
	case 7:
		in = el("div", t(), el("br"), el("br"), t())
		e = in
	case 8:
		in = el("span", t())
		e = el("div", t(), el("br"), pick(g, el("br"), el("hr")), in, t())
	case 9:
		in = el(pick(g, "h2", "h3", "blockquote", "pre", "section", "article", "figure"), t())
		e = in
	case 10:
		in = el("div", el("p", t()), el("p", t()))
		e = in
	case 11:
		in = el("div", el("div", el("p", t())))
		e = el("section", in)
	default:
		if depth <= 0 {
			e = el("p", t())
			in = e
			break
		}
		in = el(pick(g, "div", "section", "article", "div"), g.maybeHidden(depth-1), el("p", t()), g.maybeHidden(depth-1))
		e = in
	}
	switch g.n(3) {
	case 0:
		g.hide(in)
	case 1:
		g.pretend(in)
	}
	for g.n(5) == 0 {
		g.inert(in)
	}
	return e
}

func checkC05(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	if !c.wellFormed() {
		return nil
	}
	b, skip, err := c.both(o)
	if skip || err != nil {
		return err
	}
	if err := b.sameOutcome(); err != nil {
		// That there is an article at all is another property, unless hidden text decides it.
		if b.want == nil {
			return err
		}
		o.Class("no article")
		return nil
	}
	if b.want == nil {
		o.Class("no article")
		return nil
	}
	o.Class(fmt.Sprintf("passes=%d", b.ref.passes))
	hidden := map[int]bool{}
	var mark func(n *N, h bool)
	mark = func(n *N, h bool) {
		if n.isText() {
			if h {
				for _, w := range ids(n.Text) {
					hidden[w] = true
				}
			}
			return
		}
		h = h || !n.is("html", "body") && !refVisible(n)
		for _, k := range n.Kids {
			mark(k, h)
		}
	}
	mark(c.Page, false)
	have, want := idSet(b.res.TextContent), idSet(b.want.text())
	for w := range hidden {
		if have[w] {
			return fmt.Errorf("the hidden word %d is in the article %s", w, clip(b.res.HTMLContent, 1500))
		}
	}
	alike := false
	for _, n := range c.Page.all("*") {
		if (n.has("style") || n.has("aria-hidden") || n.has("data-hidden")) && refVisible(n) {
			for _, w := range ids(n.text()) {
				if have[w] != want[w] {
					return fmt.Errorf("word %d of the visible %s: expected %v, found %v in %s", w, brief(n), want[w], have[w], clip(b.res.HTMLContent, 1500))
				}
				alike = alike || have[w]
			}
		}
	}
	o.ClassIf(len(hidden) > 0, "hidden words")
	o.ClassIf(alike, "look-alikes kept")
	if len(hidden) > 0 && alike {
		o.NonTrivial()
	}
	return nil
}

package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C20: lazy images and noscript images.

func init() {
	register(&Prop{
		ID: "C20",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			c.Page = g.solidPage(func(int) []*N {
				var l []*N
				for i := g.n(3); i > 0; i-- {
					if g.n(6) == 0 {
						i := g.trace(el("img").with("data-src", g.imgURL()))
						if g.bool() {
							i.with(pick(g, "alt", "title"), g.word())
						}
						l = append(l, el("p", tx(g.textOf(g.between(60, 160), 10)), i, tx(g.textOf(g.between(60, 160), 10))))
					} else if g.bool() {
						l = append(l, g.place(g.lazyImage()))
					} else {
						l = append(l, g.withNoscript()...)
					}
				}
				return l
			}).page
			if g.n(3) == 0 {
				c.Opt = g.options()
			}
			return c
		},
		New: newPageCase, Check: checkC20, Shrink: shrinkPage,
		Quick: 50000, Thorough: 800000,
		Rule: "articles with images, pictures and figures whose sources are in any attributes (with and without file extension in any case, with descriptors, several of them, lazy class names, embedded placeholders of sizes around the limit and of every type, srcset=\"null\"), alone or followed by noscript elements with the same or another image, wrapped, with text or with several images; every image, picture and figure of the article must have exactly the attributes of the model, and an image in running text whose only source is a data attribute with an image address must have it as its source. Non-trivial: an image whose attributes differ from those in the page.",
	})
}

func (g *G) imgURL() string {
	return pick(g, "http://h.example/", "https://x.example/i/", "/", "pic/") + fmt.Sprintf("n%d", g.between(1, 9)) +
		pick(g, ".jpg", ".jpeg", ".png", ".webp", ".JPG", ".Png", ".gif", "", ".svg", ".jpgx", ".jpg2", ".webp7x", ".jpg?w=1", ".PNG#x", "jpg", ".jp")
}

func (g *G) imgSet() string {
	s := g.imgURL() + pick(g, " 1x", " 2x", " 300w", "  1.5x", "")
	if g.bool() {
		s += ", " + g.imgURL() + pick(g, " 2x", " 600w", "")
	}
	return s
}

func (g *G) placeholder() string {
	typ := pick(g, "image/gif", "image/png", "image/svg+xml", "image/jpeg", "IMAGE/GIF", "image/webp", "image/svg", "image/svg-xml", "IMAGE/SVG+XML", "image/x-icon", "image/svg+xmlz", "", "image/gif")
	l := pick(g, 10, 40, 120, 130, 131, 132, 133, 134, 135, 200, 400)
	body := strings.Repeat("R0lGOD", l/6) + "ABCDEF"[:l%6]
	if k := g.n(4); k <= len(body) { // padded
		body = body[:len(body)-k] + "==+"[:k]
	}
	if g.n(10) == 0 { // not embedded at all
		return pick(g, "/data:", "xdata:", "x/data:") + typ + ";base64," + body
	}
	return pick(g, "data:", "data:", "data:", "DATA:", "data: ", "data:\t", " data:") + typ + pick(g, ";base64,", ";base64,", ";BASE64,", "; base64 ,", " ;base64,", ",", ";base64", ";charset=x;base64,") + body
}

func (g *G) imgAttrs(e *N) {
	switch g.n(8) {
	case 0, 1:
		e.set("src", g.placeholder())
	case 2:
		e.set("src", g.imgURL())
	case 3:
		e.set("srcset", pick(g, "null", "", g.imgSet()))
	case 4:
		e.set("src", "")
	}
	for i := g.n(4); i > 0; i-- {
		k := pick(g, "data-src", "data-srcset", "data-original", "data-lazy", "alt", "title", "data-x", "data-lazy-src", "longdesc")
		v := pick(g, g.imgURL(), g.imgURL(), g.imgSet(), "text", g.word()+" "+g.imgURL()+" "+g.word(), " "+g.imgURL()+" ", "", pick(g, ".jpg", ".png 2x", "a.png\n1x", "x.jpg\t2x", ".webp1"))
		e.set(k, v)
	}
	if g.n(5) == 0 {
		e.set("class", pick(g, "lazy", "lazyload", "x lazy-img", "LAZY", "Lazyload", "big", "photo"))
	}
	if g.n(6) == 0 {
		e.set(pick(g, "width", "height", "id"), pick(g, "1", "10"))
	}
	if k := len(e.At); k > 1 && g.bool() { // any of them may be the first or the last
		i, j := g.n(k), g.n(k)
		e.At[i], e.At[j] = e.At[j], e.At[i]
	}
}

func (g *G) lazyImage() *N {
	switch g.n(8) {
	case 0:
		p := g.trace(el("picture"))
		g.imgAttrs(p)
		for i := g.n(3); i > 0; i-- {
			p.add(el("source").with("srcset", g.imgSet()))
		}
		if g.n(3) > 0 {
			i := g.trace(el("img"))
			g.imgAttrs(i)
			p.add(i)
		}
		return p
	case 1:
		f := g.trace(el("figure"))
		g.imgAttrs(f)
		switch g.n(3) {
		case 0:
			i := g.trace(el("img"))
			g.imgAttrs(i)
			f.add(i)
		case 1:
			f.add(el("picture", el("source").with("srcset", g.imgSet())))
		}
		if g.bool() {
			f.add(el("figcaption", tx(g.textOf(20, 0))))
		}
		return f
	}
	i := g.trace(el("img"))
	g.imgAttrs(i)
	return i
}

// withNoscript is an image followed by a noscript element, or almost.
func (g *G) withNoscript() []*N {
	img := func() *N {
		i := g.trace(el("img"))
		if g.n(3) == 0 {
			g.imgAttrs(i)
		} else {
			i.set("src", g.imgURL())
			if g.n(3) == 0 {
				i.set("srcset", g.imgSet())
			}
		}
		return i
	}
	wrap := func(e *N) *N {
		for g.n(4) == 0 {
			e = el(pick(g, "p", "div", "span", "a", "figure"), e)
			if g.n(4) == 0 {
				e.Kids = append([]*N{g.ws()}, e.Kids...)
			}
			if g.n(8) == 0 {
				e.add(tx(g.word()))
			}
			if g.n(8) == 0 {
				e.add(img())
			}
		}
		return e
	}
	first := g.trace(el("img"))
	g.imgAttrs(first)
	ns := el("noscript", wrap(img()))
	switch g.n(10) {
	case 0:
		ns.add(img())
	case 1:
		ns.add(tx(g.word()))
	case 2:
		ns = el("noscript", tx(g.textOf(20, 0)))
	case 3:
		ns.Kids = append([]*N{g.ws()}, ns.Kids...)
	case 4:
		ns.Kids[0].set("src", pick(g, first.attr("src"), g.imgURL()))
	}
	list := []*N{wrap(first)}
	if g.n(8) == 0 {
		list = append(list, tx(pick(g, " ", "\n", g.word())))
	}
	if g.n(10) == 0 {
		list = append(list, el("span", tx(g.word())))
	}
	list = append(list, ns)
	if g.n(4) == 0 {
		return list
	}
	return []*N{el(pick(g, "p", "div", "figure", "p")).add(append([]*N{tx(g.textOf(g.between(60, 160), 10))}, list...)...)}
}

func pictures(n *N) []string {
	var out []string
	for _, e := range n.all("img", "picture", "figure", "source") {
		var at []string
		for _, a := range e.At {
			at = append(at, fmt.Sprintf("%s=%q", a.K, a.V))
		}
		sort.Strings(at)
		out = append(out, fmt.Sprintf("<%s %s>", e.Tag, strings.Join(at, " ")))
	}
	return out
}

func checkC20(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	b, err := c.articleOf(o)
	if b == nil {
		return err
	}
	if err := b.projected(pictures); err != nil {
		return err
	}
	got := map[string]*N{}
	for _, e := range b.got.all("img") {
		got[e.attr("data-k")] = e
	}
	c.Page.link()
	text := idSet(b.res.TextContent)
	for _, e := range c.Page.all("img") {
		h := got[e.attr("data-k")]
		p := e.up
		if p.Tag == "p" && len(p.Kids) == 3 && p.Kids[0].isText() && p.Kids[2].isText() && text[firstID(p.Kids[0].Text)] && text[firstID(p.Kids[2].Text)] && !p.hasAncestor("noscript", 0, nil) {
			if v := e.attr("data-src"); !e.has("src") && !e.has("srcset") && countURLs(e) == 1 && strings.HasPrefix(v, "http") && rExtOne.MatchString(v) && !rExtNum.MatchString(v) {
				o.Class("directly")
				if h == nil || h.attr("src") != v {
					return fmt.Errorf("the image %s has not its source in %s", brief(e), clip(b.res.HTMLContent, 2500))
				}
			}
		}
		if h != nil && (h.attr("src") != e.attr("src") || h.attr("srcset") != e.attr("srcset")) {
			o.NonTrivial()
		}
	}
	for _, e := range b.got.all("img") {
		for _, a := range e.At {
			o.ClassIf(strings.HasPrefix(a.K, "data-old-"), "old source kept")
		}
	}
	return nil
}

func countURLs(e *N) int {
	k := 0
	for _, a := range e.At {
		if rImgExt.MatchString(a.V) {
			k++
		}
	}
	return k
}

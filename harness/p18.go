package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Properties about one kind of content.  Each puts that content among the paragraphs of an
// unmistakable article, in every place it may have, and compares what became of it with the
// model, and with what the property says directly.

// projected compares what f makes of the article of the library and of that of the model.
func (b *both) projected(f func(*N) []string) error {
	want, got := f(b.want), f(b.got)
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("%s is missing in %s", want[i], clip(b.res.HTMLContent, 2500))
		case i >= len(want):
			return fmt.Errorf("%s is not expected in %s", got[i], clip(b.res.HTMLContent, 2500))
		case want[i] != got[i]:
			return fmt.Errorf("expected %s, found %s in %s", want[i], got[i], clip(b.res.HTMLContent, 2500))
		}
	}
	return nil
}

// place puts something somewhere: alone, among text, in a container that will be judged.
func (g *G) place(e *N) *N {
	t := func(a, b int) *N { return tx(g.textOf(g.between(a, b), 8)) }
	switch g.n(17) {
	case 14: // in anything
		b := el(from(g, tAny), e)
		if g.bool() {
			b.add(t(10, 90))
		}
		return b
	case 15:
		return el("p", t(60, 160), el(from(g, tAny), e), t(10, 90))
	case 16:
		return el("div", el(from(g, tAny), el("p", t(60, 160)), e), el("p", t(10, 90)))
	case 0, 1:
		return el("p", t(60, 160), e, t(60, 160))
	case 2:
		return el("p", e)
	case 3:
		return el("div", e)
	case 4:
		return el("div", e, el("p", t(10, 90)))
	case 5:
		return el("div", el("p", t(60, 160)), e)
	case 6:
		f := el("figure", e)
		if g.bool() {
			f.add(el("figcaption", t(10, 40)))
		}
		return f
	case 7:
		return el("ul", el("li", e, t(10, 60)), el("li", t(30, 90)))
	case 8:
		return el("blockquote", e, el("p", t(30, 90)))
	case 9:
		return el("div", e).with("class", g.className())
	case 10:
		return el("table", el("tr", el("td", e, t(10, 60)), el("td", t(10, 60))))
	case 11:
		return el("section", el("h2", t(10, 30)), e)
	case 12:
		return el("div", el("a", e, tx(g.word())).with("href", "http://h.example/p"))
	default:
		return e
	}
}

func (g *G) trace(n *N) *N {
	g.words++
	return n.with("data-k", fmt.Sprintf("k%d", g.words))
}

// articleOf is the common part of the checks: the run of both, if there is something to compare.
func (c *pageCase) articleOf(o *Obs) (*both, error) {
	if !c.wellFormed() {
		return nil, nil
	}
	b, skip, err := c.both(o)
	if skip || err != nil {
		return nil, err
	}
	if b.want == nil || b.got == nil {
		o.Class("no article")
		if b.want != nil {
			return nil, fmt.Errorf("no article (%v), expected %s", b.err, brief(b.want))
		}
		return nil, nil
	}
	return &b, nil
}

// ---------------------------------------------------------------- C18

func init() {
	register(&Prop{
		ID: "C18",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			c.Page = g.solidPage(func(int) []*N {
				var l []*N
				for i := g.n(3); i > 0; i-- {
					if g.n(4) == 0 {
						l = append(l, g.judgedWith(func() *N { return g.video(1) }))
						continue
					}
					e := g.video(1)
					l = append(l, g.place(e))
				}
				return l
			}).page
			for _, e := range c.Page.all("iframe", "embed", "object") {
				if !e.has("data-k") {
					g.trace(e)
				}
			}
			if g.n(3) == 0 {
				c.Opt = g.options()
			}
			if g.n(3) == 0 {
				c.Opt.Video = ptr(pick(g, "", "evil", "^http://ads", "(?i)allowed", "^//", "movie", `x$`))
			}
			return c
		},
		New: newPageCase, Check: checkC18, Shrink: shrinkPage,
		Quick: 40000, Thorough: 800000,
		Rule:   "articles with objects, embeds and iframes (one or several attributes, nested ones, parameters) whose values are addresses of the known video sites in every spelling, near misses and others, alone and among text, in containers, lists, tables and figures, with the default and other patterns; those in the article must be the ones the model keeps, no embed or iframe that does not match is left, and those in running text that match are there. Non-trivial: one that stays and one that goes.",
		Assume: []string{"iframes have no content"},
	})
}

func (g *G) videoURL() string {
	host := pick(g, "dailymotion.com", "youtube.com", "youtube-nocookie.com", "player.vimeo.com", "v.qq.com", "archive.org", "upload.wikimedia.org", "player.twitch.tv")
	switch g.n(9) {
	case 0, 1, 2, 3:
		h := pick(g, "", "", "www.") + host
		if g.n(4) == 0 {
			h = strings.ToUpper(h)
		}
		return pick(g, "https:", "http:", "") + "//" + h + pick(g, "", "/", "/embed/x", "/v/1?a=b&c=d")
	case 4:
		return pick(g, "https://m.youtube.com/x", "https://youtube.org/x", "http://youtubexcom/x", "https://vimeo.com/1", "https://qq.com/x", "http://wikimedia.org/f", "https://twitch.tv/x", "https://player.twitch.com", "youtube.com/embed/x", "/youtube.com/x", "https://wwwyoutube.com/x", "https://evil.example/youtube.com", "http://notarchive.org/")
	case 5:
		return "https://evil.example/?u=//www.youtube.com/x"
	case 6:
		return pick(g, "http://ads.example/x", "//ads.example/y", "http://allowed.example/ALLOWED")
	default:
		return pick(g, "http://evil.example/movie", "https://x.example/x", "about:blank", "", "x")
	}
}

func (g *G) video(depth int) *N {
	e := g.trace(el(pick(g, "iframe", "iframe", "embed", "object", "object")))
	for i := g.between(0, 2); i >= 0; i-- {
		k := pick(g, "src", "src", "data", "data-src", "title", "value", "width", "allow", "onclick", "onload", "srcdoc", "name", "alt", "poster", "href", "aria-label", "longdesc", "data-x", "zz")
		if k == "width" || k == "allow" {
			e.set(k, pick(g, "100", "560", "autoplay"))
		} else {
			e.set(k, g.videoURL())
		}
	}
	if e.Tag == "object" {
		for i := g.n(3); i > 0; i-- {
			switch g.n(4) {
			case 0:
				if depth > 0 {
					e.add(g.video(depth - 1))
				}
			case 1:
				e.add(tx(g.word() + " " + pick(g, "", "http://youtube.com/", "//www.youtube.com")))
			default:
				e.add(el("param").with("name", pick(g, "movie", "x")).with("value", g.videoURL()))
			}
		}
	}
	return e
}

func embedded(n *N) []string {
	var out []string
	for _, e := range n.all("iframe", "embed", "object") {
		out = append(out, fmt.Sprintf("<%s %s in %s>", e.Tag, e.attr("data-k"), e.up.Tag))
	}
	return out
}

func checkC18(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	b, err := c.articleOf(o)
	if b == nil {
		return err
	}
	b.want.link()
	re := c.Opt.video()
	match := func(e *N) bool {
		for _, a := range e.At {
			if re != nil && re.MatchString(a.V) {
				return true
			}
		}
		return false
	}
	have := map[string]bool{}
	kept, gone := 0, 0
	for _, e := range b.got.all("iframe", "embed", "object") {
		have[e.attr("data-k")] = true
	}
	src := map[string]*N{}
	for _, e := range c.Page.all("iframe", "embed", "object") {
		if k := e.attr("data-k"); k == "" || src[k] != nil {
			return nil // out of the domain
		} else {
			src[k] = e
		}
	}
	c.Page.link()
	for _, e := range c.Page.all("iframe", "embed", "object") {
		k := e.attr("data-k")
		if have[k] {
			kept++
		} else {
			gone++
		}
		if e.Tag != "object" && have[k] && !match(e) {
			return fmt.Errorf("%s is in the article though it does not match", brief(e))
		}
		// in running text of the article nothing but the pattern decides
		if p := e.up; p.Tag == "p" && p.up != nil && len(p.Kids) == 3 && p.Kids[0].isText() && p.Kids[2].isText() && !have[k] && match(e) {
			if set := idSet(b.res.TextContent); set[firstID(p.Kids[0].Text)] && set[firstID(p.Kids[2].Text)] {
				return fmt.Errorf("%s is not in the article", brief(e))
			}
		}
	}
	if err := b.projected(embedded); err != nil {
		return err
	}
	// the containers with a video
	want, got := idSet(b.want.text()), idSet(b.res.TextContent)
	for _, e := range c.Page.all("iframe", "embed", "object") {
		if p := e.up; p.Tag != "body" && p.up != nil && p.up.Tag != "body" && len(p.all("p")) < 3 {
			for _, w := range ids(p.text()) {
				if want[w] != got[w] {
					return fmt.Errorf("word %d of %s: expected %v, found %v in %s", w, brief(p), want[w], got[w], clip(b.res.HTMLContent, 1500))
				}
			}
		}
	}
	o.ClassIf(kept > 0, "kept")
	o.ClassIf(gone > 0, "removed")
	if kept > 0 && gone > 0 {
		o.NonTrivial()
	}
	return nil
}

func firstID(s string) int {
	if l := ids(s); len(l) > 0 {
		return l[0]
	}
	return -1
}

package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// C17: language and direction.

func init() {
	register(&Prop{
		ID: "C17",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			dir := func(n *N) { n.set("dir", pick(g, "rtl", "ltr", "auto", "RTL", "", "x")) }
			if g.n(4) == 0 {
				c.Page = g.page(pick(g, 15, 30))
			} else {
				s := g.solidPage(func(int) []*N {
					if g.n(3) == 0 {
						return []*N{g.harmless()}
					}
					return nil
				})
				c.Page = s.page
			}
			every := pick(g, 3, 6, 20)
			for _, n := range c.Page.all("*") {
				if g.n(every) == 0 {
					dir(n)
				}
				if g.n(20) == 0 {
					n.set("lang", pick(g, "fr", "de"))
				}
			}
			if g.n(3) == 0 {
				dir(c.Page)
			}
			if g.n(3) > 0 {
				c.Page.set("lang", pick(g, "en", "it-IT", "", "zh-Hant-TW", "ar", "x & \"y\"", " en "))
			} else {
				c.Page.unset("lang")
			}
			if g.n(5) == 0 {
				c.Page.set("xml:lang", "es")
			}
			if g.n(2) == 0 {
				c.Opt = g.options()
			}
			return c
		},
		New: newPageCase, Check: checkC17, Shrink: shrinkPage,
		Quick: 50000, Thorough: 600000,
		Rule:   "articles with directions on any of the elements around and in them and languages on any element; the language must be the lang attribute of the document, the direction that of the element around the main part of the article, of that part, or of the nearest element further up, the first of them with one. Non-trivial: an article that reached the threshold, with a language and a direction.",
		Assume: []string{"an article that stays below the character threshold has no direction, as in the original"},
	})
}

func checkC17(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	if !c.wellFormed() {
		return nil
	}
	b, skip, err := c.both(o)
	if skip || err != nil {
		return err
	}
	if b.want == nil || b.got == nil {
		o.Class("no article")
		return nil
	}
	if want := c.Page.attr("lang"); b.res.Lang != want {
		return fmt.Errorf("language %q, expected %q", b.res.Lang, want)
	}
	if !b.ref.dirKnown {
		o.Class("below the threshold")
		return nil
	}
	if flatText(b.want.text()) != flatText(b.res.TextContent) {
		o.Class("another article") // what is found is another property
		return nil
	}
	if b.res.Dir != b.ref.dir {
		return fmt.Errorf("direction %q, expected %q", b.res.Dir, b.ref.dir)
	}
	o.ClassIf(b.ref.dir != "", "with direction")
	if b.ref.dir != "" && b.res.Lang != "" {
		o.NonTrivial()
	}
	return nil
}

package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C12: which classes are in the article.

func init() {
	register(&Prop{
		ID: "C12",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			mark := func(n *N) {
				n.set("class", g.classList())
			}
			if g.n(4) == 0 {
				c.Page = g.page(pick(g, 15, 30))
			} else {
				c.Page = g.solidPage(func(int) []*N {
					if g.n(2) == 0 {
						return nil
					}
					return []*N{g.harmless()}
				}).page
				for i, n := range c.Page.all("*") {
					if n.is("html", "head", "title", "body") {
						continue
					}
					n.set("data-k", fmt.Sprint(i))
					if g.n(2) == 0 {
						mark(n)
					}
				}
			}
			c.Opt = g.options()
			c.Opt.Classes = nil
			switch g.n(3) {
			case 0:
				for i := g.n(4); i >= 0; i-- {
					c.Opt.Classes = append(c.Opt.Classes, pick(g, "c1", "wrap", "caption", "k9", "Big", "page", "x-y", "é", "c", "a.b", "c1x", "x", "c1-", "pages", "C1"))
				}
			}
			c.Opt.Keep = g.n(4) == 0
			return c
		},
		New: newPageCase, Check: checkC12, Shrink: shrinkPage,
		Quick: 30000, Thorough: 800000,
		Rule: "articles whose elements carry lists of classes (similar names, different case, repeated, several kinds of blanks), with and without classes to preserve and with all the classes kept; every element found again in the article (by a unique attribute) must have exactly the classes of its source that are to be preserved, in order, or its class attribute as it was. Non-trivial: two or more elements with classes were found again, and options name classes or keep all.",
	})
}

func (g *G) classList() string {
	var l []string
	for i := g.between(0, 4); i > 0; i-- {
		l = append(l, pick(g, "c1", "wrap", "caption", "k9", "Big", "big", "page", "pages", "x-y", "x", "é", "c", "c1x", "C1", "a.b", "c1--", "c1-", "-c1", "c1:x", "c1_", "xc1", "page-1", "page1", "Page", "_page", "wrap-", "xwrap", "x-y-z", "y"))
	}
	return pick(g, "", "", " ", "\n") + strings.Join(l, pick(g, " ", " ", "  ", "\t", "\n")) + pick(g, "", "", " ")
}

func (o Opt) expectClass(v string, has bool) (string, bool) {
	if o.Keep {
		return v, has
	}
	var keep []string
	for _, f := range strings.FieldsFunc(v, isSpaceASCII) {
		if f == "page" || oneOf(f, o.Classes) {
			keep = append(keep, f)
		}
	}
	return strings.Join(keep, " "), len(keep) > 0
}

func checkC12(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	if !c.wellFormed() {
		return nil
	}
	res, err := parsePage(c.Page.String(), c.URI, c.Opt)
	if err != nil {
		o.Class("no article")
		return nil
	}
	tree, err := parseX(res.HTMLContent)
	if err != nil {
		return fmt.Errorf("the content is not well-formed: %w", err)
	}
	if !c.Opt.Keep {
		for _, n := range tree.all("*") {
			for _, f := range strings.FieldsFunc(n.attr("class"), isSpaceASCII) {
				if f != "page" && !oneOf(f, c.Opt.Classes) {
					return fmt.Errorf("class %q of %s is not to be preserved", f, brief(n))
				}
			}
			if v, has := n.lookup("class"); has && strings.TrimSpace(v) == "" {
				return fmt.Errorf("empty class attribute of %s", brief(n))
			}
		}
	}
	if c.Opt.Thr == nil || *c.Opt.Thr > 0 {
		if len(tree.Kids) != 1 || !oneOf("page", strings.Fields(tree.Kids[0].attr("class"))) {
			return fmt.Errorf("the wrapper has not the class page: %s", clip(res.HTMLContent, 300))
		}
	}
	src := map[string]*N{}
	for _, n := range c.Page.all("*") {
		if k := n.attr("data-k"); k != "" {
			src[k] = n
		}
	}
	found := 0
	for _, n := range tree.all("*") {
		s := src[n.attr("data-k")]
		if s == nil || n.is("div", "section") || s.is("div", "section") || n == tree.Kids[0] {
			continue // nested containers are merged, their attributes too
		}
		v, has := s.lookup("class")
		want, wantHas := c.Opt.expectClass(v, has)
		got, gotHas := n.lookup("class")
		if got != want || gotHas != wantHas {
			return fmt.Errorf("class %q of %s, expected %q (source %q)", got, brief(n), want, v)
		}
		if has {
			found++
		}
	}
	// Containers: as in the model, where both have the same elements.
	b, skip, err := c.both(o)
	if skip || err != nil || b.want == nil || b.got == nil {
		return err
	}
	w, h := b.want.all("*"), b.got.all("*")
	if len(w) == len(h) {
		for i := range w {
			if w[i].Tag != h[i].Tag || w[i].attr("data-k") != h[i].attr("data-k") {
				break
			}
			wv, wh := w[i].lookup("class")
			hv, hh := h[i].lookup("class")
			if wv != hv || wh != hh {
				return fmt.Errorf("class %q of %s, expected %q", hv, brief(h[i]), wv)
			}
		}
	}
	o.ClassIf(c.Opt.Keep, "keep all")
	o.ClassIf(len(c.Opt.Classes) > 0, "preserve some")
	if found >= 2 && (c.Opt.Keep || len(c.Opt.Classes) > 0) {
		o.NonTrivial()
	}
	return nil
}

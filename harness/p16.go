package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C16: the limit on the number of elements.

type limitCase struct {
	pageCase
	Deltas []int
}

func init() {
	register(&Prop{
		ID: "C16",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &limitCase{}
			c.URI = docURI
			c.Page = g.page(pick(g, 0, 3, 8, 20, 40))
			if g.n(3) == 0 {
				c.Page.all("body")[0].add(g.active(2), el("svg", el("g", el("path")), el("title", tx("t"))), el("noscript", el("img").with("src", "1.jpg"), el("p", tx("n"))))
			}
			if g.n(4) == 0 {
				c.Page.Kids[0].add(el("meta").with("name", "x"), el("script", tx("1")), el("link").with("rel", "x"))
			}
			c.Opt = g.options()
			c.Deltas = []int{-1, 0, 1, g.between(-20, -2), g.between(2, 100)}
			return c
		},
		New: func() Case { return &limitCase{} }, Check: checkC16,
		Shrink: func(cc Case) []func() Case {
			c := cc.(*limitCase)
			var out []func() Case
			for _, f := range c.Page.smaller() {
				out = append(out, func() Case { d := *c; d.Page = f(); return &d })
			}
			return out
		},
		Quick: 12000, Thorough: 300000,
		Rule: "pages with scripts, SVG, void elements, nested and empty elements, comments and CDATA sections; the limit is set to the number of elements, one less, one more, and further away, and to zero and negative numbers. The page is refused exactly when it has more elements than a positive limit, and the limit changes nothing else. Non-trivial: 10 or more elements.",
	})
}

func checkC16(cc Case, o *Obs) error {
	c := cc.(*limitCase)
	if !c.wellFormed() {
		return nil
	}
	n := 1 + len(c.Page.all("*"))
	src := c.Page.String()
	base := c.Opt
	base.Max = nil
	plain, perr := parsePage(src, c.URI, base)
	limits := []int{0, -1, -n, -n - 1}
	for _, d := range c.Deltas {
		limits = append(limits, n+d)
	}
	for _, l := range limits {
		op := c.Opt
		op.Max = ptr(l)
		res, err := parsePage(src, c.URI, op)
		if l > 0 && l < n {
			if err == nil {
				return fmt.Errorf("%d elements were read though the limit is %d", n, l)
			}
			if res != nil {
				return fmt.Errorf("a result besides an error")
			}
			continue
		}
		if (err == nil) != (perr == nil) {
			return fmt.Errorf("%d elements with limit %d: %v, without limit: %v", n, l, err, perr)
		}
		if err == nil && *res != *plain {
			return fmt.Errorf("limit %d on a page of %d elements changes the result:\n%+v\n%+v", l, n, *res, *plain)
		}
	}
	o.ClassIf(strings.Contains(src, "<script"), "with scripts")
	if n >= 10 {
		o.NonTrivial()
	}
	return nil
}
